// The build system: which properties reach which target, how names are resolved, when a build folder is out of date.
#include "memfs.h"
#include <ply-build-common/Core.h>
#include <ply-build-target/Dependency.h>
#include <ply-build-target/CMakeLists.h>
#include <ply-build-target/TargetError.h>
#include <ply-build-repo/ModuleArgs.h>
#include <ply-build-repo/ProjectInstantiator.h>
#include <ply-build-repo/ProjectInstantiationEnv.h>
#include <ply-build-repo/Repo.h>
#include <ply-build-repo/RepoRegistry.h>
#include <ply-build-repo/ErrorHandler.h>
#include <ply-build-folder/BuildFolder.h>
#include <functional>
#include <sys/wait.h>
using namespace ply::build;
using memfs::F;
typedef std::vector<std::string> Strs;
typedef std::set<std::string> StrSet;
static const std::string WS = "/nonexistent-ws/";

static Strs strs(ArrayView<const String> a) { Strs v; for (const String& s : a) v.push_back(str(s)); return v; }
static std::string join(const Strs& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : " ") + x; return "{" + s + "}"; }
static StrSet unique(const Strs& v, const char* what) {
    StrSet s(v.begin(), v.end());
    MC_CHECK(s.size() == v.size(), "%s has duplicates: %s", what, join(v).c_str());
    return s;
}
static void same(const Strs& got, const StrSet& want, const char* who, const char* what) {
    StrSet g = unique(got, (std::string(what) + " of " + who).c_str());
    if (g == want) return;
    mc::fail("%s of %s: %s instead of %s", what, who, join(Strs(g.begin(), g.end())).c_str(), join(Strs(want.begin(), want.end())).c_str());
}
static Strs defs(ArrayView<const PreprocessorDefinition> a) { Strs v; for (auto& d : a) v.push_back(str(d.key) + "=" + str(d.value)); return v; }
// The CMakeLists.txt that is generated, target by target
struct CTarget { std::string kind; Strs objects, includes, defines, libs, dlls, sources; bool exceptions = false; };
static std::map<std::string, CTarget> readCMake(const std::string& text) {
    std::map<std::string, CTarget> r;
    Strs words;
    struct Call { std::string name; Strs args; };
    std::vector<Call> calls;
    size_t p = 0;
    std::string prev;
    auto skip = [&] { while (p < text.size() && (strchr(" \n", text[p]) || text[p] == '#')) { if (text[p] == '#') p = text.find('\n', p); else p++; } };
    for (skip(); p < text.size(); skip()) {
        size_t o = text.find('(', p);
        MC_CHECK(o != std::string::npos && o > p, "not a CMake command: \"%s\"", esc(text.substr(p, 40)).c_str());
        Call c{text.substr(p, o - p), {}};
        p = o + 1;
        for (skip(); ; skip()) {
            MC_CHECK(p < text.size(), "the command %s is never closed", c.name.c_str());
            if (text[p] == ')') { p++; break; }
            std::string a;
            if (text[p] == '"') { size_t e = text.find('"', p + 1); MC_CHECK(e != std::string::npos, "a string is never closed"); a = text.substr(p + 1, e - p - 1); p = e + 1; }
            else { while (p < text.size() && !strchr(" \n)", text[p])) a += text[p++]; }
            c.args.push_back(a);
        }
        calls.push_back(c);
    }
    std::map<std::string, Strs> vars;
    for (auto& c : calls) {
        if (c.name == "SetSourceFolders") { for (size_t i = 2; i < c.args.size(); i++) vars[c.args[0]].push_back(c.args[1] + "|" + c.args[i]); continue; }
        if (c.name == "add_library" || c.name == "add_executable" || c.name == "add_custom_target") {
            MC_CHECK(!r.count(c.args[0]), "the target %s is added twice", c.args[0].c_str());
            CTarget t;
            size_t i = 1;
            t.kind = c.name;
            if (i < c.args.size() && (c.args[i] == "OBJECT" || c.args[i] == "SHARED" || c.args[i] == "SOURCES")) t.kind += " " + c.args[i++];
            for (; i < c.args.size(); i++) {
                if (c.args[i].compare(0, 2, "${") == 0) { Strs& v = vars[c.args[i].substr(2, c.args[i].size() - 3)]; t.sources.insert(t.sources.end(), v.begin(), v.end()); }
                else t.objects.push_back(c.args[i]);
            }
            r[c.args[0]] = t;
            continue;
        }
        if (c.args.empty() || !r.count(c.args[0])) continue;
        CTarget& t = r[c.args[0]];
        Strs rest(c.args.begin() + std::min<size_t>(2, c.args.size()), c.args.end());
        if (c.name == "target_include_directories") t.includes = rest;
        else if (c.name == "target_compile_definitions") t.defines = rest;
        else if (c.name == "target_link_libraries") t.libs = rest;
        else if (c.name == "AddDLLCopyStep") t.dlls = Strs(c.args.begin() + 1, c.args.end());
        else if (c.name == "EnableCppExceptions") t.exceptions = c.args.size() > 1 && c.args[1] == "TRUE";
    }
    return r;
}
//---------------------------------------------------------------- the model
enum Kind { LIB, HEADERS, EXTERN, PROGRAM };
struct MNode {
    std::string name; Kind kind = LIB; std::vector<std::pair<int, bool>> deps; // (node, public)
    int container = -1; bool prefix = false, sharedRoot = false, flag = false; int clash = 0;
};
struct Model {
    std::vector<MNode> n;
    std::set<int> visible(int i) const { std::set<int> s{i}; for (auto& d : n[i].deps) if (d.second) { auto v = visible(d.first); s.insert(v.begin(), v.end()); } return s; }
    std::set<int> used(int i) const { std::set<int> s{i}; for (auto& d : n[i].deps) { auto v = visible(d.first); s.insert(v.begin(), v.end()); } return s; }
    static std::string pub(int i) { return "/inc/pub" + std::to_string(i); }
    StrSet publicDirs(int i) const { StrSet s; for (int v : visible(i)) { s.insert(pub(v)); if (v % 2) s.insert("/inc/common"); } return s; }
    StrSet dirs(int i) const { StrSet s; for (int v : used(i)) { s.insert(pub(v)); if (v % 2) s.insert("/inc/common"); } s.insert("/inc/priv" + std::to_string(i)); return s; }
    StrSet publicDefs(int i) const { StrSet s; for (int v : visible(i)) s.insert("PUB" + std::to_string(v) + "=" + std::to_string(v)); return s; }
    StrSet defsOf(int i) const {
        StrSet s;
        for (int v : used(i)) {
            s.insert("PUB" + std::to_string(v) + "=" + std::to_string(v));
            if (n[v].kind != EXTERN && n[v].container >= 0 && n[v].prefix) s.insert("DL" + std::to_string(v) + (n[v].container == n[i].container ? "_EXPORTING=1" : "_IMPORTING=1"));
        }
        s.insert("PRIV" + std::to_string(i) + "=x");
        return s;
    }
    StrSet publicFlags(int i) const { StrSet s; for (int v : visible(i)) if (n[v].flag) s.insert("exceptions"); return s; }
    StrSet flags(int i) const { StrSet s; for (int v : used(i)) if (n[v].flag) s.insert("exceptions"); return s; }
    bool joined(int i, int j) const { return n[i].kind == EXTERN || n[j].kind == EXTERN || n[i].container == n[j].container; }
    std::string libName(int j) const {
        const MNode& m = n[j];
        if (m.kind == LIB && m.container >= 0 && m.prefix && !m.sharedRoot) return "$<TARGET_OBJECTS:" + m.name + ">";
        return m.name;
    }
    // everything linked into i, and for each what it needs before it
    StrSet links(int i) const {
        StrSet s;
        if (n[i].kind == EXTERN) s.insert("/lib/" + n[i].name + ".a");
        for (auto& d : n[i].deps) {
            int j = d.first;
            if (!joined(i, j)) { s.insert(n[n[j].container].name); continue; }
            StrSet l = links(j);
            s.insert(l.begin(), l.end());
            if (n[j].kind != EXTERN && n[j].kind != HEADERS) s.insert(libName(j));
        }
        return s;
    }
    StrSet dlls(int i) const { // of every extern that is linked into it
        StrSet s;
        if (n[i].kind == EXTERN) s.insert("/lib/" + n[i].name + ".so");
        for (auto& d : n[i].deps) if (joined(i, d.first)) { StrSet l = dlls(d.first); s.insert(l.begin(), l.end()); }
        return s;
    }
};
static void checkLists(const Model& m, int i, const Dependency* d) {
    const char* who = m.n[i].name.c_str();
    same(strs(d->includeDirs), m.publicDirs(i), who, "the public include folders");
    same(defs(d->defines), m.publicDefs(i), who, "the public definitions");
    same(strs(d->abstractFlags), m.publicFlags(i), who, "the public flags");
    Strs libs = strs(d->libs);
    same(libs, m.links(i), who, "the libraries");
    same(strs(d->dlls), m.dlls(i), who, "the DLLs");
    if (!d->buildTarget) return;
    same(strs(d->buildTarget->privateIncludeDirs), m.dirs(i), who, "the include folders");
    same(defs(d->buildTarget->privateDefines), m.defsOf(i), who, "the definitions");
    same(strs(d->buildTarget->privateAbstractFlags), m.flags(i), who, "the flags");
}
static void checkOrder(const Model& m, const Strs& libs, const char* who) { // each library before those it needs itself
    for (size_t a = 0; a < libs.size(); a++) for (size_t k = 0; k < m.n.size(); k++) {
        if (m.n[k].kind == EXTERN || (m.libName((int) k) != libs[a])) continue;
        if (m.n[k].sharedRoot) continue; // linked already
        for (auto& l : m.links((int) k)) for (size_t b = 0; b < a; b++)
            MC_CHECK(libs[b] != l, "%s links %s: %s comes before %s, which needs it", who, join(libs).c_str(), l.c_str(), libs[a].c_str());
    }
}
static void checkText(const Model& m, const std::string& text) {
    std::map<std::string, CTarget> r = readCMake(text);
    size_t targets = 0;
    for (size_t i = 0; i < m.n.size(); i++) {
        const MNode& n = m.n[i];
        if (n.kind == EXTERN) continue;
        auto it = r.find(n.name);
        if (it == r.end()) continue;
        targets++;
        CTarget& t = it->second;
        const char* who = n.name.c_str();
        std::string kind = n.kind == HEADERS ? "add_custom_target SOURCES" : n.kind == PROGRAM ? "add_executable" : n.sharedRoot ? "add_library SHARED" : n.container >= 0 && n.prefix ? "add_library OBJECT" : "add_library";
        MC_CHECK(t.kind == kind, "%s is written as %s instead of %s", who, t.kind.c_str(), kind.c_str());
        if (n.kind == HEADERS) continue;
        MC_CHECK(t.sources == Strs{"/src/" + n.name + "|s.cpp"}, "the sources of %s are %s", who, join(t.sources).c_str());
        same(t.includes, m.dirs((int) i), who, "in the text, the include folders");
        same(t.defines, m.defsOf((int) i), who, "in the text, the definitions");
        MC_CHECK(t.exceptions == (m.flags((int) i).size() == 1), "exceptions of %s: %d", who, t.exceptions);
        if (n.kind == PROGRAM || n.sharedRoot) {
            StrSet objs, libs;
            for (auto& l : m.links((int) i)) (l.compare(0, 2, "$<") == 0 ? objs : libs).insert(l);
            same(t.objects, objs, who, "in the text, the objects");
            same(t.libs, libs, who, "in the text, the libraries");
            same(t.dlls, m.dlls((int) i), who, "in the text, the DLLs");
            checkOrder(m, t.libs, who);
        } else MC_CHECK(t.libs.empty() && t.objects.empty(), "%s links something", who);
    }
    MC_CHECK(targets == r.size(), "the text has other targets");
}
static void fill(const Model& m, int i, Dependency* d) {
    const MNode& n = m.n[i];
    String p = view(Model::pub(i));
    String key = String::format("PUB{}", i), val = String::from(i);
    if (n.kind == EXTERN) {
        d->includeDirs.append(p);
        if (i % 2) d->includeDirs.append("/inc/common");
        d->defines.append({key, val});
        d->libs.append(String::format("/lib/{}.a", view(n.name)));
        d->dlls.append(String::format("/lib/{}.so", view(n.name)));
        if (n.flag) d->abstractFlags.append("exceptions");
        return;
    }
    BuildTarget* t = d->buildTarget;
    t->addIncludeDir(Visibility::Public, p);
    if (i % 2) t->addIncludeDir(Visibility::Public, "/inc/common");
    t->addIncludeDir(Visibility::Private, String::format("/inc/priv{}", i));
    MC_CHECK(t->setPreprocessorDefinition(Visibility::Public, key, val), "a definition was there");
    t->setPreprocessorDefinition(Visibility::Private, String::format("PRIV{}", i), "w");
    MC_CHECK(!t->setPreprocessorDefinition(Visibility::Private, String::format("PRIV{}", i), "x"), "a definition was not there");
    if (n.flag) { d->abstractFlags.append("exceptions"); t->privateAbstractFlags.append("exceptions"); }
    if (n.prefix) t->dynamicLinkPrefix = String::format("DL{}", i);
    t->targetType = n.kind == PROGRAM ? BuildTargetType::EXE : BuildTargetType::Lib;
    if (n.kind != HEADERS) {
        t->anySourceFiles = true;
        t->sourceFiles.append({String::format("/src/{}", view(n.name)), {"s.cpp"}});
    }
}
struct Errors {
    Strs v;
    Functor<void(ErrorHandler::Level, HybridString&&)> old;
    Errors() { ErrorHandler::current = [this](ErrorHandler::Level l, HybridString&& s) { if (l != ErrorHandler::Info) v.push_back(str(s)); }; }
    ~Errors() { ErrorHandler::current = {}; }
};
static void propagate() { // every small graph
    int N = pick(4, 5);
    Model m;
    m.n.resize(N);
    int flagged = choose(pick(4, 3));
    for (int i = 0; i < N; i++) {
        MNode& n = m.n[i];
        n.name = "t" + std::to_string(i);
        n.kind = i == N - 1 ? PROGRAM : (Kind) choose(mc::tier() ? 2 : 3);
        n.flag = i == flagged;
    }
    bool desc = choose(2);
    for (int i = 1; i < N; i++) for (int k = 0; k < i; k++) {
        int j = desc ? i - 1 - k : k;
        if (m.n[i].kind == EXTERN && m.n[j].kind != EXTERN) continue; // externs are built before
        int e = choose(3);
        if (e) m.n[i].deps.push_back({j, e == 2});
    }
    std::vector<Dependency*> ds;
    Array<Owned<Dependency>> own;
    for (int i = 0; i < N; i++) {
        Dependency* d = own.append(new Dependency);
        ds.push_back(d);
        if (m.n[i].kind != EXTERN) {
            d->buildTarget = new BuildTarget{d};
            d->buildTarget->name = view(m.n[i].name);
        }
        fill(m, i, d);
        if (m.n[i].kind == HEADERS) d->buildTarget->targetType = BuildTargetType::HeaderOnly;
        for (auto& e : m.n[i].deps) {
            // A dependency that was added privately becomes public when it is added again publicly, and stays so
            bool first = d->addDependency(e.second && choose(1) ? Visibility::Public : e.second ? Visibility::Public : Visibility::Private, ds[e.first]);
            MC_CHECK(first, "t%d was a dependency already", e.first);
            MC_CHECK(!d->addDependency(Visibility::Private, ds[e.first]), "t%d was no dependency", e.first);
        }
    }
    Strs clashes;
    TargetError::callback_ = [&](StringView s) { clashes.push_back(str(s)); };
    for (int i = 0; i < N; i++) { propagateDependencyProperties(ds[desc ? i : N - 1 - i]); mc::step(); }
    TargetError::callback_ = {};
    for (int i = 0; i < N; i++) { propagateDependencyProperties(ds[i]); checkLists(m, i, ds[i]); }
    MC_CHECK(clashes.empty(), "a clash is reported: %s", clashes.empty() ? "" : clashes[0].c_str());
    CMakeBuildFolder cbf;
    cbf.solutionName = "S";
    cbf.absPath = "/b/";
    for (int i = 0; i < N; i++) if (ds[i]->buildTarget) cbf.targets.append(ds[i]);
    MemOutStream out;
    writeCMakeLists(&out, &cbf);
    std::string text = str(out.moveToString());
    checkText(m, text);
    mc::state(hstr(text));
    if (m.n[N - 1].deps.size() > 1) mc::nontrivial();
}
static void upgraded() { // the visibility of a dependency that is added more than once
    Dependency a, b, c;
    b.includeDirs.append("/inc");
    std::string s;
    bool pub = false;
    int n = 1 + choose(3);
    for (int i = 0; i < n; i++) {
        bool p = choose(2);
        MC_CHECK(a.addDependency(p ? Visibility::Public : Visibility::Private, &b) == (i == 0), "what addDependency returns");
        if (choose(2)) a.addDependency(Visibility::Private, &c);
        pub = pub || p;
    }
    propagateDependencyProperties(&a);
    MC_CHECK(a.includeDirs.numItems() == (pub ? 1 : 0), "a dependency added %s is %s", pub ? "publicly" : "privately", pub ? "private" : "public");
    mc::nontrivial();
    mc::step();
}
static void clashes() { // a definition with two values is reported once for each list it clashes in, and the first stays
    Dependency top, d[3];
    top.buildTarget = new BuildTarget{&top};
    int v[3], vis[3];
    int own = choose(3);
    for (int i = 0; i < 3; i++) {
        v[i] = choose(3);
        vis[i] = choose(2);
        if (v[i]) d[i].defines.append({"K", String::from(v[i])});
        top.addDependency(vis[i] ? Visibility::Public : Visibility::Private, &d[i]);
    }
    if (own) top.buildTarget->privateDefines.append({"K", String::from(own)});
    int n = 0, want = 0, cur = own, curPub = 0;
    for (int i = 0; i < 3; i++) if (v[i]) {
        if (!cur) cur = v[i]; else if (cur != v[i]) want++;
        if (vis[i]) { if (!curPub) curPub = v[i]; else if (curPub != v[i]) want++; }
    }
    TargetError::callback_ = [&](StringView s) { n++; MC_CHECK(str(s).find("\"K\"") != std::string::npos, "the error is \"%s\"", esc(str(s)).c_str()); };
    propagateDependencyProperties(&top);
    TargetError::callback_ = {};
    MC_CHECK((n > 0) == (want > 0), "%d clashes are reported instead of %d", n, want);
    Strs w = cur ? Strs{"K=" + std::to_string(cur)} : Strs{}, wp = curPub ? Strs{"K=" + std::to_string(curPub)} : Strs{};
    MC_CHECK(defs(top.buildTarget->privateDefines) == w && defs(top.defines) == wp, "the definitions are %s and %s", join(defs(top.buildTarget->privateDefines)).c_str(), join(defs(top.defines)).c_str());
    mc::nontrivial();
    mc::step();
}
static void definitions() { // one target defines symbols again and again
    Dependency d;
    d.buildTarget = new BuildTarget{&d};
    std::vector<std::pair<std::string, std::string>> priv, pub;
    auto put = [](std::vector<std::pair<std::string, std::string>>& v, const std::string& k, const std::string& x) {
        for (auto& e : v) if (e.first == k) { e.second = x; return false; }
        v.push_back({k, x});
        return true;
    };
    int n = pick(4, 5);
    for (int i = 0; i < n; i++) {
        int k = choose(3), x = choose(2);
        bool p = choose(2);
        std::string key = std::string(1, (char) ('A' + k)), val = std::to_string(x);
        bool clash = false;
        for (auto& e : pub) clash = clash || (e.first == key && e.second != val);
        if (clash) { mc::markRedundant(); return; } // a public definition keeps its value
        bool fresh = put(priv, key, val);
        if (p) put(pub, key, val);
        MC_CHECK(d.buildTarget->setPreprocessorDefinition(p ? Visibility::Public : Visibility::Private, view(key), view(val)) == fresh, "defining %s again", key.c_str());
        mc::step();
    }
    auto text = [](const std::vector<std::pair<std::string, std::string>>& v) { Strs r; for (auto& e : v) r.push_back(e.first + "=" + e.second); return r; };
    MC_CHECK(defs(d.buildTarget->privateDefines) == text(priv) && defs(d.defines) == text(pub), "the definitions are %s and %s", join(defs(d.buildTarget->privateDefines)).c_str(), join(defs(d.defines)).c_str());
    mc::nontrivial();
}
//---------------------------------------------------------------- instantiating modules
struct Mods { // module functions that follow the model
    Model m;
    std::vector<int> calls;
    Repo* repo = nullptr;
    void make() {
        RepoRegistry::instance_ = new RepoRegistry;
        repo = new Repo;
        repo->repoName = "r";
        *RepoRegistry::instance_->repos.insertOrFind(StringView{"r"}) = repo;
        calls.assign(m.n.size(), 0);
        for (size_t i = 0; i < m.n.size(); i++) {
            TargetInstantiator* t = new TargetInstantiator;
            t->name = view(m.n[i].name);
            t->instantiatorPath = "/src/";
            t->repo = repo;
            t->moduleFunc = [this, i](ModuleArgs* a) {
                calls[i]++;
                fill(m, (int) i, a->buildTarget->dep);
                for (auto& e : m.n[i].deps) a->addTarget(e.second ? Visibility::Public : Visibility::Private, view(m.n[e.first].name));
            };
            repo->addTargetInstantiator(t);
        }
    }
    ~Mods() { RepoRegistry::instance_ = nullptr; }
};
static void shared() { // some of the root targets are made shared libraries
    int N = 4;
    Mods x;
    Model& m = x.m;
    m.n.resize(N);
    // two libraries, then two roots
    for (int i = 0; i < N; i++) { m.n[i].name = "m" + std::to_string(i); m.n[i].kind = i == 3 ? (choose(2) ? PROGRAM : LIB) : LIB; m.n[i].prefix = i < mc::pick(2, 3) && choose(2); }
    for (int i = 1; i < N; i++) for (int j = 0; j < i; j++) { int e = choose(3); if (e) m.n[i].deps.push_back({j, e == 2}); }
    // roots: m2 shared or not, m3 shared or not, in either order; perhaps m0 before
    static const int orders[5][3] = {{2, 3, -1}, {3, 2, -1}, {0, 2, 3}, {1, 3, -1}, {2, 0, 3}};
    const int* order = orders[choose(5)];
    bool sh[4] = {};
    for (int k = 0; k < 3 && order[k] >= 0; k++) sh[order[k]] = choose(2);
    mc::casef("%d%d%d shared %d%d%d%d", order[0], order[1], order[2], sh[0], sh[1], sh[2], sh[3]);
    std::vector<int> seen(N, 0);
    std::function<void(int, int)> visit = [&](int i, int ctr) {
        if (seen[i]) return;
        seen[i] = 1;
        m.n[i].container = ctr;
        for (auto& e : m.n[i].deps) visit(e.first, ctr);
    };
    for (int k = 0; k < 3 && order[k] >= 0; k++) {
        int i = order[k];
        if (!seen[i]) { m.n[i].sharedRoot = sh[i]; visit(i, sh[i] ? i : -1); }
    }
    // A target inside a shared library that depends on one outside of any is not supported
    for (int i = 0; i < N; i++) if (seen[i] && m.n[i].container >= 0) for (int v : m.used(i)) if (m.n[v].container < 0) { mc::markRedundant(); return; }
    // ... and a program made shared remains a program
    x.make();
    Errors err;
    ProjectInstantiationEnv env;
    env.toolchain = pylon::Node::createObject();
    env.buildFolderPath = "/b/";
    ProjectInstantiationResult res;
    DependencyTree tree;
    ProjectInstantiator inst;
    inst.env = &env;
    inst.result = &res;
    if (mc::pick(1, 2) == 1 || choose(2)) inst.depTreeNode = &tree;
    std::map<int, Dependency*> got;
    for (int k = 0; k < 3 && order[k] >= 0; k++) {
        int i = order[k];
        Dependency* d = inst.instantiate(x.repo->findTargetInstantiatorImm(view(m.n[i].name)), sh[i]);
        MC_CHECK(d && d->initialized && str(d->buildTarget->name) == m.n[i].name, "instantiating %s", m.n[i].name.c_str());
        mc::step();
    }
    inst.propagateAllDependencies();
    MC_CHECK(err.v.empty(), "an error is reported: %s", err.v.empty() ? "" : err.v[0].c_str());
    int total = 0;
    for (auto& e : res.dependencies) {
        int i = atoi(str(e.depSrc->name).c_str() + 1);
        total++;
        MC_CHECK(seen[i] && x.calls[i] == 1, "the module function of m%d ran %d times", i, x.calls[i]);
        const Dependency* d = e.dep;
        if (m.n[i].kind == PROGRAM) m.n[i].sharedRoot = false;
        checkLists(m, i, d);
        const BuildTarget* c = d->buildTarget->sharedContainer;
        MC_CHECK(m.n[i].container < 0 ? !c : c && str(c->name) == m.n[m.n[i].container].name, "m%d belongs to %s", i, c ? str(c->name).c_str() : "nothing");
    }
    MC_CHECK(total == (int) std::count(seen.begin(), seen.end(), 1), "%d targets", total);
    MemOutStream out;
    writeCMakeLists(&out, "S", "/b/", &res, false);
    std::string text = str(out.moveToString());
    checkText(m, text);
    mc::state(hstr(text));
    if (sh[0] || sh[1] || sh[2] || sh[3]) mc::nontrivial();
}
static void sourceless() { // modules with sources of every kind or none
    memfs::contain();
    memfs::reset();
    static const Strs fs = {"a.cpp", "a.h", "a.natvis", "a.modules.cpp", "a.txt"};
    int s = memfs::add(0, "src", memfs::DIR_);
    int mask = choose(32), kind = choose(3), shared = choose(2), imported = choose(3);
    for (int i = 0; i < 5; i++) if (mask >> i & 1) memfs::add(s, fs[i], memfs::FILE_);
    RepoRegistry::instance_ = new RepoRegistry;
    struct End { ~End() { RepoRegistry::instance_ = nullptr; } } end;
    Repo* repo = new Repo;
    repo->repoName = "r";
    *RepoRegistry::instance_->repos.insertOrFind(StringView{"r"}) = repo;
    Errors err;
    TargetInstantiator from{"from", "/src/", repo, nullptr};
    from.moduleFunc = [&](ModuleArgs* a) {
        a->buildTarget->targetType = kind == 0 ? BuildTargetType::Lib : kind == 1 ? BuildTargetType::EXE : BuildTargetType::HeaderOnly;
        a->addSourceFiles(".");
        if (imported == 1) a->addSourceFilesWhenImported("x", {"b.CPP"});
        if (imported == 2) a->addSourceFilesWhenImported("x", {"b.h"});
    };
    ProjectInstantiationEnv env;
    env.buildFolderPath = "/b/";
    ProjectInstantiationResult res;
    ProjectInstantiator inst;
    inst.env = &env;
    inst.result = &res;
    Dependency* d = inst.instantiate(&from, shared);
    bool any = (mask & 1) || imported == 1;
    BuildTargetType want = kind == 1 ? BuildTargetType::EXE : kind == 2 ? BuildTargetType::HeaderOnly : shared ? BuildTargetType::DLL : any ? BuildTargetType::Lib : BuildTargetType::HeaderOnly;
    MC_CHECK(d && d->buildTarget->targetType == want, "the type of the target is %d instead of %d", (int) d->buildTarget->targetType, (int) want);
    Strs g, all;
    for (auto& p : d->buildTarget->sourceFiles) for (auto& r : p.relFiles) g.push_back(str(p.root) + "|" + str(r));
    if (mask & 1) all.push_back("/src/|a.cpp");
    if (mask & 2) all.push_back("/src/|a.h");
    bool null = !any && (want == BuildTargetType::EXE || want == BuildTargetType::DLL);
    if (null) all.push_back("/b/codegen/from|Null.cpp");
    for (auto& x : g) if (x.compare(0, 5, "/src|") == 0) x = "/src/" + x.substr(4);
    MC_CHECK(g == all, "the sources are %s instead of %s", join(g).c_str(), join(all).c_str());
    MC_CHECK((FileSystem::native()->exists("/b/codegen/from/Null.cpp") == ExistsResult::File) == null, "the file that stands for the sources");
    MC_CHECK(err.v.empty(), "an error is reported");
    mc::nontrivial();
    mc::step();
    F.active = false;
}
static void loops() { // a cycle ends the program with a message that names a target on it
    Mods x;
    int N = 3;
    x.m.n.resize(N);
    int mask = choose(1 << 9), twice = choose(2);
    for (int i = 0; i < N; i++) {
        x.m.n[i].name = "m" + std::to_string(i);
        for (int j = 0; j < N; j++) if (mask >> (i * 3 + j) & 1) x.m.n[i].deps.push_back({j, (i + j) % 2 == 0});
    }
    if (twice) { if (x.m.n[0].deps.empty()) { mc::markRedundant(); return; } x.m.n[0].deps.push_back(x.m.n[0].deps[0]); }
    // the first thing to go wrong in a depth-first walk
    std::vector<int> st(N, 0);
    std::string want;
    std::function<bool(int)> walk = [&](int i) {
        st[i] = 1;
        std::set<int> had;
        for (auto& e : x.m.n[i].deps) {
            if (st[e.first] == 1) { want = "Loop detected for 'm" + std::to_string(e.first) + "'"; return false; }
            if (st[e.first] == 0 && !walk(e.first)) return false;
            if (!had.insert(e.first).second) { want = "target 'm" + std::to_string(e.first) + "' is already a dependency"; return false; }
        }
        st[i] = 2;
        return true;
    };
    bool ok = walk(0);
    int fd[2];
    MC_CHECK(pipe(fd) == 0, "pipe");
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(fd[1], 2);
        signal(SIGILL, SIG_DFL); signal(SIGTRAP, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL);
        alarm(10);
        x.make();
        ProjectInstantiationEnv env;
        ProjectInstantiationResult res;
        ProjectInstantiator inst;
        inst.env = &env;
        inst.result = &res;
        Dependency* d = inst.instantiate(x.repo->findTargetInstantiatorImm("m0"), false);
        inst.propagateAllDependencies();
        _exit(d ? 0 : 3);
    }
    close(fd[1]);
    std::string msg;
    char buf[512];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) msg.append(buf, n);
    close(fd[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    if (ok) MC_CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0, "a graph without cycles ends with %x: %s", status, esc(msg).c_str());
    else {
        MC_CHECK(!(WIFEXITED(status) && WEXITSTATUS(status) == 0) && !(WIFSIGNALED(status) && (WTERMSIG(status) == SIGALRM || WTERMSIG(status) == SIGSEGV)), "%s: it ends with %x", want.c_str(), status);
        bool says = want[0] == 'L' ? msg.find("Loop detected for") != std::string::npos && msg.find(want.substr(18)) != std::string::npos : msg.find(want) != std::string::npos;
        MC_CHECK(says, "\"%s\" is reported instead of \"%s\"", esc(msg).c_str(), want.c_str());
        mc::nontrivial();
    }
    mc::state(hstr(want));
    mc::step();
}
//---------------------------------------------------------------- names
struct World {
    Repo* r[3];
    int children[3];           // bits
    bool mod[3][3];            // modules m, r2, x-y
    bool ext[3];
    int prov[3];               // bits: this repo has a provider "p" for the extern of repo k
    const Repo* called = nullptr; std::string calledName;
};
static World* W;
static ExternResult instantiateExtern(ExternCommand cmd, ExternProviderArgs* args) { return {ExternResult::Instantiated, {}}; }
static const char* modName(int k) { return k == 0 ? "m" : k == 1 ? "r2" : "x-y"; }
static std::vector<int> reach(const World& w, int from) { // the repo itself, then its descendants
    std::vector<int> v{from};
    for (size_t i = 0; i < v.size(); i++) for (int k = 0; k < 3; k++) if (w.children[v[i]] >> k & 1) if (std::find(v.begin(), v.end(), k) == v.end()) v.push_back(k);
    return v;
}
static bool split(const std::string& s, Strs* out) {
    out->clear();
    std::string c;
    for (size_t i = 0; i <= s.size(); i++) {
        if (i == s.size() || s[i] == '.') { if (c.empty() || isdigit((unsigned char) c[0]) || c[0] == '-') return false; out->push_back(c); c.clear(); }
        else if (isalnum((unsigned char) s[i]) || s[i] == '_' || s[i] == '-') c += s[i];
        else return false;
    }
    return true;
}
static int repoIndex(const std::string& s) { return s == "r1" ? 0 : s == "r2" ? 1 : s == "r3" ? 2 : -1; }
static void makeWorld(World& w) {
    RepoRegistry::instance_ = new RepoRegistry;
    for (int i = 0; i < 3; i++) {
        Repo* r = w.r[i] = new Repo;
        r->repoName = String::format("r{}", i + 1);
        *RepoRegistry::instance_->repos.insertOrFind(r->repoName) = r;
        for (int k = 0; k < 3; k++) if (w.mod[i][k]) {
            TargetInstantiator* t = new TargetInstantiator;
            t->name = modName(k);
            t->instantiatorPath = "/src/";
            t->repo = r;
            t->moduleFunc = [](ModuleArgs* a) { W->called = a->targetInst->repo; W->calledName += str(a->targetInst->name) + ";"; };
            r->addTargetInstantiator(t);
        }
        if (w.ext[i]) {
            DependencySource* e = new DependencySource{DependencySource::Extern, "e", r};
            r->externs.append(e);
        }
    }
    for (int i = 0; i < 3; i++) {
        for (int k = 0; k < 3; k++) {
            if (w.children[i] >> k & 1) w.r[i]->childRepos.append(w.r[k]);
            if (w.ext[k] && (w.prov[i] >> k & 1)) {
                Owned<ExternProvider> p = new ExternProvider;
                p->extern_ = w.r[k]->externs[0];
                p->providerName = "p";
                p->repo = w.r[i];
                p->externFunc = instantiateExtern;
                w.r[i]->externProviders.append(std::move(p));
            }
        }
    }
    W = &w;
}
struct EndWorld { ~EndWorld() { RepoRegistry::instance_ = nullptr; W = nullptr; } };
static void names() { // which module a name means
    World w{};
    static const int kids[6][3] = {{0, 0, 0}, {2, 0, 0}, {2, 4, 0}, {6, 0, 0}, {2, 1, 0}, {6, 4, 0}};
    memcpy(w.children, kids[choose(6)], sizeof w.children);
    int mask = choose(8);
    for (int i = 0; i < 3; i++) w.mod[i][0] = mask >> i & 1;
    w.mod[0][1] = choose(2);
    w.mod[2][2] = true;
    static const Strs all = {"m", "r1.m", "r2.m", "r3.m", "r2", "r1", "r1.r2", "r3.x-y", "x-y", "nosuch", "r2.nosuch", "", ".m", "m.", "r1..m", "r1.m.m", "m.m", "r1 .m", "4m", "m!", "R1.m", "r3.r2"};
    const std::string& name = all[choose((int) all.size())];
    bool fromRegistry = choose(2);
    mc::casef("%s %d", name.c_str(), fromRegistry);
    int wantRepo = -1;
    std::string wantName;
    Strs c;
    if (split(name, &c)) {
        std::vector<int> scope = fromRegistry ? std::vector<int>{0, 1, 2} : reach(w, 0);
        int q = repoIndex(c[0]);
        auto has = [&](int r, const std::string& n) { for (int k = 0; k < 3; k++) if (w.mod[r][k] && n == modName(k)) return true; return false; };
        if (q >= 0 && std::find(scope.begin(), scope.end(), q) != scope.end()) {
            if (c.size() == 2 && has(q, c[1])) { wantRepo = q; wantName = c[1]; }
        } else if (c.size() == 1) {
            int n = 0;
            for (int r : scope) if (has(r, c[0])) { n++; wantRepo = r; wantName = c[0]; }
            if (n != 1) wantRepo = -1;
        }
    }
    makeWorld(w);
    EndWorld end;
    Errors err;
    const DependencySource* got = nullptr;
    if (fromRegistry) {
        HeapBytes hb{name};
        got = RepoRegistry::get()->findTargetInstantiator(hb.view());
    } else {
        ProjectInstantiationEnv env;
        ProjectInstantiationResult res;
        ProjectInstantiator inst;
        inst.env = &env;
        inst.result = &res;
        TargetInstantiator from{"from", "/src/", w.r[0], nullptr};
        HeapBytes hb{name};
        from.moduleFunc = [&](ModuleArgs* a) { a->addTarget(Visibility::Public, hb.view()); };
        inst.instantiate(&from, false);
        for (auto& e : res.dependencies) if (e.depSrc != &from) got = e.depSrc;
        MC_CHECK(res.dependencies.numItems() == (got ? 2u : 1u), "%u dependencies", res.dependencies.numItems());
        if (got) MC_CHECK(w.calledName == str(got->name) + ";", "the module functions that ran: %s", w.calledName.c_str());
    }
    std::string g = got ? str(got->repo->repoName) + "." + str(got->name) : "nothing", want = wantRepo < 0 ? "nothing" : "r" + std::to_string(wantRepo + 1) + "." + wantName;
    MC_CHECK(g == want, "\"%s\" means %s instead of %s", name.c_str(), g.c_str(), want.c_str());
    MC_CHECK(err.v.empty() == (wantRepo >= 0), "%s was found, and %d errors were reported", want.c_str(), (int) err.v.size());
    if (wantRepo >= 0) { mc::nontrivial(); MC_CHECK(str(got->getFullyQualifiedName()) == want, "its full name"); }
    mc::state(hstr(name + want));
    mc::step();
}
static void externs() { // which extern and which provider a name means
    World w{};
    static const int kids[4][3] = {{0, 0, 0}, {2, 0, 0}, {2, 4, 0}, {6, 0, 0}};
    memcpy(w.children, kids[choose(4)], sizeof w.children);
    int mask = choose(8);
    for (int i = 0; i < 3; i++) w.ext[i] = mask >> i & 1;
    static const int provs[6][3] = {{0, 0, 0}, {1, 0, 0}, {3, 2, 0}, {1, 1, 0}, {2, 2, 4}, {7, 7, 7}};
    memcpy(w.prov, provs[choose(6)], sizeof w.prov);
    static const Strs all = {"e", "r1.e", "r2.e", "r3.e", "r1", "n", "r1.n", "", "e.e.", "e.p", "r1.e.p", "r2.e.p", "e.r1.p", "r1.e.r1.p", "r1.e.r2.p", "r2.e.r1.p", "r3.e.r3.p", "e.q", "e.r1", "e.r2.q", "e.p.x", "r1.e.p.x", "r1.e.r2.p.x", "e.r1.p.x", "r1.ee", "r1.f.p"};
    const std::string& name = all[choose((int) all.size())];
    int how = choose(3); // a provider, an extern of the registry, or an extern used by a module
    mc::casef("%s %d", name.c_str(), how);
    Strs c;
    int we = -1, wp = -1;
    if (split(name, &c)) {
        std::vector<int> scope = how == 2 ? reach(w, 0) : std::vector<int>{0, 1, 2};
        int q = repoIndex(c[0]);
        size_t at = 0;
        if (q >= 0 && std::find(scope.begin(), scope.end(), q) != scope.end()) { at = 2; if (c.size() > 1 && c[1] == "e" && w.ext[q]) we = q; }
        else { at = 1; int n = 0; for (int r : scope) if (w.ext[r] && c[0] == "e") { we = r; n++; } if (n != 1) we = -1; }
        if (how) { if (c.size() != at) we = -1; }
        else if (we >= 0) {
            int pr = at < c.size() ? repoIndex(c[at]) : -1;
            if (pr >= 0) { if (c.size() == at + 2 && c[at + 1] == "p" && (w.prov[pr] >> we & 1)) wp = pr; }
            else if (c.size() == at + 1 && c[at] == "p") { int n = 0; for (int r = 0; r < 3; r++) if (w.prov[r] >> we & 1) { n++; wp = r; } if (n != 1) wp = at == 2 && (w.prov[we] >> we & 1) ? we : -1; }
        }
    }
    makeWorld(w);
    EndWorld end;
    Errors err;
    std::string got = "nothing", want;
    HeapBytes hb{name};
    if (how == 0) {
        const ExternProvider* p = RepoRegistry::get()->getExternProvider(hb.view());
        if (p) got = str(p->extern_->repo->repoName) + "|" + str(p->extern_->name) + "|" + str(p->repo->repoName) + "|" + str(p->providerName);
        want = wp < 0 ? "nothing" : "r" + std::to_string(we + 1) + "|e|r" + std::to_string(wp + 1) + "|p";
        if (p) { // its names lead back to it
            const ExternProvider* again = RepoRegistry::get()->getExternProvider(p->getFullyQualifiedName());
            MC_CHECK(again == p, "the full name %s means another provider", str(p->getFullyQualifiedName()).c_str());
            again = RepoRegistry::get()->getExternProvider(RepoRegistry::get()->getShortProviderName(p));
            MC_CHECK(again == p, "the short name %s means another provider", str(RepoRegistry::get()->getShortProviderName(p)).c_str());
            int ne = 0, np = 0;
            for (int r = 0; r < 3; r++) { ne += w.ext[r]; np += w.prov[r] >> we & 1; }
            std::string brief = (ne > 1 ? "r" + std::to_string(we + 1) + "." : "") + "e." + (np > 1 ? "r" + std::to_string(wp + 1) + "." : "") + "p";
            MC_CHECK(str(RepoRegistry::get()->getShortProviderName(p)) == brief, "the short name is %s instead of %s", str(RepoRegistry::get()->getShortProviderName(p)).c_str(), brief.c_str());
        }
    } else if (how == 1) {
        const DependencySource* e = RepoRegistry::get()->findExtern(hb.view());
        if (e) got = str(e->repo->repoName) + "." + str(e->name);
        want = we < 0 ? "nothing" : "r" + std::to_string(we + 1) + ".e";
        if (e) MC_CHECK(RepoRegistry::get()->findExtern(RepoRegistry::get()->getShortDepSourceName(e)) == e, "the short name means another extern");
    } else {
        ProjectInstantiationEnv env;
        ProjectInstantiationResult res;
        ProjectInstantiator inst;
        inst.env = &env;
        inst.result = &res;
        // the first provider of each extern is selected, but not for the extern of r3
        for (int i = 0; i < 3; i++) for (const ExternProvider* p : w.r[i]->externProviders) if (p->extern_->repo != w.r[2]) env.externSelectors.append(p);
        TargetInstantiator from{"from", "/src/", w.r[0], nullptr};
        from.moduleFunc = [&](ModuleArgs* a) { a->addExtern(Visibility::Public, hb.view()); };
        Dependency* d = inst.instantiate(&from, false);
        const DependencySource* e = nullptr;
        for (auto& x : res.dependencies) if (x.depSrc != &from) e = x.depSrc;
        if (e) got = str(e->repo->repoName) + "." + str(e->name);
        want = we < 0 ? "nothing" : "r" + std::to_string(we + 1) + ".e";
        bool selected = we >= 0 && we != 2 && ((w.prov[0] | w.prov[1] | w.prov[2]) >> we & 1);
        MC_CHECK(d->dependencies.numItems() == (selected ? 1u : 0u), "%u dependencies", d->dependencies.numItems());
        MC_CHECK(res.unselectedExterns.numItems() == (we >= 0 && !selected ? 1u : 0u), "%u unselected externs", res.unselectedExterns.numItems());
    }
    MC_CHECK(got == want, "\"%s\" means %s instead of %s", name.c_str(), got.c_str(), want.c_str());
    MC_CHECK(err.v.empty() == (want != "nothing"), "\"%s\" means %s, and %d errors were reported", name.c_str(), want.c_str(), (int) err.v.size());
    if (!err.v.empty()) { size_t a = err.v[0].find(" '"); if (a != std::string::npos) a++; else a = err.v[0].find('\''); size_t b = err.v[0].find('\'', a + 1); MC_CHECK(a != std::string::npos && (name.empty() || name.find(err.v[0].substr(a + 1, b - a - 1)) != std::string::npos) && (b - a >= 2 || name.size() < 3 || c.size() > 2), "the error is \"%s\"", esc(err.v[0]).c_str()); }
    if (want != "nothing") mc::nontrivial();
    mc::state(hstr(name + want));
    mc::step();
}
//---------------------------------------------------------------- build folders
static void signatureTexts() {
    static const uint64_t vs[] = {0, 1, 0xf, 0x10, 0xffffffff, 0x100000000ull, 0x0123456789abcdefull, 0x8000000000000000ull, ~0ull, 0x00000000a0000000ull};
    u128 s;
    s.hi = vs[choose(10)]; s.lo = vs[choose(10)];
    std::string t = str(signatureToString(s));
    char want[40];
    snprintf(want, 40, "%016llx%016llx", (unsigned long long) s.hi, (unsigned long long) s.lo);
    for (auto& c : t) c = (char) tolower(c);
    MC_CHECK(t == want, "the signature %s is written as %s", want, t.c_str());
    MC_CHECK(parseSignatureString(view(t)) == s, "the signature %s is read differently", t.c_str());
    t.resize(choose(32));
    MC_CHECK(parseSignatureString(view(t)) == u128{0}, "a short signature is valid");
    mc::nontrivial();
    mc::step();
}
static std::vector<Strs> lists() {
    static const Strs w = {"a", "b", "ab", ""};
    std::vector<Strs> v{{}};
    for (auto& x : w) v.push_back({x});
    for (auto& x : w) for (auto& y : w) v.push_back({x, y});
    return v;
}
static void setList(Array<String>* a, const Strs& v) { a->clear(); for (auto& x : v) a->append(view(x)); }
static void signatures() { // different contents have different signatures, whatever they are
    RepoRegistry::instance_ = new RepoRegistry;
    EndWorld end;
    Owned<BuildFolder> bf = BuildFolder::create("f", "s");
    std::map<std::pair<u64, u64>, std::string> seen;
    std::vector<Strs> ls = lists();
    static const Strs texts = {"", "a", "b", "ab"};
    auto note = [&](const std::string& what) {
        u128 s = bf->currentBuildSystemSignature(), again = bf->currentBuildSystemSignature();
        MC_CHECK(s == again, "the signature is not determined by the contents");
        auto r = seen.insert({{s.hi, s.lo}, what});
        MC_CHECK(r.second || r.first->second == what, "%s and %s have one signature", r.first->second.c_str(), what.c_str());
        mc::step();
        mc::state(hstr(what));
    };
    if (choose(2)) {
        for (auto& a : ls) for (auto& b : ls) for (auto& c : ls) {
            setList(&bf->rootTargets, a); setList(&bf->makeShared, b); setList(&bf->externSelectors, c);
            note(join(a) + join(b) + join(c) + std::to_string(a.size()) + std::to_string(b.size()) + std::to_string(c.size()));
        }
    } else {
        for (auto& n : texts) for (auto& g : texts) for (auto& p : texts) for (auto& t : texts) for (auto& c : texts) for (auto& r : texts) for (int d = 0; d < 2; d++) {
            RepoRegistry::instance_->moduleDefSignature = d;
            bf->solutionName = view(n); bf->cmakeOptions.generator = view(g); bf->cmakeOptions.platform = view(p); bf->cmakeOptions.toolset = view(t); bf->cmakeOptions.toolchainFile = view(c);
            setList(&bf->rootTargets, {r});
            note(n + "|" + g + "|" + p + "|" + t + "|" + c + "|" + r + "|" + std::to_string(d));
        }
    }
    mc::nontrivial();
}
static void folders() { // a build folder is saved, loaded again, and found out of date after any change
    memfs::contain();
    memfs::reset();
    RepoRegistry::instance_ = new RepoRegistry;
    EndWorld end;
    Errors err;
    int ws = memfs::add(0, "nonexistent-ws", memfs::DIR_);
    std::vector<Strs> ls = lists();
    Owned<BuildFolder> bf = BuildFolder::create("f", "sol \"1\"");
    bf->cmakeOptions.generator = "Unix Makefiles";
    bf->activeConfig = "Debug";
    bf->activeTarget = "r.m";
    int k = choose((int) ls.size());
    setList(&bf->rootTargets, ls[k]); setList(&bf->makeShared, ls[(k + 5) % ls.size()]); setList(&bf->externSelectors, ls[(k * 2) % ls.size()]);
    MC_CHECK(str(bf->getAbsPath()) == WS + "data/build/f/", "the folder is %s", str(bf->getAbsPath()).c_str());
    int conf = choose(2);
    StringView config = conf ? "Release" : "Debug";
    bool signed_ = choose(2), made = choose(2);
    if (signed_) bf->buildSystemSignature->set(config, pylon::Node::createText(signatureToString(bf->currentBuildSystemSignature())));
    MC_CHECK(bf->save(), "saving");
    if (made) {
        int f = F.nodes[F.nodes[F.nodes[ws].kids["data"]].kids["build"]].kids["f"];
        int b = memfs::add(f, "build", memfs::DIR_);
        int c = memfs::add(b, str(config), memfs::DIR_);
        memfs::add(c, "Makefile", memfs::FILE_, "x");
    }
    Owned<BuildFolder> got;
    if (choose(2)) {
        got = BuildFolder::load("f");
        MC_CHECK(got, "loading");
    } else {
        Array<Owned<BuildFolder>> all = BuildFolder::getList();
        MC_CHECK(all.numItems() == 1, "%u folders", all.numItems());
        got = std::move(all[0]);
    }
    MC_CHECK(got->buildFolderName == bf->buildFolderName && got->solutionName == bf->solutionName && got->cmakeOptions.generator == bf->cmakeOptions.generator && strs(got->rootTargets) == strs(bf->rootTargets) && strs(got->makeShared) == strs(bf->makeShared) && strs(got->externSelectors) == strs(bf->externSelectors) && got->activeConfig == bf->activeConfig && got->activeTarget == bf->activeTarget, "the folder is loaded differently");
    MC_CHECK(got->currentBuildSystemSignature() == bf->currentBuildSystemSignature(), "the signature changes");
    bool want = signed_ && made;
    MC_CHECK(got->isGenerated(config) == want, "signed %d, made %d: generated %d", signed_, made, !want);
    if (!conf) MC_CHECK(got->isGenerated({}) == want, "the active configuration");
    MC_CHECK(!got->isGenerated(conf ? "Debug" : "Release"), "the other configuration is generated");
    switch (choose(6)) {
        case 0: got->rootTargets.append("z"); break;
        case 1: got->makeShared.append("z"); break;
        case 2: got->externSelectors.append("z"); break;
        case 3: got->cmakeOptions.toolset = "z"; break;
        case 4: RepoRegistry::instance_->moduleDefSignature = 5; break;
        default: got->solutionName = "z"; break;
    }
    MC_CHECK(!got->isGenerated(config), "after a change it is still up to date");
    MC_CHECK(err.v.empty(), "an error is reported: %s", err.v.empty() ? "" : err.v[0].c_str());
    if (want) mc::nontrivial();
    mc::state(k * 8 + conf * 4 + signed_ * 2 + made);
    mc::step();
    F.active = false;
}
static void sources() { // which files of a folder belong to a target
    memfs::contain();
    memfs::reset();
    static const Strs fs = {"a.cpp", "b.c", "C.CPP", "d.h", "e.natvis", "f.modules.cpp", "g.txt", "h", ".cpp", "i.inl", "j.hpp", "z.CPP.bak"};
    int s = memfs::add(0, "src", memfs::DIR_), d = memfs::add(s, "dir", memfs::DIR_), e = memfs::add(d, "c.cpp", memfs::DIR_);
    Strs all;
    for (int i = 0; i < 3; i++) {
        int f = choose((int) fs.size() + 1);
        if (f == (int) fs.size()) continue;
        int where = choose(3);
        std::string path = (where == 0 ? "" : where == 1 ? "dir/" : "dir/c.cpp/") + fs[f];
        if (std::find(all.begin(), all.end(), path) != all.end()) { mc::markRedundant(); continue; }
        memfs::add(where == 0 ? s : where == 1 ? d : e, fs[f], memfs::FILE_);
        all.push_back(path);
    }
    bool rec = choose(2);
    Dependency dep;
    BuildTarget t{&dep};
    t.addSourceFiles("/src", rec);
    Strs src, non;
    bool any = false;
    for (auto& p : all) {
        if (!rec && p.find('/') != std::string::npos) continue;
        std::string b = p.substr(p.rfind('/') + 1), l = b;
        for (auto& c : l) c = (char) tolower(c);
        size_t dot = b.rfind('.');
        std::string ext = dot == std::string::npos || dot == 0 ? "" : l.substr(dot);
        if (b.size() > 12 && b.substr(b.size() - 12) == ".modules.cpp" || ext == ".natvis") non.push_back(p);
        else if (ext == ".c" || ext == ".cpp") { src.push_back(p); any = true; }
        else if (ext == ".h") src.push_back(p);
    }
    std::sort(src.begin(), src.end()); std::sort(non.begin(), non.end());
    auto flat = [](ArrayView<const BuildTarget::SourceFilesPair> a) { Strs v; for (auto& p : a) { MC_CHECK(str(p.root) == "/src" && p.relFiles.numItems() > 0, "a group of files in %s", str(p.root).c_str()); for (auto& f : strs(p.relFiles)) v.push_back(f); } return v; };
    Strs g = flat(t.sourceFiles), gn = flat(t.nonParticipatingFiles);
    MC_CHECK(g == src && gn == non && t.anySourceFiles == any, "of %s, the sources are %s and the others %s", join(all).c_str(), join(g).c_str(), join(gn).c_str());
    if (any) mc::nontrivial();
    mc::state(hstr(join(all)));
    mc::step();
    F.active = false;
}
MC_SCENARIOS = {
    {"propagate", propagate, mc::LEAKS, "every graph of 4 (thorough 5) targets with every visibility, kind and order of dependencies, and the text written for it"},
    {"upgraded", upgraded, mc::LEAKS, "a dependency added up to three times with every visibility"},
    {"clashes", clashes, mc::LEAKS, "every assignment of values to a definition of three dependencies and the target itself"},
    {"definitions", definitions, mc::LEAKS, "symbols defined up to four (thorough five) times in one target"},
    {"sourceless", sourceless, mc::LEAKS, "a module of each kind with every set of source files"},
    {"shared", shared, mc::LEAKS, "every graph of four modules, with every choice of root targets made shared"},
    {"loops", loops, 0, "every directed graph of three modules"},
    {"names", names, mc::LEAKS, "every module name of 22 forms in every small world of repositories"},
    {"externs", externs, mc::LEAKS, "every name of an extern or provider of 26 forms in every small world of repositories"},
    {"signatureTexts", signatureTexts, mc::LEAKS, "signatures as text"},
    {"signatures", signatures, 0, "every build folder of a family: different contents, different signatures"},
    {"folders", folders, mc::LEAKS, "build folders saved, loaded and changed"},
    {"sources", sources, mc::LEAKS, "every folder of up to three files of twelve kinds in three places"},
    MC_END};
