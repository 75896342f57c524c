// Cooking: after any history of edits, an incremental cook gives what a cook from scratch would, redoing no more than needed.
#include "memfs.h"
#include <ply-cook/Core.h>
#include <ply-cook/CookJob.h>
using namespace ply;
using namespace ply::cook;
using memfs::F;
typedef std::vector<std::string> Strs;
typedef std::set<std::string> Ids;

// A job named P:x or Q:x reads the file /x, whose words say what it does:
//   r<id>  refer to another job, to be cooked later     n<id>  cook another job now and use its text
//   o<id>  the same, but look it up once it has been cooked
// and every other word is its own text
static std::string fileText(const std::string& d) {
    auto it = F.nodes[0].kids.find(d);
    return it == F.nodes[0].kids.end() ? "?" : F.nodes[it->second].data;
}
static bool exists(const std::string& d) { return F.nodes[0].kids.count(d); }
static Strs splitWords(const std::string& s) {
    Strs v;
    for (size_t p = 0; p < s.size();) {
        size_t e = std::min(s.find(' ', p), s.size());
        if (e > p) v.push_back(s.substr(p, e - p));
        p = e + 1;
    }
    return v;
}
struct Result : CookResult {
    Array<Reference<CookJob>> kept;
    std::string text;
    static int live;
    bool linked = true;
    Result() { live++; }
    ~Result() { live--; }
    void unlinkFromDatabase() override {
        MC_CHECK(linked, "unlinked twice");
        linked = false;
    }
    PLY_REFLECT()
};
int Result::live = 0;
PLY_STRUCT_BEGIN(Result) PLY_STRUCT_END()
static std::vector<std::string> gCooked; // what has been cooked in this round
static std::map<std::string, int> gArgs;
extern CookJobType gP, gQ;
static CookJobID jobID(const std::string& id) { return {id[0] == 'P' ? &gP : &gQ, StringView{id.data() + 2, (u32) id.size() - 2}}; }
static std::string textOf(CookJob* j) {
    MC_CHECK(j->result, "%s has no result", str(j->id.desc).c_str());
    return static_cast<Result*>(j->result.get())->text;
}
struct Dependency_Job : Dependency { std::string id, text; };
static DependencyType gDependsOnJob = {[](Dependency* d_, CookResult*, AnyObject) -> bool {
    Dependency_Job* d = static_cast<Dependency_Job*>(d_);
    Reference<CookJob> j = CookContext::current()->cook(jobID(d->id));
    return textOf(j) != d->text;
}};
static void cookIt(CookResult* r_, AnyObject arg) {
    Result* r = static_cast<Result*>(r_);
    std::string id = str(r->job->id.str()), d = str(r->job->id.desc);
    MC_CHECK(r->job->result.get() == r, "%s is cooked into a result that isn't its own", id.c_str());
    gCooked.push_back(id);
    MC_CHECK(!CookContext::current()->isCooked(r->job), "%s is cooked before its cook is finished", id.c_str());
    if (arg.data) gArgs[id] = *arg.cast<int>();
    r->text = id + "<";
    Owned<InStream> ins = r->openFileAsDependency(view("/" + d));
    if (!ins) {
        MC_CHECK(!r->errors.isEmpty(), "%s can't open its file but has no error", id.c_str());
        r->text += "missing>";
        return;
    }
    std::string t = str(FileIOWrappers::loadTextAutodetect(std::move(ins)).first);
    Ids referred;
    for (const std::string& w : splitWords(t)) {
        if (w[0] == 'r') {
            if (referred.insert(w).second) r->addReference(jobID(w.substr(1)));
        }
        else if (w[0] == 'n' || w[0] == 'o') {
            Reference<CookJob> j = CookContext::current()->cook(jobID(w.substr(1)));
            CookResult* found = CookContext::current()->getAlreadyCookedResult(jobID(w.substr(1)));
            MC_CHECK(found == j->result.get(), "the result of %s isn't found", w.c_str());
            MC_CHECK(CookContext::current()->isCooked(j), "%s isn't cooked after cook()", w.c_str());
            auto dep = new Dependency_Job;
            dep->type = &gDependsOnJob;
            dep->id = w.substr(1);
            dep->text = textOf(j);
            r->dependencies.append(dep);
            r->kept.append(j);
            r->text += textOf(j);
        } else r->text += w;
    }
    r->text += ">";
}
CookJobType gP = {"P", getTypeDescriptor<Result>(), nullptr, cookIt};
CookJobType gQ = {"Q", getTypeDescriptor<Result>(), nullptr, cookIt};

// The same from scratch
static std::string fresh(const std::string& id, Ids* reach = nullptr) {
    if (reach) reach->insert(id);
    std::string d = id.substr(2), s = id + "<";
    if (!exists(d)) return s + "missing>";
    for (const std::string& w : splitWords(fileText(d))) {
        if (w[0] == 'r') {
            if (reach && !reach->count(w.substr(1))) fresh(w.substr(1), reach);
        } else if (w[0] == 'n') s += fresh(w.substr(1), reach);
        else s += w;
    }
    return s + ">";
}
static void put(const std::string& d, const std::string& text) {
    if (exists(d)) {
        int n = F.nodes[0].kids[d];
        F.nodes[n].data = text;
        F.nodes[n].version = ++F.clock;
    } else memfs::add(0, d, memfs::FILE_, text);
}
static void drop(const std::string& d) { F.nodes[0].kids.erase(d); }
// The stamp that a cook sees on a file, and the model's record of what each job was last cooked from
struct Seen { std::map<std::string, long> stamps; std::map<std::string, std::string> parts; };
static std::map<std::string, Seen> gSeen;
static Ids gKept;
static long stamp(const std::string& d) { return exists(d) ? F.nodes[F.nodes[0].kids[d]].version : 0; }
static bool needs(const std::string& id) {
    auto it = gSeen.find(id);
    if (it == gSeen.end()) return true;
    if (it->second.stamps[id.substr(2)] != stamp(id.substr(2))) return true;
    for (auto& kv : it->second.parts)
        if (fresh(kv.first) != kv.second) return true;
    return false;
}
struct World {
    Owned<DependencyTracker> tracker;
    World() {
        memfs::contain();
        memfs::reset();
        Result::live = 0;
        gSeen.clear();
        gKept.clear();
        gCooked.clear();
        tracker = new DependencyTracker;
    }
    Ids ids() {
        Ids r;
        std::string last;
        CookJobID first{std::min(&gP, &gQ), ""};
        for (auto it = tracker->allCookJobs.findFirstGreaterOrEqualTo(&first); it.isValid(); it.next()) r.insert(str(it.getItem()->id.str()));
        return r;
    }
    // keep: which of the roots stay roots
    void cook(const Strs& roots, u32 keep, bool acyclic, bool disturbed = false) {
        gCooked.clear();
        gArgs.clear();
        Ids reach, wanted, before;
        for (u32 i = 0; i < roots.size(); i++) {
            fresh(roots[i], &before);
            if (keep >> i & 1) fresh(roots[i], &reach);
        }
        // needs() holds before the cook what must be done again
        for (const std::string& id : before)
            if (needs(id)) wanted.insert(id);
        Ids stable;
        std::function<void(const std::string&)> keepIt = [&](const std::string& id) {
            if (!stable.insert(id).second || needs(id) || !exists(id.substr(2))) return;
            for (const std::string& w : splitWords(fileText(id.substr(2))))
                if (w[0] == 'r' || w[0] == 'n') keepIt(w.substr(1));
        };
        for (const std::string& id : gKept) keepIt(id);
        gKept.clear();
        for (u32 i = 0; i < roots.size(); i++)
            if (keep >> i & 1) gKept.insert(roots[i]);
        {
            CookContext ctx;
            ctx.depTracker = tracker;
            ctx.beginCook();
            Array<Reference<CookJob>> refs;
            int arg = 77;
            for (u32 i = 0; i < roots.size(); i++) {
                Reference<CookJob> j = ctx.cook(jobID(roots[i]), AnyObject::bind(&arg));
                MC_CHECK(ctx.isCooked(j), "%s isn't cooked after cook()", roots[i].c_str());
                if (keep >> i & 1) refs.append(j);
            }
            ctx.cookDeferred();
            for (u32 i = 0; i < roots.size(); i++) {
                if (!disturbed) {
                    CookResult* r = ctx.getAlreadyCookedResult(jobID(roots[i]));
                    MC_CHECK(static_cast<Result*>(r)->text == fresh(roots[i]), "%s is %s instead of %s", roots[i].c_str(), static_cast<Result*>(r)->text.c_str(), fresh(roots[i]).c_str());
                    auto a = gArgs.find(roots[i]);
                    MC_CHECK(a == gArgs.end() || a->second == arg, "the argument is %d", a->second);
                }
            }
            // Every job that is referred to has been brought up to date
            if (!disturbed) {
                Ids all = ids();
                for (const std::string& id : before) {
                    MC_CHECK(all.count(id), "%s isn't known after it was cooked", id.c_str());
                    Reference<CookJob> j = tracker->getOrCreateCookJob(jobID(id));
                    MC_CHECK(ctx.isCooked(j), "%s isn't up to date", id.c_str());
                    MC_CHECK(textOf(j) == fresh(id), "%s is %s instead of %s", id.c_str(), textOf(j).c_str(), fresh(id).c_str());
                    MC_CHECK(j->id == jobID(id) && j->result->job == j.get(), "%s is another job", id.c_str());
                    MC_CHECK(j->result->errors.isEmpty() == exists(id.substr(2)), "%s has %u errors", id.c_str(), j->result->errors.numItems());
                    MC_CHECK(j->castResult<Result>() == j->result.get() && !j->castResult<CookResult>(), "the result of %s can't be cast", id.c_str());
                }
                std::multiset<std::string> got(gCooked.begin(), gCooked.end());
                // A job that loses its last reference before it is asked for again is a new one
                for (auto it = got.begin(); it != got.end();)
                    if (!wanted.count(*it) && !stable.count(*it) && got.count(*it) == 1) it = got.erase(it);
                    else ++it;
                std::string g, w;
                for (auto& x : got) g += " " + x;
                for (auto& x : wanted) w += " " + x;
                MC_CHECK(g == w, "cooked:%s instead of:%s", g.c_str(), w.c_str());
            }
            tracker->setRootReferences(std::move(refs));
            ctx.endCook();
        }
        MC_CHECK(!CookContext::current_ && !DependencyTracker::current_, "something is current after endCook()");
        // Jobs that nothing refers to any more are gone
        if (acyclic && !disturbed) {
            Ids all = ids();
            std::string g, w;
            for (auto& x : all) g += " " + x;
            for (auto& x : reach) w += " " + x;
            MC_CHECK(g == w, "known jobs:%s instead of:%s", g.c_str(), w.c_str());
            MC_CHECK(Result::live == (int) reach.size(), "%d results are alive instead of %zu", Result::live, reach.size());
            std::map<std::string, Seen> now;
            for (const std::string& id : reach) now[id] = gSeen[id];
            gSeen = now;
        }
        Ids reached = acyclic ? reach : before;
        for (auto& x : gSeen) reached.insert(x.first);
        for (const std::string& id : reached) {
            if (!acyclic && !before.count(id)) continue;
            Seen s;
            s.stamps[id.substr(2)] = stamp(id.substr(2));
            if (exists(id.substr(2)))
                for (const std::string& w : splitWords(fileText(id.substr(2))))
                    if (w[0] == 'n') s.parts[w.substr(1)] = fresh(w.substr(1));
            gSeen[id] = s;
        }
        mc::step(1);
    }
    void finish(bool acyclic) {
        tracker.clear();
        if (acyclic) MC_CHECK(Result::live == 0, "%d results stay alive", Result::live);
    }
};
static std::string snapshot(World& w) {
    std::string s;
    for (auto& kv : F.nodes[0].kids) s += kv.first + "=" + F.nodes[kv.second].data + ";";
    for (auto& id : w.ids()) s += id + ",";
    return s;
}
// Files a, b, c: what each may say. References go from earlier to later ones
static const char* gMenu[3][9] = {{"x", "rP:b", "nP:b", "rP:c rP:b y", "nP:b nP:c", "nP:c rP:b", "rQ:b nP:b", nullptr, "?"}, {"x", "rP:c", "nP:c", "y nQ:c", "?", nullptr}, {"x", "y", "?", nullptr}};
static u32 menu(u32 f) { u32 n = 0; while (gMenu[f][n]) n++; return n; }
static void edit(u32 f, u32 k) {
    std::string d(1, (char) ('a' + f));
    const char* t = gMenu[f][k];
    if (!strcmp(t, "?")) drop(d);
    else put(d, t);
}
static u32 menuSize(u32 f) { return f == 0 ? 8 : f == 1 ? 5 : 3; }
static const char* item(u32 f, u32 k) { return f == 0 && k == 7 ? "?" : gMenu[f][k]; }
static void set(u32 f, u32 k) {
    std::string d(1, (char) ('a' + f));
    std::string t = item(f, k);
    if (t == "?") drop(d);
    else if (!exists(d) || fileText(d) != t) put(d, t);
}
static const std::vector<Strs> gRoots = {{"P:a"}, {"P:a", "P:b"}, {"P:c", "P:a"}, {"Q:a", "P:b", "P:a"}, {"P:b"}};
static void history() {
    World w;
    for (u32 f = 0; f < 3; f++) set(f, mc::choose(menuSize(f)));
    u32 rounds = 3;
    for (u32 r = 0; r < rounds; r++) {
        if (r) {
            u32 f = mc::choose(4);
            if (f < 3) set(f, mc::choose(menuSize(f)));
            else { // a file is put back as it was, but older
                u32 g = mc::choose(3);
                std::string d(1, (char) ('a' + g));
                if (exists(d)) F.nodes[F.nodes[0].kids[d]].version = -F.nodes[F.nodes[0].kids[d]].version - 5;
            }
        }
        u32 k = r == 0 ? 0 : mc::choose(r == 1 ? mc::pick(3, 5) : mc::pick(1, 2));
        const Strs& roots = gRoots[k];
        w.cook(roots, (1u << roots.size()) - 1, true);
        mc::state(std::hash<std::string>()(snapshot(w)));
    }
    mc::nontrivial();
    w.finish(true);
}
// Some of what is cooked isn't kept
static void discarded() {
    World w;
    for (u32 f = 0; f < 3; f++) set(f, f < 2 || mc::tier() ? mc::choose(menuSize(f)) : 0);
    for (u32 r = 0; r < 2; r++) {
        if (r) {
            u32 f = mc::choose(mc::pick(2, 3));
            set(f, mc::choose(menuSize(f)));
        }
        const Strs& roots = gRoots[mc::tier() ? mc::choose(5) : 1 + 2 * mc::choose(2)];
        u32 keep = mc::choose(1u << roots.size());
        w.cook(roots, keep, true);
        mc::state(std::hash<std::string>()(snapshot(w)));
    }
    mc::nontrivial();
    w.finish(true);
}
// Jobs may refer to each other in circles
static void circles() {
    static const char* refs[] = {"x", "rP:a", "rP:b", "rP:c", "rP:a rP:b", "rP:b rP:c", "rP:a rP:c", "rP:a rP:b rP:c"};
    World w;
    for (char c = 'a'; c <= 'c'; c++) put(std::string(1, c), refs[mc::choose(8)]);
    w.cook({"P:a"}, 1, false);
    put(std::string(1, (char) ('a' + mc::choose(3))), refs[mc::choose(8)]);
    w.cook({"P:a", "P:b"}, 3, false);
    w.cook({"P:c"}, 1, false);
    mc::state(std::hash<std::string>()(snapshot(w)));
    w.finish(false);
}
// Files change while they are being cooked
static void disturbed() {
    World w;
    for (u32 f = 0; f < 3; f++) set(f, mc::choose(menuSize(f)));
    u32 when = mc::choose(2), at = mc::choose(mc::pick(9, 14)), f = mc::choose(mc::pick(2, 3)), k = mc::choose(menuSize(f)), calls = 0;
    bool done = false;
    auto hook = [&] {
        if (calls++ == at) {
            set(f, k);
            done = true;
        }
    };
    for (u32 r = 0; r < 2; r++) {
        if (r == when) F.before = hook;
        w.cook(gRoots[3], 7, true, when == r || (r == 1 && when == 0));
        F.before = nullptr;
        if (when == 0) break;
    }
    // Whatever was seen then, the next cook gives what there is now
    gCooked.clear();
    {
        CookContext ctx;
        ctx.depTracker = w.tracker;
        ctx.beginCook();
        Array<Reference<CookJob>> refs;
        for (const std::string& id : gRoots[3]) refs.append(ctx.cook(jobID(id)));
        ctx.cookDeferred();
        Ids reach;
        for (const std::string& id : gRoots[3]) fresh(id, &reach);
        for (const std::string& id : reach) {
            Reference<CookJob> j = w.tracker->getOrCreateCookJob(jobID(id));
            MC_CHECK(textOf(j) == fresh(id), "%s is %s instead of %s", id.c_str(), textOf(j).c_str(), fresh(id).c_str());
        }
        w.tracker->setRootReferences(std::move(refs));
        ctx.endCook();
    }
    if (done) mc::nontrivial();
    mc::state(std::hash<std::string>()(snapshot(w)));
    w.finish(true);
}
// Files that can't be opened, or whose status can't be read; the order of deferred jobs is the library's
static void faults() {
    World w;
    for (u32 f = 0; f < 3; f++) set(f, mc::choose(menuSize(f)));
    F.faults = 1;
    F.failAt = 1 + mc::choose(20);
    F.failKind = mc::choose(2);
    w.cook(gRoots[3], 7, true, true);
    F.faults = 0;
    F.failAt = 0;
    bool failed = !F.failed.empty();
    {
        CookContext ctx;
        ctx.depTracker = w.tracker;
        ctx.beginCook();
        Array<Reference<CookJob>> refs;
        for (const std::string& id : gRoots[3]) refs.append(ctx.cook(jobID(id)));
        ctx.cookDeferred();
        bool readFailed = false;
        for (auto& x : F.failed) readFailed = readFailed || x.find("read") != std::string::npos;
        Ids reach;
        for (const std::string& id : gRoots[3]) fresh(id, &reach);
        if (!readFailed) // what is lost when reading isn't noticed (documented in the code)
            for (const std::string& id : reach) {
                Reference<CookJob> j = w.tracker->getOrCreateCookJob(jobID(id));
                MC_CHECK(textOf(j) == fresh(id), "%s is %s instead of %s", id.c_str(), textOf(j).c_str(), fresh(id).c_str());
            }
        w.tracker->setRootReferences(std::move(refs));
        ctx.endCook();
    }
    if (failed) mc::nontrivial();
    w.finish(true);
}
// Many jobs come and go
static void many() {
    World w;
    const u32 N = 20;
    auto name = [](u32 i) { return std::string(i % 3 == 1 ? "Q:" : "P:") + (i % 2 ? "k" : "j") + std::string(1, (char) ('a' + i / 2)); };
    for (u32 i = 0; i < N; i++) put(name(i).substr(2), "t" + std::to_string(i));
    for (u32 r = 0; r < 3; r++) {
        u32 lo = mc::choose(mc::pick(3, 10)) * mc::pick(7, 2), len = mc::choose(3), step = 1 + mc::choose(3);
        std::string s = "t";
        u32 n = len == 0 ? 3 : len == 1 ? 9 : N;
        for (u32 i = 0; i < n; i++) {
            u32 k = (lo + i * step) % N;
            std::string wd = " r" + name(k);
            if ((s + " ").find(wd + " ") == std::string::npos) s += wd;
        }
        put("top", s);
        w.cook({"P:top"}, 1, true);
        mc::state(std::hash<std::string>()(snapshot(w)));
    }
    mc::nontrivial();
    w.finish(true);
}
// Looking at a job doesn't disturb it
static void interface() {
    World w;
    put("a", "x");
    CookContext ctx;
    ctx.depTracker = w.tracker;
    ctx.beginCook();
    {
        Reference<CookJob> j = w.tracker->getOrCreateCookJob(jobID("P:a"));
        MC_CHECK(!ctx.isCooked(j), "a job is cooked before cook()");
        u32 k = mc::choose(2);
        if (k) {
            ctx.ensureCooked(j);
            ctx.ensureCooked(j);
            MC_CHECK(ctx.isCooked(j) && gCooked.size() == 1, "cooked %zu times", gCooked.size());
            MC_CHECK(textOf(j) == fresh("P:a"), "the text is %s", textOf(j).c_str());
            static_cast<Result*>(j->result.get())->addError("an error");
            MC_CHECK(j->result->errors.numItems() == 1 && j->result->errors[0] == "an error", "the error isn't kept");
        }
        MC_CHECK(str(j->id.str()) == "P:a", "the name is %s", str(j->id.str()).c_str());
    }
    ctx.endCook();
    w.finish(true);
}
MC_SCENARIOS = {{"histories of edits", history, mc::LEAKS, "every initial set of files, then edits and cooks"},
                {"results not kept", discarded, mc::LEAKS, "some results of cook() aren't made roots"},
                {"circular references", circles, 0, "jobs refer to each other in every way"},
                {"edits during a cook", disturbed, mc::LEAKS, "a file changes before any system call of a cook"},
                {"faults", faults, mc::LEAKS, "a system call of a cook fails"},
                {"many jobs", many, mc::LEAKS, "jobs come and go by the dozen"},
                {"interface", interface, mc::LEAKS, "looking at jobs"},
                MC_END};
