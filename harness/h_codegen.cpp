// Code generation: what the sources declare is what is generated, and the sources keep everything else.
#include "memfs.h"
#include <Core.h>
#include <ConsoleUtils.h>
#include <WorkspaceSettings.h>
#include <ply-build-folder/BuildFolder.h>
using memfs::F;
typedef std::vector<std::string> Strs;
namespace ply { void command_codegen(PlyToolCommandEnv* env); }

static std::string gOut;
static void run(const char* newLines = "") {
    const char* argv[] = {"plytool"};
    CommandLine cl{1, (char**) argv};
    WorkspaceSettings ws;
    ws.sourceNewLines = newLines;
    PlyToolCommandEnv env;
    env.cl = &cl;
    env.workspace = &ws;
    gOut.clear();
    F.console = &gOut;
    command_codegen(&env);
    F.console = nullptr;
    mc::step(1);
}
// What a source declares: for each .inl file the classes, then the enums, then the switches
struct Gen { std::vector<std::string> classes, enums, switches; std::map<std::string, std::string> inls; };
struct Src { std::vector<std::string> lines; };
struct Scope { std::string cls, nsPrefix, enumPrefix, dash; };
static Scope in(const Scope& s, const std::string& n, bool ns) {
    Scope r = s;
    r.cls += (r.cls.empty() ? "" : "::") + n;
    r.dash += (r.dash.empty() ? "" : "-") + n;
    if (ns) r.nsPrefix += n + "::";
    else r.enumPrefix += (r.enumPrefix.empty() ? "" : "::") + n;
    return r;
}
// The text of a file is built with two outputs: what is given and what it becomes
struct Out { std::string given, want; void both(const std::string& s) { given += s; want += s; } };
static u32 gN;
static std::string fresh(const char* p) { return std::string(p) + std::to_string(gN++); }
static void item(Out& o, Gen& g, const Scope& s, u32 depth, bool record, const std::string& ind);
static u32 gItems;
static void items(Out& o, Gen& g, const Scope& s, u32 depth, bool record, const std::string& ind) {
    u32 n = mc::choose(2);
    for (u32 i = 0; i < n; i++) item(o, g, s, depth, record, ind);
}
static void include(Out& o, const std::string& ind) { // left over from the last time
    static const char* t[] = {"#include \"codegen/old.inl\" //@@ply\n", "#include \"codegen/switch-X.inl\" //@@ply   \n", "   #include <x> //@@ply\n"};
    if (!o.given.empty() && o.given.back() != '\n') o.both("\n");
    o.given += t[mc::choose(2)];
}
static std::string reflected(const std::string& cls, const Strs& members) {
    std::string r = "PLY_STRUCT_BEGIN(" + cls + ")\n";
    for (auto& m : members) r += "PLY_STRUCT_MEMBER(" + m + ")\n";
    return r + "PLY_STRUCT_END()\n\n";
}
static void plain(Out& o, Gen& g, const Scope& s, u32 depth, const std::string& ind) {
    std::string n = fresh("S"), in1 = ind + "    ";
    Scope c = in(s, n, false);
    o.both(ind + (mc::choose(2) ? "class " : "struct ") + n + " {\n");
    u32 begin = mc::choose(4), off = mc::choose(3); // where the capture starts, how it ends
    static const char* decls[3][4] = {{"int a;\n", "a", 0, 0}, {"A::B<int> b = 1, *c[4];\n", "b", "c", 0}, {"void f(int x);\n", 0, 0, 0}};
    Strs m;
    bool on = false;
    size_t slot = 0;
    for (u32 i = 0; i < 3; i++) {
        if (i == begin) {
            o.both(in1 + (mc::choose(2) ? "PLY_REFLECT()\n" : "PLY_STATE_REFLECT()\n"));
            on = true;
            slot = g.classes.size();
            g.classes.push_back("");
        }
        if (i == 1 && depth) items(o, g, c, depth - 1, true, in1);
        o.both(in1 + decls[i][0]);
        if (on) for (u32 k = 1; decls[i][k]; k++) m.push_back(decls[i][k]);
        if (on && i == (off == 0 ? 2u : off)) {
            static const char* offs[] = {"// ply reflect off\n", "//ply   reflect  off \n", "// %%end\n"};
            o.both(in1 + offs[off]);
            on = false;
        }
    }
    if (on) o.both(in1 + "// ply reflect off\n");
    if (begin < 3) g.classes[slot] = reflected(c.cls, m);
    o.both(ind + "};\n");
}
static void enumeration(Out& o, Gen& g, const Scope& s, const std::string& ind) {
    std::string n = fresh("E");
    u32 where = mc::choose(4), count = mc::choose(3), layout = mc::choose(2);
    std::string nl = layout ? " " : "\n", in1 = layout ? "" : ind + "    ";
    o.both(ind + "enum " + (mc::choose(2) ? "class " : "") + n + " {" + (layout ? " " : "\n"));
    static const char* names[3][3] = {{"A", "B = 2", "C"}, {"A", "B", "Count"}, {"Count", "B = f(1, 2)", "C"}};
    std::string r = "PLY_ENUM_BEGIN(" + s.nsPrefix + ", " + (s.enumPrefix.empty() ? "" : s.enumPrefix + "::") + n + ")\n";
    for (u32 i = 0; i < 3; i++) {
        if (i == where) o.both((layout ? "\n" : in1) + std::string("// ply reflect enum\n"));
        o.both(in1 + names[count][i] + "," + nl);
        std::string id = std::string(names[count][i]).substr(0, std::string(names[count][i]).find(' '));
        if (i < 2 || id != "Count") r += "PLY_ENUM_IDENTIFIER(" + id + ")\n";
    }
    o.both((layout ? "" : ind) + "};\n");
    if (where < 3) g.enums.push_back(r + "PLY_ENUM_END()\n\n");
}
static void switchStruct(Out& o, Gen& g, const Scope& s, u32 depth, const std::string& ind) {
    std::string n = fresh("W"), in1 = ind + "    ";
    Scope c = in(s, n, false);
    bool refl = mc::choose(2);
    u32 layout = mc::choose(3), old = mc::choose(2), ns = 1 + mc::choose(2);
    o.both(ind + "struct " + n + " {\n");
    bool first = mc::choose(2);
    std::string cmd = in1 + (refl ? "// ply make reflected switch\n" : "// ply make switch\n");
    if (first) o.both(cmd);
    Strs states;
    // the command comes before the states, or else the first isn't one
    if (!first) o.both(cmd);
    for (u32 i = 0; i < ns; i++) {
        std::string st = (i ? "St" : "First") + std::to_string(gN++);
        states.push_back(st);
        if (i == 0 && depth) {
            o.both(in1 + "struct " + st + " {\n");
            items(o, g, in(c, st, false), depth - 1, true, in1 + "    ");
            o.both(in1 + "};");
        } else o.both(in1 + "struct " + st + " { int v; };");
        if (i + 1 < ns) o.both("\n");
    }
    std::string file = "switch-" + c.dash + ".inl", line = "#include \"codegen/" + file + "\" //@@ply\n";
    if (layout == 0) { // the brace has a line of its own
        o.both("\n");
        if (old) o.given += line;
        o.want += line;
        o.both(ind + "}");
    } else if (layout == 1) { // the brace follows the last state
        o.given += " }";
        o.want += "\n" + line + in1 + " }";
    } else { // code follows the include
        o.both("\n");
        if (old) o.given += line;
        o.both(ind + "int after;");
        o.given += " }";
        o.want += "\n" + line + ind + " }";
    }
    o.both(mc::choose(2) ? ";\n" : "; // } end\n");
    std::string low;
    std::string t = "enum class ID : u16 {\n";
    auto lower = [](std::string x) { x[0] = (char) tolower(x[0]); return x; };
    for (auto& x : states) t += "    " + x + ",\n";
    t += "    Count,\n};\nunion Storage_ {\n";
    for (auto& x : states) t += "    " + x + " " + lower(x) + ";\n";
    t += "    PLY_INLINE Storage_() {}\n    PLY_INLINE ~Storage_() {}\n};\nSWITCH_FOOTER(" + n + ", " + states[0] + ")\n";
    for (auto& x : states) t += "SWITCH_ACCESSOR(" + x + ", " + lower(x) + ")\n";
    if (refl) t += "PLY_SWITCH_REFLECT()\n";
    g.inls[file] = t;
    std::string w = "SWITCH_TABLE_BEGIN(" + c.cls + ")\n";
    for (auto& x : states) w += "SWITCH_TABLE_STATE(" + c.cls + ", " + x + ")\n";
    w += "SWITCH_TABLE_END(" + c.cls + ")\n\n";
    if (refl) {
        w += "PLY_SWITCH_BEGIN(" + c.cls + ")\n";
        for (auto& x : states) w += "PLY_SWITCH_MEMBER(" + x + ")\n";
        w += "PLY_SWITCH_END()\n\n";
    }
    g.switches.push_back(w);
}
static void item(Out& o, Gen& g, const Scope& s, u32 depth, bool record, const std::string& ind) {
    switch (mc::choose(record ? 4 : depth ? 8 : 5)) {
        case 0: plain(o, g, s, depth, ind); break;
        case 1: switchStruct(o, g, s, depth, ind); break;
        case 2: enumeration(o, g, s, ind); break;
        case 3: include(o, ind); break;
        case 4: { // what isn't for the generator
            static const char* t[] = {"int x; // plywood, // ply reflect off\n", "/* // ply reflect off */ const char* y = \"// ply make switch\";\n", "#include <a.h> // @@ply\n", "void f() { /* PLY_REFLECT() */ }\n", "// %%end\nint z; //@@ply\n"};
            o.both(ind + t[mc::choose(5)]);
            break;
        }
        case 5: {
            std::string n = fresh("n");
            o.both(ind + "namespace " + n + " {\n");
            items(o, g, in(s, n, true), depth - 1, false, ind);
            o.both(ind + "}\n");
            break;
        }
        case 6:
            o.both(ind + "extern \"C\" {\n");
            items(o, g, s, depth - 1, false, ind);
            o.both(ind + "}\n");
            break;
        case 7: o.both(ind + "template <typename T>\n"); plain(o, g, s, depth - 1, ind); break;
    }
}
static int gDir;
static void world() {
    memfs::contain();
    memfs::reset();
    int ws = memfs::add(0, "nonexistent-ws", memfs::DIR_);
    int repos = memfs::add(ws, "repos", memfs::DIR_);
    gDir = memfs::add(repos, "r", memfs::DIR_);
    gN = 0;
}
static const std::string R = "/nonexistent-ws/repos/r/";
static void compare(const std::map<std::string, std::string>& want, const char* when, const std::string& given) {
    auto got = memfs::tree();
    std::map<std::string, std::string> files;
    for (auto& kv : got) if (kv.second[0] == 'f') files[kv.first] = kv.second.substr(1);
    for (auto& kv : want) {
        auto it = files.find(kv.first);
        MC_CHECK(it != files.end(), "%s: %s isn't written for:\n%s\n%s", when, kv.first.c_str(), given.c_str(), gOut.c_str());
        MC_CHECK(it->second == kv.second, "%s: %s is\n%s\ninstead of\n%s\nfor\n%s\n%s", when, kv.first.c_str(), it->second.c_str(), kv.second.c_str(), given.c_str(), gOut.c_str());
    }
    for (auto& kv : files) MC_CHECK(want.count(kv.first), "%s: %s is written:\n%s\nfor:\n%s", when, kv.first.c_str(), kv.second.c_str(), given.c_str());
}
static void expect(std::map<std::string, std::string>& w, const std::string& base, const Gen& g) {
    std::string t;
    for (auto& x : g.classes) t += x;
    for (auto& x : g.enums) t += x;
    for (auto& x : g.switches) t += x;
    if (!t.empty()) w[R + "codegen/" + base + ".inl"] = t;
    for (auto& kv : g.inls) w[R + "codegen/" + kv.first] = kv.second;
}
static std::string crlf(const std::string& s) { std::string r; for (char c : s) { if (c == '\n') r += '\r'; r += c; } return r; }
static std::vector<long> versions() { std::vector<long> v; for (auto& n : memfs::F.nodes) v.push_back(n.version); return v; }
static void runTwice(const std::map<std::string, std::string>& want, const std::string& given, const char* nl = "") {
    run(nl);
    compare(want, "once", given);
    auto v = versions();
    run(nl);
    compare(want, "again", given);
    MC_CHECK(v == versions(), "files are written again although nothing has changed: %s\n%s", gOut.c_str(), given.c_str());
    MC_CHECK(gOut.empty(), "\"%s\" is printed although nothing has changed for:\n%s", gOut.c_str(), given.c_str());
}
static void sources() {
    world();
    Out o;
    Gen g;
    o.both("// " + std::string(mc::choose(2) ? "x\n" : "ply-like, \xC3\xA9\n"));
    Scope s{};
    item(o, g, s, mc::pick(1, 2), false, "");
    std::map<std::string, std::string> want;
    memfs::add(gDir, "x.h", memfs::FILE_, o.given);
    want[R + "x.h"] = o.want;
    expect(want, "x", g);
    runTwice(want, o.given);
    mc::state(std::hash<std::string>()(o.want));
    if (want.size() > 1) mc::nontrivial();
}
static void neighbours() { // one item after another, on the way to the end of the file
    world();
    Out o;
    Gen g;
    Scope s{};
    for (u32 i = 0; i < 2; i++) {
        switch (mc::choose(5)) {
            case 0: { switchStruct(o, g, s, 0, ""); break; }
            case 1: include(o, ""); break;
            case 2: enumeration(o, g, s, ""); break;
            case 3: o.both("struct R" + std::to_string(i) + " {\n    PLY_REFLECT()\n    int q;\n    // ply reflect off\n};"); g.classes.push_back(reflected("R" + std::to_string(i), {"q"})); if (mc::choose(2)) o.both("\n"); break;
            case 4: o.both("int k" + std::to_string(i) + ";"); if (i == 0 || mc::choose(2)) o.both("\n"); break;
        }
    }
    if ((o.given.empty() || o.given.back() == '\n') && mc::choose(2)) o.given += "#include \"codegen/old.inl\" //@@ply";
    std::map<std::string, std::string> want;
    memfs::add(gDir, "x.h", memfs::FILE_, o.given);
    want[R + "x.h"] = o.want;
    expect(want, "x", g);
    runTwice(want, o.given);
    mc::state(std::hash<std::string>()(o.want));
    mc::nontrivial();
}
static void files() { // which files are read, and where the results go
    world();
    static const char* text = "struct Q {\n    PLY_REFLECT()\n    int q;\n    // ply reflect off\n};\n";
    static const char* names[] = {"a.h", "a.cpp", "a.modules.cpp", "a.inl", "Sort.h", "a.hpp", "a", "a.c", "b.x.h"};
    u32 mask = mc::choose(mc::pick(64, 512)), nocodegen = mc::choose(3), nl = mc::choose(3);
    if (!mc::tier() && nl) mask &= 7;
    std::map<std::string, std::string> want;
    auto conv = [&](const std::string& s) { return nl == 2 ? crlf(s) : s; };
    int sub = memfs::add(gDir, "sub", memfs::DIR_), other = memfs::add(gDir, "opengl-support", memfs::DIR_);
    for (u32 i = 0; i < 9; i++) {
        if (!(mask >> i & 1)) continue;
        memfs::add(sub, names[i], memfs::FILE_, nl ? crlf(text) : text);
        std::string n = names[i];
        bool read = (i == 0 || i == 1 || i == 8) && nocodegen == 0;
        want[R + "sub/" + n] = read ? conv(text) : nl ? crlf(text) : text;
        if (read) {
            std::string& w = want[R + "sub/codegen/" + (i == 8 ? "b.x" : "a") + ".inl"];
            std::string one = conv(reflected("Q", {"q"}));
            w += one;
        }
    }
    memfs::add(other, "a.h", memfs::FILE_, text);
    want[R + "opengl-support/a.h"] = text;
    if (nocodegen) {
        memfs::add(nocodegen == 1 ? sub : gDir, "nocodegen", memfs::FILE_, "");
        want[nocodegen == 1 ? R + "sub/nocodegen" : R + "nocodegen"] = "";
    }
    runTwice(want, std::to_string(mask), nl == 2 ? "crlf" : nl == 1 ? "lf" : "");
    mc::state(mask * 9 + nocodegen * 3 + nl);
}
static void misuse() { // every misuse is reported at its place, and leaves the file alone
    world();
    struct Bad { const char* text; const char* msg; };
    static const Bad bads[] = {
        {"void f() {\n@// ply reflect off\n}\n", "command can only be used at declaration scope"},
        {"@// ply reflect off\n", "unexpected // ply reflect off"},
        {"struct S {\n@PLY_REFLECT()\nint a;\n};\n", "can't find matching // ply reflect off"},
        {"struct S {\nint a;\n@// ply reflect off\n};\n", "unexpected // ply reflect off"},
        {"struct S {\nPLY_REFLECT()\nint a;\n@PLY_REFLECT()\n// ply reflect off\n};\n", "duplicate command"},
        {"struct S {\nPLY_REFLECT()\nint a;\n// ply reflect off\n@PLY_REFLECT()\n};\n", "duplicate command"},
        {"@PLY_REFLECT()\n", "command can only be used inside a class or struct"},
        {"namespace N {\n@PLY_REFLECT()\n}\n", "command can only be used inside a class or struct"},
        {"union U {\n@PLY_REFLECT()\n};\n", "command can only be used inside a class or struct"},
        {"@// ply make switch\n", "command can only be used inside a class or struct"},
        {"union U {\n@// ply make switch\n};\n", "command can only be used inside a class or struct"},
        {"struct W {\n// ply make switch\nstruct A {};\n@// ply make reflected switch\n};\n", "duplicate command"},
        {"struct W {\n@// ply make switch\nunion A {};\nstruct B {};\n};\n", "a switch may only contain structs"},
        {"struct W {\n@// ply make switch\n};\n", "a switch must contain at least one struct"},
        {"struct W {\nint x;\nenum E {};\n// ply make switch\nstruct V {\n@// ply make reflected switch\n};\n};\n", "a switch must contain at least one struct"},
        {"@// ply reflect enum\n", "command can only be used inside an enum"},
        {"struct S {\n@// ply reflect enum\n};\n", "command can only be used inside an enum"},
        {"enum E {\n// ply reflect enum\nA,\n@// ply reflect enum\n};\n", "duplicate command"},
        {"@// ply reflect on\n", "unrecognized command"},
        {"struct S {\n    @// ply make Switch\n};\n", "unrecognized command"},
        {"enum E { A, @// ply reflect enums\n};\n", "unrecognized command"},
        {"struct S {\nint a = @PLY_REFLECT() 4;\n};\n", "command can only be used at declaration scope"},
        {"struct S {\nint a @// ply make switch\n;\n};\n", "command can only be used at declaration scope"},
        {"struct S {\nPLY_REFLECT()\nint a @// ply reflect off\n;\n// ply reflect off\n};\n", "command can only be used at declaration scope"},
    };
    static const u32 n = sizeof bads / sizeof *bads;
    const Bad& b = bads[mc::choose(n)];
    static const char* around[] = {"", "int k;\n", "struct W0 {\n// ply make switch\nstruct A {};\n};\n", "#include \"codegen/y.inl\" //@@ply\n"};
    std::string pre = around[mc::choose(4)], post = around[mc::choose(4)], text = b.text;
    size_t at = text.find('@');
    text.erase(at, 1);
    std::string full = pre + text + post;
    at += pre.size();
    u32 line = 1 + std::count(full.begin(), full.begin() + at, '\n');
    size_t ls = full.rfind('\n', at - 1);
    u32 col = at == 0 ? 1 : ls == std::string::npos ? at + 1 : at - ls;
    memfs::add(gDir, "x.h", memfs::FILE_, full);
    memfs::add(gDir, "y.h", memfs::FILE_, "struct Q {\nPLY_REFLECT()\nint q;\n// ply reflect off\n};\n");
    run();
    if (b.msg) {
        std::string loc = R + "x.h(" + std::to_string(line) + ", " + std::to_string(col) + "): error: " + b.msg;
        if (full.compare(at, 4, "PLY_") == 0) // a macro is anywhere on its line
            for (col = 0; col < 80 && gOut.find(loc) == std::string::npos; col++) loc = R + "x.h(" + std::to_string(line) + ", " + std::to_string(col) + "): error: " + b.msg;
        MC_CHECK(gOut.find(loc) != std::string::npos, "\"%s\" isn't reported but\n%s\nfor:\n%s", loc.c_str(), gOut.c_str(), full.c_str());
        std::string now = memfs::tree()[R + "x.h"].substr(1);
        MC_CHECK(now == full, "a file with errors becomes\n%s\nfrom\n%s", now.c_str(), full.c_str());
    } else MC_CHECK(gOut.find("error") == std::string::npos, "\"%s\" is reported for\n%s", gOut.c_str(), full.c_str());
    auto t = memfs::tree();
    MC_CHECK(t[R + "codegen/y.inl"] == "f" + reflected("Q", {"q"}), "the next file gives \"%s\"", t[R + "codegen/y.inl"].c_str());
    mc::state(std::hash<std::string>()(full));
}
// No sequence of commands and braces crashes it, and what is accepted is stable
static void soup() {
    static const char* words[] = {"struct S {", "}", ";", "PLY_REFLECT()", "// ply reflect off\n", "// ply make switch\n", "// ply reflect enum\n", "enum E {", "A", "#include \"x\" //@@ply\n", "struct A {};", "namespace N {", "\n", ","};
    const u32 W = sizeof words / sizeof *words;
    u32 n = mc::pick(3, 4);
    std::string pre;
    for (u32 i = 0; i < n; i++) pre += std::string(words[mc::choose(W)]) + " ";
    for (u32 last = 0; last < W * W; last++) {
        world();
        std::string full = pre + words[last / W] + " " + words[last % W];
        int f = memfs::add(gDir, "x.h", memfs::FILE_, full);
        mc::casef("%s", full.c_str());
        run();
        std::string once = memfs::F.nodes[f].data;
        bool err = gOut.find("error") != std::string::npos;
        if (err) {
            MC_CHECK(once == full, "a file with errors is changed: %s", full.c_str());
        } else {
            run();
            int f2 = memfs::F.nodes[gDir].kids["x.h"];
            MC_CHECK(memfs::F.nodes[f2].data == memfs::tree()[R + "x.h"].substr(1), "?");
            MC_CHECK(gOut.empty(), "\"%s\" is printed the second time for: %s", gOut.c_str(), full.c_str());
        }
    }
    mc::state(std::hash<std::string>()(pre));
}
MC_SCENARIOS = {{"sources", sources, mc::LEAKS, "one declaration of every kind, with others inside"},
                {"neighbours", neighbours, mc::LEAKS, "declarations and old includes one after another, up to the end of the file"},
                {"files", files, mc::LEAKS, "which files are read and where the results go"},
                {"misuse", misuse, mc::LEAKS, "commands in the wrong place"},
                {"sequences", soup, mc::LEAKS, "every short sequence of commands, braces and includes"},
                MC_END};
