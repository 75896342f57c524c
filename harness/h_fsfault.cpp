// Every file-system operation with every system call failing, short or interrupted, and with the
// process stopped after every modifying call.
#include "memfs.h"
#include <ply-runtime/filesystem/FileSystem.h>
using memfs::F;
typedef std::map<std::string, std::string> Tree;
static const char* rname(FSResult r) { static const char* n[] = {"Unknown", "NotFound", "Locked", "AccessDenied", "OK", "AlreadyExists", "Unchanged"}; return n[(int) r]; }
static FileSystem* fs() { return FileSystem::native(); }
static const std::string old = "the old contents", fresh = "new contents, which are longer than the old ones were";

static void start() {
    memfs::contain();
    memfs::reset();
    int r = memfs::add(0, "r", memfs::DIR_);
    F.cwd = r;
    int a = memfs::add(r, "a", memfs::DIR_);
    memfs::add(a, "f", memfs::FILE_, old);
    memfs::add(a, "g", memfs::FILE_, fresh);
    int d = memfs::add(a, "d", memfs::DIR_);
    memfs::add(d, "x", memfs::FILE_, "x");
    memfs::add(d, "l", memfs::LINK_, "../f");
    memfs::add(r, "b", memfs::FILE_, "b");
}
static const int NOPS = 15;
struct Result { FSResult r; std::string text; const char* name; };
static Result run(int op) {
    switch (op) {
        case 0: return {fs()->makeDir("n"), "", "makeDir"};
        case 1: return {fs()->makeDirs("a/n/o"), "", "makeDirs"};
        case 2: { Owned<OutPipe> p = fs()->openPipeForWrite("a/f"); FSResult r = fs()->lastResult(); if (p) r = p->write(view(fresh)) ? r : FSResult::Unknown; return {r, "", "write"}; }
        case 3: return {fs()->makeDirsAndSaveBinaryIfDifferent("a/f", view(fresh)), "", "makeDirsAndSaveBinaryIfDifferent"};
        case 4: return {fs()->makeDirsAndSaveTextIfDifferent("a/f", view(fresh), TextFormat::unixUTF8()), "", "makeDirsAndSaveTextIfDifferent"};
        case 5: return {fs()->makeDirsAndSaveBinaryIfDifferent("a/n/o/f", view(fresh)), "", "makeDirsAndSaveBinaryIfDifferent of a new file"};
        case 6: return {fs()->makeDirsAndSaveBinaryIfDifferent("a/g", view(fresh)), "", "makeDirsAndSaveBinaryIfDifferent of the same contents"};
        case 7: { String s = fs()->loadBinary("a/f"); return {fs()->lastResult(), str(s), "loadBinary"}; }
        case 8: return {fs()->moveFile("a/f", "b"), "", "moveFile"};
        case 9: return {fs()->deleteFile("a/f"), "", "deleteFile"};
        case 10: return {fs()->removeDirTree("a"), "", "removeDirTree"};
        case 11: { FileStatus st = fs()->getFileStatus("a/f"); MC_CHECK(st.result == fs()->lastResult(), "getFileStatus returns %s, but lastResult() is %s", rname(st.result), rname(fs()->lastResult())); return {st.result, std::to_string(st.fileSize), "getFileStatus"}; }
        case 12: return {fs()->setWorkingDirectory("a"), "", "setWorkingDirectory"};
        case 13: {
            std::string s; FSResult worst = FSResult::OK;
            u32 flags = choose(4);
            Directory dir = fs()->listDir("a", flags);
            if (fs()->lastResult() != FSResult::OK) worst = fs()->lastResult();
            std::vector<std::string> v;
            auto it = dir.begin();
            while (it != dir.end()) {
                v.push_back(str((*it).name) + ((*it).isDir ? "/ " : " "));
                ++it;
                if (fs()->lastResult() != FSResult::OK && worst == FSResult::OK) worst = fs()->lastResult();
            }
            std::sort(v.begin(), v.end());
            for (auto& k : v) s += k;
            return {worst, s, "listDir"};
        }
        default: {
            String s = fs()->getWorkingDirectory();
            return {fs()->lastResult(), str(s), "getWorkingDirectory"};
        }
    }
}
static void faults() {
    int op = choose(NOPS), nf = choose(pick(3, 4));
    F.dtUnknown = choose(2);
    start();
    Tree before = memfs::tree(), done;
    Result good;
    { // without faults
        memfs::FS keep = F;
        good = run(op);
        done = memfs::tree();
        F = keep;
    }
    MC_LOG("%s, %d calls may fail", good.name, nf);
    F.faults = nf; F.shorts = pick(1, 2); F.interrupts = op == 7 || op == 2 || op == 3 ? 1 : 0;
    long cwd = F.cwd;
    Result got = run(op);
    bool failed = !F.failed.empty();
    if (failed) mc::nontrivial();
    Tree after = memfs::tree();
    std::string which; for (auto& f : F.failed) which += (which.empty() ? "" : ", ") + f;
    mc::state(hstr(memfs::show(after), hstr(which) + op));
    MC_LOG("-> %s, %s", rname(got.r), memfs::show(after).c_str());
    mc::casef("%s fails in %s", which.c_str(), got.name);
    MC_CHECK(F.fds.empty() && F.dirs.empty(), "%s left %zu descriptors open after %s failed", got.name, F.fds.size() + F.dirs.size(), which.c_str());
    bool says = got.r == FSResult::OK || got.r == FSResult::Unchanged || (op == 1 && got.r == FSResult::AlreadyExists);
    if (!failed) MC_CHECK(got.r == good.r && after == done && got.text == good.text, "%s without failures gives %s and %s", got.name, rname(got.r), memfs::show(after).c_str());
    if (says) { // then it has taken full effect
        bool full = after == done && got.text == good.text && (op != 12 || F.cwd != cwd);
        if (op == 6 && got.r == FSResult::OK) full = after == done; // could not compare, wrote it again
        MC_CHECK(full, "%s reports %s, although %s failed and the tree is %s (%s)", got.name, rname(got.r), which.c_str(), memfs::show(after).c_str(), esc(got.text).c_str());
    } else {
        if (op == 7 || op == 14) MC_CHECK(got.text.empty(), "%s failed and gives \"%s\"", got.name, esc(got.text).c_str());
        if (op == 12) MC_CHECK(F.cwd == cwd, "%s failed but took effect", got.name);
        // whatever was saved before is still there, complete
        if (op != 2 && op != 10) for (auto& k : before) if (k.second[0] == 'f') {
            bool there = after.count(k.first) && (after[k.first] == k.second || (k.first == "/r/a/f" && op >= 3 && op <= 4 && after[k.first] == "f" + fresh));
            MC_CHECK(there, "%s failed (%s) and %s is lost: %s", got.name, which.c_str(), k.first.c_str(), memfs::show(after).c_str());
        }
        // no litter, unless removing it failed as well
        bool cleanup = std::count(F.failed.begin(), F.failed.end(), "unlink") > 0;
        for (auto& k : after) MC_CHECK(cleanup || before.count(k.first) || k.second == "d", "%s failed (%s) and left %s", got.name, which.c_str(), k.first.c_str());
    }
    F = memfs::FS{};
}
// Nothing that exists() and the loaders say is a lie when the calls below them fail
static void reading() {
    int op = choose(3), nf = 1 + choose(3);
    start();
    F.faults = nf; F.shorts = 2; F.interrupts = 1;
    std::string text; FSResult r;
    if (op == 0) {
        ExistsResult x = fs()->exists("a/f");
        MC_CHECK(x == ExistsResult::File || !F.failed.empty(), "exists() says %d", (int) x);
        F = memfs::FS{};
        return;
    }
    if (op == 1) text = str(fs()->loadText("a/f", TextFormat::unixUTF8())); else text = str(fs()->loadTextAutodetect("a/f").first);
    r = fs()->lastResult();
    mc::nontrivial(); mc::step();
    MC_LOG("-> %s \"%s\"", rname(r), esc(text).c_str());
    MC_CHECK(F.fds.empty(), "a descriptor is left open");
    bool readFailed = std::count(F.failed.begin(), F.failed.end(), "read") > 0;
    mc::state(hstr(text, (int) r));
    const char* fn = op == 1 ? "loadText" : "loadTextAutodetect";
    if (readFailed && text.size() < old.size() && old.compare(0, text.size(), text) == 0) mc::casef("%s after a failed read gives the text before it", fn);
    else mc::casef("%s gives \"%s\"", fn, esc(text).c_str());
    if (r == FSResult::OK) MC_CHECK(text == old, "%s gives \"%s\" and reports OK although %s failed", op == 1 ? "loadText" : "loadTextAutodetect", esc(text).c_str(), readFailed ? "read" : "something");
    else MC_CHECK(!F.failed.empty() && text.empty(), "the load fails without reason or returns \"%s\"", esc(text).c_str());
    F = memfs::FS{};
}
// The process stops after any number of modifying calls; a write may be torn
static void crashes() {
    int op = 3 + choose(3);
    int after = choose(8);
    start();
    Tree before = memfs::tree();
    F.crashAfter = after;
    F.shorts = 1;
    FSResult r = run(op).r;
    Tree t = memfs::tree();
    mc::nontrivial(); mc::step();
    std::string path = op == 5 ? "/r/a/n/o/f" : "/r/a/f";
    mc::state(hstr(memfs::show(t), op));
    bool full = t.count(path) && t[path] == "f" + fresh;
    if (F.mods <= after) MC_CHECK(r == FSResult::OK && full, "saving without a crash reports %s", rname(r));
    MC_LOG("stopped after %d calls: %s", after, memfs::show(t).c_str());
    for (auto& k : before) if (k.first != path) MC_CHECK(t.count(k.first) && t[k.first] == k.second, "%s is changed", k.first.c_str());
    bool unchanged = before.count(path) ? (t.count(path) && t[path] == before[path]) : !t.count(path);
    MC_CHECK(full || unchanged, "when saving stops after %d changes, %s is %s", after, path.c_str(), memfs::show(t).c_str());
    F = memfs::FS{};
}
MC_SCENARIOS = {
    {"faults", faults, mc::LEAKS, "every operation with every combination of failing calls"},
    {"reading", reading, mc::LEAKS, "loading text with failing reads"},
    {"crashes", crashes, mc::LEAKS, "saving stopped after every change, writes torn"},
    MC_END};
