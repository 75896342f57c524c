// A virtual file system: every short path given to every operation reaches nothing outside its root.
#include "memfs.h"
#include <ply-runtime/filesystem/FileSystem.h>
using memfs::F;
typedef std::map<std::string, std::string> Tree;
static const char* rname(FSResult r) { static const char* n[] = {"Unknown", "NotFound", "Locked", "AccessDenied", "OK", "AlreadyExists", "Unchanged"}; return n[(int) r]; }
static int root;
static const char* rootPaths[] = {"v", "/r/v", "./v/", "x/../v"};
static void start() {
    memfs::contain();
    memfs::reset();
    int r = memfs::add(0, "r", memfs::DIR_);
    F.cwd = r;
    memfs::add(r, "a", memfs::FILE_, "outside");
    int o = memfs::add(r, "d", memfs::DIR_); memfs::add(o, "a", memfs::FILE_, "outside");
    memfs::add(r, "vv", memfs::FILE_, "outside");
    memfs::add(0, "a", memfs::FILE_, "outside");
    root = memfs::add(r, "v", memfs::DIR_);
    memfs::add(root, "a", memfs::FILE_, "inside");
    int d = memfs::add(root, "d", memfs::DIR_); memfs::add(d, "a", memfs::FILE_, "inside d");
}
// Where a path leads from a directory, by name only: empty if above it
static bool inside(const std::string& p) {
    if (!p.empty() && p[0] == '/') return false;
    int depth = 0; std::string c;
    for (char ch : p + "/") {
        if (ch != '/') { c += ch; continue; }
        if (c == "..") { if (--depth < 0) return false; } // even if it comes back: see clean()
        else if (!c.empty() && c != ".") depth++;
        c.clear();
    }
    return true;
}
// The same path without "." and ".."
static bool clean(const std::string& p, std::string& out) {
    std::vector<std::string> v; std::string c; int up = 0;
    for (char ch : p + "/") {
        if (ch != '/') { c += ch; continue; }
        if (c == "..") { if (v.empty()) up++; else v.pop_back(); }
        else if (!c.empty() && c != ".") { v.push_back(c); }
        c.clear();
    }
    out.clear();
    for (auto& s : v) out += (out.empty() ? "" : "/") + s;
    if (out.empty()) out = ".";
    if (p.empty() || p.back() == '/') out += "/";
    return up == 0;
}
static std::string chooseVPath(int n) {
    std::string p = std::vector<std::string>{"", "/"}[choose(2)];
    int k = choose(n + 1);
    for (int i = 0; i < k; i++) { if (i) p += "/"; p += std::vector<std::string>{"a", "d", "..", ".", "new", "r", "v"}[choose(7)]; }
    if (k && choose(2)) p += "/";
    return p;
}
// What an operation did: its result, what it returned, what the tree became
struct Did { std::string r; Tree t; };
static Did run(FileSystem* fs, int op, const std::string& p, const std::string& q) {
    std::string s;
    HeapBytes P_{p}, Q_{q};
    StringView P = P_.view(), Q = Q_.view();
    FileSystem::setLastResult(FSResult::OK);
    auto code = [&](FSResult r) { return std::string(rname(r)); };
    switch (op) {
        case 0: s = code(fs->makeDir(P)); break;
        case 1: s = code(fs->makeDirs(P)); break;
        case 2: { auto o = fs->openPipeForWrite(P); s = code(fs->lastResult()) + (o ? " opened" : ""); if (o) o->write("written"); break; }
        case 3: s = code(fs->makeDirsAndSaveBinaryIfDifferent(P, "saved")); break;
        case 4: s = str(fs->loadBinary(P)); s = code(fs->lastResult()) + " " + s; break;
        case 5: s = code(fs->deleteFile(P)); break;
        case 6: s = code(fs->removeDirTree(P)); break;
        case 7: { FileStatus st = fs->getFileStatus(P); s = code(st.result) + std::to_string(st.fileSize); break; }
        case 8: s = std::to_string((int) fs->exists(P)) + std::to_string((int) fs->isDir(P)); break;
        case 9: { std::set<std::string> v; for (auto& e : fs->listDir(P)) v.insert(str(e.name) + (e.isDir ? "/" : "")); s = code(fs->lastResult()); for (auto& k : v) s += " " + k; break; }
        case 10: { std::string v; int n = 0; for (auto& t : fs->walk(P)) { if (++n > 9) break; v += " (" + std::to_string(t.dirNames.numItems()) + "," + std::to_string(t.files.numItems()) + ")"; } s = code(fs->lastResult()) + v; break; }
        case 11: s = str(fs->loadTextAutodetect(P).first); s = code(fs->lastResult()) + " " + s; break;
        case 12: s = code(fs->moveFile(P, Q)); break;
    }
    MC_CHECK(F.fds.empty() && F.dirs.empty(), "a descriptor is left open");
    return {s, memfs::tree()};
}
static void ops() {
    int op = choose(13);
    std::string p = chooseVPath(op == 12 ? pick(2, 3) : pick(4, 5)), q = op == 12 ? chooseVPath(pick(2, 3)) : "";
    const char* rp = rootPaths[op == 12 ? 1 : choose(4)];
    start();
    Tree before = memfs::tree();
    std::string cp, cq, desc = "operation " + std::to_string(op) + " on \"" + p + (op == 12 ? "\", \"" + q : "") + "\"";
    bool in = clean(p, cp), in2 = clean(q, cq);
    in = in && (p.empty() || p[0] != '/'); if (op == 12) in = in && in2 && (q.empty() || q[0] != '/');
    MC_LOG("%s below \"%s\" (%s)", desc.c_str(), rp, in ? "inside" : "outside");
    mc::casef("%s", desc.c_str());
    Owned<FileSystem> v = FileSystem::native()->createVirtual(rp);
    Did did = run(v, op, p, q);
    mc::step(); mc::nontrivial(); mc::state(hstr(did.r + memfs::show(did.t)));
    MC_LOG("-> %s, %s", did.r.c_str(), memfs::show(did.t).c_str());
    MC_CHECK(did.r.find("outside") == std::string::npos, "%s read what is outside the root: %s", desc.c_str(), did.r.c_str());
    for (auto& k : before) if (k.first.compare(0, 4, "/r/v") || (k.first.size() > 4 && k.first[4] != '/')) MC_CHECK(did.t.count(k.first) && did.t[k.first] == k.second, "%s changed %s", desc.c_str(), k.first.c_str());
    for (auto& k : did.t) MC_CHECK(before.count(k.first) || !k.first.compare(0, 5, "/r/v/"), "%s made %s", desc.c_str(), k.first.c_str());
    if (!in) {
        MC_CHECK(did.t == before, "%s changed the tree to %s", desc.c_str(), memfs::show(did.t).c_str());
        if (op != 8) {
            MC_CHECK(did.r.compare(0, 2, "OK") && did.r.compare(0, 9, "Unchanged") && did.r.compare(0, 13, "AlreadyExists"), "%s reports %s", desc.c_str(), did.r.c_str());
            MC_CHECK(did.r.find("inside") == std::string::npos && did.r.find("opened") == std::string::npos, "%s gives %s", desc.c_str(), did.r.c_str());
        } else MC_CHECK(did.r == "00", "%s gives %s", desc.c_str(), did.r.c_str());
        F = memfs::FS{};
        return;
    }
    // the same as on the underlying file system
    start();
    F.cwd = root;
    auto under = [](const std::string& c) { return c == "./" || c == "." ? "/r/v" + c.substr(1) : c; };
    if ((op == 0 || op == 1 || op == 6 || op == 12) && (cp[0] == '.' || (op == 12 && cq[0] == '.'))) { F = memfs::FS{}; return; } // the root itself
    if (op == 10 && p.empty()) { F = memfs::FS{}; return; } // nothing to walk
    if ((op == 1 || op == 3) && ("/" + p + "/").find("/.") != p.npos) { F = memfs::FS{}; return; } // these make each directory as it is written, "x/../y" makes x
    Did same = run(FileSystem::native(), op, under(cp), op == 12 ? under(cq) : "");
    // makeDirs goes through a path as written, so "new/." finds what it has just made
    bool made = op == 1 && p != cp && (did.r == "AlreadyExists" || did.r == "OK") && (same.r == "AlreadyExists" || same.r == "OK");
    MC_CHECK(same.r == did.r || made, "%s gives \"%s\", the underlying file system \"%s\"", desc.c_str(), did.r.c_str(), same.r.c_str());
    MC_CHECK(same.t == did.t, "%s leaves %s, the underlying file system %s", desc.c_str(), memfs::show(did.t).c_str(), memfs::show(same.t).c_str());
    F = memfs::FS{};
}
MC_SCENARIOS = {
    {"ops", ops, mc::LEAKS, "every operation with every short path"},
    MC_END};
