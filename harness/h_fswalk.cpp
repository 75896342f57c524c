// Walking and removing directory trees of every small shape, with links and odd names.
#include "memfs.h"
#include <ply-runtime/filesystem/FileSystem.h>
using memfs::F;
typedef std::map<std::string, std::string> Tree;
static FileSystem* fs() { return FileSystem::native(); }
static const char* rname(FSResult r) { static const char* n[] = {"Unknown", "NotFound", "Locked", "AccessDenied", "OK", "AlreadyExists", "Unchanged"}; return n[(int) r]; }
static const char* names[] = {"a", ".b", "..c", "d e\xff", "..."};
static const char* targets[] = {"../out", "..", ".", "nowhere", "../out/f", "a"};
// Fills a directory in every way; returns how many entries were used
static void fillDir(int dir, int depth, int& budget, int kinds) {
    for (int i = 0; i < (int) (sizeof names / sizeof *names) && budget > 0; i++) {
        int k = choose(1 + kinds + (depth > 0));
        if (k == 0) return; // no more entries here
        budget--;
        if (k == 1) memfs::add(dir, names[i], memfs::FILE_, "x");
        else if (kinds > 1 && k == 2) memfs::add(dir, names[i], memfs::LINK_, targets[choose(6)]);
        else fillDir(memfs::add(dir, names[i], memfs::DIR_), depth - 1, budget, kinds);
    }
}
static int top; // the tree under test
static std::string start(int budget, int kinds, bool walking = true) {
    memfs::contain();
    F.dtUnknown = choose(2);
    memfs::reset();
    int r = memfs::add(0, "r", memfs::DIR_);
    F.cwd = r;
    int out = memfs::add(r, "out", memfs::DIR_);
    memfs::add(out, "f", memfs::FILE_, "precious");
    int out2 = memfs::add(out, "d", memfs::DIR_);
    memfs::add(out2, "t", memfs::DIR_); // where a careless normalization of l/../t leads: nowhere near
    memfs::add(out2, "g", memfs::FILE_, "precious");
    memfs::add(r, "l", memfs::LINK_, "out/d"); // l/../t is out/t
    memfs::add(r, "back", memfs::LINK_, "/r");
    static const char* paths[] = {"t", "./t", "t/", "/r/t", "back/t", "out/../t", "l/../t", "t/."};
    int which = choose(8);
    if (which == 6) { top = memfs::add(out, "t", memfs::DIR_); int d = memfs::add(r, "t", memfs::DIR_); memfs::add(d, "a", memfs::FILE_, "precious"); }
    else top = memfs::add(r, "t", memfs::DIR_);
    if (which == 6 && walking) { budget = 1; kinds = 1; } // a known finding
    fillDir(top, 2, budget, kinds);
    return paths[which];
}
static void remove_() {
    std::string p = start(pick(3, 4), 2, false);
    if (p == "t/.") p = "t";
    Tree before = memfs::tree(), want;
    std::string at = memfs::pathOf(top);
    for (auto& k : before) if (k.first != at && k.first.compare(0, at.size() + 1, at + "/") != 0) want.insert(k);
    mc::nontrivial(); mc::step(); mc::state(hstr(memfs::show(before) + p));
    MC_LOG("removeDirTree(\"%s\") in %s", p.c_str(), memfs::show(before).c_str());
    HeapBytes hb{p};
    FSResult r = fs()->removeDirTree(hb.view());
    Tree got = memfs::tree();
    MC_CHECK(got == want, "removing \"%s\" leaves %s instead of %s", p.c_str(), memfs::show(got).c_str(), memfs::show(want).c_str());
    MC_CHECK(r == FSResult::OK && fs()->lastResult() == r, "removing \"%s\" reports %s", p.c_str(), rname(r));
    MC_CHECK(F.dirs.empty() && F.fds.empty(), "removing leaves descriptors open");
    F = memfs::FS{};
}
static void removeLink() {
    start(0, 1);
    std::string p = std::vector<std::string>{"l", "back", "broken", "out/f"}[choose(4)];
    memfs::add(F.cwd, "broken", memfs::LINK_, "nowhere");
    Tree before = memfs::tree();
    mc::nontrivial(); mc::step(); mc::state(hstr(p));
    MC_LOG("removeDirTree(\"%s\")", p.c_str());
    FSResult r = fs()->removeDirTree(view(p));
    MC_CHECK(memfs::tree() == before && r != FSResult::OK, "removing the %s \"%s\" as a tree reports %s and leaves %s", p == "out/f" ? "file" : "link", p.c_str(), rname(r), memfs::show(memfs::tree()).c_str());
    F = memfs::FS{};
}
static void walkTree(int mode) { // 0 all, 1 prune, 2 reorder, 3 stop early
    std::string p = start(mode == 0 ? pick(3, 4) : pick(4, 5), mode == 0 ? 2 : 1);
    u32 flags = mode == 0 ? choose(4) : 0;
    Tree before = memfs::tree();
    mc::nontrivial(); mc::state(hstr(memfs::show(before) + p, mode));
    MC_LOG("walk(\"%s\") in %s", p.c_str(), memfs::show(before).c_str());
    if (p == "l/../t") mc::casef("walk from l/../t where l is a link"); else mc::casef("walk(\"%s\") in %s", p.c_str(), memfs::show(before).c_str());
    std::set<int> visited, expected{top};
    std::vector<int> order, wantOrder;
    HeapBytes hb{p};
    std::vector<std::vector<int>> stack{{top}}; // the directories still to visit, in depth-first order
    int n = 0, stop = mode == 3 ? choose(4) : -1;
    {
        FileSystem::Walk w = fs()->walk(hb.view(), flags);
        auto it = w.begin();
        MC_CHECK(fs()->lastResult() == FSResult::OK, "walk(\"%s\") reports %s", p.c_str(), rname(fs()->lastResult()));
        for (; it != w.end(); ++it) {
            mc::step();
            WalkTriple& t = *it;
            std::string dp = str(t.dirPath);
            memfs::Loc L; { auto keep = F; L = memfs::resolve(dp.c_str(), true); F = keep; }
            MC_CHECK(!L.err, "the walk visits \"%s\", which does not exist", esc(dp).c_str());
            MC_LOG("  %s", esc(dp).c_str());
            while (!stack.empty() && stack.back().empty()) stack.pop_back();
            MC_CHECK(!stack.empty(), "the walk goes on to \"%s\" after the end", esc(dp).c_str());
            int want = stack.back().front();
            MC_CHECK(L.node == want, "the walk visits \"%s\" instead of \"%s\"", esc(memfs::pathOf(L.node)).c_str(), esc(memfs::pathOf(want)).c_str());
            stack.back().erase(stack.back().begin());
            std::map<std::string, int> dirs, files;
            for (auto& k : F.nodes[L.node].kids) (F.nodes[k.second].kind == memfs::DIR_ ? dirs : files)[k.first] = k.second;
            size_t nd = 0, nf = 0;
            for (auto& d : t.dirNames) { MC_CHECK(dirs.count(str(d)), "\"%s\" is listed as a directory in \"%s\"", esc(str(d)).c_str(), esc(dp).c_str()); nd++; }
            std::set<std::string> seen;
            for (auto& f : t.files) {
                MC_CHECK(files.count(str(f.name)) && seen.insert(str(f.name)).second, "\"%s\" is listed as a file in \"%s\"", esc(str(f.name)).c_str(), esc(dp).c_str());
                nf++;
                auto& N = F.nodes[files[str(f.name)]];
                if (N.kind == memfs::FILE_) MC_CHECK(!(flags & 1) || f.fileSize == N.data.size(), "\"%s\" has the wrong size", esc(str(f.name)).c_str());
                if (N.kind == memfs::FILE_) MC_CHECK(!(flags & 2) || f.modificationTime == 1000000 + N.version, "\"%s\" has the wrong time", esc(str(f.name)).c_str());
            }
            MC_CHECK(nd == dirs.size() && nf == files.size(), "\"%s\" lists %zu directories and %zu files instead of %zu and %zu", esc(dp).c_str(), nd, nf, dirs.size(), files.size());
            if (mode == 1) for (u32 i = 0; i < t.dirNames.numItems();) { if (choose(2)) t.dirNames.erase(i); else i++; }
            if (mode == 2 && t.dirNames.numItems() > 1) { if (choose(2)) { String s = std::move(t.dirNames[0]); t.dirNames[0] = std::move(t.dirNames.back()); t.dirNames.back() = std::move(s); } }
            std::vector<int> next;
            for (auto& d : t.dirNames) next.push_back(dirs[str(d)]);
            stack.push_back(next);
            if (++n == stop) break;
        }
        if (n != stop) {
            while (!stack.empty() && stack.back().empty()) stack.pop_back();
            MC_CHECK(stack.empty(), "the walk ends before \"%s\"", esc(memfs::pathOf(stack.back().front())).c_str());
        }
    }
    MC_CHECK(memfs::tree() == before, "walking changed the tree to %s", memfs::show(memfs::tree()).c_str());
    MC_CHECK(F.dirs.empty(), "walking leaves directories open");
    F = memfs::FS{};
}
static void walkAll() { walkTree(0); }
static void walkPrune() { walkTree(1); }
static void walkReorder() { walkTree(2); }
static void walkStop() { walkTree(3); }
static void walkNothing() {
    start(1, 1);
    std::string p = std::vector<std::string>{"", "none", "out/f", "none/x", "nowhere/"}[choose(5)];
    mc::nontrivial(); mc::step(); mc::state(hstr(p));
    int n = 0, files = 0;
    for (WalkTriple& t : fs()->walk(view(p))) { n++; files += t.files.numItems() + t.dirNames.numItems(); MC_CHECK(n < 3, "walk(\"%s\") does not end", p.c_str()); }
    FSResult r = fs()->lastResult();
    MC_CHECK(n <= 1 && files == 0, "walk(\"%s\") visits %d directories and lists %d entries", p.c_str(), n, files);
    MC_CHECK(F.dirs.empty(), "walking leaves directories open");
    F = memfs::FS{};
}
// Walking while calls fail: terminates, closes everything, and never lists what is not there
static void walkFaults() {
    std::string p = start(pick(2, 3), 1);
    F.faults = pick(1, 2);
    u32 flags = choose(2) ? 3 : 0;
    if (p == "l/../t") mc::casef("walk from l/../t where l is a link"); else mc::casef("walk(\"%s\") with faults", p.c_str());
    std::set<int> visited; int n = 0;
    for (WalkTriple& t : fs()->walk(view(p), flags)) {
        MC_CHECK(++n < 20, "the walk does not end");
        memfs::Loc L; { auto keep = F; F.faults = 0; L = memfs::resolve(str(t.dirPath).c_str(), true); F = keep; }
        MC_CHECK(!L.err && visited.insert(L.node).second, "the walk visits \"%s\" twice or it does not exist", esc(str(t.dirPath)).c_str());
        for (auto& d : t.dirNames) MC_CHECK(F.nodes[L.node].kids.count(str(d)), "\"%s\" is not there", esc(str(d)).c_str());
        for (auto& f : t.files) MC_CHECK(F.nodes[L.node].kids.count(str(f.name)), "\"%s\" is not there", esc(str(f.name)).c_str());
    }
    mc::nontrivial(); mc::step(); mc::state(hstr(memfs::show(memfs::tree()), n));
    MC_CHECK(F.dirs.empty(), "walking leaves directories open");
    F = memfs::FS{};
}
MC_SCENARIOS = {
    {"remove", remove_, mc::LEAKS, "removing every small tree, given by every form of path"},
    {"removeLink", removeLink, mc::LEAKS, "removing what is not a directory as a tree"},
    {"walkAll", walkAll, mc::LEAKS, "walking every small tree"},
    {"walkPrune", walkPrune, mc::LEAKS, "walking with every choice of removed subdirectories"},
    {"walkReorder", walkReorder, mc::LEAKS, "walking with subdirectories reordered"},
    {"walkStop", walkStop, mc::LEAKS, "walks abandoned early"},
    {"walkNothing", walkNothing, mc::LEAKS, "walking what is not a directory"},
    {"walkFaults", walkFaults, mc::LEAKS, "walking while system calls fail"},
    MC_END};
