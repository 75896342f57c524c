// The POSIX file system: every sequence of operations on a small tree, in memory, compared with what
// the successful operations define; and the tree in memory compared with the real kernel.
#include "memfs.h"
#include <ply-runtime/filesystem/FileSystem.h>
using memfs::F;

static const char* rname(FSResult r) { static const char* n[] = {"Unknown", "NotFound", "Locked", "AccessDenied", "OK", "AlreadyExists", "Unchanged"}; return n[(int) r]; }

// ---- the model in memory against the kernel: every sequence of calls made by this harness itself ----
static std::string realTree(const std::string& at, int depth = 0) {
    // a sorted listing by system calls only
    std::string out;
    int fd = (int) syscall(SYS_openat, AT_FDCWD, at.c_str(), O_RDONLY | O_DIRECTORY, 0);
    if (fd < 0) return "?";
    char buf[8192]; std::map<std::string, std::string> ents;
    for (;;) {
        long n = syscall(SYS_getdents64, fd, buf, sizeof buf);
        if (n <= 0) break;
        for (long i = 0; i < n;) {
            struct D { uint64_t ino; int64_t off; unsigned short len; unsigned char type; char name[1]; }* d = (D*) (buf + i);
            std::string nm = d->name;
            if (nm != "." && nm != "..") {
                std::string p = at + "/" + nm;
                if (d->type == DT_DIR) ents[nm] = "/(" + (depth < 6 ? realTree(p, depth + 1) : "") + ")";
                else if (d->type == DT_LNK) { char t[256]; long k = readlink(p.c_str(), t, 255); ents[nm] = "->" + std::string(t, k > 0 ? k : 0); }
                else { int f = (int) syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0); char t[64]; long k = syscall(SYS_read, f, t, 64); syscall(SYS_close, f); ents[nm] = "=" + std::string(t, k > 0 ? k : 0); }
            }
            i += d->len;
        }
    }
    syscall(SYS_close, fd);
    for (auto& e : ents) out += e.first + e.second + " ";
    return out;
}
static std::string memTree(int n) {
    std::string out;
    for (auto& k : F.nodes[n].kids) {
        auto& N = F.nodes[k.second];
        out += k.first + (N.kind == memfs::DIR_ ? "/(" + memTree(k.second) + ")" : N.kind == memfs::LINK_ ? "->" + N.data : "=" + N.data) + " ";
    }
    return out;
}
static char scratch[64];
static void removeReal(const std::string& at) { // only what this harness made, by name
    for (const char* n : {"a", "b", "l", "nowhere"}) {
        std::string p = at + "/" + n;
        if (syscall(SYS_unlink, p.c_str()) == 0 || errno == ENOENT) continue;
        if (at.size() < 60) removeReal(p);
        syscall(SYS_rmdir, p.c_str());
    }
}
static void kernel() {
    static const std::vector<std::string> paths{"a", "b", "a/b", "a/", "b/a/", "l", "a/.", "a/..", ".", "..", "", "l/a", "a/b/a", "b/l"};
    int prefix = choose(3); // a starting tree
    struct Op { int op; std::string p, q; };
    std::vector<Op> ops;
    for (int i = 0, depth = pick(2, 3); i < depth; i++) {
        int n = i == depth - 1 ? (int) paths.size() : pick(6, 6);
        int op = i == depth - 1 ? choose(10) : std::vector<int>{0, 1, 2, 3, 5}[choose(5)]; // the last one may only look
        std::string p = paths[choose(n)];
        ops.push_back({op, p, op == 3 ? paths[choose(std::min(n, pick(7, 14)))] : ""});
    }
    if (geteuid() == 0 && (setgid(65534) || setuid(65534))) mc::fail("cannot drop privileges");
    strcpy(scratch, "/tmp/mcfs.XXXXXX");
    if (!mkdtemp(scratch)) mc::fail("no scratch directory");
    std::string top = scratch;
    strcat(scratch, "/r");
    if (syscall(SYS_mkdir, scratch, 0755) || syscall(SYS_chdir, scratch)) mc::fail("no scratch directory");
    struct Clean { std::string top; ~Clean() { removeReal(scratch); syscall(SYS_chdir, "/"); syscall(SYS_rmdir, scratch); syscall(SYS_rmdir, top.c_str()); } } clean{top};
    memfs::reset();
    int r = memfs::add(0, "r", memfs::DIR_);
    F.cwd = r;
    F.active = false;
    auto both = [&](int op, const std::string& p, const std::string& q) {
        F.active = true;
        int mr = -2, me = 0; long kr = -2; int ke = 0; std::string mx, kx;
        const char *P = p.c_str(), *Q = q.c_str();
        errno = 0;
        switch (op) {
            case 0: mr = memfs::mmkdir(P); me = errno; kr = syscall(SYS_mkdir, P, 0755); ke = errno; break;
            case 1: mr = memfs::munlink(P); me = errno; kr = syscall(SYS_unlink, P); ke = errno; break;
            case 2: mr = memfs::mrmdir(P); me = errno; kr = syscall(SYS_rmdir, P); ke = errno; break;
            case 3: mr = memfs::mrename(P, Q); me = errno; kr = syscall(SYS_rename, P, Q); ke = errno; break;
            case 4: case 5: case 6: {
                int fl = op == 4 ? O_RDONLY : op == 5 ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_EXCL;
                mr = memfs::mopen(P, fl); me = errno;
                kr = syscall(SYS_openat, AT_FDCWD, P, fl, 0644); ke = errno;
                if (mr >= 0 && kr >= 0) {
                    char mb[9] = {0}, kb[9] = {0};
                    if (op == 4) { long a = memfs::mread(mr, mb, 8); int e1 = errno; long b = syscall(SYS_read, kr, kb, 8); MC_CHECK(a == b && (a >= 0 || e1 == errno), "read of \"%s\": model %ld kernel %ld", P, a, b); }
                    else { memfs::mwrite(mr, P, p.size()); syscall(SYS_write, kr, P, p.size()); }
                    MC_CHECK(!memcmp(mb, kb, 8), "the contents of \"%s\" differ from the kernel's", P);
                }
                if (mr >= 0) memfs::mclose(mr);
                if (kr >= 0) syscall(SYS_close, kr);
                mr = mr >= 0 ? 0 : -1; kr = kr >= 0 ? 0 : -1;
                break;
            }
            case 7: case 8: {
                struct stat a, b; memset(&b, 0, sizeof b);
                mr = memfs::mstat(P, &a, op == 7); me = errno;
                kr = syscall(op == 7 ? SYS_stat : SYS_lstat, P, &b); ke = errno;
                if (!mr && !kr) MC_CHECK((a.st_mode & S_IFMT) == (b.st_mode & S_IFMT) && ((a.st_mode & S_IFMT) == S_IFDIR || a.st_size == b.st_size), "stat of \"%s\" differs from the kernel's", P);
                break;
            }
            case 9: { DIR* d = memfs::mopendir(P); mr = d ? 0 : -1; me = errno; if (d) memfs::mclosedir(d); kr = syscall(SYS_openat, AT_FDCWD, P, O_RDONLY | O_DIRECTORY, 0); ke = errno; if (kr >= 0) { syscall(SYS_close, kr); kr = 0; } break; }
        }
        F.active = false;
        static const char* names[] = {"mkdir", "unlink", "rmdir", "rename", "open", "create", "create exclusively", "stat", "lstat", "opendir"};
        mc::step();
        MC_LOG("%s(%s%s%s): model %d %s, kernel %ld %s", names[op], P, op == 3 ? ", " : "", op == 3 ? Q : "", mr, mr ? strerror(me) : "", kr, kr ? strerror(ke) : "");
        MC_CHECK(mr == kr && (mr == 0 || me == ke), "the model's %s(%s%s%s) gives %d (%s), the kernel's %ld (%s)", names[op], P, op == 3 ? ", " : "", op == 3 ? Q : "", mr, mr ? strerror(me) : "", kr, kr ? strerror(ke) : "");
    };
    auto mkdirs = [&](const char* p) { both(0, p, ""); };
    auto link = [&](const char* t, const char* p) { F.active = true; memfs::Loc L = memfs::resolve(p, false); memfs::add(L.dir, L.name, memfs::LINK_, t); F.active = false; syscall(SYS_symlink, t, p); };
    if (prefix == 1) { mkdirs("a"); mkdirs("a/b"); both(5, "b", ""); link("a", "l"); }
    if (prefix == 2) { mkdirs("a"); both(5, "a/b", ""); mkdirs("b"); link("../a", "b/l"); link("nowhere", "l"); }
    for (auto& o : ops) {
        both(o.op, o.p, o.q);
        std::string m = memTree(r), k = realTree(".");
        MC_CHECK(m == k, "the tree is %s in the model, %s in the kernel", m.c_str(), k.c_str());
        mc::state(hstr(m));
        if (!m.empty()) mc::nontrivial();
    }
}

// ---- the code under test ----
static FileSystem* fs() { return FileSystem::native(); }
static std::vector<std::string> list(int n) { std::vector<std::string> v; for (auto& k : F.nodes[n].kids) v.push_back(k.first + (F.nodes[k.second].kind == memfs::DIR_ ? "/" : "")); return v; }
// The same calls on a copy of the tree define what should happen
struct Trial {
    memfs::FS keep;
    Trial() : keep(F) { F.faults = 0; F.shorts = 0; F.interrupts = 0; F.crashAfter = -1; }
    ~Trial() { F = keep; }
};
typedef std::map<std::string, std::string> Tree;
static bool plain(FSResult r) { return r != FSResult::OK && r != FSResult::Unchanged && r != FSResult::AlreadyExists; } // says that nothing came of it
static void expectError(FSResult r, int e, const char* what) {
    FSResult want = e == ENOENT ? FSResult::NotFound : e == EEXIST ? FSResult::AlreadyExists : FSResult::Unknown;
    if (want != FSResult::Unknown) MC_CHECK(r == want, "%s reports %s where the system says \"%s\"", what, rname(r), strerror(e));
    else MC_CHECK(plain(r), "%s reports %s where the system says \"%s\"", what, rname(r), strerror(e));
    MC_CHECK(fs()->lastResult() == r, "%s returns %s, but lastResult() is %s", what, rname(r), rname(fs()->lastResult()));
}
static void expectTree(const Tree& want, const char* what) {
    Tree got = memfs::tree();
    MC_CHECK(got == want, "after %s the tree is %s instead of %s", what, memfs::show(got).c_str(), memfs::show(want).c_str());
}
// what creating path and its parents gives: 0, or the error
static int trialMakeDirs(const std::string& p) {
    for (size_t i = 1; i <= p.size(); i++) {
        if (i < p.size() && p[i] != '/') continue;
        std::string q = p.substr(0, i);
        struct stat st;
        if (memfs::mstat(q.c_str(), &st, true) == 0) { if (!S_ISDIR(st.st_mode)) return ENOTDIR; continue; }
        if (memfs::mmkdir(q.c_str()) && errno != EEXIST) return errno;
        if (memfs::mstat(q.c_str(), &st, true)) return errno;
        if (!S_ISDIR(st.st_mode)) return ENOTDIR;
    }
    return 0;
}
static int trialWrite(const std::string& p, const std::string& data) {
    int fd = memfs::mopen(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC);
    if (fd < 0) return errno;
    memfs::mwrite(fd, data.data(), data.size());
    memfs::mclose(fd);
    return 0;
}
static int trialRemoveTree(const std::string& p) { // removes the directory p names, links inside it untouched at their targets
    memfs::Loc L = memfs::resolve(p.c_str(), false);
    if (L.err) return L.err;
    if (F.nodes[L.node].kind != memfs::DIR_) return ENOTDIR;
    if (L.special) return EINVAL;
    F.nodes[L.dir].kids.erase(L.name);
    return 0;
}
static std::string parentOf(const std::string& p) { size_t k = p.rfind('/'); return k == std::string::npos ? "" : k == 0 ? "/" : p.substr(0, k); }
static void oneOp(int op, const std::string& p, const std::string& q) {
    Tree before = memfs::tree(), want;
    long cwd = F.cwd;
    int e = 0;
    char what[200];
    auto name = [&](const char* n) { snprintf(what, sizeof what, "%s(\"%s\"%s%s%s)", n, p.c_str(), q.empty() ? "" : ", \"", q.c_str(), q.empty() ? "" : "\""); MC_LOG("%s", what); };
    HeapBytes P_{p}, Q_{q};
    StringView P = P_.view(), Q = Q_.view();
    mc::step();
    switch (op) {
        case 0: {
            name("makeDir");
            { Trial t; e = memfs::mmkdir(p.c_str()) ? errno : 0; want = memfs::tree(); }
            FSResult r = fs()->makeDir(P);
            expectTree(want, what);
            if (e) expectError(r, e, what); else MC_CHECK(r == FSResult::OK, "%s reports %s", what, rname(r));
            break;
        }
        case 1: {
            name("makeDirs");
            bool was; { Trial t; struct stat st; was = p.empty() || (memfs::mstat(p.c_str(), &st, true) == 0 && S_ISDIR(st.st_mode)); e = trialMakeDirs(p); want = memfs::tree(); }
            FSResult r = fs()->makeDirs(P);
            if (!e) {
                expectTree(want, what);
                MC_CHECK(r == FSResult::OK || (r == FSResult::AlreadyExists && (was || p.find("..") != p.npos || p.back() == '.')), "%s reports %s", what, rname(r));
            } else {
                MC_CHECK(r != FSResult::OK, "%s reports OK where the system says \"%s\"", what, strerror(e));
                Tree got = memfs::tree(); // intermediate directories may have been made
                for (auto& k : before) MC_CHECK(got.count(k.first) && got[k.first] == k.second, "%s failed and changed %s", what, k.first.c_str());
                for (auto& k : got) MC_CHECK(before.count(k.first) || (want.count(k.first) && k.second == "d"), "%s failed and made %s", what, k.first.c_str());
            }
            MC_CHECK(fs()->lastResult() == r, "%s returns %s, but lastResult() is %s", what, rname(r), rname(fs()->lastResult()));
            break;
        }
        case 2: case 3: { // write
            name("write");
            std::string data = op == 2 ? "one\n" : "two, longer\n";
            { Trial t; e = trialWrite(p, data); want = memfs::tree(); }
            Owned<OutPipe> out = fs()->openPipeForWrite(P);
            FSResult r = fs()->lastResult();
            MC_CHECK(!out == (r != FSResult::OK), "%s reports %s", what, rname(r));
            if (out) MC_CHECK(out->write(view(data)), "writing fails");
            out.clear();
            expectTree(want, what);
            if (e) expectError(r, e, what); else MC_CHECK(r == FSResult::OK, "%s reports %s", what, rname(r));
            break;
        }
        case 4: case 5: case 6: { // save if different
            name(op == 6 ? "makeDirsAndSaveTextIfDifferent" : "makeDirsAndSaveBinaryIfDifferent");
            std::string data = op == 5 ? "two, longer\n" : "one\n", raw = data;
            if (op == 6) raw = "one\r\n";
            bool same = false, readable = true, link = false; int node = -1; long version = 0;
            Tree replaced;
            {
                Trial t;
                memfs::Loc K = memfs::resolve(p.c_str(), false);
                if (!K.err && F.nodes[K.node].kind == memfs::LINK_) { // the link itself may be replaced
                    link = true;
                    int n = memfs::add(K.dir, K.name, memfs::FILE_, raw);
                    replaced = memfs::tree();
                    F.nodes[K.dir].kids[K.name] = K.node;
                }
                memfs::Loc L = memfs::resolve(p.c_str(), true);
                if (!L.err) { node = L.node; version = F.nodes[node].version; readable = F.nodes[node].kind == memfs::FILE_; same = readable && F.nodes[node].data == raw; e = readable ? 0 : EISDIR; }
                else if (L.err != ENOENT) e = L.err;
                if (!e) { std::string d = parentOf(p); e = d.empty() ? 0 : trialMakeDirs(d); }
                if (!e) e = trialWrite(p, raw);
                want = memfs::tree();
            }
            TextFormat tf = TextFormat::unixUTF8(); tf.newLine = TextFormat::NewLine::CRLF;
            FSResult r = op == 6 ? fs()->makeDirsAndSaveTextIfDifferent(P, view(data), tf) : fs()->makeDirsAndSaveBinaryIfDifferent(P, view(data));
            if (!e) {
                MC_CHECK(r == (same ? FSResult::Unchanged : FSResult::OK), "%s reports %s and the contents were %s", what, rname(r), same ? "the same" : "different");
                if (!(link && r == FSResult::OK && memfs::tree() == replaced)) expectTree(want, what);
                if (same) { memfs::Loc L = memfs::resolve(p.c_str(), true); MC_CHECK(L.node == node && F.nodes[node].version == version, "%s reports Unchanged but wrote the file", what); }
            } else if (link && r == FSResult::OK) expectTree(replaced, what);
            else {
                MC_CHECK(plain(r), "%s reports %s where the system says \"%s\"", what, rname(r), strerror(e));
                Tree got = memfs::tree();
                for (auto& k : before) MC_CHECK(got.count(k.first) && got[k.first] == k.second, "%s failed and changed %s", what, k.first.c_str());
                for (auto& k : got) MC_CHECK(before.count(k.first) || k.second == "d", "%s failed and left %s", what, k.first.c_str());
            }
            MC_CHECK(fs()->lastResult() == r, "%s returns %s, but lastResult() is %s", what, rname(r), rname(fs()->lastResult()));
            break;
        }
        case 7: { // load
            name("load");
            std::string data;
            { Trial t; memfs::Loc L = memfs::resolve(p.c_str(), true); e = L.err ? L.err : F.nodes[L.node].kind == memfs::DIR_ ? EISDIR : 0; if (!e) data = F.nodes[L.node].data; }
            std::string got = str(fs()->loadBinary(P));
            FSResult r = fs()->lastResult();
            MC_CHECK(got == data, "%s gives \"%s\" instead of \"%s\"", what, esc(got).c_str(), esc(data).c_str());
            if (e) expectError(r, e, what); else MC_CHECK(r == FSResult::OK, "%s reports %s", what, rname(r));
            if (e != EISDIR) {
                std::string text = data;
                for (size_t k; (k = text.find("\r\n")) != std::string::npos;) text.erase(k, 1);
                got = str(fs()->loadText(P, TextFormat::unixUTF8())); r = fs()->lastResult();
                MC_CHECK(got == text && (e ? r == FSResult::NotFound || e != ENOENT : r == FSResult::OK), "loadText(\"%s\") gives \"%s\", %s", p.c_str(), esc(got).c_str(), rname(r));
                auto pair = fs()->loadTextAutodetect(P); r = fs()->lastResult();
                MC_CHECK(str(pair.first) == text && (e ? plain(r) : r == FSResult::OK), "loadTextAutodetect(\"%s\") gives \"%s\", %s", p.c_str(), esc(str(pair.first)).c_str(), rname(r));
                auto st = fs()->openStreamForRead(P);
                MC_CHECK(!st == !!e, "openStreamForRead(\"%s\") opens %d", p.c_str(), (int) !!st);
            }
            expectTree(before, what);
            break;
        }
        case 8: {
            name("moveFile");
            { Trial t; e = memfs::mrename(p.c_str(), q.c_str()) ? errno : 0; want = memfs::tree(); }
            FSResult r = fs()->moveFile(P, Q);
            expectTree(want, what);
            if (e) { MC_CHECK(r != FSResult::OK && fs()->lastResult() == r, "%s reports %s where the system says \"%s\"", what, rname(r), strerror(e)); }
            else MC_CHECK(r == FSResult::OK && fs()->lastResult() == r, "%s reports %s", what, rname(r));
            break;
        }
        case 9: {
            name("deleteFile");
            { Trial t; e = memfs::munlink(p.c_str()) ? errno : 0; want = memfs::tree(); }
            FSResult r = fs()->deleteFile(P);
            expectTree(want, what);
            if (e) expectError(r, e, what); else MC_CHECK(r == FSResult::OK, "%s reports %s", what, rname(r));
            break;
        }
        case 10: {
            if (p.empty() || p.back() == '.' || p.back() == '/') return;
            name("removeDirTree");
            { Trial t; e = trialRemoveTree(p); want = memfs::tree(); }
            FSResult r = fs()->removeDirTree(P);
            expectTree(want, what);
            if (e) MC_CHECK(plain(r) && fs()->lastResult() == r, "%s reports %s where the system says \"%s\"", what, rname(r), strerror(e));
            else MC_CHECK(r == FSResult::OK && fs()->lastResult() == r, "%s reports %s", what, rname(r));
            break;
        }
        case 11: { // look
            name("exists, getFileStatus, listDir");
            memfs::Loc L; { Trial t; L = memfs::resolve(p.c_str(), true); }
            ExistsResult x = fs()->exists(P);
            bool dir = !L.err && F.nodes[L.node].kind == memfs::DIR_;
            MC_CHECK(x == (L.err ? ExistsResult::NotFound : dir ? ExistsResult::Directory : ExistsResult::File), "exists(\"%s\") gives %d", p.c_str(), (int) x);
            MC_CHECK(fs()->isDir(P) == dir, "isDir(\"%s\") gives %d", p.c_str(), !dir);
            FileStatus st = fs()->getFileStatus(P);
            MC_CHECK(st.result == fs()->lastResult(), "getFileStatus(\"%s\") returns %s, but lastResult() is %s", p.c_str(), rname(st.result), rname(fs()->lastResult()));
            if (L.err) expectError(st.result, L.err, what);
            else MC_CHECK(st.result == FSResult::OK && (dir || (st.fileSize == F.nodes[L.node].data.size())) && st.modificationTime == 1000000 + F.nodes[L.node].version, "getFileStatus(\"%s\") is wrong", p.c_str());
            for (u32 flags = 0; flags < 4; flags++) {
                std::vector<std::string> got;
                for (DirectoryEntry& en : fs()->listDir(P, flags)) {
                    got.push_back(str(en.name) + (en.isDir ? "/" : ""));
                    auto it = dir ? F.nodes[L.node].kids.find(str(en.name)) : F.nodes[0].kids.end();
                    if (!dir || it == F.nodes[L.node].kids.end()) continue;
                    memfs::Node& N = F.nodes[it->second];
                    if (N.kind == memfs::FILE_ && (flags & 1)) MC_CHECK(en.fileSize == N.data.size(), "listDir(\"%s\") gives \"%s\" %llu bytes", p.c_str(), str(en.name).c_str(), (unsigned long long) en.fileSize);
                    if (N.kind != memfs::LINK_ && (flags & 2)) MC_CHECK(en.modificationTime == 1000000 + N.version, "listDir(\"%s\") gives \"%s\" the wrong time", p.c_str(), str(en.name).c_str());
                }
                std::sort(got.begin(), got.end());
                std::vector<std::string> wantL = dir ? list(L.node) : std::vector<std::string>{};
                std::sort(wantL.begin(), wantL.end());
                std::string g, w; for (auto& k : got) g += k + " "; for (auto& k : wantL) w += k + " ";
                MC_CHECK(g == w, "listDir(\"%s\", %u) gives %s instead of %s", p.c_str(), flags, g.c_str(), w.c_str());
                FSResult r = fs()->lastResult();
                if (dir) MC_CHECK(r == FSResult::OK, "%s reports %s", what, rname(r));
                else expectError(r, L.err ? L.err : ENOTDIR, what);
            }
            expectTree(before, what);
            break;
        }
        case 12: {
            name("setWorkingDirectory");
            int c = -1; { Trial t; e = memfs::mchdir(p.c_str()) ? errno : 0; c = F.cwd; }
            FSResult r = fs()->setWorkingDirectory(P);
            if (e) expectError(r, e, what); else MC_CHECK(r == FSResult::OK && fs()->lastResult() == r, "%s reports %s", what, rname(r));
            MC_CHECK(F.cwd == c, "%s went elsewhere", what);
            std::string g = str(fs()->getWorkingDirectory());
            MC_CHECK(g == memfs::pathOf(F.cwd) && fs()->lastResult() == FSResult::OK, "getWorkingDirectory() gives \"%s\" in \"%s\"", esc(g).c_str(), memfs::pathOf(F.cwd).c_str());
            expectTree(before, what);
            break;
        }
    }
    if (op != 12) MC_CHECK(F.cwd == cwd, "%s changed the working directory", what);
    MC_CHECK(F.fds.empty() && F.dirs.empty(), "%s left %zu descriptors open", what, F.fds.size() + F.dirs.size());
}
static void startTree(int prefix) {
    memfs::reset();
    int r = memfs::add(0, "r", memfs::DIR_);
    F.cwd = r;
    if (prefix == 1) { int a = memfs::add(r, "a", memfs::DIR_); int b = memfs::add(a, "b", memfs::DIR_); memfs::add(b, "a", memfs::FILE_, "one\n"); memfs::add(r, "b", memfs::FILE_, "two, longer\n"); memfs::add(r, "l", memfs::LINK_, "a"); }
    if (prefix == 2) { int a = memfs::add(r, "a", memfs::DIR_); memfs::add(a, "b", memfs::FILE_, "one\n"); memfs::add(a, ".c", memfs::FILE_, "one\r\n"); int b = memfs::add(r, "b", memfs::DIR_); memfs::add(b, "l", memfs::LINK_, "../a"); memfs::add(b, "n", memfs::LINK_, "nowhere"); memfs::add(r, "l", memfs::LINK_, "a/b"); }
}
static void history() {
    memfs::contain();
    static const std::vector<std::string> paths{"a", "b", "a/b", "l", "b/a", "a/", "l/a", "b/a/b", "a/b/", "a/../b", "a/.", ".", "", "/r/a", "a//b", "b/../../r/a"};
    int prefix = choose(3), depth = pick(2, 3);
    F.dtUnknown = choose(2);
    startTree(prefix);
    mc::nontrivial();
    for (int i = 0; i < depth; i++) {
        bool last = i == depth - 1;
        int n = last ? paths.size() : pick(8, 5);
        int op = choose(13);
        std::string p = paths[choose(n)], q;
        if (op == 8) q = paths[choose(std::min(n, pick(9, 16)))];
        oneOp(op, p, q);
        mc::state(hstr(memfs::show(memfs::tree())));
    }
    F = memfs::FS{};
}
MC_SCENARIOS = {
    {"kernel", kernel, 0, "the file system in memory against the real kernel"},
    {"history", history, mc::LEAKS, "sequences of operations on a small tree"},
    MC_END};
