// A file system in memory behind the system calls of POSIX: the code under test runs unchanged, but
// nothing it does reaches the real file system. Any call can be made to fail.
#pragma once
#include "common.h"
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <errno.h>
#include <dlfcn.h>
#include <stdarg.h>
#include <limits.h>
#include <functional>

namespace memfs {
enum Kind { FILE_, DIR_, LINK_ };
struct Node { Kind kind; std::string data; std::map<std::string, int> kids; int parent = 0; long version = 0; };
struct Fd { int node; size_t pos; int flags; };
struct DirStream { std::vector<std::pair<std::string, int>> ents; size_t at = 0; struct dirent de; };
struct FS {
    bool active = false;
    std::vector<Node> nodes;
    int cwd = 0;
    std::map<int, Fd> fds;
    std::set<DirStream*> dirs;
    bool dtUnknown = false;
    long clock = 0;
    // faults
    int faults = 0;            // how many calls may still fail
    long failAt = 0;           // if set: which call fails, and how
    int failKind = 0;
    int shorts = 0;            // how many transfers may still be short
    int interrupts = 0;        // how many calls may still be interrupted
    std::vector<std::string> failed; // what did fail
    long calls = 0;
    int crashAfter = -1;       // stop taking effect after this many modifying calls
    long mods = 0;
    std::vector<int> opened;   // every node opened, in order
    std::string* console = nullptr; // where output to the console goes, if not there
    std::function<void()> before; // what others do just before a call
};
static FS F;
static inline void reset() {
    bool unk = F.dtUnknown;
    F = FS{}; F.dtUnknown = unk;
    F.nodes.push_back(Node{DIR_});
    F.active = true;
}
static inline int add(int parent, const std::string& name, Kind k, const std::string& data = "") {
    Node n{k, data}; n.parent = parent; n.version = ++F.clock;
    F.nodes.push_back(n);
    int id = (int) F.nodes.size() - 1;
    F.nodes[parent].kids[name] = id;
    return id;
}
struct Loc { int err = 0, dir = -1, node = -1; std::string name; bool slash = false; int special = 0; }; // special: last component is . or .. or /
// Resolves a path: the directory holding the last component, its name, and the node if there is one
static inline Loc resolve(const char* path, bool follow, int depth = 0, int from = -1) {
    Loc L;
    std::string p = path;
    if (p.empty()) { L.err = ENOENT; return L; }
    if (p.size() >= PATH_MAX) { L.err = ENAMETOOLONG; return L; }
    int cur = p[0] == '/' ? 0 : from >= 0 ? from : F.cwd;
    std::vector<std::string> comps; std::string c;
    for (char ch : p + "/") { if (ch == '/') { if (!c.empty()) comps.push_back(c); c.clear(); } else c += ch; }
    L.slash = p.back() == '/';
    if (comps.empty()) { L.dir = L.node = 0; L.name = "/"; L.special = '/'; return L; }
    for (size_t i = 0; i < comps.size(); i++) {
        bool last = i + 1 == comps.size();
        if (F.nodes[cur].kind != DIR_) { L.err = ENOTDIR; return L; }
        if (comps[i].size() > NAME_MAX) { L.err = ENAMETOOLONG; return L; }
        int next;
        if (comps[i] == ".") next = cur;
        else if (comps[i] == "..") next = F.nodes[cur].parent;
        else { auto it = F.nodes[cur].kids.find(comps[i]); next = it == F.nodes[cur].kids.end() ? -1 : it->second; }
        if (last) { L.dir = cur; L.name = comps[i]; L.special = comps[i] == "." ? '.' : comps[i] == ".." ? 'U' : 0; }
        if (next < 0) { L.err = ENOENT; return L; } // with last: dir and name are set
        if (F.nodes[next].kind == LINK_ && (!last || follow || L.slash)) {
            if (depth > 20) { L.err = ELOOP; L.dir = -1; return L; }
            Loc t = resolve(F.nodes[next].data.c_str(), true, depth + 1, cur);
            if (t.err) { if (!last) t.dir = -1; L.err = t.err; L.dir = t.dir; L.name = t.name; return L; }
            if (last) { L.dir = t.dir; L.name = t.name; L.special = t.special; }
            next = t.node;
        }
        if (last) { L.node = next; if (L.slash && F.nodes[next].kind != DIR_) { L.err = ENOTDIR; } return L; }
        cur = next;
    }
    return L;
}
static inline int fail(int e) { errno = e; return -1; }
// May this call fail? The errors POSIX allows for it
static inline bool fault(const char* call, std::initializer_list<int> errs) {
    F.calls++;
    if (F.calls > 100000) mc::fail("the operation does not terminate: it has made 100000 system calls");
    if (F.faults <= 0) return false;
    // either every call is a choice or, where the order of calls may vary, the number of the call was chosen
    int c = F.failAt ? (F.calls == F.failAt ? 1 + (F.failKind % (int) errs.size()) : 0) : choose(1 + (int) errs.size());
    if (!c) return false;
    F.faults--;
    errno = errs.begin()[c - 1];
    F.failed.push_back(call);
    MC_LOG("  %s fails: %s", call, strerror(errno));
    mc::step();
    return true;
}
static inline bool interrupted(const char* call) {
    if (F.interrupts <= 0 || !choose(2)) return false;
    F.interrupts--;
    MC_LOG("  %s is interrupted", call);
    errno = EINTR;
    return true;
}
// A crash: from here on nothing reaches the disk
static inline bool crashed() { return F.crashAfter >= 0 && F.mods++ >= F.crashAfter; }
static inline bool isDirEmpty(int n) { return F.nodes[n].kids.empty(); }
static inline bool under(int n, int anc) { for (;;) { if (n == anc) return true; if (n == 0) return false; n = F.nodes[n].parent; } }
static inline void fill(int n, struct stat* st) {
    memset(st, 0, sizeof *st);
    Node& N = F.nodes[n];
    st->st_mode = (N.kind == DIR_ ? S_IFDIR | 0755 : N.kind == LINK_ ? S_IFLNK | 0777 : S_IFREG | 0644);
    st->st_size = N.kind == DIR_ ? 4096 : N.data.size();
    st->st_ino = 100 + n; st->st_nlink = N.kind == DIR_ ? 2 : 1;
    st->st_ctime = st->st_mtime = st->st_atime = 1000000 + N.version;
}
static inline int mopen(const char* path, int flags) {
    if (F.before) F.before();
    if (flags & O_CREAT ? fault("open", {EACCES, ENOSPC, EMFILE, EINTR}) : fault("open", {EACCES, ENOENT, EMFILE, EINTR})) return -1;
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    Loc L = resolve(path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)));
    if (L.slash && (flags & O_CREAT) && L.dir >= 0 && !L.special) return fail(EISDIR);
    if (L.err == ENOENT && L.dir >= 0 && (flags & O_CREAT)) {
        if (crashed()) return fail(EIO);
        L.node = add(L.dir, L.name, FILE_);
    } else if (L.err) return fail(L.err);
    else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
        if (F.nodes[L.node].kind == DIR_ && (wr || (flags & O_CREAT))) return fail(EISDIR);
        if (F.nodes[L.node].kind == LINK_) return fail(ELOOP);
        if ((flags & O_DIRECTORY) && F.nodes[L.node].kind != DIR_) return fail(ENOTDIR);
        if ((flags & O_TRUNC) && F.nodes[L.node].kind == FILE_) { if (crashed()) return fail(EIO); F.nodes[L.node].data.clear(); F.nodes[L.node].version = ++F.clock; }
    }
    int fd = 1000;
    while (F.fds.count(fd)) fd++;
    F.fds[fd] = {L.node, 0, flags};
    F.opened.push_back(L.node);
    return fd;
}
static inline ssize_t mread(int fd, void* buf, size_t n) {
    if (F.before) F.before();
    if (!F.fds.count(fd)) { mc::fail("read() on a descriptor that is not open"); }
    if (interrupted("read") || fault("read", {EIO})) return -1;
    Fd& d = F.fds[fd];
    if ((d.flags & O_ACCMODE) == O_WRONLY) return fail(EBADF);
    Node& N = F.nodes[d.node];
    if (N.kind == DIR_) return fail(EISDIR);
    size_t m = d.pos < N.data.size() ? std::min(n, N.data.size() - d.pos) : 0;
    if (m > 1 && F.shorts > 0 && choose(2)) { F.shorts--; m = m / 2; }
    if (m) memcpy(buf, N.data.data() + d.pos, m);
    d.pos += m;
    return m;
}
static inline ssize_t mwrite(int fd, const void* buf, size_t n) {
    if (!F.fds.count(fd)) { mc::fail("write() on a descriptor that is not open"); }
    if (interrupted("write") || fault("write", {ENOSPC, EIO})) return -1;
    Fd& d = F.fds[fd];
    if ((d.flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
    Node& N = F.nodes[d.node];
    if (n > 1 && F.shorts > 0 && choose(2)) { F.shorts--; n = n / 2; }
    if (n > 1 && F.crashAfter >= 0 && F.mods == F.crashAfter) { // torn: half of it reaches the disk
        F.mods++;
        if (d.flags & O_APPEND) d.pos = N.data.size();
        N.data.replace(d.pos, n / 2, (const char*) buf, n / 2);
        return n;
    }
    if (crashed()) return n;
    if (d.flags & O_APPEND) d.pos = N.data.size();
    if (N.data.size() < d.pos) N.data.resize(d.pos);
    N.data.replace(d.pos, n, (const char*) buf, n);
    d.pos += n;
    N.version = ++F.clock;
    return n;
}
static inline int mclose(int fd) {
    if (!F.fds.count(fd)) mc::fail("close() on a descriptor that is not open");
    F.calls++;
    F.fds.erase(fd);
    if (interrupted("close")) return -1; // released all the same
    return 0;
}
static inline int mstat(const char* path, struct stat* st, bool follow) {
    if (F.before) F.before();
    if (fault(follow ? "stat" : "lstat", {EACCES, EIO})) return -1;
    Loc L = resolve(path, follow);
    if (L.err) return fail(L.err);
    fill(L.node, st);
    return 0;
}
static inline int mmkdir(const char* path) {
    if (fault("mkdir", {EACCES, ENOSPC, EIO})) return -1;
    Loc L = resolve(path, false);
    if (L.dir < 0) return fail(L.err);
    if (L.special || L.node >= 0) return fail(EEXIST);
    if (L.err != ENOENT) return fail(L.err);
    if (crashed()) return 0;
    add(L.dir, L.name, DIR_);
    return 0;
}
static inline int munlink(const char* path) {
    if (fault("unlink", {EACCES, EIO})) return -1;
    Loc L = resolve(path, false);
    if (L.dir < 0) return fail(L.err);
    if (L.special) return fail(EISDIR);
    if (L.err) return fail(L.err);
    if (F.nodes[L.node].kind == DIR_) return fail(EISDIR);
    if (L.slash) return fail(ENOTDIR);
    if (crashed()) return 0;
    F.nodes[L.dir].kids.erase(L.name);
    return 0;
}
static inline int mrmdir(const char* path) {
    if (fault("rmdir", {EACCES, EBUSY, EIO})) return -1;
    Loc L = resolve(path, false);
    if (L.dir < 0) return fail(L.err);
    if (L.special == '/') return fail(EBUSY);
    if (L.special == '.') return fail(EINVAL);
    if (L.special == 'U') return fail(ENOTEMPTY);
    if (L.err) return fail(L.err);
    if (F.nodes[L.node].kind != DIR_) return fail(ENOTDIR);
    if (!isDirEmpty(L.node)) return fail(ENOTEMPTY);
    if (crashed()) return 0;
    F.nodes[L.dir].kids.erase(L.name);
    return 0;
}
static inline int mrename(const char* a, const char* b) {
    if (fault("rename", {EACCES, EXDEV, EIO})) return -1;
    Loc A = resolve(a, false), B = resolve(b, false);
    if (A.dir < 0) return fail(A.err);
    if (B.dir < 0) return fail(B.err);
    if (A.special || B.special) return fail(EBUSY);
    if (A.err && A.err != ENOTDIR) return fail(A.err);
    bool adir = F.nodes[A.node].kind == DIR_;
    if (adir && under(B.dir, A.node)) return fail(EINVAL);
    if (!adir && (A.slash || B.slash)) return fail(ENOTDIR);
    if (B.node >= 0) {
        if (under(A.dir, B.node)) return fail(ENOTEMPTY);
        if (A.node == B.node) return 0;
        bool bdir = F.nodes[B.node].kind == DIR_;
        if (adir && !bdir) return fail(ENOTDIR);
        if (!adir && bdir) return fail(EISDIR);
        if (bdir && !isDirEmpty(B.node)) return fail(ENOTEMPTY);
    } else if (B.err != ENOENT) return fail(B.err);
    if (crashed()) return 0;
    F.nodes[A.dir].kids.erase(A.name);
    F.nodes[B.dir].kids[B.name] = A.node;
    F.nodes[A.node].parent = B.dir;
    return 0;
}
static inline DIR* mopendir(const char* path) {
    if (fault("opendir", {EACCES, EMFILE})) return nullptr;
    Loc L = resolve(path, true);
    if (L.err) { errno = L.err; return nullptr; }
    if (F.nodes[L.node].kind != DIR_) { errno = ENOTDIR; return nullptr; }
    DirStream* d = new DirStream;
    d->ents.push_back({".", L.node}); d->ents.push_back({"..", F.nodes[L.node].parent});
    for (auto& k : F.nodes[L.node].kids) d->ents.push_back({k.first, k.second});
    F.dirs.insert(d);
    return (DIR*) d;
}
static inline struct dirent* mreaddir(DIR* dir) {
    DirStream* d = (DirStream*) dir;
    if (!F.dirs.count(d)) mc::fail("readdir() on a directory that is not open");
    if (fault("readdir", {EIO})) return nullptr;
    if (d->at == d->ents.size()) return nullptr;
    auto& e = d->ents[d->at++];
    memset(&d->de, 0, sizeof d->de);
    strcpy(d->de.d_name, e.first.c_str());
    d->de.d_ino = 100 + e.second;
    Kind k = F.nodes[e.second].kind;
    d->de.d_type = F.dtUnknown ? DT_UNKNOWN : k == DIR_ ? DT_DIR : k == LINK_ ? DT_LNK : DT_REG;
    return &d->de;
}
static inline int mclosedir(DIR* dir) {
    DirStream* d = (DirStream*) dir;
    if (!F.dirs.count(d)) mc::fail("closedir() on a directory that is not open");
    F.dirs.erase(d);
    delete d;
    return 0;
}
static inline int mchdir(const char* path) {
    if (fault("chdir", {EACCES})) return -1;
    Loc L = resolve(path, true);
    if (L.err) return fail(L.err);
    if (F.nodes[L.node].kind != DIR_) return fail(ENOTDIR);
    F.cwd = L.node;
    return 0;
}
static inline std::string pathOf(int n) {
    std::string s;
    while (n) { int p = F.nodes[n].parent; for (auto& k : F.nodes[p].kids) if (k.second == n) { s = "/" + k.first + s; break; } n = p; }
    return s.empty() ? "/" : s;
}
static inline char* mgetcwd(char* buf, size_t n) {
    std::string s = pathOf(F.cwd);
    if (fault("getcwd", {EACCES})) return nullptr;
    if (s.size() + 1 > n) { errno = ERANGE; return nullptr; }
    memcpy(buf, s.c_str(), s.size() + 1);
    return buf;
}
// The whole tree as text: directories "d", files "f" with contents, links "l" with targets
static inline void dump(int n, const std::string& at, std::map<std::string, std::string>& out) {
    for (auto& k : F.nodes[n].kids) {
        Node& N = F.nodes[k.second];
        out[at + "/" + k.first] = (N.kind == DIR_ ? "d" : N.kind == LINK_ ? "l" : "f") + N.data;
        if (N.kind == DIR_) dump(k.second, at + "/" + k.first, out);
    }
}
static inline std::map<std::string, std::string> tree() { std::map<std::string, std::string> m; dump(0, "", m); return m; }
static inline std::string show(const std::map<std::string, std::string>& t) {
    std::string s;
    for (auto& k : t) s += (s.empty() ? "" : ", ") + k.first + (k.second[0] == 'd' ? "/" : k.second[0] == 'l' ? " -> " + k.second.substr(1) : " = \"" + (k.second.size() > 40 ? std::to_string(k.second.size() - 1) + " bytes" : esc(k.second.substr(1))) + "\"");
    return "{" + s + "}";
}
// Whatever is not intercepted is at least not done as root, nor in a place that matters
static inline void contain() {
    static bool done = false;
    if (done) return;
    done = true;
    if (geteuid() == 0 && (setgid(65534) || setuid(65534))) mc::fail("cannot drop privileges");
    if (chdir("/proc/self")) {}
}
} // namespace memfs

#define REAL(name) (*(decltype(&name)) dlsym(RTLD_NEXT, #name))
extern "C" {
int open(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap);
    if (memfs::F.active) return memfs::mopen(p, fl);
    return (int) syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int openat(int d, const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap);
    if (memfs::F.active) { if (d != AT_FDCWD && p[0] != '/') mc::fail("openat() relative to a descriptor is not modelled"); return memfs::mopen(p, fl); }
    return (int) syscall(SYS_openat, d, p, fl, mode);
}
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void* b, size_t n) { return memfs::F.active && fd >= 1000 ? memfs::mread(fd, b, n) : syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) {
    if (memfs::F.active && memfs::F.console && (fd == 1 || fd == 2)) { memfs::F.console->append((const char*) b, n); return (ssize_t) n; }
    return memfs::F.active && fd >= 1000 ? memfs::mwrite(fd, b, n) : syscall(SYS_write, fd, b, n);
}
int close(int fd) { return memfs::F.active && fd >= 1000 ? memfs::mclose(fd) : (int) syscall(SYS_close, fd); }
int fsync(int fd) { return memfs::F.active && fd >= 1000 ? (memfs::fault("fsync", {EIO}) ? -1 : 0) : (int) syscall(SYS_fsync, fd); }
off_t lseek(int fd, off_t o, int w) {
    if (!(memfs::F.active && fd >= 1000)) return syscall(SYS_lseek, fd, o, w);
    auto it = memfs::F.fds.find(fd);
    if (it == memfs::F.fds.end()) mc::fail("lseek() on a descriptor that is not open");
    off_t p = w == SEEK_SET ? o : w == SEEK_CUR ? (off_t) it->second.pos + o : (off_t) memfs::F.nodes[it->second.node].data.size() + o;
    if (p < 0) { errno = EINVAL; return -1; }
    return it->second.pos = p;
}
int fstat(int fd, struct stat* st) {
    if (!(memfs::F.active && fd >= 1000)) return (int) syscall(SYS_fstat, fd, st);
    auto it = memfs::F.fds.find(fd);
    if (it == memfs::F.fds.end()) mc::fail("fstat() on a descriptor that is not open");
    memfs::fill(it->second.node, st);
    return 0;
}
int stat(const char* p, struct stat* st) { return memfs::F.active ? memfs::mstat(p, st, true) : (int) syscall(SYS_stat, p, st); }
int lstat(const char* p, struct stat* st) { return memfs::F.active ? memfs::mstat(p, st, false) : (int) syscall(SYS_lstat, p, st); }
int fstatat(int d, const char* p, struct stat* st, int fl) {
    if (memfs::F.active) { if (d != AT_FDCWD && p[0] != '/') mc::fail("fstatat() relative to a descriptor is not modelled"); return memfs::mstat(p, st, !(fl & AT_SYMLINK_NOFOLLOW)); }
    return (int) syscall(SYS_newfstatat, d, p, st, fl);
}
int access(const char* p, int) {
    struct stat st;
    if (memfs::F.active) return memfs::mstat(p, &st, true);
    return (int) syscall(SYS_access, p, 0);
}
int mkdir(const char* p, mode_t m) { return memfs::F.active ? memfs::mmkdir(p) : (int) syscall(SYS_mkdir, p, m); }
int unlink(const char* p) { return memfs::F.active ? memfs::munlink(p) : (int) syscall(SYS_unlink, p); }
int rmdir(const char* p) { return memfs::F.active ? memfs::mrmdir(p) : (int) syscall(SYS_rmdir, p); }
int unlinkat(int d, const char* p, int fl) {
    if (memfs::F.active) { if (d != AT_FDCWD && p[0] != '/') mc::fail("unlinkat() relative to a descriptor is not modelled"); return fl & AT_REMOVEDIR ? memfs::mrmdir(p) : memfs::munlink(p); }
    return (int) syscall(SYS_unlinkat, d, p, fl);
}
int remove(const char* p) {
    if (!memfs::F.active) { int r = (int) syscall(SYS_unlink, p); return r == 0 || errno != EISDIR ? r : (int) syscall(SYS_rmdir, p); }
    int r = memfs::munlink(p);
    return r == 0 || errno != EISDIR ? r : memfs::mrmdir(p);
}
int rename(const char* a, const char* b) { return memfs::F.active ? memfs::mrename(a, b) : (int) syscall(SYS_rename, a, b); }
int chdir(const char* p) { return memfs::F.active ? memfs::mchdir(p) : (int) syscall(SYS_chdir, p); }
char* getcwd(char* b, size_t n) { return memfs::F.active ? memfs::mgetcwd(b, n) : syscall(SYS_getcwd, b, n) >= 0 ? b : nullptr; }
DIR* opendir(const char* p) { return memfs::F.active ? memfs::mopendir(p) : REAL(opendir)(p); }
struct dirent* readdir(DIR* d) { return memfs::F.active ? memfs::mreaddir(d) : REAL(readdir)(d); }
int closedir(DIR* d) { return memfs::F.active ? memfs::mclosedir(d) : REAL(closedir)(d); }
}
