// DocServer under every schedule: pages are served while contents.pylon is replaced.
#include "common.h"
#include "mcsched.h"
#include <ply-runtime/thread/impl/Thread_POSIX.h>
#include <ply-runtime/filesystem/FileSystem.h>
#include <ply-web-serve-docs/DocServer.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
using Th = Thread_POSIX;

// The files: contents.pylon, in some version, and one page. Plain data, unseen by the race detector.
static const char* g_contents[3] = {
    "[{title: \"Old\", linkDestination: \"/docs/a\", children: [{title: \"OldKid\", linkDestination: \"/docs/b\", children: []}]}]",
    "[{title: \"New\", linkDestination: \"/docs/b\", children: [{title: \"NewKid\", linkDestination: \"/docs/a\", children: []}]}, {title: \"New2\", linkDestination: \"\", children: []}]",
    "[{title: \"Last\", linkDestination: \"/docs/a\", children: []}]"};
static int g_version, g_open[64], g_pos[64], g_seen[64];
static bool g_active;
#define QUIET __attribute__((no_sanitize("thread")))
QUIET static int which(const char* p) {
    size_t n = strlen(p);
    auto ends = [&](const char* e) QUIET { size_t k = strlen(e); return n >= k && memcmp(p + n - k, e, k) == 0; };
    return ends("contents.pylon") ? 1 : ends("pages/a.html") ? 2 : 0;
}
QUIET static const char* text(int kind, int version) { return kind == 1 ? g_contents[version] : "Title\n<p>body</p>\n"; }
QUIET static int fillStat(int kind, int version, struct stat* st) {
    if (!kind) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644; st->st_nlink = 1;
    st->st_size = strlen(text(kind, version));
    st->st_mtime = st->st_ctime = st->st_atime = 1000 + (kind == 1 ? version : 0);
    return 0;
}
extern "C" {
QUIET int open(const char* p, int fl, ...) {
    if (!g_active) return (int) syscall(SYS_openat, AT_FDCWD, p, fl, 0644);
    sched::unlockedYield();
    int k = which(p);
    if (!k) { errno = ENOENT; return -1; }
    for (int i = 0; i < 64; i++) if (!g_open[i]) { g_open[i] = k; g_pos[i] = 0; g_seen[i] = g_version; return 1000 + i; }
    errno = EMFILE; return -1;
}
QUIET ssize_t read(int fd, void* b, size_t n) {
    if (!g_active || fd < 1000) return syscall(SYS_read, fd, b, n);
    const char* t = text(g_open[fd - 1000], g_seen[fd - 1000]);
    size_t left = strlen(t) - g_pos[fd - 1000];
    if (n > left) n = left;
    memcpy(b, t + g_pos[fd - 1000], n);
    g_pos[fd - 1000] += n;
    return n;
}
QUIET int close(int fd) {
    if (!g_active || fd < 1000) return (int) syscall(SYS_close, fd);
    g_open[fd - 1000] = 0;
    return 0;
}
QUIET off_t lseek(int fd, off_t o, int w) {
    if (!g_active || fd < 1000) return syscall(SYS_lseek, fd, o, w);
    return g_pos[fd - 1000] = (int) (w == SEEK_SET ? o : w == SEEK_CUR ? g_pos[fd - 1000] + o : (off_t) strlen(text(g_open[fd - 1000], g_seen[fd - 1000])) + o);
}
QUIET int fstat(int fd, struct stat* st) {
    if (!g_active || fd < 1000) return (int) syscall(SYS_fstat, fd, st);
    return fillStat(g_open[fd - 1000], g_seen[fd - 1000], st);
}
QUIET int stat(const char* p, struct stat* st) {
    if (!g_active) return (int) syscall(SYS_stat, p, st);
    sched::unlockedYield();
    return fillStat(which(p), g_version, st);
}
}
struct Response : web::ResponseIface {
    MemOutStream mout;
    web::ResponseCode code = web::ResponseCode::Unknown;
    OutStream* beginResponseHeader(web::ResponseCode c) override { code = c; return &mout; }
    void endResponseHeader() override {}
};
QUIET static int version() { return g_version; }
QUIET static void bump() { g_version++; }
// 0, 1, 2: the page shows that version of the contents, complete; -1 otherwise
static int shown(web::DocServer* ds) {
    Response r;
    ds->serve("a", &r);
    MC_CHECK(r.code == web::ResponseCode::OK, "the page gives code %d", (int) r.code);
    std::string s = str(r.mout.moveToString());
    bool has[3] = {s.find(">Old<") != std::string::npos, s.find(">New<") != std::string::npos, s.find(">Last<") != std::string::npos};
    MC_CHECK(has[0] + has[1] + has[2] == 1, "the page mixes versions of its contents, or shows none");
    int v = has[0] ? 0 : has[1] ? 1 : 2;
    if (v == 0) MC_CHECK(s.find(">OldKid<") != std::string::npos && s.find("caret-down selected") != std::string::npos, "the old contents are incomplete");
    if (v == 1) MC_CHECK(s.find(">NewKid<") != std::string::npos && s.find(">New2<") != std::string::npos && s.find("\"selectable selected\"") != std::string::npos && s.find("caret-down") != std::string::npos, "the new contents are incomplete");
    MC_CHECK(s.find("<p>body</p>") != std::string::npos, "the page has no body");
    return v;
}
static void serving() {
    int threads = 2 + (mc::tier() ? choose(2) : 0), bumps = 1 + choose(2), preemptions = threads == 2 ? pick(3, 5) : 2;
    int serves = choose(2);
    g_version = 0; memset(g_open, 0, sizeof g_open); g_active = true;
    static bool warm = false;
    if (!warm) { // lazily made objects that are never freed
        web::DocServer w;
        w.init("/docs");
        shown(&w); bump(); shown(&w);
        g_version = 0;
        warm = true;
    }
    sched::run(preemptions, [&] {
        web::DocServer* ds = new web::DocServer;
        ds->init("/docs");
        Th a{[=] {
            for (int i = 0; i <= serves; i++) { int before = version(), v = shown(ds); mc::step(); MC_CHECK(v >= before, "the page shows version %d of the contents although the file had version %d when it was asked for", v, before); }
        }};
        Th c;
        if (threads > 2) c.run([=] { int before = version(), v = shown(ds); MC_CHECK(v >= before, "the page shows version %d, the file had %d", v, before); });
        for (int i = 0; i < bumps; i++) {
            bump();
            int before = version(), v = shown(ds);
            mc::step();
            MC_CHECK(v >= before, "the page shows version %d of the contents although the file had version %d when it was asked for", v, before);
        }
        a.join();
        if (threads > 2) c.join();
        MC_CHECK(shown(ds) == g_version, "in the end the page shows other contents than the file's");
        delete ds;
    });
    mc::state(g_version * 100 + threads * 10 + serves);
    mc::nontrivial();
    g_active = false;
}
MC_SCENARIOS = {
    {"serving", serving, 0, "two threads (thorough also three) serve pages while the contents are replaced once or twice: every interleaving at system calls, locks and atomics within 3 preemptions (thorough 5, with three threads 2)"},
    MC_END};
