// Starting subprocesses: every combination of redirections with every failing system call, on a model
// of the descriptor tables of parent and child; then real processes.
#include "common.h"
#include <ply-runtime/process/Subprocess.h>
#include <ply-runtime/io/impl/Pipe_FD.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <dirent.h>
#include <stdarg.h>
#include <errno.h>
using mc::pick;
struct Ent { std::string obj; bool cloexec; bool operator==(const Ent& o) const { return obj == o.obj && cloexec == o.cloexec; } };
typedef std::map<int, Ent> Table;
struct Outcome { int how; char text[4000]; }; // 0 nothing, 1 exec, 2 abort, 3 exit
struct World {
    bool active = false, child = false;
    Table t, before;
    int faults = 0, eintr = 0, pipes = 0, opens = 0;
    bool chdirFails = false, execFails = false, starting = false;
    std::string failed, bad, cwd = "start";
    int status = 0; bool running = false, reaped = false; // what waitpid will say
    Outcome* out = nullptr;
};
static World W;
static int err(int e) { errno = e; return -1; }
static bool fault(const char* what) {
    if (W.child || W.faults <= 0) return false;
    if (!choose(2)) return false;
    W.faults--; W.failed += std::string(W.failed.empty() ? "" : ", ") + what;
    return true;
}
static void note(const std::string& s) { if (W.bad.empty()) W.bad = s; }
// another thread might start a process right now: nothing new may be inheritable
static void exposure() {
    if (W.child || !W.starting) return;
    for (auto& k : W.t) if (!W.before.count(k.first) && !k.second.cloexec) note("descriptor " + std::to_string(k.first) + " (" + k.second.obj + ") would be inherited by a process started at this moment");
}
static int lowest(int from) { while (W.t.count(from)) from++; return from; }
static void terminate(int how, const std::string& s) {
    W.out->how = how;
    snprintf(W.out->text, sizeof W.out->text, "%s", s.c_str());
    syscall(SYS_exit_group, 0);
}
static std::string tableText(const Table& t, bool all) { std::string s; for (auto& k : t) if (all || !k.second.cloexec) s += " " + std::to_string(k.first) + "=" + k.second.obj + (all && k.second.cloexec ? "*" : ""); return s; }
extern "C" {
int pipe2(int* fds, int flags) {
    if (!W.active) return (int) syscall(SYS_pipe2, fds, flags);
    if (fault("pipe")) return err(EMFILE);
    int n = ++W.pipes; bool c = flags & O_CLOEXEC;
    W.t[fds[0] = lowest(0)] = {"pipe" + std::to_string(n) + "-read", c};
    W.t[fds[1] = lowest(0)] = {"pipe" + std::to_string(n) + "-write", c};
    exposure();
    return 0;
}
int pipe(int* fds) noexcept { return pipe2(fds, 0); }
static int doDup(int fd, int from, bool c) {
    if (!W.t.count(fd)) { note("duplicates descriptor " + std::to_string(fd) + ", which is not open"); return err(EBADF); }
    if (fault("dup")) return err(EMFILE);
    int n = lowest(from); W.t[n] = {W.t[fd].obj, c};
    exposure();
    return n;
}
int dup(int fd) noexcept { return W.active ? doDup(fd, 0, false) : (int) syscall(SYS_dup, fd); }
int dup3(int a, int b, int flags) noexcept {
    if (!W.active) return (int) syscall(SYS_dup3, a, b, flags);
    if (!W.t.count(a)) { note("duplicates descriptor " + std::to_string(a) + ", which is not open"); return err(EBADF); }
    if (a == b) return err(EINVAL);
    W.t[b] = {W.t[a].obj, bool(flags & O_CLOEXEC)};
    exposure();
    return b;
}
int dup2(int a, int b) noexcept {
    if (!W.active) { if (a == b) return b; return (int) syscall(SYS_dup3, a, b, 0); }
    if (!W.t.count(a)) { note("duplicates descriptor " + std::to_string(a) + ", which is not open"); return err(EBADF); }
    if (a == b) return b;
    return dup3(a, b, 0);
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!W.active) return (int) syscall(SYS_fcntl, fd, cmd, arg);
    if (!W.t.count(fd)) { note("fcntl on descriptor " + std::to_string(fd) + ", which is not open"); return err(EBADF); }
    switch (cmd) {
        case F_SETFD: W.t[fd].cloexec = arg & FD_CLOEXEC; return 0;
        case F_GETFD: return W.t[fd].cloexec ? FD_CLOEXEC : 0;
        case F_DUPFD: return doDup(fd, (int) arg, false);
        case F_DUPFD_CLOEXEC: return doDup(fd, (int) arg, true);
        case F_GETFL: case F_SETFL: return 0;
    }
    note("unexpected fcntl " + std::to_string(cmd));
    return err(EINVAL);
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
int open(const char* path, int flags, ...) {
    if (!W.active) { va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); return (int) syscall(SYS_openat, AT_FDCWD, path, flags, mode); }
    if (fault("open")) return err(EMFILE);
    int fd = lowest(0);
    bool null = !strcmp(path, "/dev/null");
    int mode = flags & O_ACCMODE;
    W.t[fd] = {null && mode == O_RDONLY ? "null-read" : null && mode == O_WRONLY ? "null-write" : null ? "null-both" : std::string("file ") + path, bool(flags & O_CLOEXEC)};
    exposure();
    return fd;
}
int open64(const char* path, int flags, ...) { return open(path, flags, 0); }
int close(int fd) {
    if (!W.active) return (int) syscall(SYS_close, fd);
    if (!W.t.count(fd)) { note("closes descriptor " + std::to_string(fd) + ", which is not open"); return err(EBADF); }
    W.t.erase(fd);
    return 0;
}
pid_t fork() noexcept {
    if (!W.active) return (pid_t) syscall(SYS_fork);
    exposure();
    if (fault("fork")) return err(EAGAIN);
    W.out->how = 0;
    pid_t p = (pid_t) syscall(SYS_fork);
    if (p == 0) { W.child = true; return 0; }
    int st; while (syscall(SYS_wait4, p, &st, 0, nullptr) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) { W.out->how = 4; W.status = st; }
    if (W.out->how != 1) W.status = SIGABRT; // what the child did instead of running the program
    W.running = true;
    return 4242;
}
pid_t vfork() noexcept { return fork(); }
int execvp(const char* path, char* const* argv) noexcept {
    if (!W.active) return (int) syscall(SYS_execve, path, argv, environ);
    if (W.execFails) return err(ENOENT);
    if (!W.bad.empty()) terminate(3, W.bad);
    std::string s = std::string(path) + " in " + W.cwd + ":";
    for (int i = 0; argv[i]; i++) s += "[" + std::string(argv[i]) + "]";
    terminate(1, s + tableText(W.t, false));
    return -1;
}
int execv(const char* path, char* const* argv) noexcept { return execvp(path, argv); }
int execve(const char* path, char* const* argv, char* const*) noexcept { return execvp(path, argv); }
int execvpe(const char* path, char* const* argv, char* const*) noexcept { return execvp(path, argv); }
int chdir(const char* p) noexcept {
    if (!W.active) return (int) syscall(SYS_chdir, p);
    if (W.chdirFails) return err(ENOENT);
    W.cwd = p;
    return 0;
}
pid_t waitpid(pid_t p, int* st, int flags) {
    if (!W.active) return (pid_t) syscall(SYS_wait4, p, st, flags, nullptr);
    if (p != 4242 || W.reaped) { note("waits for a process that is not there"); return err(ECHILD); }
    if (!(flags & WNOHANG) && W.eintr > 0 && choose(2)) { W.eintr--; return err(EINTR); }
    if ((flags & WNOHANG) && W.running && choose(2)) return 0;
    W.reaped = true; W.running = false;
    if (st) *st = W.status;
    return p;
}
void abort() noexcept {
    if (W.active && W.child) terminate(2, W.bad);
    signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(134);
}
}
// ---- the parent's choices
struct Setup { int in, out, err, closed; };
static const char* inNames[] = {"Open", "ignored", "redirected to 5", "redirected to 0"};
static const char* outNames[] = {"Open", "ignored", "redirected to 6", "redirected to 1", "redirected to 2", "same as stdout"};
static Setup setup() {
    Setup s;
    s.closed = choose(8);
    s.in = choose(s.closed & 1 ? 3 : 4);
    s.out = choose(s.closed & 2 ? 3 : 4);
    s.err = choose(6);
    if ((s.err == 3 && s.closed & 2) || (s.err == 4 && s.closed & 4)) s.err = 2;
    return s;
}
static void startWorld(const Setup& s) {
    W = World{};
    W.out = (Outcome*) mmap(nullptr, sizeof(Outcome), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static const char* names[] = {"stdin", "stdout", "stderr"};
    for (int i = 0; i < 3; i++) if (!(s.closed >> i & 1)) W.t[i] = {names[i], false};
    W.t[5] = {"app-in", false}; W.t[6] = {"app-out", true}; W.t[7] = {"app-other", true};
    W.before = W.t;
}
static void endWorld() { munmap(W.out, sizeof(Outcome)); W = World{}; }
// The object one end of whose pipe the parent must hold
static std::string otherEnd(const std::string& o) { size_t k = o.find('-'); return o.substr(0, k) + (o.substr(k) == "-read" ? "-write" : "-read"); }
static void run(bool failures) {
    Setup s = setup();
    bool deep = !failures && (s.closed == 0 || pick(0, 1)); // the rest of the parameters only with standard streams open
    int dir = choose(failures ? 1 : 3), exec = failures ? 0 : choose(2), nargs = failures ? 1 : deep ? 2 * choose(2) : 2;
    static const int statuses[] = {0, 1 << 8, 255 << 8, SIGKILL, SIGSEGV | 0x80};
    int status = failures ? 0 : deep && !exec && s.err < 2 ? statuses[choose(5)] : 0;
    bool join = failures || choose(2);
    startWorld(s);
    W.faults = failures ? pick(1, 2) : 0; W.eintr = failures ? 0 : 1;
    W.chdirFails = dir == 2; W.execFails = exec == 1; W.status = status;
    MC_LOG("stdin %s, stdout %s, stderr %s, closed before:%s%s%s; directory %s%s", inNames[s.in], outNames[s.out], outNames[s.err], s.closed & 1 ? " 0" : "", s.closed & 2 ? " 1" : "", s.closed & 4 ? " 2" : "", dir == 0 ? "not given" : dir == 1 ? "given" : "given but not there", exec ? "; no such program" : "");
    InPipe_FD in5{5}, in0{0}; OutPipe_FD out6{6}, out1{1}, out2{2};
    {
        Subprocess::Input input; Subprocess::Output output;
        if (s.in == 0) input.stdIn = Subprocess::Pipe::Open; else input.stdInPipe = s.in == 1 ? nullptr : s.in == 2 ? &in5 : &in0;
        if (s.out == 0) output.stdOut = Subprocess::Pipe::Open; else output.stdOutPipe = s.out == 1 ? nullptr : s.out == 2 ? &out6 : &out1;
        if (s.err == 0) output.stdErr = Subprocess::Pipe::Open; else if (s.err == 5) output.stdErr = Subprocess::Pipe::StdOut;
        else output.stdErrPipe = s.err == 1 ? nullptr : s.err == 2 ? &out6 : s.err == 3 ? &out1 : &out2;
        HeapBytes exe{"prog"}, a0{"first arg"}, a1{""}, d{"dir"};
        Array<StringView> args; if (nargs > 0) args.append(a0.view()); if (nargs > 1) args.append(a1.view());
        W.active = true; W.starting = true;
        Owned<Subprocess> sub = Subprocess::exec(exe.view(), args.view(), dir ? d.view() : StringView{}, output, input);
        W.starting = false;
        std::string failed = W.failed;
        auto quiet = [&] { W.active = false; };
        mc::step(); mc::state(hstr(tableText(W.t, true) + W.out->text)); if (!failed.empty() || dir == 2 || exec) mc::nontrivial();
        if (!failed.empty()) MC_LOG("failed: %s", failed.c_str());
        if (!W.bad.empty()) { quiet(); MC_CHECK(false, "the operation %s", W.bad.c_str()); }
        if (W.out->how == 3) { quiet(); MC_CHECK(false, "the child %s", W.out->text); }
        if (W.out->how == 4) { quiet(); MC_CHECK(false, "the child crashed (signal %d)", W.status & 127); }
        if (!failed.empty()) {
            if (sub) { quiet(); MC_CHECK(W.out->how == 1, "a failing %s is not reported", failed.c_str()); W.active = true; }
            else { quiet(); MC_CHECK(W.t == W.before, "after a failing %s, descriptors%s are open instead of%s", failed.c_str(), tableText(W.t, true).c_str(), tableText(W.before, true).c_str()); endWorld(); goto done; }
        }
        if (!sub) { quiet(); MC_CHECK(false, "the subprocess is not started though nothing failed"); }
        // the parent holds the other ends
        Table extra; for (auto& k : W.t) if (!W.before.count(k.first)) extra.insert(k);
        quiet();
        for (auto& k : W.before) MC_CHECK(W.t.count(k.first) && W.t[k.first] == k.second, "the parent's descriptor %d changed", k.first);
        auto at = [&](int fd) { return W.t.count(fd) ? W.t[fd].obj : std::string("nothing"); };
        std::string wi = sub->writeToStdIn ? at(sub->writeToStdIn->cast<OutPipe_FD>()->fd) : "", ro = sub->readFromStdOut ? at(sub->readFromStdOut->cast<InPipe_FD>()->fd) : "", re = sub->readFromStdErr ? at(sub->readFromStdErr->cast<InPipe_FD>()->fd) : "";
        MC_CHECK(wi.empty() == (s.in != 0) && ro.empty() == (s.out != 0) && re.empty() == (s.err != 0), "pipes given: stdin %d, stdout %d, stderr %d", !wi.empty(), !ro.empty(), !re.empty());
        MC_CHECK(extra.size() == (size_t) (!wi.empty() + !ro.empty() + !re.empty()), "the parent is left with descriptors%s", tableText(extra, true).c_str());
        for (auto& k : extra) MC_CHECK(k.second.cloexec, "the parent's descriptor %d (%s) is inherited by the next subprocess", k.first, k.second.obj.c_str());
        if (dir == 2 || exec) MC_CHECK(W.out->how == 2, "the child ended with %s", W.out->how == 1 ? W.out->text : "nothing");
        else {
            Table c = W.before; for (auto i = c.begin(); i != c.end();) if (i->second.cloexec || i->first < 3) i = c.erase(i); else ++i;
            c[0] = {s.in == 0 ? otherEnd(wi) : s.in == 1 ? "null-read" : s.in == 2 ? "app-in" : "stdin", false};
            auto sink = [&](int k, const std::string& pipe) { return k == 0 ? otherEnd(pipe) : k == 1 ? std::string("null-write") : k == 2 ? std::string("app-out") : k == 3 ? std::string("stdout") : std::string("stderr"); };
            c[1] = {sink(s.out, ro), false};
            c[2] = {s.err == 5 ? c[1].obj : sink(s.err, re), false};
            std::string want = std::string("prog in ") + (dir ? "dir" : "start") + ":[prog]" + (nargs > 0 ? "[first arg]" : "") + (nargs > 1 ? "[]" : "") + tableText(c, false);
            // either mode of opening the null device will do
            std::string got = W.out->text; size_t k; while ((k = got.find("null-both")) != got.npos) got.replace(k, 9, got.rfind("0=", k) == k - 2 ? "null-read" : "null-write");
            MC_CHECK(W.out->how == 1 && got == want, "the program is started as %s, asked for %s", W.out->how == 1 ? got.c_str() : "nothing", want.c_str());
        }
        W.active = true;
        if (join) {
            s32 rc = sub->join();
            int want = WIFEXITED(W.status) ? WEXITSTATUS(W.status) : -1;
            quiet();
            if (dir == 2 || exec) MC_CHECK(rc != 0, "a program that did not start gives exit code 0");
            else MC_CHECK(rc == want, "joining gives %d, the status was %x", rc, W.status);
            MC_CHECK(W.reaped, "the child is left as a zombie");
            W.active = true;
        }
        sub.clear();
        quiet();
        MC_CHECK(W.bad.empty(), "the parent %s", W.bad.c_str());
        MC_CHECK(W.t == W.before, "at the end, descriptors%s are open instead of%s", tableText(W.t, true).c_str(), tableText(W.before, true).c_str());
        MC_CHECK(W.reaped || W.running, "the child is left as a zombie");
        endWorld();
    }
done:
    in5.fd = in0.fd = out6.fd = out1.fd = out2.fd = open("/dev/null", O_RDWR); // the pipes close what they hold
    in5.fd = dup(out6.fd); in0.fd = dup(out6.fd); out1.fd = dup(out6.fd); out2.fd = dup(out6.fd);
}
static void wiring() { run(false); }
static void failing() { run(true); }

// ---- real processes
static void contain() { static bool done = false; if (done) return; done = true; if (getuid() == 0) { if (setgid(65534) || setuid(65534)) abort(); } signal(SIGPIPE, SIG_IGN); if (chdir("/")) abort(); }
static std::string readAll(InPipe* p) { std::string s; char buf[5000]; for (;;) { u32 n = p->readSome({buf, sizeof buf}); if (!n) break; s.append(buf, n); } return s; }
static std::string openFds(bool inheritable) { std::set<int> v; DIR* d = opendir("/proc/self/fd"); int self = dirfd(d); while (auto* e = readdir(d)) if (e->d_name[0] != '.') { int f = atoi(e->d_name); if (f != self && (!inheritable || !(fcntl(f, F_GETFD, 0) & FD_CLOEXEC))) v.insert(f); } closedir(d); std::string s; for (int f : v) s += " " + std::to_string(f); return s; }
static Owned<Subprocess> sh(const std::string& script, const std::vector<std::string>& extra, const char* dir, const Subprocess::Output& o, const Subprocess::Input& i) {
    Array<StringView> args; std::vector<HeapBytes*> keep;
    auto add = [&](const std::string& x) { keep.push_back(new HeapBytes{x}); args.append(keep.back()->view()); };
    add("-c"); add(script); for (auto& x : extra) add(x);
    HeapBytes d{dir};
    Owned<Subprocess> s = Subprocess::exec("/bin/sh", args.view(), d.view(), o, i);
    for (auto* k : keep) delete k;
    return s;
}
static void args() {
    static const std::string alphabet[] = {"a", " ", "\"", "'", "\\", "$", "*", "\n", "%", "\xC3\xA9", "\xFF", "-"};
    int n = choose(3);
    std::vector<std::string> v;
    for (int k = 0; k < n; k++) { std::string a; int len = n == 1 ? choose(pick(3, 4)) : 1 + choose(pick(1, 2)); for (int j = 0; j < len; j++) a += alphabet[choose(12)]; v.push_back(a); }
    contain();
    std::string want; for (auto& a : v) want += "<" + a + ">";
    MC_LOG("arguments %s", esc(want).c_str());
    std::vector<std::string> extra{"name"}; extra.insert(extra.end(), v.begin(), v.end());
    Owned<Subprocess> s = sh("for a; do printf '<%s>' \"$a\"; done", extra, "/", Subprocess::Output::openMerged(), Subprocess::Input::ignore());
    std::string got = readAll(s->readFromStdOut);
    s32 rc = s->join();
    mc::step(); mc::nontrivial(); mc::state(hstr(want));
    MC_CHECK(got == want, "arguments %s arrived as %s", esc(want).c_str(), esc(got).c_str());
    MC_CHECK(rc == 0, "exit code %d", rc);
}
static void real() {
    int in = choose(2), out = choose(3), code = std::vector<int>{0, 1, 127, 255, -1}[choose(5)];
    static const int sizes[] = {0, 1, 4095, 4096, 65536, 65537, 200000};
    int size = sizes[choose(7)], dir = choose(3);
    contain();
    std::string before = openFds(false), inherit = openFds(true);
    std::string script = std::string("pwd -P; echo /proc/self/fd/*; wc -c; ") + "head -c " + std::to_string(size) + " /dev/zero | tr '\\0' x; echo; echo problem >&2; " + (code < 0 ? "kill -9 $$" : "exit " + std::to_string(code));
    Subprocess::Output o = out == 0 ? Subprocess::Output::openSeparate() : out == 1 ? Subprocess::Output::openMerged() : Subprocess::Output::openStdOutOnly();
    MC_LOG("%d bytes each way, stdin %s, output %s, exit %d", size, in ? "open" : "ignored", out == 0 ? "separate" : out == 1 ? "merged" : "stdout only", code);
    {
        Owned<Subprocess> s = sh(script, {}, dir == 0 ? "" : dir == 1 ? "/usr" : "/no/such", o, in ? Subprocess::Input::open() : Subprocess::Input::ignore());
        if (dir == 2) { MC_CHECK(!s || s->join() != 0, "a program whose directory does not exist ran"); }
        else {
            if (in) { std::string data(size, 'y'); MC_CHECK(s->writeToStdIn->write(view(data)), "writing to the child failed"); s->writeToStdIn.clear(); }
            std::string got = readAll(s->readFromStdOut), problem = out == 0 ? readAll(s->readFromStdErr) : "";
            s32 rc = s->join();
            // the shell itself holds no more descriptors than what is inheritable, with 0, 1, 2
            std::set<std::string> fds{"0", "1", "2"}; { std::string x; for (char c : inherit + " ") { if (c != ' ') { x += c; continue; } if (!x.empty()) fds.insert(x); x.clear(); } }
            std::string list; for (auto& f : fds) list += (list.empty() ? "" : " ") + ("/proc/self/fd/" + f);
            std::string want = std::string(dir ? "/usr" : "/") + "\n" + list + "\n" + std::to_string(in ? size : 0) + "\n" + std::string(size, 'x') + "\n" + (out == 1 ? "problem\n" : "");
            size_t nl = got.find('\n'), nl2 = got.find('\n', nl + 1);
            std::string line = nl2 == got.npos ? "" : got.substr(nl + 1, nl2 - nl - 1), kept; // the shell's own descriptor for listing the directory
            for (size_t a = 0; a < line.size();) { size_t b = line.find(' ', a); if (b == line.npos) b = line.size(); std::string w = line.substr(a, b - a); if (fds.count(w.substr(w.rfind('/') + 1)) || w == "/proc/self/fd/*") kept += (kept.empty() ? "" : " ") + w; else if (w != "/proc/self/fd/" + std::to_string(std::stoi(*fds.rbegin()) + 1) && w != "/proc/self/fd/3") kept += " extra:" + w; a = b + 1; }
            if (nl2 != got.npos) got = got.substr(0, nl + 1) + kept + got.substr(nl2);
            MC_CHECK(got == want, "got %zu bytes %s, expected %zu bytes %s", got.size(), esc(got.substr(0, 120)).c_str(), want.size(), esc(want.substr(0, 120)).c_str());
            MC_CHECK(out != 0 || problem == "problem\n", "on stderr: %s", esc(problem).c_str());
            MC_CHECK(rc == code, "joining gives %d", rc);
        }
    }
    std::string after = openFds(false);
    MC_CHECK(after == before, "descriptors%s are open, before%s", after.c_str(), before.c_str());
    mc::step(); mc::nontrivial(); mc::state(hstr(std::to_string(size) + "," + std::to_string(in * 3 + out) + "," + std::to_string(code) + "," + std::to_string(dir)));
}
MC_SCENARIOS = {
    {"wiring", wiring, 0, "every combination of redirections, closed standard streams, directories and exit statuses"},
    {"failing", failing, 0, "every combination of redirections with every failing system call"},
    {"args", args, 0, "real processes given every short argument"},
    {"real", real, 0, "real processes with data each way"},
    MC_END};
