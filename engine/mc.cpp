// Exhaustive explorer. The tree of choice sequences is cut at a depth that gives enough
// prefixes; worker processes take prefixes from a shared counter and do a depth-first
// search below each. A worker's current sequence lives in shared memory, so when the code
// under test crashes, trips an assertion, is stopped by AddressSanitizer or hangs, the
// parent knows the exact sequence, confirms it in a fresh process, and resumes after it.
#include "mc.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <vector>
#include <string>
#include <algorithm>
#include <atomic>

extern "C" {
__attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
const char* __asan_default_options() {
    return "exitcode=97:detect_leaks=0:symbolize=0:allocator_may_return_null=1:max_allocation_size_mb=3000:"
           "quarantine_size_mb=8:detect_stack_use_after_return=0:handle_abort=0:handle_segv=1:handle_sigill=0:"
           "detect_odr_violation=0:malloc_context_size=4:allocator_release_to_os_interval_ms=-1";
}
}

namespace mc {
static const int MaxDepth = 4096;
static const int MsgSize = 1024;
static const int LogSize = 1 << 16;
static const int EXIT_FAIL = 99, EXIT_NONDET = 98, EXIT_ASAN = 97;

struct Seq {
    int len;
    uint16_t c[MaxDepth];
    uint16_t n[MaxDepth];
};
struct Slot {
    Seq cur;
    std::atomic<uint64_t> execs, steps, nontriv, redundant, distinctNT, maxLen;
    std::atomic<uint64_t> heartbeat;
    std::atomic<int> curPrefix;
    std::atomic<int> done;
    std::atomic<int> capped;
    char msg[MsgSize];
    Seq sample[3];
    int numSamples;
    double maxCpu;
};
static const uint64_t TableBits = 22, TableSize = 1ull << TableBits;
struct Shared {
    std::atomic<int> nextPrefix;
    std::atomic<int> stop;
    std::atomic<uint64_t> tableFull, states;
    std::atomic<uint64_t> table[TableSize];
    std::atomic<uint64_t> tableNT_full, statesNT;
    std::atomic<uint64_t> tableNT[TableSize];
    char log[LogSize];
    size_t logLen;
    char caseName[MsgSize];
    Slot slots[64];
};
static Shared* S;
static Slot* me;
static int g_tier = 0;
static bool g_verbose = false;
static int g_pos = 0;         // next choice index
static int g_replayLen = 0;   // choices below this are forced
static bool g_nt = false, g_redundant = false;
static uint64_t g_obs = 0;
static double g_deadline = 1e18;
static int g_limitDepth = -1;
static double g_maxCpu = 10.0;
static int g_learn = 0; // replaying from a file: the numbers of alternatives are not recorded there

static double now() {
    timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); // not the scheduler's virtual clock
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static double wallAtStart;

int tier() { return g_tier; }
bool verbose() { return g_verbose; }
void maxCpuPerExecution(double s) { me->maxCpu = s; }
bool deadlineNear() { return now() > g_deadline; }

static std::atomic<long> g_live;
long liveBlocks() { return g_live.load(); }
static void onMalloc(const volatile void* p, size_t) { if (p) g_live.fetch_add(1, std::memory_order_relaxed); }
static void onFree(const volatile void* p) { if (p) g_live.fetch_sub(1, std::memory_order_relaxed); }

int choose(int n) {
    if (n <= 0) fail("engine: choose(%d)", n);
    if (n == 1) return 0;
    if (g_pos >= MaxDepth) fail("engine: execution makes more than %d choices", MaxDepth);
    Seq& s = me->cur;
    int r;
    if (g_pos < g_learn) {
        r = s.c[g_pos];
        s.n[g_pos] = (uint16_t) n;
        if (r >= n) { snprintf(me->msg, MsgSize, "replay: choice %d has only %d alternatives here", g_pos, n); _exit(EXIT_NONDET); }
        s.len = g_pos + 1 > s.len ? g_pos + 1 : s.len;
    } else if (g_pos < g_replayLen) {
        if (s.n[g_pos] != n) {
            snprintf(me->msg, MsgSize, "the same choices led to a different situation (choice %d had %d alternatives, now %d)",
                     g_pos, s.n[g_pos], n);
            _exit(EXIT_NONDET);
        }
        r = s.c[g_pos];
    } else {
        r = 0;
        s.c[g_pos] = 0;
        s.n[g_pos] = (uint16_t) n;
        s.len = g_pos + 1;
    }
    g_pos++;
    return r;
}
void fail(const char* fmt, ...) {
    va_list a;
    va_start(a, fmt);
    vsnprintf(me->msg, MsgSize, fmt, a);
    va_end(a);
    _exit(EXIT_FAIL);
}
void step(int n) { me->steps.store(me->steps.load(std::memory_order_relaxed) + n, std::memory_order_relaxed); }
void nontrivial() { g_nt = true; }
void markRedundant() { g_redundant = true; }
static bool insertTable(std::atomic<uint64_t>* table, std::atomic<uint64_t>& full, uint64_t h) {
    if (h == 0) h = 1;
    uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> (64 - TableBits);
    for (int probes = 0; probes < 64; probes++) {
        uint64_t v = table[i].load(std::memory_order_relaxed);
        if (v == h) return false;
        if (v == 0) {
            uint64_t e = 0;
            if (table[i].compare_exchange_strong(e, h)) return true;
            if (e == h) return false;
        }
        i = (i + 1) & (TableSize - 1);
    }
    full.fetch_add(1);
    return false;
}
void state(uint64_t h) {
    if (insertTable(S->table, S->tableFull, h)) S->states.fetch_add(1);
    g_obs = mix(g_obs, h);
}
uint64_t hashBytes(const void* p, size_t n, uint64_t h) {
    const unsigned char* b = (const unsigned char*) p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return mix(h, n);
}
static void vlog(const char* fmt, va_list a) {
    if (S->logLen + 2 >= LogSize) return;
    int r = vsnprintf(S->log + S->logLen, LogSize - S->logLen - 1, fmt, a);
    if (r > 0) S->logLen = std::min<size_t>(S->logLen + r, LogSize - 2);
    S->log[S->logLen++] = '\n';
    S->log[S->logLen] = 0;
}
void logf(const char* fmt, ...) {
    if (!g_verbose) return;
    va_list a;
    va_start(a, fmt);
    vlog(fmt, a);
    va_end(a);
}
void logbytes(const char* what, const void* p, size_t n) {
    if (!g_verbose) return;
    std::string s;
    for (size_t i = 0; i < n; i++) {
        unsigned char c = ((const unsigned char*) p)[i];
        char buf[8];
        if (c >= 32 && c < 127 && c != '\\') { buf[0] = c; buf[1] = 0; }
        else snprintf(buf, 8, "\\x%02x", c);
        s += buf;
    }
    logf("%s (%zu bytes) \"%s\"", what, n, s.c_str());
}
void casef(const char* fmt, ...) {
    if (!g_verbose) return;
    va_list a;
    va_start(a, fmt);
    vsnprintf(S->caseName, MsgSize, fmt, a);
    va_end(a);
}

// ---- running one execution -------------------------------------------------------
static void runOnce(const Scenario& sc) {
    g_pos = 0;
    g_nt = false;
    g_redundant = false;
    g_obs = 0;
    me->heartbeat.fetch_add(1);
    sc.fn();
    if (g_pos < g_replayLen) {
        snprintf(me->msg, MsgSize, "the same choices led to a different situation (ended after %d choices, expected %d)", g_pos, g_replayLen);
        _exit(EXIT_NONDET);
    }
    me->cur.len = g_pos;
}
static bool advance(Seq& s, int floor) { // next sequence in depth-first order; false when exhausted
    while (s.len > floor && s.c[s.len - 1] + 1 >= s.n[s.len - 1]) s.len--;
    if (s.len <= floor) return false;
    s.c[s.len - 1]++;
    return true;
}
static void execute(const Scenario& sc) {
    if (sc.flags & LEAKS) {
        long before = g_live.load();
        runOnce(sc);
        long after = g_live.load();
        if (after != before) {
            int len = me->cur.len;
            int save = g_replayLen;
            g_replayLen = len; // same choices again: lazily created statics do not count
            before = g_live.load();
            runOnce(sc);
            after = g_live.load();
            g_replayLen = save;
            if (after > before) fail("%ld heap block(s) allocated by this execution were never freed", after - before);
        }
    } else {
        runOnce(sc);
    }
}
static void account() {
    me->execs.fetch_add(1, std::memory_order_relaxed);
    if ((uint64_t) me->cur.len > me->maxLen) me->maxLen = me->cur.len;
    if (g_redundant) me->redundant.fetch_add(1);
    if (g_nt) {
        uint64_t k = me->nontriv.fetch_add(1) + 1;
        uint64_t h = g_obs;
        h = mix(h, hashBytes(me->cur.c, me->cur.len * 2));
        if (insertTable(S->tableNT, S->tableNT_full, h)) S->statesNT.fetch_add(1);
        if ((k & (k - 1)) == 0) {
            int i = k < 4 ? 0 : (k < 1024 ? 1 : 2);
            me->sample[i].len = me->cur.len;
            memcpy(me->sample[i].c, me->cur.c, sizeof(uint16_t) * me->cur.len);
            memcpy(me->sample[i].n, me->cur.n, sizeof(uint16_t) * me->cur.len);
            if (me->numSamples < i + 1) me->numSamples = i + 1;
        }
    }
}

// ---- parent side ------------------------------------------------------------------
struct Finding {
    std::string scenario, message, log, caseName;
    std::vector<int> choices;
};
static std::vector<Finding> g_findings;
static int g_unreproduced = 0;
static int g_workers = 8;

static double cpuOf(pid_t pid) {
    clockid_t c;
    timespec t;
    if (clock_getcpuclockid(pid, &c) || clock_gettime(c, &t)) return -1;
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static long rssMB(pid_t pid) {
    char p[64], b[256];
    snprintf(p, 64, "/proc/%d/statm", (int) pid);
    int fd = open(p, O_RDONLY);
    if (fd < 0) return 0;
    ssize_t n = read(fd, b, 255);
    close(fd);
    if (n <= 0) return 0;
    b[n] = 0;
    long a = 0, r = 0;
    sscanf(b, "%ld %ld", &a, &r);
    return r / 256;
}
static void childSetup(bool quiet) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (quiet) {
        int fd = open("/dev/null", O_RDWR);
        dup2(fd, 0); dup2(fd, 1); dup2(fd, 2);
        close(fd);
    }
}
static std::string statusMsg(int st, Slot& sl) {
    char b[256];
    if (WIFEXITED(st)) {
        int c = WEXITSTATUS(st);
        if (c == EXIT_FAIL || c == EXIT_NONDET) return sl.msg;
        if (c == EXIT_ASAN) return "AddressSanitizer stopped the program (memory error)";
        snprintf(b, 256, "the program exited unexpectedly with code %d", c);
        return b;
    }
    int sig = WTERMSIG(st);
    snprintf(b, 256, "%s (signal %d)", (sig == SIGTRAP || sig == SIGILL) ? "an assertion of the library failed" :
             sig == SIGSEGV || sig == SIGBUS ? "memory fault" : sig == SIGABRT ? "aborted" : strsignal(sig), sig);
    return b;
}
// waits for a child, killing it when it exceeds its limits. Returns status; hung set if killed.
static int waitLimited(pid_t pid, double maxCpu, double maxWall, std::string& killed) {
    double t0 = now();
    for (;;) {
        int st;
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) return st;
        double c = cpuOf(pid);
        if (c > maxCpu) killed = "no end: the execution used more CPU time than any correct one could";
        if (now() - t0 > maxWall) killed = "no end: the execution is blocked for ever";
        if (rssMB(pid) > 3500) killed = "the execution allocates memory without bound";
        if (!killed.empty()) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            return st;
        }
        usleep(c < 0.01 ? 300 : 5000);
    }
}
// Runs one sequence in a fresh process. Returns true if it fails.
static bool replay(const Scenario& sc, const Seq& seq, std::string& msg, bool quiet = true) {
    Slot& sl = S->slots[63];
    S->logLen = 0;
    S->log[0] = 0;
    S->caseName[0] = 0;
    sl.msg[0] = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        childSetup(quiet);
        me = &sl;
        me->cur = seq;
        g_replayLen = seq.len;
        g_verbose = true;
        execute(sc);
        _exit(0);
    }
    std::string killed;
    double lim = sl.maxCpu = S->slots[0].maxCpu;
    int st = waitLimited(pid, lim * 2 + 2, 90, killed);
    if (!killed.empty()) { msg = killed; return true; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    msg = statusMsg(st, sl);
    return true;
}
static bool g_stopScenario;
static std::vector<std::string> g_known; // "scenario\tcase"
static int g_unknown = 0, g_knownHits = 0;
static void onFailure(const Scenario& sc, const Seq& seq, const std::string& firstMsg) {
    std::string msg;
    bool ok = false;
    for (int i = 0; i < 2 && !ok; i++) ok = replay(sc, seq, msg);
    if (!ok) {
        g_unreproduced++;
        fprintf(stderr, "note: %s: a failure (%s) did not reproduce\n", sc.name, firstMsg.c_str());
        return;
    }
    Finding f;
    f.scenario = sc.name;
    f.message = msg;
    f.log = S->log;
    f.caseName = S->caseName;
    for (int i = 0; i < seq.len; i++) f.choices.push_back(seq.c[i]);
    std::string k = f.scenario + "\t" + f.caseName;
    bool known = !f.caseName.empty() && std::find(g_known.begin(), g_known.end(), k) != g_known.end();
    if (known) {
        g_knownHits++;
        for (auto& g : g_findings) if (g.scenario + "\t" + g.caseName == k) return;
    } else {
        g_unknown++;
    }
    g_findings.push_back(f);
    if (g_unknown >= 3) g_stopScenario = true;
}

struct ScStats {
    std::string name, what;
    uint64_t execs, steps, states, nontriv, distinctNT, redundant, maxLen, prefixes;
    bool exhaustive;
    double wall;
    std::vector<std::string> samples;
};
static std::vector<ScStats> g_stats;

static void workerLoop(const Scenario& sc, const std::vector<Seq>& prefixes, Slot* slot, bool resume) {
    me = slot;
    bool inPrefix = resume;
    for (;;) {
        int p;
        if (inPrefix) {
            p = me->curPrefix;
            inPrefix = false;
            if (!advance(me->cur, prefixes[p].len)) continue;
        } else {
            p = S->nextPrefix.fetch_add(1);
            if (p >= (int) prefixes.size()) break;
            me->cur = prefixes[p];
            me->curPrefix = p;
        }
        int floor = prefixes[p].len;
        for (;;) {
            if (S->stop.load(std::memory_order_relaxed)) _exit(0);
            g_replayLen = me->cur.len;
            execute(sc);
            account();
            if ((me->execs & 63) == 0 && now() > g_deadline) {
                me->capped = 1;
                me->done = 1;
                _exit(0);
            }
            if (!advance(me->cur, floor)) break;
        }
    }
    me->done = 1;
    _exit(0);
}

static void explore(const Scenario& sc) {
    double t0 = now();
    S->nextPrefix = 0;
    S->stop = 0;
    S->tableFull = 0; S->states = 0; S->tableNT_full = 0; S->statesNT = 0;
    static bool dirty = false;
    if (dirty) {
        memset((void*) S->table, 0, sizeof S->table);
        memset((void*) S->tableNT, 0, sizeof S->tableNT);
    }
    dirty = true;
    for (int i = 0; i < 64; i++) {
        Slot& s = S->slots[i];
        s.execs = 0; s.steps = 0; s.nontriv = 0; s.redundant = 0; s.maxLen = 0; s.done = 0; s.capped = 0; s.heartbeat = 0;
        s.curPrefix = -1; s.numSamples = 0; s.cur.len = 0; s.msg[0] = 0; s.maxCpu = g_maxCpu;
    }
    g_stopScenario = false;
    // 1. prefixes
    std::vector<Seq>* prefixesP = new std::vector<Seq>;
    std::vector<Seq>& prefixes = *prefixesP;
    {
        Seq root; root.len = 0;
        prefixes.push_back(root);
    }
    int W = (sc.flags & ONEPROC) ? 1 : g_workers;
    if (W > 1) {
        // expand level by level: run each prefix once to learn how many alternatives follow
        static Seq* tmp = (Seq*) mmap(nullptr, sizeof(Seq) * 2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        int* arity = (int*) mmap(nullptr, sizeof(int) * 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        for (int round = 0; round < 14 && prefixes.size() < 40; round++) {
            size_t n = prefixes.size();
            for (size_t i = 0; i < n; i++) arity[i] = -2; // not known (crashed): keep as is
            size_t at = 0;
            while (at < n) {
                fflush(stdout);
                pid_t pid = fork();
                if (pid == 0) {
                    childSetup(true);
                    me = &S->slots[0];
                    for (; at < n; at++) {
                        me->curPrefix = (int) at;
                        me->cur = prefixes[at];
                        g_replayLen = me->cur.len;
                        arity[at] = -2;
                        execute(sc);
                        arity[at] = me->cur.len > prefixes[at].len ? me->cur.n[prefixes[at].len] : -1;
                    }
                    _exit(0);
                }
                std::string killed;
                int st = waitLimited(pid, n * 0.2 + S->slots[0].maxCpu, 100, killed);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
                at = S->slots[0].curPrefix + 1; // failed there; the workers will find it again
                // if the choice after the prefix was already made, its arity is known
                size_t f = at - 1;
                if (S->slots[0].cur.len > prefixes[f].len) arity[f] = S->slots[0].cur.n[prefixes[f].len];
            }
            std::vector<Seq> next;
            bool grew = false;
            for (size_t i = 0; i < n; i++) {
                if (arity[i] > 0) {
                    grew = true;
                    for (int k = 0; k < arity[i]; k++) {
                        next.push_back(prefixes[i]);
                        Seq& s = next.back();
                        s.n[s.len] = arity[i];
                        s.c[s.len] = k;
                        s.len++;
                    }
                } else {
                    next.push_back(prefixes[i]);
                }
            }
            if (next.size() > 3000) break;
            prefixes.swap(next);
            if (!grew) break;
        }
        munmap(arity, sizeof(int) * 4096);
        // the probing runs do not count
        for (int i = 0; i < 64; i++) { S->slots[i].execs = 0; S->slots[i].steps = 0; S->slots[i].nontriv = 0; }
    }
    if (prefixes.size() < (size_t) W) W = prefixes.size();
    // 2. workers
    std::vector<pid_t> pids(W, -1);
    std::vector<uint64_t> lastBeat(W, 0);
    std::vector<double> cpuAt(W, 0), wallAt(W, now());
    auto start = [&](int w, bool resume) {
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            childSetup(true);
            workerLoop(sc, prefixes, &S->slots[w], resume);
        }
        pids[w] = pid;
        cpuAt[w] = 0;
        wallAt[w] = now();
        lastBeat[w] = S->slots[w].heartbeat;
    };
    for (int w = 0; w < W; w++) start(w, false);
    int alive = W;
    double nextCheck = now() + 0.5;
    while (alive > 0) {
        bool any = false;
        for (int w = 0; w < W; w++) {
            if (pids[w] < 0) continue;
            int st;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]) {
                any = true;
                bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
                if (clean) { pids[w] = -1; alive--; continue; }
                Slot& sl = S->slots[w];
                if (sl.curPrefix < 0 || sl.heartbeat == 0) { // died before anything ran
                    fprintf(stderr, "engine: worker died at start\n");
                    pids[w] = -1; alive--; continue;
                }
                Seq seq = sl.cur;
                sl.execs.fetch_add(1);
                onFailure(sc, seq, statusMsg(st, sl));
                if (g_stopScenario) { S->stop = 1; pids[w] = -1; alive--; continue; }
                start(w, true);
            }
        }
        if (!any) usleep(1000);
        if (now() > nextCheck) {
            nextCheck = now() + 0.5;
            for (int w = 0; w < W; w++) {
                if (pids[w] < 0) continue;
                uint64_t b = S->slots[w].heartbeat;
                double c = cpuOf(pids[w]);
                std::string why;
                if (b != lastBeat[w]) { lastBeat[w] = b; cpuAt[w] = c; wallAt[w] = now(); }
                else if (c - cpuAt[w] > S->slots[w].maxCpu) why = "hang (cpu)";
                else if (now() - wallAt[w] > 60 + 3 * S->slots[w].maxCpu) why = "hang (wall)";
                if (why.empty() && rssMB(pids[w]) > 3500) why = "memory";
                if (!why.empty()) {
                    kill(pids[w], SIGKILL);
                    int st;
                    waitpid(pids[w], &st, 0);
                    Seq seq = S->slots[w].cur;
                    S->slots[w].execs.fetch_add(1);
                    onFailure(sc, seq, why);
                    if (g_stopScenario) { S->stop = 1; pids[w] = -1; alive--; continue; }
                    start(w, true);
                }
            }
        }
    }
    ScStats st;
    st.name = sc.name;
    st.what = sc.what ? sc.what : "";
    st.execs = st.steps = st.nontriv = st.redundant = st.maxLen = 0;
    bool capped = false;
    for (int w = 0; w < W; w++) {
        Slot& s = S->slots[w];
        st.execs += s.execs; st.steps += s.steps; st.nontriv += s.nontriv; st.redundant += s.redundant;
        st.maxLen = std::max<uint64_t>(st.maxLen, s.maxLen);
        if (s.capped || !s.done) capped = true;
    }
    st.states = S->states;
    st.distinctNT = S->statesNT;
    if (S->tableNT_full) st.distinctNT = S->statesNT; // a lower bound once the table is full
    st.prefixes = prefixes.size();
    st.exhaustive = !capped && !g_stopScenario;
    // samples
    int got = 0;
    for (int w = 0; w < W && got < 2; w++) {
        Slot& s = S->slots[w];
        if (s.numSamples > 0 && got < 2) {
            Seq seq = s.sample[s.numSamples - 1];
            std::string msg;
            if (!replay(sc, seq, msg)) {
                std::string t = S->log;
                if (t.size() > 700) t = t.substr(0, 700) + "...";
                std::string ch;
                for (int i = 0; i < seq.len && i < 60; i++) ch += (i ? "," : "") + std::to_string(seq.c[i]);
                st.samples.push_back(std::string(sc.name) + " choices [" + ch + "]: " + t);
                got++;
            }
        }
    }
    st.wall = now() - t0;
    g_stats.push_back(st);
    delete prefixesP;
}

static std::string js(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

static int mcMain(int argc, char** argv) {
    wallAtStart = now();
    std::string out, replayArg, only, knownFile;
    double cap = 600;
    g_workers = std::max(1, std::min(16, (int) sysconf(_SC_NPROCESSORS_ONLN)));
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") g_tier = val() == "thorough";
        else if (a == "--out") out = val();
        else if (a == "--replay") replayArg = val();
        else if (a == "--only") only = val();
        else if (a == "--known") knownFile = val();
        else if (a == "--cap") cap = atof(val().c_str());
        else if (a == "--workers") g_workers = atoi(val().c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (!knownFile.empty()) {
        if (FILE* f = fopen(knownFile.c_str(), "r")) {
            char line[4096];
            while (fgets(line, sizeof line, f)) {
                size_t n = strlen(line);
                while (n && (line[n - 1] == '\n')) line[--n] = 0;
                if (n) g_known.push_back(line);
            }
            fclose(f);
        }
    }
    S = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    for (int i = 0; i < 64; i++) S->slots[i].maxCpu = g_maxCpu;
    signal(SIGPIPE, SIG_IGN);
    if (!replayArg.empty()) {
        // scenario:c/n,c/n,...   (or c,c,...)
        size_t col = replayArg.find(':');
        std::string name = replayArg.substr(0, col);
        Seq seq;
        seq.len = 0;
        std::string rest = col == std::string::npos ? "" : replayArg.substr(col + 1);
        std::vector<int> cs;
        size_t i = 0;
        while (i < rest.size()) {
            cs.push_back(atoi(rest.c_str() + i));
            size_t j = rest.find(',', i);
            if (j == std::string::npos) break;
            i = j + 1;
        }
        for (const Scenario* sc = mc_scenarios; sc->name; sc++) {
            if (name != sc->name) continue;
            me = &S->slots[62];
            // arities are not in the file: force them on the way
            for (int c : cs) { seq.c[seq.len] = c; seq.n[seq.len] = 0xffff; seq.len++; }
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                childSetup(false);
                me->cur = seq;
                g_verbose = true;
                // learn arities while replaying
                g_learn = seq.len;
                g_replayLen = 0;
                execute(*sc);
                _exit(0);
            }
            std::string killed;
            int st = waitLimited(pid, g_maxCpu * 2 + 2, 90, killed);
            printf("%s", S->log);
            if (S->caseName[0]) printf("CASE: %s\n", S->caseName);
            if (!killed.empty()) { printf("FAILED: %s\n", killed.c_str()); return 1; }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("PASSED\n"); return 0; }
            printf("FAILED: %s\n", statusMsg(st, *me).c_str());
            return 1;
        }
        fprintf(stderr, "no scenario %s\n", name.c_str());
        return 2;
    }
    std::vector<const Scenario*> list;
    for (const Scenario* sc = mc_scenarios; sc->name; sc++) {
        if (!only.empty() && only != sc->name) continue;
        if ((sc->flags & THOROUGH) && !g_tier) continue;
        if ((sc->flags & QUICK) && g_tier) continue;
        list.push_back(sc);
    }
    double endAll = wallAtStart + cap;
    for (size_t i = 0; i < list.size(); i++) {
        double left = endAll - now();
        // a scenario may use what is left, keeping a small share for each one after it
        double share = left - (list.size() - 1 - i) * std::min(10.0, cap / (2.0 * list.size()));
        g_deadline = now() + std::max(1.0, share);
        explore(*list[i]);
        if (g_unknown >= 3) break;
    }
    std::string o = "{\n\"scenarios\": [\n";
    for (size_t i = 0; i < g_stats.size(); i++) {
        ScStats& s = g_stats[i];
        char b[512];
        o += "{\"name\":" + js(s.name) + ",\"what\":" + js(s.what);
        snprintf(b, 512, ",\"executions\":%lu,\"steps\":%lu,\"states\":%lu,\"nontrivial\":%lu,\"distinct_nontrivial\":%lu,\"redundant\":%lu,\"max_choices\":%lu,\"prefixes\":%lu,\"exhaustive\":%s,\"wall_s\":%.2f,\"samples\":[",
                 s.execs, s.steps, s.states, s.nontriv, s.distinctNT, s.redundant, s.maxLen, s.prefixes, s.exhaustive ? "true" : "false", s.wall);
        o += b;
        for (size_t k = 0; k < s.samples.size(); k++) o += (k ? "," : "") + js(s.samples[k]);
        o += "]}";
        o += i + 1 < g_stats.size() ? ",\n" : "\n";
    }
    o += "],\n\"findings\": [\n";
    for (size_t i = 0; i < g_findings.size(); i++) {
        Finding& f = g_findings[i];
        std::string k = f.scenario + "\t" + f.caseName;
        bool known = !f.caseName.empty() && std::find(g_known.begin(), g_known.end(), k) != g_known.end();
        o += "{\"scenario\":" + js(f.scenario) + ",\"message\":" + js(f.message) + ",\"case\":" + js(f.caseName) + ",\"known\":" + (known ? "true" : "false") + ",\"log\":" + js(f.log) + ",\"choices\":[";
        for (size_t k2 = 0; k2 < f.choices.size(); k2++) o += (k2 ? "," : "") + std::to_string(f.choices[k2]);
        o += "]}";
        o += i + 1 < g_findings.size() ? ",\n" : "\n";
    }
    char b[128];
    snprintf(b, 128, "],\n\"unreproduced\": %d, \"wall_s\": %.2f\n}\n", g_unreproduced, now() - wallAtStart);
    o += b;
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        if (!f) { perror(out.c_str()); return 2; }
        fwrite(o.data(), 1, o.size(), f);
        fclose(f);
    } else {
        fputs(o.c_str(), stdout);
    }
    return g_unknown ? 1 : 0;
}
} // namespace mc

int main(int argc, char** argv) { return mc::mcMain(argc, argv); }
