// See sched.h. Threads are fibers of one process. A scheduling point precedes every atomic
// operation, every pthread/semaphore call and every thread start; between two points a
// thread runs alone. Plain accesses are not scheduling points: instead a vector-clock race
// detector (FastTrack-like, honouring C++ memory orders, release sequences and fences)
// reports any two unordered conflicting accesses, so that race-free executions lose no
// behaviour by this reduction. Memory freed by the code under test is kept until the end of
// the execution and every access to it is reported.
#include "mc.h"
#include "mcsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <sched.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
extern "C" void* __real_realloc(void*, size_t);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" int __real_posix_memalign(void**, size_t, size_t);

namespace {
const int MaxT = 5;
typedef uint16_t clk;
struct VC {
    clk c[MaxT];
    void join(const VC& o) { for (int i = 0; i < MaxT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
enum St { Unused, Run, OnMutex, OnCond, OnCondTimed, OnSem, OnRd, OnWr, OnJoin, Spin, Done };
struct Obj; // sync object
struct Thr {
    St st;
    Obj* on;
    int joinOn;
    bool signalled, timedOut, detached, joined;
    uint64_t deadline;
    uint64_t spinVer;
    VC vc, relFence, acqPending;
    void* (*start)(void*);
    void* arg;
    void* ret;
    void* sp;
    char* stack;
    const void* keys[16];
    uint64_t spinAddr; int spinCount; uint64_t lastVer; Obj* spinObj;
    int ignore;
};
struct Obj {
    uint64_t key; // address (0 = free); kind in low table
    int kind;     // 1 mutex 2 cond 3 sem 4 rwlock 5 atomic
    int owner, depth, readers[MaxT], value;
    bool destroyed;
    uint64_t ver;
    int lastWriter;
    VC clock, rclock;
    int nwait, waitOrder;
};
struct Cell {
    uint64_t key;
    uint32_t epoch;
    uint8_t freed;
    clk W[MaxT][8], R[MaxT][8], AW[MaxT][8], AR[MaxT][8];
};
const int CellBits = 17, NCells = 1 << CellBits, NObjs = 256;
bool g_active;
Thr g_t[MaxT];
int g_timeouts, g_n, g_cur, g_budget, g_spurious, g_spuriousBudget, g_intr, g_intrBudget;
Obj g_objs[NObjs];
int g_numObjs;
Cell* g_cells;
uint32_t g_epoch;
int g_numCells;
uint64_t g_now;
char* g_stacks;
const size_t StackSize = 192 << 10;
struct FreeList { void* p[4096]; int n; } g_quar;
struct LiveBlk { char* p; size_t n; } g_live[4096];
int g_numLive;
struct Freed { char* p; size_t n; int by; } g_freed[4096];
int g_numFreed;
int g_ctxMain;
uint64_t g_ops;
void* g_mainSp;
void (*g_keyDtor[16])(void*);
bool g_keyUsed[16];

extern "C" void sched_switch(void** saveSp, void* newSp);
asm(R"(
.text
.globl sched_switch
.type sched_switch,@function
sched_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");

Thr& cur() { return g_t[g_cur]; }

Obj* obj(const void* p, int kind) {
    for (int i = 0; i < g_numObjs; i++)
        if (g_objs[i].key == (uint64_t) p && g_objs[i].kind == kind) return &g_objs[i];
    if (g_numObjs == NObjs) mc::fail("scheduler: too many synchronisation objects");
    Obj* o = &g_objs[g_numObjs++];
    memset(o, 0, sizeof(*o));
    o->key = (uint64_t) p; o->kind = kind; o->owner = -1; o->lastWriter = -1;
    return o;
}

bool anyReaders(Obj* o, int except) { for (int i = 0; i < MaxT; i++) if (i != except && o->readers[i]) return true; return false; }
bool enabled(int i) {
    Thr& t = g_t[i];
    switch (t.st) {
        case Run: return true;
        case OnMutex: return t.on->owner < 0;
        case OnCond: return t.signalled || g_spuriousBudget > 0;
        case OnCondTimed: return g_timeouts > 0;
        case OnSem: return t.on->value > 0;
        case OnRd: return t.on->owner < 0;
        case OnWr: return t.on->owner < 0 && !anyReaders(t.on, -1);
        case OnJoin: return g_t[t.joinOn].st == Done;
        case Spin: return true;
        default: return false;
    }
}
const char* stName(St s) {
    static const char* n[] = {"unused", "running", "waits for a mutex", "waits for a condition variable", "timed wait", "waits for a semaphore", "waits to read-lock", "waits to write-lock", "joins", "spins", "done"};
    return n[s];
}
[[noreturn]] void deadlock(const char* what) {
    char b[256]; int k = 0;
    for (int i = 0; i < g_n; i++)
        if (g_t[i].st != Done) k += snprintf(b + k, sizeof(b) - k, "%sthread %d %s", k ? ", " : "", i, stName(g_t[i].st));
    mc::fail("%s: %s", what, b);
}
void switchTo(int n) {
    if (n == g_cur) return;
    int old = g_cur;
    g_cur = n;
    MC_LOG("-- thread %d", n);
    sched_switch(&g_t[old].sp, g_t[n].sp);
}
// Picks the next thread. If the current one can go on, leaving it is a preemption, unless
// `yield`, which asks for another thread if there is one.
void reschedule(bool yield = false) {
    mc::step();
    int opts[MaxT], k = 0;
    bool curOk = enabled(g_cur) && !(cur().st == OnCond && !cur().signalled) && cur().st != OnCondTimed;
    bool curAny = enabled(g_cur);
    int spinners = 0;
    for (int i = 0; i < g_n; i++) if (g_t[i].st == Spin && g_t[i].spinObj->ver != g_t[i].lastVer) g_t[i].st = Run;
    if (curOk && !yield) {
        opts[k++] = g_cur;
        if (g_budget > 0)
            for (int i = 0; i < g_n; i++) if (i != g_cur && enabled(i) && g_t[i].st != Spin) opts[k++] = i;
    } else {
        for (int i = 0; i < g_n; i++) if (i != g_cur && enabled(i) && g_t[i].st != Spin) opts[k++] = i;
        if (!curOk && curAny) opts[k++] = g_cur;   // time out / wake up spuriously
        if (k == 0) {
            for (int j = 1; j <= g_n; j++) { int i = (g_cur + j) % g_n; if (g_t[i].st == Spin) { opts[k++] = i; spinners = 1; break; } }
            if (k == 0) { // only timed waiters: the earliest deadline comes first
                int e = -1;
                for (int i = 0; i < g_n; i++) if (g_t[i].st == OnCondTimed && (e < 0 || g_t[i].deadline < g_t[e].deadline)) e = i;
                if (e >= 0) opts[k++] = e;
            }
            if (k == 0 && curAny) opts[k++] = g_cur;
        }
    }
    if (k == 0) deadlock("deadlock");
    if (spinners) { if (++g_t[opts[0]].spinCount > 400) deadlock("threads spin forever"); }
    int n = opts[k > 1 ? mc::choose(k) : 0];
    if (curOk && !yield && n != g_cur) g_budget--;
    if (g_t[n].st == Spin) g_t[n].st = Run;
    uint64_t h = 0x5eed;
    for (int i = 0; i < g_n; i++) h = mc::mix(h, (uint64_t) g_t[i].st * 1000003 + g_t[i].vc.c[i] * 31 + (i == n));
    for (int i = 0; i < g_numObjs; i++) h = mc::mix(h, g_objs[i].owner + 1 + 7 * g_objs[i].value + 77 * (uint64_t) g_objs[i].depth);
    mc::state(h);
    switchTo(n);
}
void point() {
    if (++g_ops > 20000) deadlock("no progress after 20000 operations");
    reschedule();
}
void block(St st, Obj* o) {
    cur().st = st; cur().on = o;
    reschedule(); // picks me again only when enabled
    cur().st = Run; cur().on = nullptr;
}

// ---- race detection
Cell* cell(uint64_t g) {
    uint32_t h = (uint32_t) ((g * 0x9e3779b97f4a7c15ull) >> (64 - CellBits)) & (NCells - 1);
    for (;;) {
        Cell& c = g_cells[h];
        if (c.epoch != g_epoch) {
            if (++g_numCells > NCells * 3 / 4) mc::fail("scheduler: shadow memory exhausted");
            memset(&c, 0, sizeof(c)); c.epoch = g_epoch; c.key = g;
            return &c;
        }
        if (c.key == g) return &c;
        h = (h + 1) & (NCells - 1);
    }
}
const char* g_what[] = {"read", "write", "atomic read", "atomic write"};
[[noreturn]] void race(const void* p, int kind, int other, const char* okind) {
    // name the place relative to a heap block, so that the message is the same in every process
    char where[96]; snprintf(where, sizeof where, "static or stack memory");
    for (int i = 0; i < g_numLive; i++) if ((char*) p >= g_live[i].p && (char*) p < g_live[i].p + g_live[i].n)
        snprintf(where, sizeof where, "byte %zu of a heap block of %zu bytes", (char*) p - g_live[i].p, g_live[i].n);
    mc::fail("data race on %s: %s by thread %d is not ordered with %s by thread %d", where, g_what[kind], g_cur, okind, other);
}
void access(const void* p, size_t n, int kind) { // 0 read 1 write 2 atomic read 3 atomic write
    if (!g_active || cur().ignore) return;
    for (int i = 0; i < g_numFreed; i++)
        if ((char*) p < g_freed[i].p + g_freed[i].n && (char*) p + n > g_freed[i].p)
            mc::fail("%s by thread %d of byte %zd of a %zu-byte heap block already freed by thread %d", g_what[kind], g_cur, (char*) p - g_freed[i].p, g_freed[i].n, g_freed[i].by);
    Thr& t = cur();
    uint64_t a = (uint64_t) p, e = a + n;
    while (a < e) {
        Cell* c = cell(a >> 3);
        for (int b = a & 7; b < 8 && a < e; b++, a++) {
            for (int u = 0; u < g_n; u++) {
                if (u == g_cur) continue;
                clk k = t.vc.c[u];
                if (kind != 3 && kind != 2 || true) {
                    if (c->W[u][b] > k) race((void*) a, kind, u, "a write");
                    if ((kind == 1 || kind == 3) && c->R[u][b] > k) race((void*) a, kind, u, "a read");
                    if ((kind == 0 || kind == 1) && c->AW[u][b] > k) race((void*) a, kind, u, "an atomic write");
                    if (kind == 1 && c->AR[u][b] > k) race((void*) a, kind, u, "an atomic read");
                }
            }
            clk me = t.vc.c[g_cur];
            (kind == 0 ? c->R : kind == 1 ? c->W : kind == 2 ? c->AR : c->AW)[g_cur][b] = me;
        }
    }
}
void tick() { cur().vc.c[g_cur]++; }
void releaseTo(VC& v) { v.join(cur().vc); tick(); }
void acquireFrom(const VC& v) { cur().vc.join(v); }

// ---- atomics
bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
// A thread that keeps performing atomic operations which change nothing on an unchanged
// location is spinning; it lets the others run.
void spinCheck(const void* a, Obj* o, bool changed) {
    Thr& t = cur();
    if (changed) { t.spinAddr = 0; return; }
    if (t.spinAddr == (uint64_t) a && t.lastVer == o->ver) {
        bool others = false;
        for (int i = 0; i < g_n; i++) others |= i != g_cur && g_t[i].st != Done && g_t[i].st != Unused;
        if (others) { t.spinObj = o; t.st = Spin; reschedule(true); t.st = Run; }
        else if (++t.spinCount > 400) deadlock("a thread spins forever");
    }
    else t.spinCount = 0;
    t.spinAddr = (uint64_t) a; t.lastVer = o->ver;
}
template <typename T> T aload(const volatile T* a, int mo) {
    if (!g_active || cur().ignore) return *a;
    point();
    access((void*) a, sizeof(T), 2);
    Obj* o = obj((void*) a, 5);
    if (isAcq(mo)) acquireFrom(o->clock); else cur().acqPending.join(o->clock);
    T v = *a;
    MC_LOG("   thread %d: atomic load -> %lld", g_cur, (long long) v);
    spinCheck((void*) a, o, false);
    return v;
}
template <typename T> void astore(volatile T* a, T v, int mo) {
    if (!g_active || cur().ignore) { *a = v; return; }
    point();
    access((void*) a, sizeof(T), 3);
    Obj* o = obj((void*) a, 5);
    o->clock = isRel(mo) ? cur().vc : cur().relFence;
    tick();
    if (*a != v) o->ver++;
    *a = v;
    MC_LOG("   thread %d: atomic store %lld", g_cur, (long long) v);
}
template <typename T, typename F> T armw(volatile T* a, int mo, const char* name, F&& f) {
    if (!g_active || cur().ignore) { T old = *a; *a = f(old); return old; }
    point();
    access((void*) a, sizeof(T), 3);
    Obj* o = obj((void*) a, 5);
    if (isAcq(mo)) acquireFrom(o->clock); else cur().acqPending.join(o->clock);
    if (isRel(mo)) o->clock.join(cur().vc); else o->clock.join(cur().relFence);
    tick();
    T old = *a, nv = f(old);
    MC_LOG("   thread %d: atomic %s %lld -> %lld", g_cur, name, (long long) old, (long long) nv);
    bool ch = nv != old;
    if (ch) o->ver++;
    *a = nv;
    spinCheck((void*) a, o, ch);
    return old;
}
template <typename T> bool acas(volatile T* a, T* exp, T des, int mo, int fmo, bool weak) {
    if (!g_active || cur().ignore) { if (*a == *exp) { *a = des; return true; } *exp = *a; return false; }
    point();
    Obj* o = obj((void*) a, 5);
    T old = *a;
    bool ok = old == *exp;
    access((void*) a, sizeof(T), ok ? 3 : 2);
    MC_LOG("   thread %d: compare-exchange %lld: %lld -> %lld %s", g_cur, (long long) old, (long long) *exp, (long long) des, ok ? "" : "fails");
    if (ok) {
        if (isAcq(mo)) acquireFrom(o->clock); else cur().acqPending.join(o->clock);
        if (isRel(mo)) o->clock.join(cur().vc); else o->clock.join(cur().relFence);
        tick();
        if (des != old) o->ver++;
        *a = des;
        spinCheck((void*) a, o, des != old);
        return true;
    }
    if (isAcq(fmo)) acquireFrom(o->clock); else cur().acqPending.join(o->clock);
    *exp = old;
    spinCheck((void*) a, o, false);
    return false;
}

void wipeFreedKeys() {}

extern "C" void sched_threadMain() {
    Thr& t = cur();
    int me = g_cur;
    g_t[me].ret = g_t[me].start(g_t[me].arg);
    for (int round = 0; round < 4; round++)
        for (int k = 0; k < 16; k++)
            if (g_keyUsed[k] && g_keyDtor[k] && g_t[me].keys[k]) {
                void* v = (void*) g_t[me].keys[k]; g_t[me].keys[k] = nullptr; g_keyDtor[k](v);
            }
    g_t[me].st = Done;
    MC_LOG("   thread %d ends", me);
    // never scheduled again
    if (me == 0) {
        bool all = true;
        for (int i = 0; i < g_n; i++) all &= g_t[i].st == Done;
        while (!all) { mc::fail("scheduler: main thread ended early"); }
    }
    bool all = true;
    for (int i = 0; i < g_n; i++) all &= g_t[i].st == Done;
    if (all) { void* dummy; sched_switch(&dummy, g_mainSp); }
    reschedule();
    __builtin_trap();
}
void prepare(int i, void* (*start)(void*), void* arg) {
    Thr& t = g_t[i];
    memset(&t, 0, sizeof t);
    t.st = Run; t.start = start; t.arg = arg;
    t.stack = g_stacks + StackSize * i;
    uint64_t* sp = (uint64_t*) (t.stack + StackSize - 64);
    sp = (uint64_t*) ((uint64_t) sp & ~15ull);
    *--sp = 0;                              // alignment: at function entry rsp % 16 == 8
    *--sp = (uint64_t) &sched_threadMain;   // return address of sched_switch
    for (int k = 0; k < 6; k++) *--sp = 0;
    t.sp = sp;
}
struct Body { void (*f)(void*); void* a; };
void* mainBody(void* b) {
    Body* m = (Body*) b;
    m->f(m->a);
    // wait for detached threads
    for (;;) {
        bool others = false;
        for (int i = 1; i < g_n; i++) others |= g_t[i].st != Done;
        if (!others) return nullptr;
        for (int i = 1; i < g_n; i++)
            if (g_t[i].st != Done) { cur().st = OnJoin; cur().joinOn = i; reschedule(); cur().st = Run; break; }
    }
}
} // namespace

namespace sched {
void spuriousWakeups(int n) { g_spurious = n; }
void interrupts(int n) { g_intr = n; }
uint64_t nowNanos() { return g_now; }
int self() { return g_cur; }
long heapBlocks() { return g_numLive; }
bool blockedForever(int t) { return g_t[t].st != Done && !enabled(t); }
void unlockedYield() { if (g_active) point(); }
void ignoreBegin() { if (g_active) cur().ignore++; }
void ignoreEnd() { if (g_active) cur().ignore--; }
void run(int preemptions, void (*body)(void*), void* arg) {
    if (!g_cells) {
        g_cells = (Cell*) syscall(SYS_mmap, nullptr, sizeof(Cell) * NCells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, (long) 0);
        g_stacks = (char*) syscall(SYS_mmap, nullptr, StackSize * MaxT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, (long) 0);
    }
    g_epoch++; g_numCells = 0; g_numObjs = 0; g_n = 1; g_cur = 0; g_now = 1000999000000ull + 7; g_ops = 0;
    g_budget = preemptions; g_spuriousBudget = g_spurious; g_timeouts = 2; g_intrBudget = g_intr;
    g_quar.n = 0; g_numLive = 0; g_numFreed = 0;
    Body b{body, arg};
    prepare(0, mainBody, &b);
    g_t[0].vc.c[0] = 1;
    g_active = true;
    sched_switch(&g_mainSp, g_t[0].sp);
    g_active = false;
    if (g_numLive) mc::fail("%d heap blocks allocated during the execution are never freed", g_numLive);
    for (int i = 0; i < g_quar.n; i++) __real_free(g_quar.p[i]);
    g_quar.n = 0;
    g_spurious = g_intr = 0;
}
}

// ---- heap
static void* noteAlloc(void* p, size_t n) {
    if (g_active && p) {
        if (g_numLive == 4096) mc::fail("scheduler: too many heap blocks");
        g_live[g_numLive++] = {(char*) p, n ? n : 1};
        if (n <= 4096) { int ig = cur().ignore; cur().ignore = 0; access(p, n, 1); cur().ignore = ig; }
    }
    return p;
}
static bool noteFree(void* p) {
    if (!g_active || !p) return false;
    for (int i = 0; i < g_numFreed; i++) if (g_freed[i].p == p) mc::fail("thread %d frees a heap block that thread %d already freed", g_cur, g_freed[i].by);
    for (int i = 0; i < g_numLive; i++)
        if (g_live[i].p == p) {
            size_t n = g_live[i].n;
            if (!cur().ignore) access(p, n > 4096 ? 4096 : n, 1);
            if (g_numFreed == 4096 || g_quar.n == 4096) mc::fail("scheduler: too many freed blocks");
            g_freed[g_numFreed++] = {(char*) p, n, g_cur};
            g_live[i] = g_live[--g_numLive];
            g_quar.p[g_quar.n++] = p;
            return true;
        }
    return false;
}
extern "C" {
void* __wrap_malloc(size_t n) { return noteAlloc(__real_malloc(n), n); }
void* __wrap_calloc(size_t a, size_t b) { return noteAlloc(__real_calloc(a, b), a * b); }
void __wrap_free(void* p) { if (!noteFree(p)) __real_free(p); }
void* __wrap_realloc(void* p, size_t n) {
    if (!g_active) return __real_realloc(p, n);
    if (!p) return __wrap_malloc(n);
    size_t old = 0;
    for (int i = 0; i < g_numLive; i++) if (g_live[i].p == p) old = g_live[i].n;
    if (!old) return __real_realloc(p, n);
    void* q = __wrap_malloc(n);
    memcpy(q, p, old < n ? old : n);
    __wrap_free(p);
    return q;
}
int __wrap_posix_memalign(void** o, size_t al, size_t n) { int rc = __real_posix_memalign(o, al, n); if (!rc) noteAlloc(*o, n); return rc; }
}
void* operator new(size_t n) { return noteAlloc(__real_malloc(n ? n : 1), n); }
void* operator new[](size_t n) { return noteAlloc(__real_malloc(n ? n : 1), n); }
void operator delete(void* p) noexcept { if (!noteFree(p)) __real_free(p); }
void operator delete[](void* p) noexcept { if (!noteFree(p)) __real_free(p); }
void operator delete(void* p, size_t) noexcept { if (!noteFree(p)) __real_free(p); }
void operator delete[](void* p, size_t) noexcept { if (!noteFree(p)) __real_free(p); }

// ---- ThreadSanitizer's interface
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, 0); } \
    void __tsan_write##n(void* p) { access(p, n, 1); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, 0); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, 1); } \
    void __tsan_read_write##n(void* p) { access(p, n, 0); access(p, n, 1); } \
    void __tsan_unaligned_read_write##n(void* p) { access(p, n, 0); access(p, n, 1); }
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return aload<T>(a, mo); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { astore<T>(a, v, mo); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { return armw<T>(a, mo, "exchange", [&](T) { return v; }); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { return armw<T>(a, mo, "add", [&](T o) { return (T) (o + v); }); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { return armw<T>(a, mo, "sub", [&](T o) { return (T) (o - v); }); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { return armw<T>(a, mo, "and", [&](T o) { return (T) (o & v); }); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { return armw<T>(a, mo, "or", [&](T o) { return (T) (o | v); }); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { return armw<T>(a, mo, "xor", [&](T o) { return (T) (o ^ v); }); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { return armw<T>(a, mo, "nand", [&](T o) { return (T) ~(o & v); }); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T d, int mo, int fmo) { return acas<T>(a, e, d, mo, fmo, false); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T d, int mo, int fmo) { return acas<T>(a, e, d, mo, fmo, true); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T d, int mo, int fmo) { acas<T>(a, &e, d, mo, fmo, false); return e; }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
RW(1) RW(2) RW(4) RW(8) RW(16)
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_read_range(void* p, size_t n) { access(p, n, 0); }
void __tsan_write_range(void* p, size_t n) { access(p, n, 1); }
void __tsan_vptr_read(void** p) { access(p, 8, 0); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, 1); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, 0); access(d, n, 1); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, 0); access(d, n, 1); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, 1); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int mo) {
    if (!g_active) return;
    if (isAcq(mo)) cur().vc.join(cur().acqPending);
    if (isRel(mo)) { cur().relFence = cur().vc; tick(); }
}
void __tsan_atomic_signal_fence(int) {}

// ---- pthreads
static Obj* checked(void* m, int kind, const char* what) {
    access(m, 1, 2); // use of a freed object is reported; creation must be ordered before use
    Obj* o = obj(m, kind);
    if (o->destroyed) mc::fail("thread %d: %s on an object already destroyed", g_cur, what);
    return o;
}
static void initObj(void* m, size_t n, int kind) {
    if (!g_active) return;
    access(m, n, 1);
    Obj* o = obj(m, kind);
    uint64_t key = o->key;
    memset(o, 0, sizeof *o); o->key = key; o->kind = kind; o->owner = -1; o->lastWriter = -1;
}
static int destroyObj(void* m, size_t n, int kind, const char* what) {
    if (!g_active) return 0;
    point();
    Obj* o = checked(m, kind, what);
    if (o->owner >= 0 || anyReaders(o, -1)) mc::fail("thread %d: %s while locked", g_cur, what);
    for (int i = 0; i < g_n; i++) if (g_t[i].on == o && !(g_t[i].st == OnCond && g_t[i].signalled)) mc::fail("thread %d: %s while thread %d waits", g_cur, what, i);
    access(m, n, 1);
    o->destroyed = true;
    return 0;
}
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static void takeMutex(Obj* o) {
    while (o->owner >= 0) block(OnMutex, o);
    o->owner = g_cur; o->depth = 1;
    acquireFrom(o->clock);
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept {
    int type = PTHREAD_MUTEX_DEFAULT;
    if (a) pthread_mutexattr_gettype(a, &type);
    initObj(m, sizeof *m, 1);
    memset(m, 0, sizeof *m);
    m->__data.__kind = type;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { return destroyObj(m, sizeof *m, 1, "mutex destruction"); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (!g_active) return 0;
    point();
    Obj* o = checked(m, 1, "mutex lock");
    if (o->owner == g_cur) {
        if (recursive(m)) { o->depth++; return 0; }
        deadlock("a thread locks a non-recursive mutex it holds");
    }
    takeMutex(o);
    MC_LOG("   thread %d: mutex locked", g_cur);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (!g_active) return 0;
    point();
    Obj* o = checked(m, 1, "mutex trylock");
    if (o->owner == g_cur && recursive(m)) { o->depth++; return 0; }
    if (o->owner >= 0) { MC_LOG("   thread %d: trylock fails", g_cur); return EBUSY; }
    takeMutex(o);
    MC_LOG("   thread %d: trylock", g_cur);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    if (!g_active) return 0;
    point();
    Obj* o = checked(m, 1, "mutex unlock");
    if (o->owner != g_cur) mc::fail("thread %d unlocks a mutex it does not hold", g_cur);
    if (--o->depth == 0) { o->owner = -1; releaseTo(o->clock); }
    MC_LOG("   thread %d: mutex unlocked", g_cur);
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { initObj(c, sizeof *c, 2); memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) noexcept { return destroyObj(c, sizeof *c, 2, "condition variable destruction"); }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t deadline) {
    if (!g_active) mc::fail("condition variable wait outside the scheduler");
    point();
    Obj* oc = checked(c, 2, "condition variable wait");
    Obj* om = checked(m, 1, "condition variable wait");
    if (om->owner != g_cur) mc::fail("thread %d waits on a condition variable without holding the mutex", g_cur);
    int depth = om->depth;
    if (depth > 1) mc::fail("thread %d waits on a condition variable while holding the mutex %d times", g_cur, depth);
    om->depth = 0; om->owner = -1; releaseTo(om->clock);
    Thr& t = cur();
    t.signalled = false; t.timedOut = false; t.deadline = deadline;
    MC_LOG("   thread %d: waits on condition variable", g_cur);
    if (timed && deadline <= g_now) t.signalled = false, t.timedOut = true;
    else {
        t.st = timed ? OnCondTimed : OnCond; t.on = oc;
        reschedule();
        if (!t.signalled) {
            if (timed) { t.timedOut = true; if (g_timeouts > 0) g_timeouts--; if (deadline > g_now) g_now = deadline; }
            else g_spuriousBudget--;
        }
        t.st = Run; t.on = nullptr;
        MC_LOG("   thread %d: %s", g_cur, t.signalled ? "woken" : timed ? "times out" : "wakes spuriously");
    }
    takeMutex(om);
    return t.timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, false, 0); }
static bool badTs(const struct timespec* ts) { return ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000; }
static uint64_t tsNs(const struct timespec* ts) { return ts->tv_sec < 0 ? 0 : (uint64_t) ts->tv_sec * 1000000000ull + ts->tv_nsec; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (badTs(ts)) return EINVAL; return condWait(c, m, true, tsNs(ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { if (badTs(ts)) return EINVAL; return condWait(c, m, true, tsNs(ts)); }
int pthread_cond_signal(pthread_cond_t* c) noexcept {
    if (!g_active) return 0;
    point();
    Obj* o = checked(c, 2, "condition variable signal");
    int w[MaxT], k = 0;
    for (int i = 0; i < g_n; i++) if ((g_t[i].st == OnCond || g_t[i].st == OnCondTimed) && g_t[i].on == o && !g_t[i].signalled) w[k++] = i;
    if (k) { int i = w[k > 1 ? mc::choose(k) : 0]; g_t[i].signalled = true; g_t[i].st = OnCond; MC_LOG("   thread %d: signals thread %d", g_cur, i); }
    else MC_LOG("   thread %d: signals nobody", g_cur);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    if (!g_active) return 0;
    point();
    Obj* o = checked(c, 2, "condition variable broadcast");
    for (int i = 0; i < g_n; i++) if ((g_t[i].st == OnCond || g_t[i].st == OnCondTimed) && g_t[i].on == o) { g_t[i].signalled = true; g_t[i].st = OnCond; }
    MC_LOG("   thread %d: broadcasts", g_cur);
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* r, const pthread_rwlockattr_t*) noexcept { initObj(r, sizeof *r, 4); memset(r, 0, sizeof *r); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* r) noexcept { return destroyObj(r, sizeof *r, 4, "read-write lock destruction"); }
int pthread_rwlock_rdlock(pthread_rwlock_t* r) noexcept {
    if (!g_active) return 0;
    point();
    Obj* o = checked(r, 4, "read lock");
    if (o->owner == g_cur) deadlock("a thread read-locks a lock it holds exclusively");
    while (o->owner >= 0) block(OnRd, o);
    o->readers[g_cur]++; acquireFrom(o->clock);
    MC_LOG("   thread %d: read-locked", g_cur);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* r) noexcept {
    if (!g_active) return 0;
    point();
    Obj* o = checked(r, 4, "read trylock");
    if (o->owner >= 0) return EBUSY;
    o->readers[g_cur]++; acquireFrom(o->clock);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* r) noexcept {
    if (!g_active) return 0;
    point();
    Obj* o = checked(r, 4, "write lock");
    if (o->owner == g_cur || o->readers[g_cur]) deadlock("a thread write-locks a lock it holds");
    while (o->owner >= 0 || anyReaders(o, -1)) block(OnWr, o);
    o->owner = g_cur; acquireFrom(o->clock); acquireFrom(o->rclock);
    MC_LOG("   thread %d: write-locked", g_cur);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* r) noexcept {
    if (!g_active) return 0;
    point();
    Obj* o = checked(r, 4, "write trylock");
    if (o->owner >= 0 || anyReaders(o, -1)) return EBUSY;
    o->owner = g_cur; acquireFrom(o->clock); acquireFrom(o->rclock);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* r) noexcept {
    if (!g_active) return 0;
    point();
    Obj* o = checked(r, 4, "read-write unlock");
    if (o->owner == g_cur) { o->owner = -1; releaseTo(o->clock); }
    else if (o->readers[g_cur]) { o->readers[g_cur]--; releaseTo(o->rclock); }
    else mc::fail("thread %d unlocks a read-write lock it does not hold", g_cur);
    MC_LOG("   thread %d: read-write unlocked", g_cur);
    return 0;
}
int sem_init(sem_t* s, int, unsigned v) noexcept { initObj(s, sizeof *s, 3); memset(s, 0, sizeof *s); if (g_active) obj(s, 3)->value = v; return 0; }
int sem_destroy(sem_t* s) noexcept { return destroyObj(s, sizeof *s, 3, "semaphore destruction"); }
static int semTake(sem_t* s, bool tryOnly) {
    point();
    Obj* o = checked(s, 3, "semaphore wait");
    if (tryOnly && o->value <= 0) { errno = EAGAIN; return -1; }
    if (g_intrBudget > 0 && !tryOnly && mc::choose(2)) { g_intrBudget--; MC_LOG("   thread %d: semaphore wait is interrupted", g_cur); errno = EINTR; return -1; }
    while (o->value <= 0) block(OnSem, o);
    o->value--; acquireFrom(o->clock);
    MC_LOG("   thread %d: passes semaphore", g_cur);
    return 0;
}
int sem_wait(sem_t* s) { return g_active ? semTake(s, false) : 0; }
int sem_trywait(sem_t* s) noexcept { return g_active ? semTake(s, true) : 0; }
int sem_post(sem_t* s) noexcept {
    if (!g_active) return 0;
    point();
    Obj* o = checked(s, 3, "semaphore post");
    o->value++; releaseTo(o->clock);
    MC_LOG("   thread %d: posts semaphore", g_cur);
    return 0;
}
int pthread_create(pthread_t* h, const pthread_attr_t*, void* (*f)(void*), void* a) noexcept {
    if (!g_active) mc::fail("pthread_create outside the scheduler");
    point();
    if (g_n == MaxT) mc::fail("scheduler: too many threads");
    int i = g_n++;
    prepare(i, f, a);
    g_t[i].vc = cur().vc; g_t[i].vc.c[i] = 1;
    tick();
    access(h, sizeof *h, 1);
    *h = (pthread_t) (0x1000 + i);
    MC_LOG("   thread %d: starts thread %d", g_cur, i);
    point();
    return 0;
}
static Thr& threadOf(pthread_t h, const char* what) {
    int i = (int) (h - 0x1000);
    if (i < 1 || i >= g_n) mc::fail("%s of an invalid thread handle", what);
    if (g_t[i].joined) mc::fail("%s of a thread already joined", what);
    if (g_t[i].detached) mc::fail("%s of a detached thread", what);
    return g_t[i];
}
int pthread_join(pthread_t h, void** ret) {
    point();
    Thr& t = threadOf(h, "join");
    int i = (int) (h - 0x1000);
    if (i == g_cur) mc::fail("thread %d joins itself", g_cur);
    if (t.st != Done) { cur().st = OnJoin; cur().joinOn = i; reschedule(); cur().st = Run; }
    t.joined = true;
    acquireFrom(t.vc);
    if (ret) *ret = t.ret;
    MC_LOG("   thread %d: joined thread %d", g_cur, i);
    return 0;
}
int pthread_detach(pthread_t h) noexcept { point(); threadOf(h, "detach").detached = true; return 0; }
pthread_t pthread_self() noexcept { return (pthread_t) (g_active ? 0x1000 + g_cur : 0x1000); }
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) noexcept {
    for (int i = 0; i < 16; i++) if (!g_keyUsed[i]) {
        g_keyUsed[i] = true; g_keyDtor[i] = d; *k = i + 1000;
        for (int t = 0; t < MaxT; t++) g_t[t].keys[i] = nullptr;
        return 0;
    }
    return EAGAIN;
}
int pthread_key_delete(pthread_key_t k) noexcept { if (k < 1000 || k > 1015 || !g_keyUsed[k - 1000]) return EINVAL; g_keyUsed[k - 1000] = false; return 0; }
void* pthread_getspecific(pthread_key_t k) noexcept { if (k < 1000 || k > 1015) return nullptr; return (void*) cur().keys[k - 1000]; }
int pthread_setspecific(pthread_key_t k, const void* v) noexcept { if (k < 1000 || k > 1015 || !g_keyUsed[k - 1000]) return EINVAL; cur().keys[k - 1000] = v; return 0; }
int sched_yield() noexcept { if (g_active) reschedule(true); return 0; }
int nanosleep(const struct timespec* ts, struct timespec* rem) {
    if (!g_active) return 0;
    if (badTs(ts)) { errno = EINVAL; return -1; }
    if (g_intrBudget > 0 && mc::choose(2)) { g_intrBudget--; if (rem) *rem = *ts; errno = EINTR; return -1; }
    uint64_t until = g_now + tsNs(ts);
    reschedule(true);
    if (g_now < until) g_now = until;
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* ts, struct timespec* rem) {
    if (flags & TIMER_ABSTIME) { if (badTs(ts)) return EINVAL; reschedule(true); if (g_now < tsNs(ts)) g_now = tsNs(ts); return 0; }
    return nanosleep(ts, rem) ? errno : 0;
}
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
    if (!g_active) return (int) syscall(SYS_clock_gettime, c, ts);
    ts->tv_sec = g_now / 1000000000ull; ts->tv_nsec = g_now % 1000000000ull;
    return 0;
}
}
