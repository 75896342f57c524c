// Mutual exclusion under every interleaving
#include "common.h"
#include "mcsched.h"
#include <ply-runtime/thread/impl/Thread_POSIX.h>
#include <ply-runtime/thread/Mutex.h>
#include <ply-runtime/thread/impl/Mutex_POSIX.h>
#include <ply-runtime/thread/impl/Mutex_LazyInit.h>
#include <ply-runtime/thread/impl/Mutex_SpinLock.h>
#include <ply-runtime/thread/impl/RWLock_POSIX.h>
#include <ply-runtime/thread/RaceDetector.h>
#include <ply-runtime/memory/Heap.h>
using Th = Thread_POSIX;

template <typename L> struct Init { static void init(L&) {} };
template <> struct Init<Mutex_LazyInit> { static void init(Mutex_LazyInit& l) { l.zeroInit(); } };
template <> struct Init<Mutex_SpinLock> { static void init(Mutex_SpinLock& l) { l.initialize(); } };
template <typename L> struct Rec { static const bool value = false; };
template <> struct Rec<Mutex_CPP11> { static const bool value = true; };
template <> struct Rec<Mutex_POSIX> { static const bool value = true; };
template <> struct Rec<Mutex_LazyInit> { static const bool value = true; };
template <typename L> static auto tryLock(L& l, int) -> decltype(l.tryLock()) { return l.tryLock(); }
template <typename L> static bool tryLock(L& l, long) { l.lock(); return true; }

template <typename L> struct Shared {
    L lock;
    int inside = 0, counter = 0;   // plain memory guarded by the lock
    int a = 0, b = 0;
};
template <typename L> static int use(Shared<L>& s, int op, int inc) {
    switch (op) {
        case 0: {
            s.lock.lock();
            MC_CHECK(s.inside++ == 0, "two threads inside the critical section");
            sched::unlockedYield();
            s.counter += inc; s.inside--;
            s.lock.unlock();
            return inc;
        }
        case 1: {
            if (!tryLock(s.lock, 0)) return 0;
            MC_CHECK(s.inside++ == 0, "tryLock succeeds while another thread holds the lock");
            sched::unlockedYield();
            s.counter += inc; s.inside--;
            s.lock.unlock();
            return inc;
        }
        case 2: {
            LockGuard<L> g(s.lock);
            MC_CHECK(s.inside++ == 0, "two threads inside a LockGuard");
            s.counter += inc;
            sched::unlockedYield();
            s.inside--;
            return inc;
        }
        default: { // nested
            s.lock.lock();
            if (Rec<L>::value) {
                s.lock.lock();
                s.lock.unlock();
                sched::unlockedYield();
            }
            MC_CHECK(s.inside++ == 0, "the lock is released by a nested unlock");
            s.counter += inc;
            s.inside--;
            s.lock.unlock();
            return inc;
        }
    }
}
template <typename L> static void mutual(int threads, int nops) {
    int ops[3][3];
    for (int t = 0; t < threads; t++) for (int i = 0; i < nops; i++) ops[t][i] = choose(4);
    mc::nontrivial();
    sched::run(threads == 2 ? pick(4, 8) : pick(2, 3), [&] {
        alignas(16) static unsigned char mem[sizeof(Shared<L>)];
        memset(mem, 0, sizeof mem);
        Shared<L>* s = new (mem) Shared<L>;
        Init<L>::init(s->lock);
        int expect[3] = {0, 0, 0};
        Th th[2];
        for (int t = 0; t < threads - 1; t++)
            th[t].run([&, t, s] { for (int i = 0; i < nops; i++) expect[t] += use(*s, ops[t][i], 1 + t); });
        for (int i = 0; i < nops; i++) expect[2] += use(*s, ops[threads - 1][i], 100);
        int sum = expect[2];
        for (int t = 0; t < threads - 1; t++) { th[t].join(); sum += expect[t]; }
        s->lock.lock();
        MC_CHECK(s->counter == sum, "the counter is %d after increments by %d", s->counter, sum);
        s->lock.unlock();
        MC_CHECK(tryLock(s->lock, 0), "a free lock cannot be taken");
        s->lock.unlock();
        s->~Shared<L>();
    });
}
template <typename L> static void two() { mutual<L>(2, pick(2, 3)); }
template <typename L> static void three() { mutual<L>(3, 1); }

// readers and writers
static void rw(int threads, int nops) {
    int ops[3][3];
    for (int t = 0; t < threads; t++) for (int i = 0; i < nops; i++) ops[t][i] = choose(3);
    mc::nontrivial();
    sched::run(threads == 2 ? pick(4, 8) : pick(2, 3), [&] {
        struct S { RWLock_POSIX l; int a = 0, b = 0; };
        S* s = new S;
        int writersInside = 0, readersInside = 0; // harness bookkeeping
        int writes = 0;
        auto body = [&](const int* o) {
            for (int i = 0; i < nops; i++) {
                if (o[i] == 0) {
                    s->l.lockExclusive();
                    sched::ignoreBegin();
                    MC_CHECK(writersInside == 0 && readersInside == 0, "a writer enters while %d writers and %d readers are inside", writersInside, readersInside);
                    writersInside++; writes++;
                    sched::ignoreEnd();
                    s->a++;
                    sched::unlockedYield();
                    s->b++;
                    sched::ignoreBegin(); writersInside--; sched::ignoreEnd();
                    s->l.unlockExclusive();
                } else {
                    s->l.lockShared();
                    sched::ignoreBegin();
                    MC_CHECK(writersInside == 0, "a reader enters while a writer is inside");
                    readersInside++;
                    sched::ignoreEnd();
                    int a = s->a;
                    sched::unlockedYield();
                    MC_CHECK(a == s->a && a == s->b, "a reader sees a half-done write (%d, %d)", a, s->b);
                    if (o[i] == 2) { // nested readers
                        s->l.lockShared();
                        MC_CHECK(s->a == a, "nested read");
                        s->l.unlockShared();
                        sched::unlockedYield();
                        MC_CHECK(s->a == a, "the inner unlock released the outer read lock");
                    }
                    sched::ignoreBegin(); readersInside--; sched::ignoreEnd();
                    s->l.unlockShared();
                }
            }
        };
        Th th[2];
        for (int t = 0; t < threads - 1; t++) { const int* o = ops[t]; th[t].run([&body, o] { body(o); }); }
        body(ops[threads - 1]);
        for (int t = 0; t < threads - 1; t++) th[t].join();
        MC_CHECK(s->a == writes && s->b == writes, "%d writes, %d and %d counted", writes, s->a, s->b);
        delete s;
    });
}
static void rw2() { rw(2, pick(2, 3)); }
static void rw3() { rw(3, 1); }
// two readers are inside together in some schedule (otherwise "shared" would mean nothing):
// each waits inside for the other, which deadlocks if readers exclude each other
static void rwShared() {
    mc::nontrivial();
    sched::run(pick(2, 4), [&] {
        struct S { RWLock_POSIX l; int v = 3; };
        S* s = new S;
        Atomic<int> in{0};
        auto body = [&] {
            s->l.lockShared();
            in.fetchAdd(1, AcquireRelease);
            while (in.load(Acquire) < 2) {}
            MC_CHECK(s->v == 3, "value");
            s->l.unlockShared();
        };
        Th a([&] { body(); });
        body();
        a.join();
        delete s;
    });
}
// the race detector never fires on code that is properly serialised
static void detector() {
    mc::nontrivial();
    sched::run(pick(4, 8), [&] {
        struct S { Mutex m; RaceDetector d; };
        S* s = new S;
        auto body = [&] {
            for (int i = 0; i < 2; i++) { LockGuard<Mutex> g(s->m); RaceDetectGuard r(s->d); sched::unlockedYield(); }
        };
        Th a([&] { body(); });
        body();
        a.join();
        delete s;
    });
}
MC_SCENARIOS = {
    {"mutex-2", two<Mutex>, 0, "the default mutex, two threads"},
    {"mutex-3", three<Mutex>, 0, "three threads"},
    {"mutex-posix-2", two<Mutex_POSIX>, 0, "Mutex_POSIX"},
    {"mutex-posix-3", three<Mutex_POSIX>, 0, ""},
    {"lazy-2", two<Mutex_LazyInit>, 0, "Mutex_LazyInit, first use included"},
    {"lazy-3", three<Mutex_LazyInit>, 0, ""},
    {"spin-2", two<Mutex_SpinLock>, 0, "Mutex_SpinLock"},
    {"spin-3", three<Mutex_SpinLock>, 0, ""},
    {"rw-2", rw2, 0, "RWLock_POSIX"},
    {"rw-3", rw3, 0, ""},
    {"rw-shared", rwShared, 0, "two readers at once"},
    {"detector", detector, 0, "RaceDetector under a mutex"},
    MC_END};
