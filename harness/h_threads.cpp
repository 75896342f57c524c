// Threads, events, semaphores, condition variables and thread-local values under every interleaving
#include "common.h"
#include "mcsched.h"
#include <ply-runtime/thread/impl/Thread_POSIX.h>
#include <ply-runtime/thread/impl/Thread_CPP11.h>
#include <ply-runtime/thread/Mutex.h>
#include <ply-runtime/thread/impl/Mutex_POSIX.h>
#include <ply-runtime/thread/ConditionVariable.h>
#include <ply-runtime/thread/impl/ConditionVariable_POSIX.h>
#include <ply-runtime/thread/ManualResetEvent.h>
#include <ply-runtime/thread/Semaphore.h>
#include <ply-runtime/thread/ThreadLocal.h>
#include <ply-runtime/thread/TID.h>
using Th = Thread_POSIX;

// ---- threads: run exactly once, join only after the end, detach, handle reuse
template <typename T> static void threads() {
    int mode[2] = {choose(3), choose(3)}; // join, let the handle go (detach), join late
    int order = choose(2);
    bool reuse = choose(2);
    mc::nontrivial();
    sched::run(pick(4, 7), [&] {
        int* runs = new int[3]();
        bool* ended = new bool[3]();
        {
            T th[2];
            MC_CHECK(!th[0].isValid(), "a thread object without a thread is valid");
            for (int i = 0; i < 2; i++) {
                int big[8] = {i, 1, 2, 3, 4, 5, 6, 7}; // the callable is copied with what it captures
                struct Fn { int v[8]; int* runs; bool* ended; int i;
                    void operator()() { for (int k = 1; k < 8; k++) MC_CHECK(v[k] == k, "the callable is damaged"); MC_CHECK(v[0] == i, "the callable is damaged"); runs[i]++; sched::unlockedYield(); sched::ignoreBegin(); ended[i] = true; sched::ignoreEnd(); } };
                Fn f; memcpy(f.v, big, sizeof big); f.runs = runs; f.ended = ended; f.i = i;
                th[i].run(std::move(f));
                MC_CHECK(th[i].isValid(), "a started thread is not valid");
            }
            for (int j = 0; j < 2; j++) {
                int i = j ^ order;
                if (mode[i] != 1) {
                    th[i].join();
                    sched::ignoreBegin(); MC_CHECK(ended[i], "join returns before the thread has finished"); sched::ignoreEnd();
                    MC_CHECK(runs[i] == 1, "the thread function ran %d times", runs[i]);
                    MC_CHECK(!th[i].isValid(), "a joined thread is still valid");
                    if (reuse) {
                        th[i].run([=] { runs[2]++; });
                        th[i].join();
                        runs[2]--;
                    }
                }
            }
        }
        // detached threads: wait for them
        for (int i = 0; i < 2; i++)
            for (;;) { sched::ignoreBegin(); bool e = ended[i]; sched::ignoreEnd(); if (e) break; Th::sleepMillis(1); }
        sched::ignoreBegin();
        MC_CHECK(runs[0] == 1 && runs[1] == 1 && runs[2] == 0, "the thread functions ran %d, %d, %d times", runs[0], runs[1], runs[2]);
        delete[] runs; delete[] ended;
        sched::ignoreEnd();
    });
}
// ---- semaphore
static void semaphore() {
    int nWait = 1 + choose(3), nSig[2] = {choose(3), choose(3)};
    int extra = choose(2);
    // the main thread makes up what is missing, so that nobody waits for ever
    int missing = nWait * 1 - nSig[0] - nSig[1];
    bool counted = choose(2);
    int total = nSig[0] + nSig[1] + (missing > 0 ? missing : 0) + extra;
    mc::nontrivial();
    sched::interrupts(1);
    sched::run(pick(3, 5), [&] {
        Semaphore* s = new Semaphore;
        int* data = new int(0);      // written before each signal, read after each wait
        int signalled = 0, passed = 0;
        auto signal = [&](int n) {
            sched::ignoreBegin(); signalled += n; sched::ignoreEnd();
            if (counted) s->signal(n); else for (int i = 0; i < n; i++) s->signal();
        };
        auto waits = [&](int n) {
            for (int i = 0; i < n; i++) {
                s->wait();
                sched::ignoreBegin(); passed++; MC_CHECK(passed <= signalled, "%d waits pass after %d signals", passed, signalled); sched::ignoreEnd();
            }
        };
        *data = 5;
        Th a([&] { signal(nSig[0]); });
        Th b([&] { waits(nWait); MC_CHECK(*data == 5, "data"); });
        signal(nSig[1]);
        if (missing > 0) signal(missing);
        signal(extra);
        a.join(); b.join();
        // what is left can be taken without blocking, and no more
        waits(total - nWait);
        MC_CHECK(passed == total, "passed %d of %d", passed, total);
        delete s; delete data;
    });
}
// a wait without a signal does block; the signal's data is visible
static void semBlocks() {
    bool two = choose(2);
    mc::nontrivial();
    sched::interrupts(2);
    sched::run(pick(3, 6), [&] {
        Semaphore* s = new Semaphore;
        int* box = new int(0);
        Th a([&] { s->wait(); MC_CHECK(*box == 1, "a wait passes before the signal"); if (two) { s->wait(); MC_CHECK(*box == 2, "a second wait passes before the second signal"); } });
        *box = 1;
        s->signal();
        if (two) { Th::sleepMillis(1); int v = 0; v++; }
        if (two) { /* the second value is written under no lock, so hand it over by a second semaphore */ }
        if (two) {
            // the waiter may still be reading box == 1; wait until it blocks or not at all
            while (!sched::blockedForever(1)) sched::unlockedYield(), Th::sleepMillis(1);
            sched::ignoreBegin(); *box = 2; sched::ignoreEnd();
            s->signal();
        }
        a.join();
        delete s; delete box;
    });
}
// ---- manual-reset event
static void event() {
    bool initial = choose(2);
    int ops[2][2];
    for (int t = 0; t < 2; t++) for (int i = 0; i < 2; i++) ops[t][i] = choose(3); // signal, reset, wait (bounded by a final signal)
    mc::nontrivial();
    sched::spuriousWakeups(1);
    sched::run(pick(2, 4), [&] {
        ManualResetEvent* e = new ManualResetEvent(initial);
        int* data = new int(0);
        bool everSignalled = initial;
        int waiting = 0;
        auto body = [&](int t) {
            for (int i = 0; i < 2; i++) {
                switch (ops[t][i]) {
                    case 0: sched::ignoreBegin(); everSignalled = true; sched::ignoreEnd(); e->signal(); break;
                    case 1: e->reset(); break;
                    case 2:
                        e->wait();
                        sched::ignoreBegin(); MC_CHECK(everSignalled, "a wait passes although the event was never signalled"); sched::ignoreEnd();
                        break;
                }
            }
            sched::ignoreBegin(); waiting++; sched::ignoreEnd();
        };
        Th a([&] { body(0); }), b([&] { body(1); });
        // signal until both are through: a lost wake-up shows as a thread that never ends
        for (;;) {
            sched::ignoreBegin(); bool done = waiting == 2; everSignalled = true; sched::ignoreEnd();
            e->signal();
            if (done) break;
            Th::sleepMillis(1);
        }
        a.join(); b.join();
        delete e; delete data;
    });
}
// one signal releases every waiter, whether it waits already or comes later; data written
// before the signal is visible after the wait
static void eventAll() {
    int waiters = 1 + choose(2);
    bool beforehand = choose(2);
    mc::nontrivial();
    sched::spuriousWakeups(1);
    sched::run(pick(3, 5), [&] {
        ManualResetEvent* e = new ManualResetEvent;
        int* data = new int(0);
        auto w = [&] { e->wait(); MC_CHECK(*data == 42, "wait returned before the signal"); e->wait(); };
        if (beforehand) { *data = 42; e->signal(); }
        Th a(w), b;
        if (waiters == 2) b.run(w);
        if (!beforehand) { *data = 42; e->signal(); }
        e->wait();
        a.join(); if (waiters == 2) b.join();
        e->reset();
        bool past = false;
        Th c([&] { e->wait(); sched::ignoreBegin(); MC_CHECK(past, "a wait passes although the event was reset"); sched::ignoreEnd(); });
        sched::unlockedYield();
        sched::ignoreBegin(); past = true; sched::ignoreEnd();
        e->signal();
        c.join();
        delete e; delete data;
    });
}
// ---- condition variable: a bounded buffer of one slot
template <typename M, typename C> static void buffer() {
    int items = 1 + choose(2), consumers = 1 + choose(2);
    bool wakeAll = choose(2);
    if (consumers == 2 && !wakeAll && items == 1) items = 2;
    bool timed = consumers == 1 && choose(2);
    mc::nontrivial();
    sched::spuriousWakeups(timed || consumers == 2 ? 0 : 1);
    sched::run(consumers == 2 ? pick(2, 3) : pick(3, 4), [&] {
        struct S { M m; C notEmpty, notFull; int slot = 0; bool full = false; bool inside = false; };
        S* s = new S;
        int sum = 0, produced = items * consumers;
        auto wait = [&](C& c, LockGuard<M>& g) {
            MC_CHECK(s->inside, "not inside");
            s->inside = false;
            if (timed) c.timedWait(g, 1500); else c.wait(g);
            MC_CHECK(!s->inside, "wait returns without holding the mutex");
            s->inside = true;
        };
        auto consume = [&] {
            for (int i = 0; i < items; i++) {
                LockGuard<M> g(s->m);
                MC_CHECK(!s->inside, "two threads inside"); s->inside = true;
                int loops = 0;
                while (!s->full) { wait(s->notEmpty, g); if (timed && ++loops > 3) { break; } }
                if (s->full) {
                    sched::ignoreBegin(); sum += s->slot; sched::ignoreEnd();
                    s->full = false;
                    if (wakeAll) s->notFull.wakeAll(); else s->notFull.wakeOne();
                } else i--;
                s->inside = false;
            }
        };
        Th a(consume), b;
        if (consumers == 2) b.run(consume);
        for (int i = 0; i < produced; i++) {
            LockGuard<M> g(s->m);
            MC_CHECK(!s->inside, "two threads inside"); s->inside = true;
            int loops = 0;
            while (s->full) { wait(s->notFull, g); if (timed && ++loops > 3) break; }
            if (s->full) { s->inside = false; i--; continue; }
            s->slot = i + 1; s->full = true;
            if (wakeAll) s->notEmpty.wakeAll(); else s->notEmpty.wakeOne();
            s->inside = false;
        }
        a.join(); if (consumers == 2) b.join();
        MC_CHECK(sum == produced * (produced + 1) / 2, "the consumers received %d", sum);
        delete s;
    });
}
// a timed wait takes the time it was given, unless woken
template <typename M, typename C> static void timedWait() {
    static const ureg ms[] = {0, 1, 7, 999, 1000, 1001, 2500, 60000};
    ureg t = ms[choose(8)];
    bool wake = choose(2);
    mc::nontrivial();
    sched::run(pick(3, 5), [&] {
        struct S { M m; C c; bool flag = false; };
        S* s = new S;
        Th a([&] { LockGuard<M> g(s->m); if (wake) { s->flag = true; s->c.wakeAll(); } });
        bool flag;
        uint64_t t0, t1;
        {
            LockGuard<M> g(s->m);
            t0 = sched::nowNanos();
            flag = s->flag;
            if (!flag) s->c.timedWait(g, t);
            t1 = sched::nowNanos();
            if (!flag) {
                bool timedOut = !s->flag;
                if (timedOut) MC_CHECK(t1 - t0 >= t * 1000000ull, "a timed wait of %zu ms ends after %zu us without being woken", (size_t) t, (size_t) ((t1 - t0) / 1000));
                MC_CHECK(t1 - t0 <= t * 1000000ull + 1000000, "a timed wait of %zu ms takes %zu us", (size_t) t, (size_t) ((t1 - t0) / 1000));
            }
        }
        a.join();
        delete s;
    });
}
static void sleep() {
    static const ureg ms[] = {0, 1, 999, 1000, 1001, 3999, 86400000};
    ureg t = ms[choose(7)];
    mc::nontrivial();
    sched::interrupts(2);
    sched::run(2, [&] {
        uint64_t t0 = sched::nowNanos();
        Th::sleepMillis(t);
        MC_CHECK(sched::nowNanos() - t0 >= t * 1000000ull, "sleepMillis(%zu) sleeps %zu us", (size_t) t, (size_t) ((sched::nowNanos() - t0) / 1000));
    });
}
// ---- thread-local values
static void tls() {
    int ops[2][3];
    for (int t = 0; t < 2; t++) for (int i = 0; i < 3; i++) ops[t][i] = choose(3);
    mc::nontrivial();
    sched::run(pick(2, 3), [&] {
        ThreadLocal<ureg>* v = new ThreadLocal<ureg>;
        ThreadLocal<int*>* p = new ThreadLocal<int*>;
        auto body = [&](int t) {
            ureg cur = 0; int box = t; int* curP = nullptr;
            MC_CHECK(v->load() == 0 && p->load() == nullptr, "a thread-local value is not zero in a new thread");
            for (int i = 0; i < 3; i++) {
                switch (ops[t][i]) {
                    case 0: cur = t * 100 + i + 1; v->store(cur); break;
                    case 1: {
                        auto scope = v->setInScope(t * 1000 + i + 7);
                        sched::unlockedYield();
                        MC_CHECK(v->load() == ureg(t * 1000 + i + 7), "thread-local value in scope");
                        { auto inner = v->setInScope(3); MC_CHECK(v->load() == 3, "nested scope"); }
                        MC_CHECK(v->load() == ureg(t * 1000 + i + 7), "the scope's value is not restored");
                        break;
                    }
                    case 2: { auto scope = p->setInScope(&box); sched::unlockedYield(); MC_CHECK(p->load() == &box, "thread-local pointer"); break; }
                }
                sched::unlockedYield();
                MC_CHECK(v->load() == cur, "thread %d's value is %zu instead of %zu", t, (size_t) v->load(), (size_t) cur);
                MC_CHECK(p->load() == curP, "thread-local pointer not restored");
            }
        };
        Th a([&] { body(0); }), b([&] { body(1); });
        MC_CHECK(v->load() == 0, "the main thread's value changed");
        a.join(); b.join();
        MC_CHECK(v->load() == 0, "the main thread's value changed");
        delete v; delete p;
    });
}
static void tid() {
    mc::nontrivial();
    sched::run(2, [&] {
        TID::TID ids[3] = {0, 0, 0};
        TID::TID again = TID::getCurrentThreadID();
        Th a([&] { ids[0] = TID::getCurrentThreadID(); sched::unlockedYield(); MC_CHECK(ids[0] == TID::getCurrentThreadID(), "the id changes"); });
        Th b([&] { ids[1] = TID::getCurrentThreadID(); });
        ids[2] = TID::getCurrentThreadID();
        a.join(); b.join();
        MC_CHECK(ids[0] != ids[1] && ids[1] != ids[2] && ids[0] != ids[2] && again == ids[2], "thread ids are not distinct");
    });
}
MC_SCENARIOS = {
    {"threads-posix", threads<Thread_POSIX>, 0, ""},
    {"threads-cpp11", threads<Thread_CPP11>, 0, ""},
    {"semaphore", semaphore, 0, ""},
    {"sem-blocks", semBlocks, 0, ""},
    {"event", event, 0, ""},
    {"event-all", eventAll, 0, ""},
    {"buffer", buffer<Mutex, ConditionVariable>, 0, "bounded buffer, default condition variable"},
    {"buffer-posix", buffer<Mutex_POSIX, ConditionVariable_POSIX>, 0, ""},
    {"timed", timedWait<Mutex, ConditionVariable>, 0, ""},
    {"timed-posix", timedWait<Mutex_POSIX, ConditionVariable_POSIX>, 0, ""},
    {"sleep", sleep, 0, ""},
    {"tls", tls, 0, ""},
    {"tid", tid, 0, ""},
    MC_END};
