// Thread-safe reference counts under every interleaving
#include "common.h"

#include "mcsched.h"
#include <ply-runtime/container/Reference.h>
#include <ply-runtime/container/WeakRef.h>
#include <ply-runtime/thread/Thread.h>
#include <ply-runtime/thread/impl/Thread_POSIX.h>
using Th = Thread_POSIX;

static int g_alive, g_destroyed, g_partial;
struct Obj : RefCounted<Obj> {
    int payload, own[4] = {0, 0, 0, 0};
    Obj(int p) : payload(p) { sched::ignoreBegin(); g_alive++; sched::ignoreEnd(); }
    ~Obj() {
        int s = own[0] + own[1] + own[2] + own[3] + payload; (void) s;
        payload = -1;
        sched::ignoreBegin(); g_alive--; g_destroyed++; sched::ignoreEnd();
    }
    void onRefCountZero() { threadFenceAcquire(); delete this; }
};
using Ref = Reference<Obj>;

// what a thread does with its references before dropping them
static void script(int me, Ref& a, Ref& b, const int* ops, int n) {
    for (int i = 0; i < n; i++) {
        switch (ops[i]) {
            case 0: { Ref c(a); if (c) MC_CHECK(c->payload > 0, "reading a destroyed object"); break; }
            case 1: { if (a) a->own[me]++; break; }
            case 2: { b = a; break; }
            case 3: { a = std::move(b); break; }
            case 4: { a.clear(); break; }
            case 5: { Ref c(std::move(a)); a = (Obj*) c; break; }
        }
    }
}
static void strong(int threads, int nops) {
    int ops[3][3];
    bool two = choose(2);
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < nops; i++) ops[t][i] = choose(6);
    bool mainDropsEarly = choose(2);
    g_alive = g_destroyed = 0;
    mc::nontrivial();
    sched::run(pick(threads == 2 ? 5 : 3, threads == 2 ? 12 : 5), [&] {
        {
            Ref x(new Obj(5)), y(two ? new Obj(7) : nullptr);
            Th th[2];
            struct Arg { Ref a, b; };
            Arg* args[2];
            for (int t = 0; t < threads - 1; t++) {
                Arg* arg = new Arg{x, y};
                args[t] = arg;
                const int* o = ops[t];
                th[t].run([arg, t, o, nops] { script(t, arg->a, arg->b, o, nops); delete arg; });
            }
            script(3, x, y, ops[threads - 1], nops);
            if (mainDropsEarly) { x.clear(); y.clear(); }
            for (int t = 0; t < threads - 1; t++) th[t].join();
        }
        MC_CHECK(g_alive == 0 && g_destroyed == 1 + two, "%d objects alive, %d destroyed of %d", g_alive, g_destroyed, 1 + two);
    });
}
static void strong2() { strong(2, pick(2, 3)); }
static void strong3() { strong(3, 1); }

// strong and weak references to one object
struct DObj : DualRefCounted<DObj> {
    int payload = 9; int* resource = new int(4);
    DObj() { sched::ignoreBegin(); g_alive++; sched::ignoreEnd(); }
    ~DObj() { MC_CHECK(!resource, "destroyed before the last strong reference is dropped"); payload = -1; sched::ignoreBegin(); g_alive--; g_destroyed++; sched::ignoreEnd(); }
    void onPartialRefCountZero() {
        threadFenceAcquire();
        MC_CHECK(payload == 9 && resource, "partial destruction");
        sched::ignoreBegin(); g_partial++; sched::ignoreEnd();
        delete resource; resource = nullptr;
    }
    void onFullRefCountZero() { threadFenceAcquire(); delete this; }
};
using DRef = Reference<DObj>;
using WRef = WeakRef<DObj>;
static void dual(int threads) {
    int kind[3][2], nops = threads == 2 ? 2 : 1;
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < nops; i++) kind[t][i] = choose(4);
    g_alive = g_destroyed = g_partial = 0;
    mc::nontrivial();
    sched::run(pick(threads == 2 ? 8 : 3, threads == 2 ? 20 : 6), [&] {
        {
            DRef s(new DObj);
            WRef w(s.get());
            Th th[2];
            struct Arg { DRef s; WRef w; };
            auto body = [&kind, nops](int t, DRef& s, WRef& w) {
                for (int i = 0; i < nops; i++)
                    switch (kind[t][i]) {
                        case 0: s.clear(); break;
                        case 1: if (s) { WRef w2(s.get()); w = w2; MC_CHECK(s->payload == 9 && *s->resource == 4, "object destroyed while strongly referenced"); } break;
                        case 2: w = (DObj*) nullptr; break;
                        case 3: if (w) MC_CHECK(w->payload == 9, "object freed while weakly referenced"); break;
                    }
            };
            for (int t = 0; t < threads - 1; t++) {
                Arg* arg = new Arg{s, w};
                th[t].run([arg, t, &body] { body(t, arg->s, arg->w); delete arg; });
            }
            body(threads - 1, s, w);
            s.clear(); w = (DObj*) nullptr;
            for (int t = 0; t < threads - 1; t++) th[t].join();
        }
        MC_CHECK(g_alive == 0 && g_destroyed == 1 && g_partial == 1, "%d alive, %d destroyed, %d partially destroyed", g_alive, g_destroyed, g_partial);
    });
}
static void dual2() { dual(2); }
static void dual3() { dual(3); }
MC_SCENARIOS = {
    {"strong-2", strong2, 0, "two threads, two operations each"},
    {"strong-3", strong3, 0, "three threads, one operation each"},
    {"dual-2", dual2, 0, "strong and weak references, two threads"},
    {"dual-3", dual3, 0, "strong and weak references, three threads"},
    MC_END};
