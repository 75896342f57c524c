// Pool, OwnPoolHandle and BigPool against std::map
#include "common.h"
#include <ply-runtime/container/Pool.h>
#include <ply-runtime/container/BigPool.h>

using PT = Pool<Tracked>;
using PI = PoolIndex<Tracked, u16>;
static PT* g_pool;
struct HandleTraits {
    using T = Tracked;
    using Index = u16;
    static PT& getPool() { return *g_pool; }
};
using Handle = OwnPoolHandle<HandleTraits>;

static void verify(PT& p, std::map<u32, int>& m) {
    for (auto& kv : m) {
        PoolPtr<Tracked> t = p.get(PI{kv.first});
        MC_CHECK(t->value() == kv.second, "item %u is %d, expected %d", kv.first, t->value(), kv.second);
        MC_CHECK(p.indexOf(t.get()) == kv.first, "indexOf(%u) is %u", kv.first, p.indexOf(t.get()));
        const PT& cp = p;
        PoolPtr<const Tracked> c = cp.get(PI{kv.first});
        MC_CHECK(c.get() == t.get(), "const get");
    }
}
static void enumerate(PT& p, std::map<u32, int>& m) {
    auto it = m.begin();
    u32 n = 0;
    auto end = p.end();
    for (auto i = p.begin(); i != end; ++i) {
        MC_CHECK(it != m.end(), "enumeration visits too many items");
        PI idx = i.getIndex<u16>();
        MC_CHECK(idx.idx == it->first && (*i)->value() == it->second, "enumeration visits item %u, expected item %u", idx.idx, it->first);
        MC_CHECK(i.isValid(), "iterator invalid at a live item");
        ++it; n++;
    }
    MC_CHECK(it == m.end(), "enumeration stops after %u of %zu items", n, m.size());
    const PT& cp = p;
    n = 0;
    for (auto i = cp.begin(); i.isValid(); ++i) { MC_CHECK(m.count(i.getIndex<u16>().idx), "const enumeration visits a freed item"); n++; }
    MC_CHECK(n == m.size(), "const enumeration visits %u items", n);
}
static void pool() {
    int next = 0;
    long live0 = Tracked::live();
    {
        PT p;
        std::map<u32, int> m;
        auto add = [&](bool byMove) {
            int v = ++next;
            PI i = byMove ? p.newItem<u16>(Tracked{v}) : p.newItem<u16>(v);
            MC_CHECK(!m.count(i.idx), "newItem returned index %u, which is in use", i.idx);
            m[i.idx] = v;
        };
        static const int pre[] = {0, 1, 7, 8, 15, 16};
        int P = pre[choose(6)];
        for (int i = 0; i < P; i++) add(false);
        MC_LOG("%d items at first", P);
        int D = pick(5, 7);
        for (int d = 0; d < D; d++) {
            int op = choose(7);
            mc::step();
            auto at = [&](int which) { // first, last, middle
                auto it = m.begin();
                std::advance(it, which == 0 ? 0 : which == 1 ? m.size() - 1 : m.size() / 2);
                return it;
            };
            if (op <= 1) { MC_LOG("newItem"); add(op == 1); }
            else if (op <= 4) {
                if (m.empty()) continue;
                auto it = at(op - 2);
                MC_LOG("delItem(%u)", it->first);
                p.delItem(PI{it->first});
                m.erase(it);
            } else if (op == 5) { MC_LOG("enumerate"); enumerate(p, m); }
            else { MC_LOG("clear"); p.clear(); m.clear(); }
            verify(p, m);
            MC_CHECK(Tracked::live() - live0 == (long) m.size(), "%ld objects alive, the pool holds %zu", Tracked::live() - live0, m.size());
            if (m.size() > 1) mc::nontrivial();
            uint64_t h = p.m_size;
            for (auto& kv : m) h = mc::mix(h, kv.first);
            u32 f = p.m_firstFree; // the order of the free list is part of the state
            for (u32 k = 0; f != u32(-1) && k < 100; k++) { h = mc::mix(h, f + 1000); f = *(u32*) ((char*) p.m_items + f * sizeof(Tracked)); }
            mc::state(h);
        }
        enumerate(p, m);
        verify(p, m);
    }
    MC_CHECK(Tracked::live() == live0, "%ld objects never destroyed", Tracked::live() - live0);
}
static void handles() {
    long live0 = Tracked::live();
    {
        PT p;
        g_pool = &p;
        int next = 0;
        {
            Handle h[3];
            int m[3] = {0, 0, 0};
            int D = pick(5, 6);
            for (int d = 0; d < D; d++) {
                int k = choose(3), op = choose(4);
                mc::step();
                if (op == 0) { int v = ++next; MC_LOG("h[%d].assign(new)", k); h[k].assign(p.newItem<u16>(v)); m[k] = v; }
                else if (op == 1) { MC_LOG("h[%d].clear()", k); h[k].clear(); m[k] = 0; }
                else if (op == 2) { int o = (k + 1) % 3; if (m[o]) continue; MC_LOG("h[%d] constructed from h[%d]", o, k); h[o].~Handle(); new (&h[o]) Handle{std::move(h[k])}; m[o] = m[k]; m[k] = 0; }
                else { MC_LOG("delete and recreate h[%d]", k); h[k].~Handle(); new (&h[k]) Handle; m[k] = 0; }
                long n = 0;
                uint64_t hs = 1;
                for (int i = 0; i < 3; i++) {
                    MC_CHECK(h[i].isValid() == (m[i] != 0), "handle %d valid=%d", i, h[i].isValid());
                    if (m[i]) { MC_CHECK(h[i].get()->value() == m[i], "handle %d designates %d, expected %d", i, h[i].get()->value(), m[i]); n++; hs = mc::mix(hs, h[i].idx + 1); } else hs = mc::mix(hs, 0);
                }
                MC_CHECK(Tracked::live() - live0 == n, "%ld objects alive, handles own %ld", Tracked::live() - live0, n);
                if (n) mc::nontrivial();
                mc::state(hs);
            }
        }
    }
    MC_CHECK(Tracked::live() == live0, "%ld objects never destroyed", Tracked::live() - live0);
}
template <class T> static void bigT() {
    BigPool<T> p{1 << 20};
    std::vector<u64> m;
    std::vector<T*> addr;
    static const u32 ns[] = {1, 7, 511, 512, 513, 4096};
    int D = 4;
    u64 c = 0;
    for (int d = 0; d < D; d++) {
        u32 n = ns[choose(6)];
        int how = choose(3);
        if ((m.size() + n) * sizeof(T) > (1 << 20)) continue;
        mc::step();
        MC_LOG("%s %u items of %zu bytes", how == 0 ? "append" : how == 1 ? "alloc" : "beginWrite/endWrite", n, sizeof(T));
        if (how == 0) for (u32 i = 0; i < n; i++) { T& t = p.append(T(++c)); addr.push_back(&t); m.push_back((T) c); }
        else {
            T* w = how == 1 ? p.alloc(n) : p.beginWrite(n + 3);
            for (u32 i = 0; i < n; i++) { w[i] = T(++c); addr.push_back(&w[i]); m.push_back((T) c); }
            if (how == 2) p.endWrite(n);
        }
        MC_CHECK(p.numItems() == m.size(), "numItems %zu, expected %zu", (size_t) p.numItems(), m.size());
        for (size_t i = 0; i < m.size(); i++) MC_CHECK(&p[i] == addr[i] && p[i] == (T) m[i] && p.get(i) == addr[i], "item %zu moved or changed", i);
        MC_CHECK(&p.back() == addr.back() && p.end() == addr.back() + 1, "back()/end()");
        mc::nontrivial();
        mc::state(mc::mix(sizeof(T), m.size()));
    }
}
static void big() {
    switch (choose(3)) {
        case 0: bigT<u8>(); break;
        case 1: bigT<u32>(); break;
        default: bigT<u64>(); break;
    }
}
MC_SCENARIOS = {
    {"pool", pool, mc::LEAKS, "all sequences of allocations, frees, enumerations and clears from several fill levels"},
    {"handles", handles, mc::LEAKS, "owning handles into a pool"},
    {"big-pool", big, 0, "growth of a reserved address range across page boundaries"},
    MC_END,
};
