// Array/FixedArray/ArrayView against std::vector; elements own heap blocks.
#include "common.h"
#include <ply-runtime/container/Array.h>
#include <ply-runtime/container/FixedArray.h>
#include <ply-runtime/container/EnumIndexedArray.h>

using V = std::vector<int>;
static int g_next;
static int fresh() { return ++g_next; }

static void verify(const Array<Tracked>& a, const V& m, const char* which) {
    MC_CHECK(a.numItems() == m.size(), "array %s has %u items, expected %zu", which, a.numItems(), m.size());
    MC_CHECK(a.isEmpty() == m.empty() && (bool) a == !m.empty() && a.sizeBytes() == m.size() * sizeof(Tracked), "array %s: isEmpty/sizeBytes", which);
    size_t i = 0;
    for (const Tracked& t : a) {
        MC_CHECK(t.value() == m[i], "array %s item %zu is %d, expected %d", which, i, t.value(), m[i]);
        MC_CHECK(a[i].value() == m[i] && a.get(i)->value() == m[i] && a.back(-1 - (int) i).value() == m[m.size() - 1 - i], "array %s indexing", which);
        i++;
    }
    MC_CHECK(i == m.size(), "array %s iterates over %zu items", which, i);
    ArrayView<const Tracked> v = a.view();
    MC_CHECK(v.numItems == m.size() && v.items == a.begin(), "view()");
}
static uint64_t hv(const V& a) { return mc::hashBytes(a.data(), a.size() * sizeof(int)); }
// canonical: ranks instead of raw values
static uint64_t canon(const V& a, const V& b, u32 capA) {
    std::map<int, int> rank;
    uint64_t h = 1;
    for (int x : a) { int r = rank.emplace(x, rank.size()).first->second; h = mc::mix(h, r + 1); }
    h = mc::mix(h, 999);
    for (int x : b) { int r = rank.emplace(x, rank.size()).first->second; h = mc::mix(h, r + 1); }
    return h;
}
static void ops(int depth, int maxPrefill) {
    g_next = 0;
    long live0 = Tracked::live();
    {
        Array<Tracked> a, b;
        V ma, mb;
        int na = choose(maxPrefill + 1), nb = choose(3);
        for (int i = 0; i < na; i++) { int v = fresh(); a.append(v); ma.push_back(v); }
        for (int i = 0; i < nb; i++) { int v = fresh(); b.append(v); mb.push_back(v); }
        MC_LOG("a has %d items, b has %d", na, nb);
        for (int d = 0; d < depth; d++) {
            int op = choose(29);
            mc::step();
            auto pos = [&](size_t limit) -> size_t { // 0, middle, limit
                if (limit == 0) return 0;
                if (limit == 1) return choose(2);
                int c = choose(3);
                return c == 0 ? 0 : c == 1 ? limit / 2 : limit;
            };
            switch (op) {
                case 0: { int v = fresh(); Tracked t{v}; MC_LOG("append(copy)"); Tracked& r = a.append(t); MC_CHECK(t.value() == v && r.value() == v && &r == &a.back(), "append returned a wrong reference"); ma.push_back(v); break; }
                case 1: { int v = fresh(); MC_LOG("append(move)"); Tracked& r = a.append(Tracked{v}); MC_CHECK(&r == &a.back(), "append"); ma.push_back(v); break; }
                case 2: { int v = fresh(); MC_LOG("append(args)"); a.append(v); ma.push_back(v); break; }
                case 3: { size_t p = pos(ma.size()); int v = fresh(); MC_LOG("insert(%zu)", p); Tracked& r = a.insert(p); MC_CHECK(r.value() == -1 && &r == &a[p], "insert gave a wrong item"); r = Tracked{v}; ma.insert(ma.begin() + p, v); break; }
                case 4: { size_t p = pos(ma.size()); MC_LOG("insert(%zu, 3)", p); a.insert(p, 3); ma.insert(ma.begin() + p, 3, -1); break; }
                case 5: { if (ma.empty()) break; size_t p = pos(ma.size() - 1); MC_LOG("erase(%zu)", p); a.erase(p); ma.erase(ma.begin() + p); break; }
                case 6: { if (ma.size() < 2) break; size_t p = pos(ma.size() - 2); MC_LOG("erase(%zu, 2)", p); a.erase(p, 2); ma.erase(ma.begin() + p, ma.begin() + p + 2); break; }
                case 7: { if (ma.empty()) break; size_t p = pos(ma.size() - 1); MC_LOG("eraseQuick(%zu)", p); a.eraseQuick(p); ma[p] = ma.back(); ma.pop_back(); break; }
                case 8: { static const int ns[] = {0, 1, 2, 5}; int n = ns[choose(4)]; MC_LOG("resize(%d)", n); a.resize(n); ma.resize(n, -1); break; }
                case 9: { MC_LOG("reserve(numItems+3)"); a.reserve(ma.size() + 3); break; }
                case 10: { MC_LOG("truncate()"); a.truncate(); break; }
                case 11: { if (ma.empty()) break; int c = ma.size() > 1 ? 1 + choose(2) : 1; MC_LOG("pop(%d)", c); a.pop(c); ma.resize(ma.size() - c); break; }
                case 12: { int v = fresh(), w = fresh(); MC_LOG("extend({..})"); a.extend({Tracked{v}, Tracked{w}}); ma.push_back(v); ma.push_back(w); break; }
                case 13: { MC_LOG("a.extend(b)"); a.extend(b); ma.insert(ma.end(), mb.begin(), mb.end()); break; }
                case 14: { MC_LOG("a.extend(move(b)), b.clear()"); a.extend(std::move(b)); ma.insert(ma.end(), mb.begin(), mb.end()); b.clear(); mb.clear(); break; }
                case 15: { MC_LOG("a.moveExtend(b.view()), b.clear()"); a.moveExtend(b.view()); ma.insert(ma.end(), mb.begin(), mb.end()); b.clear(); mb.clear(); break; }
                case 16: { MC_LOG("a = b"); a = b; ma = mb; break; }
                case 17: { MC_LOG("a = move(b)"); a = std::move(b); ma = mb; mb.clear(); break; }
                case 18: { int v = fresh(), w = fresh(); MC_LOG("a = {..}"); a = {Tracked{v}, Tracked{w}}; ma = {v, w}; break; }
                case 19: { size_t p = pos(ma.size()); MC_LOG("a = a.subView(%zu)", p); a = a.subView(p); ma = V(ma.begin() + p, ma.end()); break; }
                case 20: { MC_LOG("a = a"); Array<Tracked>& alias = a; a = alias; break; }
                case 21: { MC_LOG("a = a + b"); a = a + b; ma.insert(ma.end(), mb.begin(), mb.end()); break; }
                case 22: { MC_LOG("a.clear()"); a.clear(); ma.clear(); break; }
                case 23: { MC_LOG("copy of a"); Array<Tracked> c{a}; verify(c, ma, "copy"); c.append(77); verify(a, ma, "a"); Array<Tracked> e = b.view(); verify(e, mb, "from view"); break; }
                case 24: { int v = fresh(), w = fresh(), x = fresh(); MC_LOG("a = FixedArray"); FixedArray<Tracked, 3> f{v, w, x}; a = f; ma = {v, w, x}; MC_CHECK(f[2].value() == x && f.numItems() == 3, "FixedArray changed"); break; }
                case 25: { MC_LOG("a = move(a) + move(b)"); a = std::move(a) + std::move(b); ma.insert(ma.end(), mb.begin(), mb.end()); b.clear(); mb.clear(); break; }
                case 26: { MC_LOG("release and adopt"); u32 n = a.numItems(); Tracked* p = a.release(); MC_CHECK(a.numItems() == 0, "release left items"); a = Array<Tracked>::adopt(p, n); break; }
                case 27: { size_t p = pos(ma.size()); MC_LOG("a = a.subView(0, %zu)", p); a = a.subView(0, p); ma.resize(p); break; }
                default: { MC_LOG("swap by moves"); Array<Tracked> t{std::move(a)}; a = std::move(b); b = std::move(t); std::swap(ma, mb); break; }
            }
            if (!ma.empty()) mc::nontrivial();
            verify(a, ma, "a");
            verify(b, mb, "b");
            MC_CHECK(Tracked::live() - live0 == (long) (ma.size() + mb.size()), "%ld objects alive, the arrays hold %zu", Tracked::live() - live0, ma.size() + mb.size());
            mc::state(canon(ma, mb, 0));
        }
    }
    MC_CHECK(Tracked::live() == live0, "%ld objects never destroyed", Tracked::live() - live0);
}
static void owning() { ops(pick(3, 4), pick(4, 5)); }
static void growth() { // single appends/insertions across every power-of-two boundary
    long live0 = Tracked::live();
    {
        int N = 1 + choose(pick(40, 140));
        int how = choose(4);
        Array<Tracked> a;
        V m;
        for (int i = 0; i < N; i++) {
            if (how == 0) { a.append(i); m.push_back(i); }
            else if (how == 1) { a.insert(0) = Tracked{i}; m.insert(m.begin(), i); }
            else if (how == 2) { a.insert(m.size() / 2) = Tracked{i}; m.insert(m.begin() + m.size() / 2, i); }
            else { a.resize(i + 1); a[i] = Tracked{i}; m.push_back(i); }
            verify(a, m, "a");
            mc::step();
        }
        a.truncate();
        verify(a, m, "a");
        a.append(5); m.push_back(5);
        verify(a, m, "a");
        int E = choose(3);
        while (!m.empty()) {
            size_t p = E == 0 ? 0 : E == 1 ? m.size() - 1 : m.size() / 2;
            a.erase(p); m.erase(m.begin() + p);
            verify(a, m, "a");
        }
        mc::nontrivial();
    }
    MC_CHECK(Tracked::live() == live0, "%ld objects never destroyed", Tracked::live() - live0);
}
// plain element types take different code paths (memcpy); also conversions between item types and string views
template <class T> static void plainT() {
    int n = choose(10), op = choose(8);
    Array<T> a;
    std::vector<T> m;
    for (int i = 0; i < n; i++) { a.append(T(i * 3)); m.push_back(T(i * 3)); }
    mc::step();
    int p = n ? choose(n) : 0;
    int c = 1 + choose(3);
    switch (op) {
        case 0: a.insert(p, c); for (int i = 0; i < c; i++) a[p + i] = T(100 + i); for (int i = 0; i < c; i++) m.insert(m.begin() + p + i, T(100 + i)); break;
        case 1: if (p + c <= n) { a.erase(p, c); m.erase(m.begin() + p, m.begin() + p + c); } break;
        case 2: if (n) { a.eraseQuick(p); m[p] = m.back(); m.pop_back(); } break;
        case 3: { u32 old = a.numItems(); a.resize(p); m.resize(p); break; }
        case 4: { Array<u64> w = a; MC_CHECK(w.numItems() == m.size(), "converted size"); for (int i = 0; i < n; i++) MC_CHECK(w[i] == (u64) m[i], "converted item %d", i); break; }
        case 5: { a = a.subView(p); m.erase(m.begin(), m.begin() + p); break; }
        case 6: { Array<T> b = a + ArrayView<const T>{a.begin(), (u32) n}; MC_CHECK(b.numItems() == 2 * (u32) n, "a+a"); for (int i = 0; i < 2 * n; i++) MC_CHECK(b[i] == m[i % n], "a+a item %d", i); break; }
        default: { MC_CHECK(a.stringView().numBytes == n * sizeof(T), "stringView"); FixedArray<T, 2> f{T(1), T(2)}; a.extend(f); m.push_back(1); m.push_back(2); StringView sv = f.stringView(); MC_CHECK(sv.numBytes == 2 * sizeof(T), "fixed stringView"); break; }
    }
    MC_CHECK(a.numItems() == m.size(), "size %u, expected %zu", a.numItems(), m.size());
    for (size_t i = 0; i < m.size(); i++) MC_CHECK(a[i] == m[i], "item %zu", i);
    if (n) mc::nontrivial();
    mc::state(mc::hashBytes(m.data(), m.size() * sizeof(T)) + sizeof(T));
}
static void plain() {
    switch (choose(4)) {
        case 0: plainT<u8>(); break;
        case 1: plainT<u16>(); break;
        case 2: plainT<u32>(); break;
        default: plainT<u64>(); break;
    }
}
MC_SCENARIOS = {
    {"owning", owning, mc::LEAKS, "all sequences of 29 operations on two arrays of owning objects, from every small prefill"},
    {"growth", growth, mc::LEAKS, "one item at a time across reallocation boundaries"},
    {"plain", plain, mc::LEAKS, "plain item types of 1, 2, 4, 8 bytes, conversions and views"},
    MC_END,
};
