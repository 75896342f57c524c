// Sequence and BlockList against std::vector, with item sizes that put chunk boundaries everywhere
#include "common.h"
#include <ply-runtime/container/Array.h>
#include <ply-runtime/container/Sequence.h>
#include <ply-runtime/container/BlockList.h>

template <int Bytes> struct Item : Tracked {
    char pad[Bytes - sizeof(Tracked)];
    Item(int v = -1) : Tracked(v) { memset(pad, v & 127, sizeof(pad)); }
    void checkPad() const { for (char c : pad) if (c != char(value() & 127)) mc::fail("item %d's bytes changed", value()); }
};

template <class T> struct Rec { int v; T* addr; WeakSequenceRef<T> ref; };

template <class T> static void verify(Sequence<T>& s, std::vector<Rec<T>>& m) {
    MC_CHECK(s.numItems() == m.size(), "numItems is %u, expected %zu", s.numItems(), m.size());
    MC_CHECK(s.isEmpty() == m.empty(), "isEmpty is %d with %zu items", s.isEmpty(), m.size());
    size_t i = 0;
    for (T& t : s) {
        MC_CHECK(i < m.size(), "iteration yields too many items");
        MC_CHECK(t.value() == m[i].v, "item %zu is %d, expected %d", i, t.value(), m[i].v);
        MC_CHECK(&t == m[i].addr, "item %zu moved", i);
        t.checkPad();
        i++;
    }
    MC_CHECK(i == m.size(), "iteration stops after %zu of %zu items", i, m.size());
    const Sequence<T>& cs = s;
    i = 0;
    for (const T& t : cs) { MC_CHECK(i < m.size() && &t == m[i].addr, "const iteration"); i++; }
    if (!m.empty()) {
        MC_CHECK(&s.head() == m[0].addr, "head() is not the first item");
        MC_CHECK(&s.tail() == m.back().addr, "tail() is not the last item");
        WeakSequenceRef<T> r = s.end();
        for (size_t k = m.size(); k > 0; k--) {
            --r;
            MC_CHECK(&*r == m[k - 1].addr, "backward iteration is wrong at item %zu", k - 1);
        }
        MC_CHECK(!(r != s.begin()), "backward iteration does not end at begin()");
        WeakSequenceRef<T> q = s.begin();
        for (size_t k = 0; k < m.size(); k++) MC_CHECK(&q.read() == m[k].addr, "read() is wrong at item %zu", k);
        for (size_t k = 0; k < m.size(); k++) {
            WeakSequenceRef<T> w = m[k].ref.normalized();
            MC_CHECK(&*w == m[k].addr, "a reference to item %zu designates another item", k);
        }
    }
}
template <class T> static void history(int depth, std::initializer_list<int> prefills) {
    static int next;
    next = 0;
    long live0 = Tracked::live();
    {
        Sequence<T> s;
        std::vector<Rec<T>> m;
        auto app = [&](int how) {
            int v = ++next;
            WeakSequenceRef<T> ref = s.end(); // an end reference designates the item appended next
            T* a;
            if (how == 0) { T t{v}; a = &s.append(t); }
            else if (how == 1) a = &s.append(T{v});
            else if (how == 2) a = &s.append(v);
            else { T* p = s.beginWriteNoConstruct(); new (p) T{v}; s.endWrite(); a = p; }
            m.push_back({v, a, ref});
        };
        int P = *(prefills.begin() + choose(prefills.size()));
        for (int i = 0; i < P; i++) app(0);
        MC_LOG("%zu-byte items, %d appended", sizeof(T), P);
        verify(s, m);
        for (int d = 0; d < depth; d++) {
            int op = choose(11);
            mc::step();
            switch (op) {
                case 0: case 1: case 2: case 3: MC_LOG("append (form %d)", op); app(op); break;
                case 4: {
                    ArrayView<T> v = s.beginWriteViewNoConstruct();
                    MC_CHECK(v.numItems >= 1, "beginWriteViewNoConstruct gave no room");
                    u32 k = 1 + choose(2); // one, all
                    k = k == 2 ? v.numItems : k;
                    MC_LOG("write %u of %u items in place", k, v.numItems);
                    WeakSequenceRef<T> e = s.end();
                    for (u32 i = 0; i < k; i++) { int x = ++next; new (&v[i]) T{x}; m.push_back({x, &v[i], e}); }
                    s.endWrite(k);
                    WeakSequenceRef<T> r = s.end();
                    for (u32 i = 0; i < k; i++) { --r; m[m.size() - 1 - i].ref = r; }
                    break;
                }
                case 5: if (m.empty()) break; MC_LOG("popTail()"); s.popTail(); m.pop_back(); break;
                case 6: { if (m.size() < 2) break; u32 k = choose(2) ? m.size() : 2; MC_LOG("popTail(%u)", k); s.popTail(k); m.resize(m.size() - k); break; }
                case 7: { // truncate at an item
                    size_t n = m.size();
                    if (n == 0) { MC_LOG("truncate(end)"); s.truncate(s.end()); break; }
                    size_t at[] = {0, n / 2, n - 1, n};
                    size_t k = at[choose(4)];
                    MC_LOG("truncate to %zu items", k);
                    s.truncate(k == n ? s.end() : m[k].ref.normalized());
                    m.resize(k);
                    break;
                }
                case 8: MC_LOG("clear()"); s.clear(); m.clear(); break;
                case 9: { MC_LOG("move to another sequence and back"); Sequence<T> t{std::move(s)}; verify(t, m); s = std::move(t); break; }
                default: {
                    MC_LOG("moveToArray()");
                    Array<T> a = s.moveToArray();
                    MC_CHECK(a.numItems() == m.size(), "moveToArray gives %u items, expected %zu", a.numItems(), m.size());
                    for (u32 i = 0; i < a.numItems(); i++) { MC_CHECK(a[i].value() == m[i].v, "moveToArray: item %u", i); a[i].checkPad(); }
                    MC_CHECK(Tracked::live() - live0 == (long) m.size(), "moveToArray duplicated or lost objects");
                    s = Sequence<T>{};
                    m.clear();
                    break;
                }
            }
            if (m.size() > 1) mc::nontrivial();
            verify(s, m);
            MC_CHECK(Tracked::live() - live0 == (long) m.size(), "%ld objects alive, the sequence holds %zu", Tracked::live() - live0, m.size());
            uint64_t h = mc::mix(sizeof(T), m.size());
            char* base = nullptr;
            for (auto& r : m) { // canonical: which items share a block with their predecessor
                h = mc::mix(h, base && (char*) r.addr == base + sizeof(T));
                base = (char*) r.addr;
            }
            mc::state(h);
        }
    }
    MC_CHECK(Tracked::live() == live0, "%ld objects never destroyed", Tracked::live() - live0);
}
static void items() {
    int D = pick(3, 4);
    switch (choose(6)) {
        case 0: history<Item<32>>(D, {0, 1, 62, 63, 64, 65, 128}); break;
        case 1: history<Item<72>>(D, {27, 28, 29, 56}); break;       // 2048 = 28*72 + 32
        case 2: history<Item<696>>(D, {0, 1, 2, 3, 4}); break;      // two per block and a hole
        case 3: history<Item<1024>>(D, {0, 1, 2, 3, 4}); break;     // two per block, exactly
        case 4: history<Item<2048>>(D, {0, 1, 2, 3}); break;        // one per block, exactly
        default: history<Item<2560>>(D, {0, 1, 2, 3}); break;       // larger than the default block
    }
}
static void blocks() { // raw BlockList: bytes, views, toString from every position
    std::string m;
    BlockList bl;
    std::vector<u32> sizes; // of appends, for popping
    static const u32 ns[] = {1, 100, 2047, 2048, 2049, 5000};
    int D = pick(3, 4);
    int c = 0;
    for (int d = 0; d < D; d++) {
        int op = choose(8);
        mc::step();
        if (op < 6) {
            char* p = bl.appendBytes(ns[op]);
            for (u32 i = 0; i < ns[op]; i++) { p[i] = char(++c % 251); m.push_back(p[i]); }
            sizes.push_back(ns[op]);
            MC_LOG("append %u bytes", ns[op]);
        } else if (op == 6 && !sizes.empty()) { MC_LOG("pop %u bytes", sizes.back()); bl.popLastBytes(sizes.back()); m.resize(m.size() - sizes.back()); sizes.pop_back(); }
        else if (op == 7 && !sizes.empty() && sizes.back() > 1) { MC_LOG("pop 1 byte"); bl.popLastBytes(1); m.pop_back(); sizes.back()--; }
        std::string got;
        for (StringView v : BlockList::iterateOverViews({bl.head, bl.head->start()}, bl.end())) got += str(v);
        if (bl.head != bl.tail && bl.tail->numBytesUsed == 0) {}
    }
    // every start/end cut at block boundaries and next to them
    std::vector<std::pair<BlockList::WeakRef, size_t>> cuts;
    size_t off = 0;
    for (BlockList::Footer* b = bl.head; b; b = b->nextBlock) {
        u32 n = b->numBytesUsed;
        std::set<u32> at = {0, n ? 1 : 0u, n / 2, n ? n - 1 : 0u, n};
        for (u32 x : at) cuts.push_back({BlockList::WeakRef{b, b->bytes + x}, off + x});
        off += n;
    }
    MC_CHECK(off == m.size(), "the blocks hold %zu bytes, expected %zu", off, m.size());
    if (off) mc::nontrivial();
    mc::state(hstr(m));
    int i = choose(cuts.size()), j = choose(cuts.size() + 1);
    if (j < (int) cuts.size() && cuts[j].second < cuts[i].second) return;
    if (j < (int) cuts.size() && j < i) return; // same offset, but an earlier block
    bool adopt = choose(2);
    size_t a = cuts[i].second, b = j == (int) cuts.size() ? m.size() : cuts[j].second;
    BlockList::WeakRef end = j == (int) cuts.size() ? BlockList::WeakRef{} : cuts[j].first;
    MC_LOG("toString from %zu to %zu, %s", a, b, adopt ? "giving up the blocks" : "keeping the blocks");
    String s;
    if (adopt) {
        BlockList::Ref r{cuts[i].first};
        bl.head.clear();
        bl.tail = nullptr;
        s = BlockList::toString(std::move(r), end);
    } else s = BlockList::toString(BlockList::Ref{cuts[i].first}, end);
    MC_CHECK(str(s) == m.substr(a, b - a), "toString gives %u bytes, expected bytes %zu to %zu", s.numBytes, a, b);
}
MC_SCENARIOS = {
    {"items", items, mc::LEAKS, "all sequences of 11 operations on sequences of owning items of 6 sizes"},
    {"blocks", blocks, mc::LEAKS, "appends and pops on a block list, then a string from every pair of positions"},
    MC_END,
};
