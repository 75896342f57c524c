// BTree against a stable sorted list.
#include "common.h"
#include <ply-runtime/container/BTree.h>
#include <ply-runtime/string/String.h>

// Index is a view into the item: a stale separator in an inner node is a use-after-free
struct SItem {
    String key;
    int seq = -1;
    Tracked t;
};
struct STraits {
    using Index = StringView;
    using Item = SItem;
    static constexpr u32 NodeCapacity = 4;
    static Index getIndex(const Item& i) { return i.key; }
    static bool less(Index a, Index b) { return a < b; }
    static void onItemMoved(Item& item, void*) { item.t.check(); }
};
struct UItem {
    u32 key = 0;
    int seq = -1;
    Tracked t;
};
template <u32 Cap> struct UTraits {
    using Index = u32;
    using Item = UItem;
    static constexpr u32 NodeCapacity = Cap;
    static Index getIndex(const Item& i) { return i.key; }
    static bool less(Index a, Index b) { return a < b; }
    static void onItemMoved(Item& item, void*) { item.t.check(); }
};
struct Entry { u32 key; int seq; };
static String skey(u32 k) { return String::format("key{}", (char) ('a' + k)) + "xxxxxxxxxxxx"; }
static void setKey(SItem& i, u32 k) { i.key = skey(k); }
static void setKey(UItem& i, u32 k) { i.key = k; }
static u32 getKey(const SItem& i) { return i.key[3] - 'a'; }
static u32 getKey(const UItem& i) { return i.key; }

template <class T> struct Runner {
    using Tree = BTree<T>;
    using Item = typename T::Item;
    Tree tree;
    std::vector<Entry> model; // stable sorted
    int seq = 0;

    struct IndexHolder { String s; u32 u; };
    static StringView idx(const StringView*, const IndexHolder& h) { return h.s; }
    static u32 idx(const u32*, const IndexHolder& h) { return h.u; }
    typename T::Index index(const IndexHolder& h) { return idx((const typename T::Index*) nullptr, h); }

    void insert(u32 k) {
        Item it;
        setKey(it, k);
        it.seq = seq;
        it.t = Tracked{seq};
        if (seq & 1) tree.insert(it); else tree.insert(std::move(it));
        size_t p = 0;
        while (p < model.size() && model[p].key <= k) p++;
        model.insert(model.begin() + p, Entry{k, seq});
        seq++;
    }
    void removeAt(size_t pos) {
        auto it = tree.begin();
        for (size_t i = 0; i < pos; i++) it.next();
        Item r = tree.remove(it);
        MC_CHECK(r.seq == model[pos].seq && getKey(r) == model[pos].key && r.t.value() == r.seq, "remove(position %zu) returned item %d of key %u, expected item %d", pos, r.seq, getKey(r), model[pos].seq);
        model.erase(model.begin() + pos);
    }
    void popFront() {
        Item r = tree.popFront();
        MC_CHECK(r.seq == model[0].seq, "popFront returned item %d, expected %d", r.seq, model[0].seq);
        model.erase(model.begin());
    }
    void removeKey(u32 k) {
        IndexHolder h{skey(k), k};
        auto it = tree.findFirstGreaterOrEqualTo(index(h));
        size_t p = 0;
        while (p < model.size() && model[p].key < k) p++;
        if (p == model.size()) { MC_CHECK(!it.isValid(), "found a position beyond the end"); return; }
        Item r = tree.remove(it);
        MC_CHECK(r.seq == model[p].seq, "remove(first >= %u) removed item %d, expected %d", k, r.seq, model[p].seq);
        model.erase(model.begin() + p);
    }
    void verify(u32 maxKey) {
        MC_CHECK(tree.isEmpty() == model.empty(), "isEmpty() is %d with %zu items", (int) tree.isEmpty(), model.size());
        size_t i = 0;
        for (auto& item : tree) {
            MC_CHECK(i < model.size(), "iteration yields more than the %zu items held", model.size());
            MC_CHECK(getKey(item) == model[i].key && item.seq == model[i].seq && item.t.value() == item.seq, "position %zu holds item %d (key %u), expected item %d (key %u)", i, item.seq, getKey(item), model[i].seq, model[i].key);
            i++;
        }
        MC_CHECK(i == model.size(), "iteration yields %zu of %zu items", i, model.size());
        if (!model.empty()) MC_CHECK(tree.front().seq == model[0].seq, "front()");
        for (u32 k = 0; k <= maxKey; k++) {
            IndexHolder h{skey(k), k};
            size_t ge = 0;
            while (ge < model.size() && model[ge].key < k) ge++;
            auto it = tree.findFirstGreaterOrEqualTo(index(h));
            if (ge == model.size()) MC_CHECK(!it.isValid(), "findFirstGreaterOrEqualTo(%u) found item %d", k, it->seq);
            else {
                MC_CHECK(it.isValid() && it->seq == model[ge].seq, "findFirstGreaterOrEqualTo(%u): item %d, expected %d", k, it.isValid() ? it->seq : -1, model[ge].seq);
                if (ge > 0) { it.prev(); MC_CHECK(it->seq == model[ge - 1].seq, "prev()"); it.next(); MC_CHECK(it->seq == model[ge].seq, "next()"); }
            }
            auto it2 = tree.findLastLessThan(index(h));
            if (ge == 0) MC_CHECK(!it2.isValid(), "findLastLessThan(%u) found item %d", k, it2->seq);
            else MC_CHECK(it2.isValid() && it2->seq == model[ge - 1].seq, "findLastLessThan(%u): item %d, expected %d", k, it2.isValid() ? it2->seq : -1, model[ge - 1].seq);
        }
        uint64_t h = 1;
        for (auto& e : model) h = mc::mix(h, e.key * 100 + e.seq);
        mc::state(h);
    }
};
template <class T> static void sequences(int keys, int depth) {
    long live0 = Tracked::live();
    {
        Runner<T> r;
        for (int d = 0; d < depth; d++) {
            int op = choose(keys + 3);
            mc::step();
            if (op < keys) { MC_LOG("insert key %d", op); r.insert(op); }
            else if (r.model.empty()) return;
            else if (op == keys) { MC_LOG("popFront"); r.popFront(); }
            else if (op == keys + 1) { MC_LOG("remove last"); r.removeAt(r.model.size() - 1); }
            else { MC_LOG("remove middle"); r.removeAt(r.model.size() / 2); }
            r.verify(keys);
            if (r.model.size() > 4) mc::nontrivial();
        }
        MC_CHECK(Tracked::live() - live0 == (long) r.model.size(), "%ld live items, %zu held", Tracked::live() - live0, r.model.size());
    }
    MC_CHECK(Tracked::live() == live0, "%ld items leaked", Tracked::live() - live0);
}
static void seqString() { sequences<STraits>(3, pick(7, 9)); }
static void seqInt() { sequences<UTraits<4>>(3, pick(7, 9)); }
// prefilled trees of one to three levels, then every short sequence
template <class T> static void prefilled(int maxN, int depth) {
    long live0 = Tracked::live();
    {
        Runner<T> r;
        int pat = choose(5);
        int N = choose(maxN + 1);
        MC_LOG("prefill %d items, pattern %d", N, pat);
        for (int i = 0; i < N; i++) {
            u32 k = pat == 0 ? 1 + i / 3 : pat == 1 ? 1 + (N - 1 - i) / 2 : pat == 2 ? 4 : pat == 3 ? 1 + (i * 7) % 11 : 1 + (i % 2) * 8;
            r.insert(k);
        }
        r.verify(22);
        for (int d = 0; d < depth; d++) {
            int op = choose(10);
            mc::step();
            static const u32 ks[] = {0, 3, 4, 9, 20};
            if (op < 5) { MC_LOG("insert key %u", ks[op]); r.insert(ks[op]); }
            else if (r.model.empty()) return;
            else if (op < 9) {
                size_t p = op == 5 ? 0 : op == 6 ? r.model.size() - 1 : op == 7 ? r.model.size() / 2 : r.model.size() / 4;
                MC_LOG("remove position %zu", p);
                r.removeAt(p);
            } else { MC_LOG("remove first item with key >= 4"); r.removeKey(4); }
            mc::nontrivial();
            r.verify(22);
        }
    }
    MC_CHECK(Tracked::live() == live0, "%ld items leaked", Tracked::live() - live0);
}
static void preString() { prefilled<STraits>(pick(22, 40), pick(2, 3)); }
static void preInt() { prefilled<UTraits<4>>(pick(26, 70), pick(3, 4)); }
// fill to N, then empty it completely in each order
static void drain() {
    long live0 = Tracked::live();
    {
        Runner<UTraits<4>> r;
        int N = 1 + choose(pick(40, 90));
        int in = choose(4), out = choose(5);
        for (int i = 0; i < N; i++) {
            u32 k = in == 0 ? i : in == 1 ? N - i : in == 2 ? (i * 5) % N : 3;
            r.insert(k);
            r.verify(5);
            mc::step();
        }
        while (!r.model.empty()) {
            size_t n = r.model.size();
            size_t p = out == 0 ? 0 : out == 1 ? n - 1 : out == 2 ? n / 2 : out == 3 ? (n * 7 / 10) : n / 4;
            r.removeAt(p);
            r.verify(5);
            mc::step();
        }
        mc::nontrivial();
        if (choose(2)) { r.insert(4); r.verify(5); Runner<UTraits<4>>::Tree t2{std::move(r.tree)}; MC_CHECK(!t2.isEmpty() && r.tree.isEmpty(), "move"); t2.clear(); MC_CHECK(t2.isEmpty(), "clear"); }
    }
    MC_CHECK(Tracked::live() == live0, "%ld items leaked", Tracked::live() - live0);
}
// every way to insert the same small multiset and take items out: wide node
static void wide() { sequences<UTraits<8>>(2, pick(11, 13)); }
MC_SCENARIOS = {
    {"sequences-string", seqString, mc::LEAKS, "all insert/remove sequences, 3 keys, nodes of 4, keys are views into items"},
    {"sequences-int", seqInt, mc::LEAKS, "all insert/remove sequences, 3 keys, nodes of 4"},
    {"prefilled-string", preString, mc::LEAKS, "after N patterned inserts (1-3 levels), all short sequences"},
    {"prefilled-int", preInt, mc::LEAKS, "after N patterned inserts (1-3 levels), all short sequences"},
    {"drain", drain, mc::LEAKS, "fill in 4 orders, empty in 5 orders, every size"},
    {"wide", wide, mc::LEAKS | mc::THOROUGH, "nodes of 8"},
    MC_END,
};
