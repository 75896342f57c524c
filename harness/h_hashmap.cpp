// HashMap against std::map, over every sequence of operations in the given bounds.
#include "common.h"
#include <ply-runtime/container/HashMap.h>
#include <ply-runtime/container/Array.h>

static u32 (*g_hash)(u32);
static u32 hIdent(u32 k) { return k; }
static u32 hConst(u32) { return 5; }
static u32 hMod3(u32 k) { return k % 3; }
static u32 hHigh(u32 k) { return k * 0x10000000u; }     // all in cell 0, different hashes
static u32 hWrap(u32 k) { return 0xfffffffeu + k; }      // around the end of the 32-bit range
static u32 hStride4(u32 k) { return k * 4; }
static u32 hReal(u32 k) { return Hasher::hash(k); }

struct Item {
    u32 key;
    Tracked val;
};
struct Traits {
    using Key = u32;
    using Item = ::Item;
    static void construct(Item* item, const Key& key) { new (item) Item{key, Tracked{(int) key * 7}}; }
    static u32 hash(const Key& k) { return g_hash(k); }
    static bool match(const Item& item, const Key& k) { return item.key == k; }
};
using Map = HashMap<Traits>;

static uint64_t mapHash(const std::map<u32, int>& m) {
    uint64_t h = 1;
    for (auto& p : m) h = mc::mix(mc::mix(h, p.first), p.second);
    return h;
}
static void verify(Map& map, const std::map<u32, int>& model, const std::vector<u32>& universe) {
    MC_CHECK(map.numItems() == model.size(), "numItems() is %u, expected %zu", map.numItems(), model.size());
    MC_CHECK(map.isEmpty() == model.empty(), "isEmpty() is wrong");
    for (u32 k : universe) {
        auto it = model.find(k);
        auto c = map.find(k);
        MC_CHECK(c.wasFound() == (it != model.end()), "key %u: found=%d, expected %d", k, (int) c.wasFound(), (int) (it != model.end()));
        if (it != model.end()) {
            MC_CHECK(c->key == k && c->val.value() == it->second, "key %u: item (%u,%d), expected value %d", k, c->key, c->val.value(), it->second);
            const Map& cm = map;
            auto cc = cm.find(k);
            MC_CHECK(cc.wasFound() && (*cc).val.value() == it->second, "const find of key %u", k);
        }
    }
}
// One operation chosen among insert/update, erase for K keys, plus clear-by-move and move
static void opsOn(Map& map, std::map<u32, int>& model, const std::vector<u32>& keys, const std::vector<u32>& universe, int depth, bool moves) {
    int K = keys.size();
    for (int d = 0; d < depth; d++) {
        int op = choose(2 * K + (moves ? 2 : 0));
        mc::step();
        if (op < K) {
            u32 k = keys[op];
            MC_LOG("insertOrFind(%u) then set value %d", k, d + 1000);
            auto c = map.insertOrFind(k);
            bool had = model.count(k);
            MC_CHECK(c.wasFound() == had, "insertOrFind(%u): wasFound=%d, expected %d", k, (int) c.wasFound(), (int) had);
            MC_CHECK(c->key == k && c->val.value() == (had ? model[k] : (int) k * 7), "insertOrFind(%u) returned item (%u,%d)", k, c->key, c->val.value());
            c->val = Tracked{d + 1000};
            model[k] = d + 1000;
            mc::nontrivial();
        } else if (op < 2 * K) {
            u32 k = keys[op - K];
            MC_LOG("find(%u) and erase", k);
            auto c = map.find(k);
            MC_CHECK(c.wasFound() == (bool) model.count(k), "find(%u): %d", k, (int) c.wasFound());
            if (c.wasFound()) { c.erase(); model.erase(k); MC_CHECK(!c.wasFound(), "cursor still found after erase"); }
        } else if (op == 2 * K) {
            MC_LOG("move to another map and back");
            Map other{std::move(map)};
            verify(other, model, universe);
            Map third;
            third.insertOrFind(77);
            third = std::move(other);
            verify(third, model, universe);
            map = std::move(third);
        } else {
            MC_LOG("replace by an empty map");
            map = Map{(u32) 4};
            model.clear();
        }
        verify(map, model, universe);
        mc::state(mapHash(model));
    }
}
static void finish(Map* map, const std::map<u32, int>& model, long live0) {
    MC_CHECK(Tracked::live() - live0 == (long) model.size(), "%ld live items, the map holds %zu", Tracked::live() - live0, model.size());
    delete map;
    MC_CHECK(Tracked::live() == live0, "%ld items not destroyed with the map", Tracked::live() - live0);
}
// every operation sequence on a few keys, for colliding and non-colliding hash functions
static void small() {
    static u32 (*hashes[])(u32) = {hIdent, hConst, hHigh, hWrap, hMod3, hStride4};
    g_hash = hashes[choose(6)];
    u32 init = choose(2) ? 8 : 4;
    std::vector<u32> keys = mc::tier() ? std::vector<u32>{0, 1, 2, 4, 8} : std::vector<u32>{0, 1, 4, 8};
    std::vector<u32> universe = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12};
    long live0 = Tracked::live();
    Map* map = new Map{init};
    std::map<u32, int> model;
    opsOn(*map, model, keys, universe, pick(5, 6), true);
    finish(map, model, live0);
}
// a table already holding N items (so that the next insertions migrate), then every sequence
static void prefilled() {
    static u32 (*hashes[])(u32) = {hIdent, hReal, hMod3, hWrap};
    g_hash = hashes[choose(4)];
    static const int Ns[] = {3, 4, 6, 7, 8, 12, 15, 16, 31, 32, 33};
    int N = Ns[choose(11)];
    long live0 = Tracked::live();
    Map* map = new Map{(u32) 4};
    std::map<u32, int> model;
    std::vector<u32> universe;
    for (int i = 0; i < N + 6; i++) universe.push_back(i);
    int pat = choose(3); // which of them are erased again first
    for (int i = 0; i < N; i++) { auto c = map->insertOrFind(i); model[i] = i * 7; }
    verify(*map, model, universe);
    if (pat) for (int i = 0; i < N; i++) if (i % (pat + 1) == 0) { map->find(i).erase(); model.erase(i); }
    verify(*map, model, universe);
    std::vector<u32> keys = {0, (u32) N / 2, (u32) N - 1, (u32) N, (u32) N + 1};
    opsOn(*map, model, keys, universe, pick(3, 4), false);
    finish(map, model, live0);
}
// long chains: links of nearly maximal length, in tables with long runs of used cells
static void longLinks() {
    g_hash = hIdent;
    u32 size = 512u << choose(2);
    static const u32 gaps[] = {1, 2, 100, 126, 127, 128};
    u32 g1 = gaps[choose(6)], g2 = gaps[choose(6)], g3 = gaps[choose(6)];
    int home = choose(3); // position of the bucket: start, and wrapping around the end
    u32 base = home == 0 ? 0 : home == 1 ? size - 200 : size - 3;
    long live0 = Tracked::live();
    Map* map = new Map{size};
    std::map<u32, int> model;
    std::vector<u32> universe;
    auto ins = [&](u32 k) {
        auto c = map->insertOrFind(k);
        MC_CHECK(!c.wasFound(), "fresh key %u found", k);
        model[k] = k * 7;
        universe.push_back(k);
    };
    // chain members of the bucket `base`, separated by runs of cells holding their own keys
    std::vector<u32> chain;
    u32 at = base, gap[4] = {g1, g2, g3, 0};
    u32 member = base;
    for (int i = 0; i < 4; i++) {
        ins(member);
        chain.push_back(member);
        for (u32 j = 1; j < gap[i]; j++) ins((at + j) % size);
        at += gap[i];
        member += size;
    }
    verify(*map, model, universe);
    int depth = pick(2, 3);
    for (int d = 0; d < depth; d++) {
        int op = choose(8);
        u32 k = chain[op & 3];
        mc::step();
        MC_LOG("%s %u (table of %u, gaps %u %u %u)", op < 4 ? "erase" : "insertOrFind", k, size, g1, g2, g3);
        if (op < 4) {
            auto c = map->find(k);
            MC_CHECK(c.wasFound() == (bool) model.count(k), "find(%u)", k);
            if (c.wasFound()) { c.erase(); model.erase(k); }
        } else {
            auto c = map->insertOrFind(k);
            MC_CHECK(c.wasFound() == (bool) model.count(k), "insertOrFind(%u)", k);
            if (!c.wasFound()) model[k] = k * 7;
        }
        mc::nontrivial();
        verify(*map, model, universe);
        mc::state(mapHash(model) + size);
    }
    finish(map, model, live0);
}
// growth: n insertions from every starting size, everything checked at each migration
static void growth() {
    static u32 (*hashes[])(u32) = {hIdent, hReal, hStride4, hWrap};
    int hi = choose(4);
    g_hash = hashes[hi];
    u32 init = 4u << choose(5);
    int N = pick(150, 600);
    if (hi == 2) N = 120;
    int erasePeriod = choose(4); // 0: never; p: after each insertion, every (p+1)-th time erase an older one
    long live0 = Tracked::live();
    Map* map = new Map{init};
    std::map<u32, int> model;
    std::vector<u32> universe;
    for (int i = 0; i < N; i++) {
        u32 k = i;
        auto c = map->insertOrFind(k);
        MC_CHECK(!c.wasFound(), "fresh key %u found", k);
        model[k] = k * 7;
        universe.push_back(k);
        mc::step();
        if (erasePeriod && i % (erasePeriod + 1) == 0) {
            u32 e = i / 2;
            auto c2 = map->find(e);
            MC_CHECK(c2.wasFound() == (bool) model.count(e), "find(%u)", e);
            if (c2.wasFound()) { c2.erase(); model.erase(e); }
            mc::step();
        }
        verify(*map, model, universe);
        mc::state(mc::mix(mapHash(model), init));
    }
    mc::nontrivial();
    finish(map, model, live0);
}
// a map that is an index into another container (lookup needs a context), String keys
struct CtxTraits {
    using Key = StringView;
    using Item = u32;
    using Context = Array<String>;
    static bool match(const Item& item, const Key& key, const Context& ctx) { return ctx[item] == key; }
};
static void context() {
    static const char* words[] = {"", "a", "b", "ab", "abc"};
    Array<String> ctx;
    HashMap<CtxTraits> map{4};
    std::map<std::string, u32> model;
    int depth = pick(4, 5);
    for (int d = 0; d < depth; d++) {
        int op = choose(10);
        StringView w = words[op % 5];
        mc::step();
        MC_LOG("%s \"%s\"", op < 5 ? "intern" : "erase", words[op % 5]);
        if (op < 5) {
            auto c = map.insertOrFind(w, &ctx);
            MC_CHECK(c.wasFound() == (bool) model.count(str(w)), "wasFound");
            if (!c.wasFound()) { *c = ctx.numItems(); model[str(w)] = ctx.numItems(); ctx.append(w); mc::nontrivial(); }
            else MC_CHECK(*c == model[str(w)], "wrong item");
        } else {
            auto c = map.find(w, &ctx);
            MC_CHECK(c.wasFound() == (bool) model.count(str(w)), "find");
            if (c.wasFound()) { c.erase(); model.erase(str(w)); }
        }
        uint64_t h = 3;
        for (auto& p : model) h = mc::mix(h, hstr(p.first) + p.second);
        mc::state(h);
        MC_CHECK(map.numItems() == model.size(), "numItems");
        for (const char* x : words) {
            auto c = map.find(StringView{x}, &ctx);
            MC_CHECK(c.wasFound() == (bool) model.count(x), "find(\"%s\")", x);
            if (c.wasFound()) MC_CHECK(*c == model[x], "item of \"%s\"", x);
        }
    }
}
MC_SCENARIOS = {
    {"small", small, mc::LEAKS, "all op sequences on 4-5 keys, 6 hash functions, table of 4 or 8"},
    {"prefilled", prefilled, mc::LEAKS, "all op sequences after N inserts and a pattern of erasures"},
    {"long-links", longLinks, mc::LEAKS, "bucket chains whose links are 1..128 cells, every erase/insert order"},
    {"growth", growth, mc::LEAKS, "N insertions (with erasures) from every starting size"},
    {"context", context, mc::LEAKS, "index maps with a lookup context"},
    MC_END,
};
