// sort, find, rfind, filter, map, sum on every short array
#include "common.h"
#include <ply-runtime/container/Array.h>
#include <ply-runtime/algorithm/Sort.h>
#include <ply-runtime/algorithm/Find.h>
#include <ply-runtime/algorithm/Filter.h>
#include <ply-runtime/algorithm/Map.h>
#include <ply-runtime/algorithm/Sum.h>
#include <ply-runtime/algorithm/Range.h>

static std::vector<int> anyArray(int maxLen, int k) {
    int n = choose(maxLen + 1);
    std::vector<int> v(n);
    for (int i = 0; i < n; i++) v[i] = choose(k);
    return v;
}
static void logv(const std::vector<int>& v) {
    if (!mc::verbose()) return;
    std::string s;
    for (int x : v) s += std::to_string(x) + " ";
    mc::logf("input: %s", s.c_str());
}
static void checkSorted(std::vector<int> in, bool desc) {
    // exact-size copy so that ASan sees overruns
    Array<int> a;
    for (int x : in) a.append(x);
    a.truncate();
    if (desc) sort(a, [](int x, int y) { return x > y; }); else sort(a);
    std::sort(in.begin(), in.end());
    if (desc) std::reverse(in.begin(), in.end());
    MC_CHECK(a.numItems() == in.size(), "size changed");
    for (size_t i = 0; i < in.size(); i++) MC_CHECK(a[i] == in[i], "after sort, item %zu is %d, expected %d", i, a[i], in[i]);
}
static void sortSmall() {
    auto v = anyArray(pick(7, 8), pick(4, 5));
    logv(v);
    mc::step();
    if (v.size() > 1) mc::nontrivial();
    checkSorted(v, false);
    checkSorted(v, true);
    mc::state(mc::hashBytes(v.data(), v.size() * 4));
}
static void sortPerms() { // every permutation of n distinct items
    int n = pick(8, 9);
    std::vector<int> v, pool;
    for (int i = 0; i < n; i++) pool.push_back(i);
    while (!pool.empty()) { int c = choose(pool.size()); v.push_back(pool[c]); pool.erase(pool.begin() + c); }
    logv(v);
    mc::step();
    mc::nontrivial();
    checkSorted(v, false);
    checkSorted(v, true);
    mc::state(mc::hashBytes(v.data(), v.size() * 4));
}
static void sortLong() { // structured long inputs
    int n = choose(pick(70, 300));
    int shape = choose(9), at = choose(5);
    std::vector<int> v(n);
    for (int i = 0; i < n; i++) {
        switch (shape) {
            case 0: v[i] = i; break;
            case 1: v[i] = n - i; break;
            case 2: v[i] = 7; break;
            case 3: v[i] = i % 2; break;
            case 4: v[i] = i < n / 2 ? i : n - i; break;
            case 5: v[i] = (i * 37) % 101; break;
            case 6: v[i] = i < n / 2 ? n - i : i; break;
            case 7: v[i] = (i * i) % 17; break;
            default: v[i] = i ^ 5; break;
        }
    }
    if (n) v[at * (n - 1) / 4] = shape == 2 ? 3 : 1000; // one out of place
    logv(v);
    mc::step();
    mc::nontrivial();
    checkSorted(v, false);
    checkSorted(v, true);
}
static void sortOwning() {
    long live0 = Tracked::live();
    {
        auto v = anyArray(pick(6, 7), 4);
        logv(v);
        Array<Tracked> a;
        for (int x : v) a.append(x);
        a.truncate();
        sort(a, [](const Tracked& x, const Tracked& y) { return x.value() < y.value(); });
        mc::step();
        std::sort(v.begin(), v.end());
        for (size_t i = 0; i < v.size(); i++) MC_CHECK(a[i].value() == v[i], "item %zu is %d, expected %d", i, a[i].value(), v[i]);
        if (v.size() > 1) mc::nontrivial();
    }
    MC_CHECK(Tracked::live() == live0, "%ld objects not destroyed", Tracked::live() - live0);
}
static void search() {
    auto v = anyArray(pick(6, 7), 3);
    int key = choose(4);
    logv(v);
    mc::step();
    Array<int> a;
    for (int x : v) a.append(x);
    a.truncate();
    s32 f = -1, r = -1;
    for (int i = 0; i < (int) v.size(); i++) if (v[i] == key) { if (f < 0) f = i; r = i; }
    if (f >= 0) mc::nontrivial();
    MC_CHECK(find(a, key) == f, "find(%d) = %d, expected %d", key, find(a, key), f);
    MC_CHECK(rfind(a, key) == r, "rfind(%d) = %d, expected %d", key, rfind(a, key), r);
    MC_CHECK(find(a, [&](int x) { return x == key; }) == f, "find by predicate");
    MC_CHECK(rfind(a, [&](int x) { return x == key; }) == r, "rfind by predicate");
    MC_CHECK(find(a.view(), key) == f, "find in view");
    Array<int> b = a;
    filter(b, [&](int x) { return x != key; });
    std::vector<int> w;
    for (int x : v) if (x != key) w.push_back(x);
    MC_CHECK(b.numItems() == w.size(), "filter kept %u items, expected %zu", b.numItems(), w.size());
    std::vector<int> kept; // the order is not part of the contract
    for (int x : b) kept.push_back(x);
    std::sort(kept.begin(), kept.end()); std::sort(w.begin(), w.end());
    MC_CHECK(kept == w, "filter kept other items");
    long long tot = 0;
    for (int x : v) tot += x;
    MC_CHECK((long long) sum(a) == tot, "sum");
    auto m = map(a, [](int x) { return x * 10 + 1; });
    MC_CHECK(m.numItems() == v.size(), "map size");
    for (size_t i = 0; i < v.size(); i++) MC_CHECK(m[i] == v[i] * 10 + 1, "map item %zu", i);
    u32 k = 0, from = choose(3);
    for (u32 i : range(v.size())) { MC_CHECK(i == k, "range yields %u, expected %u", i, k); k++; }
    MC_CHECK(k == v.size(), "range stops at %u", k);
    if (from <= v.size()) { k = from; for (u32 i : range(from, v.size())) { MC_CHECK(i == k, "range(a,b)"); k++; } MC_CHECK(k == std::max<size_t>(from, v.size()), "range(a,b) stops at %u", k); }
    mc::state(mc::mix(mc::hashBytes(v.data(), v.size() * 4), key));
}
MC_SCENARIOS = {
    {"sort-small", sortSmall, mc::LEAKS, "every array over a small alphabet up to a length"},
    {"sort-permutations", sortPerms, mc::LEAKS, "every permutation"},
    {"sort-long", sortLong, mc::LEAKS, "structured arrays of every length"},
    {"sort-owning", sortOwning, mc::LEAKS, "elements that own heap blocks"},
    {"search", search, mc::LEAKS, "find/rfind/filter/map/sum/range"},
    MC_END,
};
