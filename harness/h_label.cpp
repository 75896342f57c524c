// LabelMap against std::map, with table growth and name lengths around the encoding's boundaries
#include "common.h"
#include <ply-runtime/string/Label.h>

static void verify(const LabelMap& lm, std::map<std::string, u32>& m) {
    std::set<u32> ids;
    for (auto& kv : m) {
        MC_CHECK(kv.second != 0, "a label equals the empty label");
        MC_CHECK(ids.insert(kv.second).second, "two strings share label %u", kv.second);
        MC_CHECK(str(lm.view(Label{kv.second})) == kv.first, "label %u's text is not the string it was made from", kv.second);
        HeapBytes h{kv.first};
        Label f = lm.find(h.view());
        MC_CHECK(f.idx == kv.second && f.isValid(), "find gives label %u, expected %u", f.idx, kv.second);
    }
}
static void history() {
    static const std::string names[] = {"", "a", "b", "ab", "ba", std::string("a\0", 2), std::string("\0", 1), std::string(127, 'x'), std::string(128, 'x'), std::string(300, 'y')};
    LabelMap lm;
    std::map<std::string, u32> m;
    int D = pick(4, 5);
    for (int d = 0; d < D; d++) {
        int k = choose(10), op = choose(2);
        mc::step();
        HeapBytes h{names[k]};
        if (op == 0) {
            MC_LOG("insertOrFind(name %d)", k);
            Label l = lm.insertOrFind(h.view());
            auto r = m.emplace(names[k], l.idx);
            MC_CHECK(l.idx == r.first->second, "the label of name %d changed from %u to %u", k, r.first->second, l.idx);
        } else {
            MC_LOG("find(name %d)", k);
            Label l = lm.find(h.view());
            MC_CHECK(l.isValid() == (m.count(names[k]) != 0), "find(name %d) is %svalid", k, l.isValid() ? "" : "in");
        }
        verify(lm, m);
        MC_CHECK(lm.view(Label{}).isEmpty() && !Label{}.isValid(), "the empty label");
        if (m.size() > 1) mc::nontrivial();
        uint64_t hs = 1;
        for (auto& kv : m) hs = mc::mix(hs, hstr(kv.first));
        mc::state(hs);
    }
}
static void growth() { // many labels: every string over two letters (or every length), in several orders
    int shape = choose(4), order = choose(3);
    int N = 1 + choose(pick(12, 40)) * (shape == 3 ? 1 : 97);
    std::vector<std::string> names;
    for (int i = 0; i < N; i++) {
        std::string s;
        if (shape == 0) for (int b = i + 2; b > 1; b >>= 1) s += "ab"[b & 1];
        else if (shape == 1) s = std::to_string(i);
        else if (shape == 2) s = std::string(i, 'q');
        else s = std::string(16370 + i, 'w');
        names.push_back(s);
    }
    if (order == 1) std::reverse(names.begin(), names.end());
    if (order == 2) for (size_t i = 0; i + 1 < names.size(); i += 2) std::swap(names[i], names[(i * 7) % names.size()]);
    LabelMap lm;
    std::map<std::string, u32> m;
    for (auto& s : names) { HeapBytes h{s}; MC_CHECK(!lm.find(h.view()).isValid(), "a string is found before it is inserted"); m[s] = lm.insertOrFind(h.view()).idx; mc::step(); }
    for (auto& s : names) { HeapBytes h{s}; MC_CHECK(lm.insertOrFind(h.view()).idx == m[s], "inserting again gives another label"); }
    verify(lm, m);
    mc::nontrivial();
    mc::state(mc::mix(shape * 4 + order, N));
}
MC_SCENARIOS = {
    {"history", history, mc::LEAKS, "all sequences of insertions and lookups over ten names"},
    {"growth", growth, mc::LEAKS, "thousands of labels, name lengths around 0, 127 and 16383"},
    MC_END,
};
