// Template tags: every text over the characters of the delimiters, against a search for "<%" and "%>".
#include "common.h"
#include <ply-runtime/io/text/LiquidTags.h>
using mc::pick;
static void tags() {
    static const char alphabet[] = {'<', '%', '>', 'a', '\n'};
    int letters = choose(2) ? 5 : 4, n = choose((letters == 5 ? pick(8, 9) : pick(10, 11)) + 1);
    std::string t;
    for (int i = 0; i < n; i++) t += alphabet[choose(letters)];
    MC_LOG("text %s", esc(t).c_str());
    // what a search finds: literal text, with each tag's body in brackets
    std::string want; std::vector<std::pair<std::string, std::string>> wantTags; std::vector<size_t> wantAt;
    bool open = false; size_t at = 0;
    for (;;) {
        size_t s = t.find("<%", at);
        if (s == t.npos) { want += t.substr(at); break; }
        want += t.substr(at, s - at);
        size_t e = t.find("%>", s + 2);
        if (e == t.npos) { open = true; break; } // a tag that never ends: an error, not specified further
        wantTags.push_back({t.substr(s, e + 2 - s), t.substr(s + 2, e - s - 2)}); wantAt.push_back(s);
        want += "[" + wantTags.back().second + "]";
        at = e + 2;
    }
    HeapBytes hb{t};
    StringView v = hb.view();
    MemOutStream mout; ViewInStream ins{v};
    std::vector<std::pair<std::string, std::string>> got; std::vector<size_t> gotAt;
    std::string atTag; // the output when each tag is found
    extractLiquidTags(&mout, &ins, [&](StringView tag, StringView body) {
        got.push_back({str(tag), str(body)}); gotAt.push_back(tag.bytes - v.bytes);
        if (got.size() <= wantTags.size()) { mout.writeByte('['); mout << body; mout.writeByte(']'); }
    });
    std::string out = str(mout.moveToString().view());
    mc::step(); mc::state(hstr(t));
    if (!wantTags.empty()) mc::nontrivial();
    MC_LOG("text out %s, %zu tags", esc(out).c_str(), got.size());
    for (size_t i = 0; i < wantTags.size(); i++) {
        MC_CHECK(i < got.size(), "tag %zu is lost", i);
        MC_CHECK(got[i].second == wantTags[i].second, "tag %zu's body is %s, written %s", i, esc(got[i].second).c_str(), esc(wantTags[i].second).c_str());
        MC_CHECK(got[i].first == wantTags[i].first && gotAt[i] == wantAt[i], "tag %zu is given as %s at %zu, written %s at %zu", i, esc(got[i].first).c_str(), gotAt[i], esc(wantTags[i].first).c_str(), wantAt[i]);
    }
    MC_CHECK(open || got.size() == wantTags.size(), "%zu tags found, %zu written", got.size(), wantTags.size());
    MC_CHECK(got.size() <= wantTags.size() + 1, "%zu tags found, %zu written", got.size(), wantTags.size());
    MC_CHECK(out == want, "the text is %s, written %s", esc(out).c_str(), esc(want).c_str());
    MC_CHECK(ins.atEOF(), "input is left over");
}
MC_SCENARIOS = {
    {"tags", tags, 0, "every short text over the characters of the delimiters"},
    MC_END};
