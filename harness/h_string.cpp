// StringView/String/HybridString operations on every short pair of strings
#include "common.h"
#include <ply-runtime/container/Array.h>
#include <ply-runtime/string/String.h>
#include <ply-runtime/string/TextEncoding.h>

static const char ALPHA[] = {0, ' ', 'a', 'Z', (char) 0x80, (char) 0xff};
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static std::vector<std::string> allStrings(int k, int maxLen) {
    std::vector<std::string> v{""};
    for (size_t b = 0, n = 0; n < (size_t) maxLen; n++) {
        size_t e = v.size();
        for (; b < e; b++) for (int c = 0; c < k; c++) v.push_back(v[b] + ALPHA[c]);
    }
    return v;
}
static std::string chooseString(int k, int maxLen) {
    int n = choose(maxLen + 1);
    std::string s;
    for (int i = 0; i < n; i++) s += ALPHA[choose(k)];
    return s;
}
static bool upper(char c) { return c >= 'A' && c <= 'Z'; }
static char flip(char c) { return c ^ 1; }
static std::string low(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static std::string up(std::string s) { for (char& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static int cmp(const std::string& a, const std::string& b) {
    for (size_t i = 0; i < a.size() && i < b.size(); i++) if (a[i] != b[i]) return (uint8_t) a[i] < (uint8_t) b[i] ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size();
}
static void pairs() {
    static std::vector<std::string> all = allStrings(6, pick(3, 4));
    std::string sa = chooseString(6, pick(3, 4));
    MC_LOG("a = \"%s\"", esc(sa).c_str());
    HeapBytes ha{sa};
    StringView a = ha.view();
    String oa{a};
    HybridString ya{a};
    for (const std::string& sb : all) {
        HeapBytes hb{sb};
        StringView b = hb.view();
        mc::step();
#define T(cond, what) MC_CHECK(cond, "%s is wrong for a = \"%s\", b = \"%s\"", what, esc(sa).c_str(), esc(sb).c_str())
        int c = cmp(sa, sb);
        T(sgn(compare(a, b)) == c, "compare");
        T((a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a <= b) == (c <= 0) && (a > b) == (c > 0) && (a >= b) == (c >= 0), "a comparison operator");
        T((oa == b) == (c == 0) && (ya == b) == (c == 0) && (oa < b) == (c < 0), "a comparison with an owning string");
        T(str(a + b) == sa + sb, "concatenation");
        T(str(oa + b) == sa + sb && str(ya + b) == sa + sb, "concatenation");
        T(a.startsWith(b) == (sa.compare(0, sb.size(), sb) == 0 && sb.size() <= sa.size()), "startsWith");
        T(a.endsWith(b) == (sb.size() <= sa.size() && sa.substr(sa.size() - sb.size()) == sb), "endsWith");
        T(oa.startsWith(b) == a.startsWith(b) && ya.endsWith(b) == a.endsWith(b), "owning startsWith/endsWith");
        { String t{a}; t += b; T(str(t) == sa + sb, "+="); T(str(oa) == sa, "the original after copying and +="); }
        { String t; t = a; t = b; T(str(t) == sb, "assignment"); }
        T(str(b.join({a, b, a})) == sa + sb + sb + sb + sa, "join");
        T(str(a.join({})) == "" && str(a.join({b})) == sb, "join of zero or one");
        if (c) mc::nontrivial();
    }
#undef T
    mc::state(hstr(sa));
}
static void single() {
    std::string s = chooseString(6, pick(5, 6));
    MC_LOG("s = \"%s\"", esc(s).c_str());
    HeapBytes h{s};
    StringView v = h.view();
    String o{v};
    HybridString y{v};
    u32 n = s.size();
    mc::step();
    if (n) mc::nontrivial();
    mc::state(hstr(s));
#define T(cond, what) MC_CHECK(cond, "%s is wrong for \"%s\"", what, esc(s).c_str())
    for (u32 i = 0; i <= n; i++) {
        T(str(v.subStr(i)) == s.substr(i) && str(o.subStr(i)) == s.substr(i) && str(y.subStr(i)) == s.substr(i), "subStr(start)");
        T(str(v.left(i)) == s.substr(0, i) && str(o.left(i)) == s.substr(0, i) && str(y.left(i)) == s.substr(0, i), "left");
        T(str(v.right(i)) == s.substr(n - i) && str(o.right(i)) == s.substr(n - i) && str(y.right(i)) == s.substr(n - i), "right");
        T(str(v.shortenedBy(i)) == s.substr(0, n - i) && str(o.shortenedBy(i)) == s.substr(0, n - i), "shortenedBy");
        for (u32 k = 0; i + k <= n; k++) T(str(v.subStr(i, k)) == s.substr(i, k) && str(o.subStr(i, k)) == s.substr(i, k), "subStr(start, count)");
        { StringView t = v; t.offsetHead(i); T(str(t) == s.substr(i), "offsetHead"); StringView u = v; u.offsetBack(-(s32) i); T(str(u) == s.substr(0, n - i), "offsetBack"); }
        T(v.contains(v.bytes + i), "contains");
    }
    for (u32 i = 0; i < n; i++) T(v[i] == s[i] && o[i] == s[i] && v.back(-1 - (s32) i) == s[n - 1 - i] && o.back(-1 - (s32) i) == s[n - 1 - i], "indexing");
    for (int c = 0; c < 6; c++) {
        char k = ALPHA[c];
        for (u32 i = 0; i <= n; i++) {
            size_t f = s.find(k, i);
            T(v.findByte(k, i) == (f == std::string::npos ? -1 : (s32) f) && o.findByte(k, i) == v.findByte(k, i), "findByte");
            T(v.findByte([k](char x) { return x == k; }, i) == v.findByte(k, i), "findByte by function");
            if (i < n) {
                size_t r = s.rfind(k, i);
                T(v.rfindByte(k, i) == (r == std::string::npos ? -1 : (s32) r), "rfindByte(startPos)");
                T(o.rfindByte(k, i) == v.rfindByte(k, i) && v.rfindByte([k](char x) { return x == k; }, i) == v.rfindByte(k, i), "rfindByte by function");
            }
        }
        size_t r = s.rfind(k);
        T(v.rfindByte(k) == (r == std::string::npos ? -1 : (s32) r) && o.rfindByte(k) == v.rfindByte(k) && y.rfindByte(k) == v.rfindByte(k), "rfindByte");
        // splitByte: the maximal runs without the separator
        std::vector<std::string> want;
        std::string cur;
        for (char x : s + k) if (x == k) { if (!cur.empty()) want.push_back(cur); cur.clear(); } else cur += x;
        Array<StringView> got = v.splitByte(k);
        T(got.numItems() == want.size(), "the number of components of splitByte");
        for (u32 i = 0; i < got.numItems(); i++) { T(str(got[i]) == want[i], "splitByte"); T(v.contains(got[i].bytes) && v.contains(got[i].end()), "splitByte leaves the string"); }
        T(o.splitByte(k).numItems() == want.size(), "String::splitByte");
    }
    auto tr = [&](bool (*m)(char), bool l, bool r) { size_t b = 0, e = s.size(); while (l && b < e && m(s[b])) b++; while (r && b < e && m(s[e - 1])) e--; return s.substr(b, e - b); };
    T(str(v.trim()) == tr(isWhite, true, true) && str(v.ltrim()) == tr(isWhite, true, false) && str(v.rtrim()) == tr(isWhite, false, true), "trim");
    T(str(o.trim()) == str(v.trim()) && str(y.ltrim()) == str(v.ltrim()) && str(o.rtrim()) == str(v.rtrim()), "owning trim");
    T(str(v.trim(upper)) == tr(upper, true, true) && str(v.ltrim(upper)) == tr(upper, true, false) && str(v.rtrim(upper)) == tr(upper, false, true) && str(v.trim(upper, false, false)) == s, "trim by function");
    T(str(v.upperAsc()) == up(s) && str(v.lowerAsc()) == low(s) && str(o.upperAsc()) == up(s) && str(y.lowerAsc()) == low(s), "case change");
    { std::string r{s.rbegin(), s.rend()}; T(str(v.reversedBytes()) == r && str(o.reversedBytes()) == r, "reversedBytes"); }
    { std::string r = s; for (char& c : r) c ^= 1; T(str(v.filterBytes(flip)) == r && str(o.filterBytes(flip)) == r, "filterBytes"); }
    for (u32 k = 0; k < 4; k++) { std::string r; for (u32 i = 0; i < k; i++) r += s; T(str(v * k) == r && str(o * k) == r && str(y * k) == r, "repetition"); }
    bool nt = n && s[n - 1] == 0;
    T(v.includesNullTerminator() == nt && o.includesNullTerminator() == nt, "includesNullTerminator");
    { HybridString w = v.withNullTerminator(); T(str(w) == (nt ? s : s + std::string(1, 0)), "withNullTerminator"); T(w.isOwner == !nt, "withNullTerminator ownership"); }
    T(str(v.withoutNullTerminator()) == (nt ? s.substr(0, n - 1) : s), "withoutNullTerminator");
    T((bool) v == (n > 0) && v.isEmpty() == (n == 0) && (bool) o == (n > 0) && y.isEmpty() == (n == 0), "isEmpty");
    { String c{o}; if (n) c[0] = 'q'; T(str(o) == s, "a string after its copy was changed"); }
    T(str(o) == s && str(y) == s && memcmp(h.p, s.data(), n) == 0, "the operand after all operations");
}
static void reversal() { // reversal of UTF-8 text by character
    static const char* chars[] = {"a", "\x7f", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf"};
    int n = choose(pick(6, 7));
    std::string s, want;
    for (int i = 0; i < n; i++) { const char* c = chars[choose(8)]; s += c; want = c + want; }
    HeapBytes h{s};
    MC_LOG("\"%s\"", esc(s).c_str());
    mc::step();
    if (n > 1) mc::nontrivial();
    MC_CHECK(str(h.view().reversedUTF8()) == want, "reversedUTF8 gives \"%s\"", esc(str(h.view().reversedUTF8())).c_str());
    MC_CHECK(str(String{h.view()}.reversedUTF8()) == want, "String::reversedUTF8");
    mc::state(hstr(s));
}
static void reversalBad() { // any bytes: same multiset of bytes, no access outside
    static const unsigned char b[] = {0, 'a', 0x80, 0xbf, 0xc2, 0xe1, 0xf1, 0xff};
    int n = choose(pick(6, 7));
    std::string s;
    for (int i = 0; i < n; i++) s += (char) b[choose(8)];
    HeapBytes h{s};
    mc::step();
    std::string r = str(h.view().reversedUTF8());
    std::string x = s, y = r;
    std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    MC_CHECK(x == y, "reversedUTF8 of \"%s\" loses bytes: \"%s\"", esc(s).c_str(), esc(r).c_str());
    if (n > 1) mc::nontrivial();
}
MC_SCENARIOS = {
    {"pairs", pairs, mc::LEAKS, "binary operations on every pair of strings"},
    {"single", single, mc::LEAKS, "unary operations at every position of every string"},
    {"reverse", reversal, mc::LEAKS, "character-wise reversal of valid UTF-8"},
    {"reverse-malformed", reversalBad, mc::LEAKS, "character-wise reversal of arbitrary bytes"},
    MC_END,
};
