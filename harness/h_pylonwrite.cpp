// Every small document, written and read back.
#include "pylontest.h"
using mc::pick;
static void check(const Doc& d) {
    MC_LOG("document %s", d.show().c_str());
    Owned<pylon::Node> n = toNode(d);
    std::string text = str(pylon::toString(n).view()), again = str(pylon::toString(n).view());
    MC_CHECK(text == again, "writing twice gives %s and %s", esc(text).c_str(), esc(again).c_str());
    HeapBytes hb{text};
    pylon::Parser parser; std::string errors;
    parser.setErrorCallback([&](const pylon::ParseError& e) { MemOutStream m; parser.dumpError(e, m); errors += str(m.moveToString().view()); });
    auto r = parser.parse(hb.view());
    mc::step(); mc::state(hstr(text));
    MC_CHECK(errors.empty() && !parser.anyError(), "what was written, %s, is refused: %s", esc(text).c_str(), esc(errors).c_str());
    MC_CHECK(r.root && r.root->isValid(), "what was written, %s, gives no document", esc(text).c_str());
    Doc back = fromNode(r.root);
    MC_CHECK(back.same(d, false), "%s, written as %s, came back as %s", d.show().c_str(), esc(text).c_str(), back.show().c_str());
    std::string rewritten = str(pylon::toString(r.root).view());
    MC_CHECK(rewritten == text, "written again: %s, first %s", esc(rewritten).c_str(), esc(text).c_str());
}
static Doc text(const std::string& s) { Doc d; d.text = s; return d; }
static Doc inContext(int c, const std::string& s) {
    Doc d;
    if (c == 0) return text(s);
    if (c == 1) { d.kind = 1; d.items = {{"", text("a")}, {"", text(s)}, {"", text("b")}}; return d; }
    d.kind = 2;
    if (c == 2) d.items = {{"k", text(s)}, {"m", text("n")}};
    else d.items = {{s, text("v")}, {s + "2", text("w")}};
    return d;
}
static void bytes() {
    int c = choose(4), a = choose(256);
    mc::nontrivial();
    for (int b = -1; b < 256; b++) { std::string s(1, (char) a); if (b >= 0) s += (char) b; mc::casef("text %s", esc(s).c_str()); check(inContext(c, s)); }
}
static void texts() {
    static const std::string alphabet[] = {"a", " ", "\"", "'", "\\", "\n", "\r", "\t", "x", "0", "F", ":", ",", "}", "]", std::string("\0", 1), "\x01", "\x7F", "\xC3\xA9", "\xE2\x82\xAC", "\x80", "\xFF"};
    int c = choose(4), n = choose(pick(3, 4) + 1);
    std::string s; for (int i = 0; i < n; i++) s += alphabet[choose(22)];
    if (n > 1) mc::nontrivial();
    check(inContext(c, s));
}
static Doc chooseDoc(int& budget, int depth) {
    static const std::string values[] = {"", "v", "\"\n"}; static const std::string keys[] = {"", "k", "k\\", "[", "l", "m"};
    budget--;
    int kind = depth > 0 ? choose(3) : 0;
    Doc d; d.kind = kind;
    if (kind == 0) { d.text = values[choose(3)]; return d; }
    int used = 0;
    while (budget > 0 && choose(2)) {
        std::string k;
        if (kind == 2) { int i = used + choose(3); if (i > 5) break; k = keys[i]; used = i + 1; }
        d.items.push_back({k, chooseDoc(budget, depth - 1)});
    }
    return d;
}
static void trees() {
    int budget = pick(5, 6);
    Doc d = chooseDoc(budget, 3);
    mc::nontrivial();
    check(d);
}
static void deep() {
    int n = choose(7), kind = choose(3);
    static const int depths[] = {1, 10, 50, 100, 200, 300, 400};
    Doc d = text("leaf");
    for (int i = 0; i < depths[n]; i++) { Doc o; o.kind = kind == 2 ? 1 + i % 2 : kind + 1; o.items.push_back({o.kind == 2 ? "k" : "", d}); d = o; }
    check(d);
}
static void wide() {
    int kind = 1 + choose(2), n = choose(40) * (choose(2) ? 25 : 1);
    Doc d; d.kind = kind;
    for (int i = 0; i < n; i++) d.items.push_back({kind == 2 ? "key" + std::to_string((i * 37) % 1009) + "." + std::to_string(i) : "", text(std::to_string(i))});
    check(d);
}
static void lengths() {
    static const int big[] = {100, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 32768, 65535, 65536, 70000};
    int c = choose(4), k = choose(80 + 14), unit = choose(3), len = k < 80 ? k : big[k - 80];
    std::string s; for (int i = 0; i < len; i++) s += unit == 0 ? std::string(1, (char) ('a' + i % 26)) : unit == 1 ? (i % 7 ? "y" : "\n") : "\xE2\x82\xAC";
    mc::nontrivial(); mc::casef("%d characters", len);
    Doc d = inContext(c, s);
    Owned<pylon::Node> n = toNode(d);
    String text = pylon::toString(n);
    pylon::Parser p; auto r = p.parse(text);
    mc::step(); mc::state(k * 12 + c * 3 + unit);
    MC_CHECK(r.root && r.root->isValid(), "what was written is refused");
    MC_CHECK(fromNode(r.root).same(d, false), "a text or name of %d characters came back different", len);
}
MC_SCENARIOS = {
    {"bytes", bytes, mc::LEAKS, "every text of one or two bytes, alone, in an array, as a value and as a name"},
    {"texts", texts, mc::LEAKS, "every short text over special characters"},
    {"lengths", lengths, mc::LEAKS, "texts and names of many lengths"},
    {"trees", trees, mc::LEAKS, "every small tree of objects and arrays"},
    {"deep", deep, mc::LEAKS, "deeply nested documents"},
    {"wide", wide, mc::LEAKS, "objects and arrays of up to 975 items"},
    MC_END};
