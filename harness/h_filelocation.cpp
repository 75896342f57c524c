// Line and column of every offset of every text built around the 256-byte intervals of the table.
#include "common.h"
#include <ply-runtime/io/text/FileLocationMap.h>
using mc::pick;
struct Loc { unsigned line, intoLine, col, intoCol; };
// Counted one byte at a time from the start
static std::vector<Loc> count(const std::vector<std::string>& units) {
    std::vector<Loc> v; Loc l{1, 0, 1, 0};
    for (auto& u : units) {
        for (unsigned i = 0; i < u.size(); i++) v.push_back({l.line, l.intoLine + i, l.col, i});
        l.intoLine += (unsigned) u.size();
        if (u == "\n") { l.line++; l.col = 1; l.intoLine = 0; }
        else if (u == "\t") { do l.col++; while (l.col % 4 != 1); }
        else if (u != "\r") l.col++;
    }
    v.push_back(l);
    return v;
}
static void check(const std::vector<std::string>& units, unsigned near = 0) {
    std::string text; for (auto& u : units) text += u;
    HeapBytes hb{text};
    std::vector<Loc> want = count(units);
    FileLocationMap map = FileLocationMap::fromView(hb.view());
    for (unsigned o = 0; o <= text.size(); o++) {
        if (near && !(o + 8 >= near && o <= near + 24) && (o + 3) % 256 > 6 && o != text.size()) continue; // all that lies around the text and the intervals
        FileLocation f = map.getFileLocation(o);
        mc::step();
        const Loc& w = want[o];
        MC_CHECK(f.lineNumber == w.line && f.columnNumber == w.col && f.numBytesIntoLine == w.intoLine && f.numBytesIntoColumn == w.intoCol,
            "offset %u of %zu: line %u column %u, %u bytes into the line, %u into the column; counted %u, %u, %u, %u", o, text.size(), f.lineNumber, (unsigned) f.columnNumber, f.numBytesIntoLine, (unsigned) f.numBytesIntoColumn, w.line, w.col, w.intoLine, w.intoCol);
        if (o % 32 == 0 || o == text.size()) {
            std::string s = str(map.formatFileLocation(o).view());
            MC_CHECK(s == "(" + std::to_string(w.line) + ", " + std::to_string(w.col) + ")", "offset %u is printed as %s", o, s.c_str());
        }
    }
    mc::state(hstr(text));
}
static const char* alphabet[] = {"a", "\n", "\t", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\r", "\xFF"};
static void shorts() {
    int n = choose(pick(6, 7));
    std::vector<std::string> u;
    for (int i = 0; i < n; i++) u.push_back(alphabet[choose(8)]);
    std::string t; for (auto& x : u) t += x;
    MC_LOG("text %s", esc(t).c_str());
    if (n > 1) mc::nontrivial();
    check(u);
}
static void intervals() {
    static const char* fill[] = {"x", "\xC3\xA9", "\xF0\x9F\x98\x80", "\n", "\t"};
    int f = choose(5), at = choose(3), back = choose(9), n = choose(pick(3, 4) + 1), after = choose(3);
    std::vector<std::string> u;
    int size = 256 * (at + 1) - back, have = 0;
    while (have + (int) strlen(fill[f]) <= size) { u.push_back(fill[f]); have += (int) strlen(fill[f]); }
    while (have < size) { u.push_back("x"); have++; }
    std::string mid;
    for (int i = 0; i < n; i++) { u.push_back(alphabet[choose(8)]); mid += u.back(); have += (int) u.back().size(); }
    if (after) while (have < (after == 1 ? 256 * (at + 2) : 256 * (at + 2) + 3)) { u.push_back("y"); have++; }
    MC_LOG("%d bytes of %s, then %s, %d bytes in all", size, esc(fill[f]).c_str(), esc(mid).c_str(), have);
    mc::nontrivial();
    check(u, size);
}
MC_SCENARIOS = {
    {"shorts", shorts, 0, "every short text"},
    {"intervals", intervals, 0, "every short text at every place around the table's intervals"},
    MC_END};
