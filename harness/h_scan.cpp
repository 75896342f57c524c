// Text scanning: every short text over each format's special characters, every division, at the
// end of a block, against a direct reading of each format's description.
#include "iotest.h"
#include <functional>

struct Want { size_t used; bool error; bool checkUsed = true; std::string value; bool checkValue = false; };
struct Got { size_t used; bool error; std::string text, value; int firstError = 0; bool ret = true; bool hasRet = false; };

static void divideRun(const std::string& text, u32 mask, int prefix, const std::function<void(InStream&)>& fn) {
    std::string src = std::string(prefix, 'p') + text;
    CutSource* s = new CutSource{&src};
    for (size_t i = 1; i < text.size(); i++) if (mask >> (i - 1) & 1) s->cutAfter[prefix + i] = 1;
    InStream ins{OptionallyOwned<InPipe>{Owned<InPipe>{s}}, 7};
    for (int i = 0; i < prefix; i++) ins.readByte();
    fn(ins);
}
// Runs one parse on the text in memory and on every division of it
static void everyWay(const char* what, const std::string& text, const Want& w, const std::function<void(InStream&, Got&)>& parse, const std::function<String(InStream&)>& readString, const std::function<StringView(ViewInStream&)>& readView) {
    auto judge = [&](const Got& g, const char* how, u32 mask, int prefix) {
        mc::step();
        const char* t = esc(text).c_str();
        std::string te = esc(text); (void) t;
        MC_CHECK(g.error == w.error, "%s on \"%s\" (%s, division %u, offset %d) %s", what, te.c_str(), how, mask, prefix, g.error ? "fails" : "reports no error");
        if (w.checkUsed) MC_CHECK(g.used == w.used, "%s on \"%s\" (%s, division %u, offset %d) consumes %zu bytes instead of %zu", what, te.c_str(), how, mask, prefix, g.used, w.used);
        else MC_CHECK(g.used <= text.size(), "%s on \"%s\" consumes %zu bytes", what, te.c_str(), g.used);
        if (w.checkValue) MC_CHECK(g.value == w.value, "%s on \"%s\" (%s, division %u) returns \"%s\" instead of \"%s\"", what, te.c_str(), how, mask, esc(g.value).c_str(), esc(w.value).c_str());
        if (g.hasRet) MC_CHECK(g.ret == !w.error, "%s on \"%s\" returns %d", what, te.c_str(), g.ret);
    };
    {
        HeapBytes hb{text};
        ViewInStream ins{hb.view()};
        Got g; parse(ins, g); g.used = (size_t) ins.getSeekPos(); g.error = ins.anyParseError();
        judge(g, "in memory", 0, 0);
        if (readView) {
            ViewInStream again{hb.view()};
            StringView v = readView(again);
            MC_CHECK(v.bytes == hb.p && v.numBytes == again.getSeekPos() && (!w.checkUsed || v.numBytes == w.used), "readView<%s> of \"%s\" returns %u bytes", what, esc(text).c_str(), v.numBytes);
        }
    }
    static const int prefixes[] = {0, 127, 126};
    for (u32 mask = 0; mask < (text.size() < 2 ? 1u : 1u << (text.size() - 1)); mask++)
        for (int k = 0; k < pick(2, 3); k++) {
            int prefix = prefixes[k];
            divideRun(text, mask, prefix, [&](InStream& ins) {
                Got g; parse(ins, g); g.used = (size_t) ins.getSeekPos() - prefix; g.error = ins.anyParseError();
                judge(g, "divided", mask, prefix);
                std::string rest = str(ins.readRemainingContents());
                MC_CHECK(rest == text.substr(g.used), "after %s on \"%s\" the stream holds \"%s\"", what, esc(text).c_str(), esc(rest).c_str());
            });
            if (readString && w.checkUsed) divideRun(text, mask, prefix, [&](InStream& ins) {
                std::string s = str(readString(ins));
                mc::step();
                MC_CHECK(s == text.substr(0, w.used), "readString<%s> of \"%s\" (division %u, offset %d) returns \"%s\"", what, esc(text).c_str(), mask, prefix, esc(s).c_str());
            });
        }
    mc::state(hstr(text, hstr(what)));
}
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static void simple() {
    std::string text = chooseText({"a", "\n", "\r", " ", "\t", "\xa0", std::string(1, 0)}, pick(4, 5));
    mc::nontrivial();
    MC_LOG("\"%s\"", esc(text).c_str());
    size_t n = text.find('\n');
    everyWay("Line", text, {n == std::string::npos ? text.size() : n + 1, n == std::string::npos}, [](InStream& i, Got& g) { g.ret = i.parse<fmt::Line>(); g.hasRet = true; },
             [](InStream& i) { return i.readString<fmt::Line>(); }, [](ViewInStream& i) { return i.readView<fmt::Line>(); });
    n = 0; while (n < text.size() && ws(text[n])) n++;
    everyWay("Whitespace", text, {n, false}, [](InStream& i, Got&) { i.parse<fmt::Whitespace>(); }, [](InStream& i) { return i.readString<fmt::Whitespace>(); }, [](ViewInStream& i) { return i.readView<fmt::Whitespace>(); });
    n = 0; while (n < text.size() && !ws(text[n])) n++;
    everyWay("NonWhitespace", text, {n, false}, [](InStream& i, Got&) { i.parse<fmt::NonWhitespace>(); }, [](InStream& i) { return i.readString<fmt::NonWhitespace>(); }, [](ViewInStream& i) { return i.readView<fmt::NonWhitespace>(); });
    n = 0; while (n < text.size() && (text[n] == 'a' || text[n] == '\xa0')) n++;
    everyWay("Callback", text, {n, false}, [](InStream& i, Got&) { i.parse(fmt::Callback{[](char c) { return c == 'a' || c == '\xa0'; }}); }, nullptr, nullptr);
}
// every byte value alone, and after a letter
static void bytes() {
    int c = choose(256), lead = choose(3);
    std::string text = std::string(lead, lead == 2 ? ' ' : 'x') + (char) c + "x";
    mc::nontrivial();
    MC_LOG("byte %02x after %d", c, lead);
    size_t n = 0; while (n < text.size() && ws(text[n])) n++;
    everyWay("Whitespace", text, {n, false}, [](InStream& i, Got&) { i.parse<fmt::Whitespace>(); }, nullptr, nullptr);
    n = 0; while (n < text.size() && !ws(text[n])) n++;
    everyWay("NonWhitespace", text, {n, false}, [](InStream& i, Got&) { i.parse<fmt::NonWhitespace>(); }, nullptr, nullptr);
    for (u32 flags = 0; flags < 4; flags++) {
        n = 0;
        while (n < text.size()) {
            u8 b = (u8) text[n];
            bool ok = (b >= 'a' && b <= 'z') || (b >= 'A' && b <= 'Z') || b == '_' || b >= 128 || (n > 0 && b >= '0' && b <= '9') || ((flags & 1) && b == '$') || ((flags & 2) && b == '-');
            if (!ok) break;
            n++;
        }
        everyWay("Identifier", text, {n, n == 0}, [flags](InStream& i, Got& g) { g.ret = i.parse(fmt::Identifier{flags}); g.hasRet = true; }, [flags](InStream& i) { return i.readString(fmt::Identifier{flags}); }, [flags](ViewInStream& i) { return i.readView(fmt::Identifier{flags}); });
    }
}
static void identifiers() {
    u32 flags = choose(4);
    std::string text = chooseText({"a", "Z", "_", "7", "$", "-", "\x80", " "}, pick(3, 4));
    mc::nontrivial();
    MC_LOG("flags %u, \"%s\"", flags, esc(text).c_str());
    size_t n = 0;
    while (n < text.size()) {
        u8 b = (u8) text[n];
        bool ok = isalpha(b) || b == '_' || b >= 128 || (n > 0 && isdigit(b)) || ((flags & 1) && b == '$') || ((flags & 2) && b == '-');
        if (!ok) break;
        n++;
    }
    everyWay("Identifier", text, {n, n == 0}, [flags](InStream& i, Got& g) { g.ret = i.parse(fmt::Identifier{flags}); g.hasRet = true; }, [flags](InStream& i) { return i.readString(fmt::Identifier{flags}); }, [flags](ViewInStream& i) { return i.readView(fmt::Identifier{flags}); });
}
static void special() {
    static const char* const marks[] = {"*/", "-->", "x", "%}", "a b"};
    int k = choose(5);
    std::string mark = marks[k];
    std::vector<std::string> alphabet{"."};
    for (char c : mark) alphabet.push_back(std::string(1, c));
    std::sort(alphabet.begin(), alphabet.end()); alphabet.erase(std::unique(alphabet.begin(), alphabet.end()), alphabet.end());
    if (k == 1) mark = marks[1] + 1, alphabet = {".", "-", ">"}; // "->": the first letter must not occur again
    std::string text = chooseText(alphabet, pick(5, 6));
    mc::nontrivial();
    MC_LOG("\"%s\" in \"%s\"", mark.c_str(), text.c_str());
    size_t n = text.find(mark);
    everyWay(mark.c_str(), text, {n == std::string::npos ? text.size() : n + mark.size(), n == std::string::npos}, [&](InStream& i, Got& g) { g.ret = fmt::scanUpToAndIncludingSpecial(&i, view(mark)); g.hasRet = true; }, nullptr, nullptr);
}
// Quoted strings, read directly from their description
static void quoted() {
    u32 flags = choose(2) ? (u32) fmt::AllowSingleQuote : 0u;
    int kind = choose(3);
    std::string text;
    if (kind == 0) text = chooseText({"\"", "'", "a", "\\", "n", "\n", "\r"}, pick(4, 6));
    else if (kind == 1) text = "\"\"\"" + chooseText({"\"", "a", "\\", "\n", "\r", "'"}, pick(3, 5)) + (choose(2) ? "\"\"\"" : "") + (choose(2) ? "a" : "");
    else text = std::string("\"\\") + (char) choose(256) + "b\"c";
    mc::nontrivial();
    MC_LOG("flags %u, \"%s\"", flags, esc(text).c_str());
    Want w{0, false};
    w.checkValue = true;
    int want = 0; // first error
    std::string& out = w.value;
    size_t n = 0;
    auto at = [&](size_t i) { return i < text.size() ? (int) (u8) text[i] : -1; };
    char q = (char) at(0);
    if (text.empty()) want = fmt::QuotedString::UnexpectedEndOfFile;
    else if (!(q == '"' || (flags && q == '\''))) want = fmt::QuotedString::NoOpeningQuote;
    else {
        n = 1;
        bool multi = at(1) == (u8) q && at(2) == (u8) q;
        if (multi) n = 3;
        for (;;) {
            int c = at(n);
            if (c < 0) { want = fmt::QuotedString::UnexpectedEndOfFile; break; }
            if (c == (u8) q) {
                if (!multi) { n++; break; }
                if (at(n + 1) == (u8) q && at(n + 2) == (u8) q) { n += 3; break; }
                out += q; n++;
            } else if (c == '\r' || c == '\n') {
                if (!multi) { want = fmt::QuotedString::UnexpectedEndOfLine; break; }
                if (c == '\n') out += '\n';
                n++;
            } else if (c == '\\') {
                int e = at(n + 1);
                if (e < 0) { want = fmt::QuotedString::UnexpectedEndOfFile; break; }
                if (e == '\\' || e == '\'' || e == '"') out += (char) e;
                else if (e == 'n') out += '\n';
                else if (e == 'r') out += '\r';
                else if (e == 't') out += '\t';
                else if (e == 'x') return; // hexadecimal escapes: see C24
                else { want = e == '\r' || e == '\n' ? fmt::QuotedString::UnexpectedEndOfLine : fmt::QuotedString::BadEscapeSequence; break; }
                n += 2;
            } else { out += (char) c; n++; }
        }
    }
    w.used = n;
    w.error = want != 0;
    if (want) { w.checkUsed = want == fmt::QuotedString::NoOpeningQuote; w.checkValue = false; }
    everyWay("QuotedString", text, w, [&](InStream& i, Got& g) {
        fmt::QuotedString f;
        f.flags = flags;
        int first = 0, calls = 0;
        std::pair<int*, int*> arg{&first, &calls};
        f.errorCallback = {[](std::pair<int*, int*>* a, InStream*, fmt::QuotedString::ErrorCode e) { if (*a->first == 0) *a->first = e; ++*a->second; }, &arg};
        g.value = str(i.parse(f));
        MC_CHECK(first == want, "QuotedString on \"%s\" reports error %d instead of %d", esc(text).c_str(), first, want);
        MC_CHECK((calls > 0) == (want != 0), "the error callback was called %d times", calls);
    }, [flags](InStream& i) { fmt::QuotedString f; f.flags = flags; return i.readString(f); }, nullptr);
}
MC_SCENARIOS = {
    {"simple", simple, mc::LEAKS, "Line, Whitespace, NonWhitespace and Callback: every text of up to 4 (5) characters, every division, at three places in a block"},
    {"bytes", bytes, mc::LEAKS, "every byte value as whitespace, non-whitespace and identifier"},
    {"identifiers", identifiers, mc::LEAKS, "identifiers with every combination of flags"},
    {"special", special, mc::LEAKS, "scanning up to a mark: every text over the mark's characters"},
    {"quoted", quoted, mc::LEAKS, "quoted strings: every text over quotes, escapes and newlines; every escape letter; triple quotes"},
    MC_END,
};
