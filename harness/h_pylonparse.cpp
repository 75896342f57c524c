// The Pylon parser against an independent reader of the grammar, on every short input.
#include "pylontest.h"
using mc::pick;
// ---- independent reader
struct Bad { size_t at; const char* why; size_t earlier; };
struct Reader {
    const std::string& s; size_t i = 0;
    bool end() const { return i >= s.size(); }
    Bad why{}; bool failed = false;
    Doc bad(const char* w, size_t at, size_t earlier = 0) { if (!failed) why = {at, w, earlier}; failed = true; i = s.size(); return {}; }
    static bool word(unsigned char c) { return isalnum(c) && c < 128 ? true : c >= 128 || c == '_' || c == '$' || c == '-' || c == '.'; }
    void blanks(bool newlines) { while (!end() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || (newlines && s[i] == '\n'))) i++; }
    bool startsText() const { return !end() && (s[i] == '"' || s[i] == '\'' || word((unsigned char) s[i])); }
    std::string text() {
        std::string out;
        if (s[i] != '"' && s[i] != '\'') { while (!end() && word((unsigned char) s[i])) out += s[i++]; return out; }
        char q = s[i]; size_t from = i++;
        bool lines = s.compare(i, 2, std::string(2, q)) == 0;
        if (lines) i += 2;
        for (;;) {
            if (end()) { bad("unterminated", from); return out; }
            char c = s[i];
            if (c == q && (!lines || s.compare(i, 3, std::string(3, q)) == 0)) { i += lines ? 3 : 1; return out; }
            i++;
            if (c == '\n' && !lines) { bad("line end", from); return out; }
            if (c == '\r') { if (!lines) { bad("line end", from); return out; } continue; }
            if (c != '\\') { out += c; continue; }
            if (end()) { bad("unterminated", from); return out; }
            char e = s[i++];
            if (e == '\\' || e == '\'' || e == '"') out += e;
            else if (e == 'n') out += '\n'; else if (e == 'r') out += '\r'; else if (e == 't') out += '\t';
            else if (e == 'x') {
                auto hex = [](char h) { return h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1; };
                if (i + 2 > s.size() || hex(s[i]) < 0 || hex(s[i + 1]) < 0) { bad("escape", from); return out; }
                out += (char) (hex(s[i]) * 16 + hex(s[i + 1])); i += 2;
            } else { bad("escape", from); return out; }
        }
    }
    Doc value() { // at its first character
        Doc d; d.at = i;
        if (end()) return bad("missing value", i);
        if (startsText()) { d.text = text(); return d; }
        if (s[i] == '[') {
            d.kind = 1; i++;
            for (;;) {
                blanks(true);
                if (end()) return bad("unterminated", i);
                if (s[i] == ']') { i++; return d; }
                if (s[i] == ',' || s[i] == ';') { i++; continue; }
                d.items.push_back({"", value()});
                if (failed) return d;
            }
        }
        if (s[i] == '{') {
            d.kind = 2; i++;
            bool separated = true;
            std::map<std::string, size_t> at;
            for (;;) {
                blanks(false);
                if (end()) return bad("unterminated", i);
                if (s[i] == '\n' || s[i] == ',' || s[i] == ';') { i++; separated = true; continue; }
                if (s[i] == '}') { i++; return d; }
                size_t from = i;
                if (!startsText()) return bad("stray", i);
                std::string k = text();
                if (failed) return d;
                if (!separated) return bad("separator", from);
                if (at.count(k)) return bad("duplicate", from, at[k]);
                at[k] = from;
                blanks(true);
                if (end() || (s[i] != ':' && s[i] != '=')) return bad("colon", i);
                i++;
                blanks(true);
                d.items.push_back({k, value()});
                if (failed) return d;
                separated = false;
            }
        }
        return bad("stray", i);
    }
    Doc document() { blanks(true); Doc d = value(); if (failed) return d; blanks(true); if (!end()) return bad("more", i); return d; }
};
static void check(const std::string& in) {
    mc::casef("input %s", esc(in).c_str());
    HeapBytes hb{in};
    Reader reader{in};
    Doc want = reader.document();
    bool ok = !reader.failed; Bad why = reader.why;
    pylon::Parser parser; int errors = 0;
    parser.setErrorCallback([&](const pylon::ParseError& e) {
        if (!errors && !strcmp(why.why ? why.why : "", "duplicate")) {
            MC_CHECK(e.fileOfs == why.at, "the duplicate property is reported at %u, it is at %zu", e.fileOfs, why.at);
            MC_CHECK(e.context.numItems() && e.context.back().type == pylon::ParseError::Scope::Duplicate && e.context.back().fileOfs == why.earlier, "the earlier property is not pointed out");
        }
        errors++;
        MC_CHECK(e.fileOfs <= in.size(), "an error is reported at %u of %zu bytes", e.fileOfs, in.size());
        MC_CHECK(e.message.view().numBytes > 0, "an error without a message");
        for (u32 i = 0; i < e.context.numItems(); i++) MC_CHECK(e.context[i].fileOfs <= in.size(), "a scope is reported at %u of %zu bytes", e.context[i].fileOfs, in.size());
        MemOutStream m; parser.dumpError(e, m);
        MC_CHECK(m.moveToString().numBytes > 0, "an error is printed as nothing");
    });
    auto r = parser.parse(hb.view());
    mc::step();
    MC_CHECK((errors > 0) == parser.anyError(), "%d errors are reported, anyError() says %d", errors, parser.anyError());
    MC_CHECK(r.root, "no root at all");
    if (ok) {
        MC_CHECK(!errors && r.root->isValid(), "refused");
        Doc got = fromNode(r.root);
        MC_CHECK(got.same(want, true), "read as %s, it means %s", got.show(true).c_str(), want.show(true).c_str());
        MC_CHECK(r.fileLocMap.view.numBytes == in.size(), "the document comes without its location map");
    } else {
        MC_CHECK(errors, "accepted, but not in the language (%s at %zu)", why.why, why.at);
        MC_CHECK(!r.root->isValid(), "a document is returned in spite of an error");
    }
}
static void characters() {
    static const std::string alphabet[] = {"{", "}", "[", "]", ":", ",", "\n", " ", "\"", "'", "\\", "a", "\xC3", "\xFF", std::string("\0", 1), "#", "\r", "="};
    int n = choose(pick(4, 5) + 1);
    std::string s; for (int i = 0; i < n; i++) s += alphabet[choose(18)];
    MC_LOG("input %s", esc(s).c_str());
    if (n > 1) mc::nontrivial();
    mc::state(hstr(s));
    check(s);
}
static void tokens() {
    static const char* t[] = {"{", "}", "[", "]", ":", ",", "\n", "a", "'b' ", "\"a\""};
    int n = choose(pick(6, 7) + 1);
    std::string s; for (int i = 0; i < n; i++) s += t[choose(10)];
    MC_LOG("input %s", esc(s).c_str());
    if (n > 1) mc::nontrivial();
    mc::state(hstr(s));
    check(s);
}
static void properties() { // inside an object
    static const char* t[] = {"a", " b ", "'c'", ":", "=", ",", ";", "\n", "{a:b}", "[]", "}"};
    int n = choose(pick(6, 7) + 1);
    std::string s = "{"; for (int i = 0; i < n; i++) s += t[choose(11)];
    if (choose(2)) s += "}";
    MC_LOG("input %s", esc(s).c_str());
    mc::nontrivial(); mc::state(hstr(s));
    check(s);
}
static void quoted() {
    static const char* alphabet[] = {"\"", "'", "\\", "n", "x", "4", "F", "\n", "\r", "g"};
    std::string s = std::vector<std::string>{"\"", "'", "\"\"\"", "{\"", "['"}[choose(5)];
    int n = choose(pick(5, 6) + 1);
    for (int i = 0; i < n; i++) s += alphabet[choose(10)];
    MC_LOG("input %s", esc(s).c_str());
    mc::nontrivial(); mc::state(hstr(s));
    check(s);
}
static const std::string samples[] = {
    "{ name: \"value\", 'list': [a, b; c\n d], \"obj\" = { x: \"\"\"m\"l\n\"\"\" y: '\\x41\\n' } }",
    "[ { a: {}, b: [] } \"\" 'q' word-1.$ ]\n",
    "{\n  \"key\": \"te\\\\xt\",\n  \"k2\": [\n    \"\xC3\xA9\"\n  ]\n}"};
static void damage() {
    const std::string& s = samples[choose(3)];
    int kind = choose(4), at = choose((int) s.size() + 1);
    mc::nontrivial();
    std::string d;
    if (kind == 0) { MC_LOG("cut at %d", at); mc::state(hstr(s.substr(0, at))); check(s.substr(0, at)); check(s.substr(at)); return; }
    if (at == (int) s.size() && kind != 2) return;
    MC_LOG("sample damaged at %d", at);
    mc::state(hstr(s.substr(0, 1) + std::to_string(at * 4 + kind)));
    if (kind == 1) { for (int b = 0; b < 256; b++) { d = s; d[at] = (char) b; check(d); } }
    else if (kind == 2) { for (int b = 0; b < 256; b++) { d = s; d.insert(at, 1, (char) b); check(d); } }
    else { d = s; d.erase(at, 1); check(d); for (size_t b = at + 1; b < s.size(); b++) { d = s; std::swap(d[at], d[b]); check(d); } }
}
static void reuse() { // a parser used again starts afresh
    static const std::string in[] = {"", "a", "{a:b}", "{a:b", "[1 2]", "'x", "}"};
    int a = choose(7), b = choose(7);
    pylon::Parser p;
    HeapBytes A{in[a]}, B{in[b]};
    { auto r = p.parse(A.view()); }
    auto r = p.parse(B.view());
    pylon::Parser q; auto fresh = q.parse(B.view());
    MC_LOG("%s then %s", in[a].c_str(), in[b].c_str());
    mc::step(); mc::state(a * 7 + b);
    MC_CHECK(r.root && fresh.root && r.root->isValid() == fresh.root->isValid() && p.anyError() == q.anyError(), "a parser used before reads %s differently", in[b].c_str());
    if (r.root->isValid()) MC_CHECK(fromNode(r.root).same(fromNode(fresh.root), true), "a parser used before reads %s differently", in[b].c_str());
}
MC_SCENARIOS = {
    {"characters", characters, mc::LEAKS, "every short sequence of characters"},
    {"tokens", tokens, mc::LEAKS, "every short sequence of tokens"},
    {"properties", properties, mc::LEAKS, "every short sequence of tokens inside an object"},
    {"quoted", quoted, mc::LEAKS, "every short sequence of characters inside a quoted text"},
    {"damage", damage, mc::LEAKS, "sample documents cut, changed, extended, shortened at every place"},
    {"reuse", reuse, 0, "one parser for two inputs"},
    MC_END};
