// The C++ preprocessor's tokens against an independent lexer.
// uses exceptions
#include "common.h"
#include <string>
#include <vector>
#include <set>
#include <ply-cpp/Core.h>
#include <ply-cpp/Preprocessor.h>
#include <ply-cpp/PPVisitedFiles.h>
#include <ply-cpp/ErrorFormatting.h>
using namespace ply;
using cpp::Token;

// A token as the reference lexer sees it. Directives, comments and so on each have a type of their own.
struct Tok {
    Token::Type type;
    std::string text;
    u32 file;    // 0: the source; otherwise the number of the definition it comes from, plus one
    u32 ofs;
    std::vector<std::string> args; // of macros
    bool operator==(const Tok& o) const { return type == o.type && text == o.text && file == o.file && ofs == o.ofs && args == o.args; }
};
struct Def {
    std::string name, text;
    bool args;
};
struct Err {
    u32 type;
    s32 ofs; // -1: unknown
};
struct Unspec {};
static bool idStart(char c) { return isalpha((unsigned char) c) || c == '_' || c == '$' || (c & 0x80); }
static bool idChar(char c) { return idStart(c) || isdigit((unsigned char) c); }
static bool white(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }

struct Lexer {
    const std::vector<Def>& defs;
    bool closeAnglesOnly;
    std::vector<Tok> toks;
    std::vector<Err> errs;
    std::set<u32> active;
    bool unspec = false; // the rest is unspecified
    bool lineStart = true;

    // Returns the end of the literal, or 0
    size_t quoted(const std::string& s, size_t p, char q) {
        for (;;) {
            if (p >= s.size()) return 0;
            char c = s[p++];
            if (c == '\\') {
                if (p >= s.size()) return 0;
                p++;
            } else if (c == q) return p;
        }
    }
    size_t number(const std::string& s, size_t p) {
        size_t b = p, e = p;
        // The preprocessing number
        while (e < s.size() && (idChar(s[e]) || s[e] == '.' || ((s[e] == '+' || s[e] == '-') && e > b && (s[e - 1] == 'e' || s[e - 1] == 'E')))) e++;
        size_t q = b;
        if (s[q] == '0' && q + 1 < e && s[q + 1] == 'x') {
            q += 2;
            size_t h = q;
            while (q < e && isxdigit((unsigned char) s[q])) q++;
            if (q == h) throw Unspec{};
        } else {
            while (q < e && isdigit((unsigned char) s[q])) q++;
            if (q < e && s[q] == '.') {
                q++;
                while (q < e && isdigit((unsigned char) s[q])) q++;
            }
            if (q < e && (s[q] == 'e' || s[q] == 'E')) {
                size_t x = q + 1;
                if (x < e && (s[x] == '+' || s[x] == '-')) x++;
                if (x >= e || !isdigit((unsigned char) s[x])) throw Unspec{};
                while (x < e && isdigit((unsigned char) s[x])) x++;
                q = x;
            }
        }
        if (q < e && s[q] == 'f') q++;
        else {
            if (q < e && s[q] == 'U') q++;
            if (q < e && s[q] == 'L') q++;
            if (q < e && s[q] == 'L') q++;
        }
        if (q != e) throw Unspec{};
        return e;
    }
    void error(u32 type, u32 file, size_t ofs) { errs.push_back({type, file ? -1 : (s32) ofs}); }
    void lex(const std::string& s, u32 file) {
        using E = cpp::Preprocessor::Error;
        size_t p = 0;
        auto put = [&](Token::Type t, size_t b, size_t e) { toks.push_back({t, s.substr(b, e - b), file, (u32) b, {}}); };
        while (p < s.size()) {
            char c = s[p];
            size_t b = p;
            if (white(c)) {
                if (c == '\n') lineStart = true;
                p++;
                continue;
            }
            bool start = lineStart;
            lineStart = false;
            if (c == '#') {
                if (!start) {
                    error(E::DirectiveNotAtStartOfLine, file, p++);
                    continue;
                }
                size_t nl = p;
                // To the end of the line, which a backslash continues
                for (;;) {
                    nl = s.find('\n', nl);
                    if (nl == std::string::npos) { nl = s.size(); break; }
                    nl++;
                    size_t l = nl - 1;
                    while (l > p && s[l - 1] == '\r') l--;
                    if (l > p && s[l - 1] == '\\') {
                        if (nl - 2 != l - 1 && nl - 3 != l - 1) throw Unspec{};
                        continue;
                    }
                    break;
                }
                size_t q = p + 1;
                while (q < nl && white(s[q]) && s[q] != '\n') q++;
                if (q < nl && s[q] == '\n') { // the null directive
                    put(Token::Directive, b, q + 1);
                    p = q + 1;
                    lineStart = true;
                    continue;
                }
                size_t w = q;
                while (w < nl && idChar(s[w])) w++;
                std::string word = s.substr(q, w - q);
                if (q == nl) throw Unspec{}; // at the end of the text
                if (!idStart(s[q])) {
                    if (isdigit((unsigned char) s[q]) || s.find('\\') != std::string::npos) throw Unspec{};
                    error(E::InvalidDirective, file, q);
                } else if (!(word == "include" || word == "pragma" || word == "if" || word == "else" || word == "elif" || word == "endif" || word == "ifdef" || word == "ifndef" || word == "error" || word == "undef" || word == "import" || word == "define")) {
                    if (s.find('\\') != std::string::npos) throw Unspec{};
                    error(E::InvalidDirective, file, q);
                }
                put(Token::Directive, b, nl);
                p = nl;
                lineStart = true;
                continue;
            }
            if (c == '/' && p + 1 < s.size() && s[p + 1] == '/') {
                size_t nl = s.find('\n', p);
                nl = nl == std::string::npos ? s.size() : nl + 1;
                if (nl > p + 2 && s.substr(p, nl - p).find('\\') != std::string::npos) throw Unspec{};
                put(Token::LineComment, b, nl);
                p = nl;
                lineStart = true;
                continue;
            }
            if (c == '/' && p + 1 < s.size() && s[p + 1] == '*') {
                size_t e = s.find("*/", p + 2);
                if (e == std::string::npos) {
                    error(E::EOFInComment, file, s.size());
                    return;
                }
                lineStart = start;
                put(Token::CStyleComment, b, e + 2);
                p = e + 2;
                continue;
            }
            if (isdigit((unsigned char) c)) {
                p = number(s, p);
                put(Token::NumericLiteral, b, p);
                continue;
            }
            if (idStart(c)) {
                while (p < s.size() && idChar(s[p])) p++;
                std::string id = s.substr(b, p - b);
                if (p < s.size() && s[p] == '"') {
                    if (id == "R") {
                        size_t d = ++p;
                        while (p < s.size() && s[p] != '(' && !white(s[p]) && s[p] != ')' && s[p] != '\\') p++;
                        if (p >= s.size()) { error(E::EOFInRawStringDelimiter, file, p); return; }
                        if (s[p] != '(') { error(E::InvalidCharInRawStringDelimiter, file, p); continue; }
                        std::string end = ")" + s.substr(d, p - d) + "\"";
                        size_t e = s.find(end, p + 1);
                        if (e == std::string::npos) { error(E::EOFInStringLiteral, file, s.size()); return; }
                        p = e + end.size();
                    } else {
                        if (id.back() == 'R') throw Unspec{}; // prefixed raw strings
                        p = quoted(s, p + 1, '"');
                        if (!p) { error(E::EOFInStringLiteral, file, s.size()); return; }
                    }
                    put(Token::StringLiteral, b, p);
                    continue;
                }
                int found = -1;
                for (u32 i = 0; i < defs.size(); i++)
                    if (defs[i].name == id) found = i;
                if (found >= 0 && !active.count(found)) {
                    Tok t{Token::Macro, id, file, (u32) b, {}};
                    if (defs[found].args) {
                        size_t q = p;
                        while (q < s.size() && white(s[q])) q++;
                        if (q >= s.size() || s[q] != '(') {
                            if (q >= s.size() && file) throw Unspec{}; // arguments outside the expansion
                            put(Token::Identifier, b, p);
                            continue;
                        }
                        size_t a = ++q;
                        s32 nest = 1;
                        for (;; q++) {
                            if (q >= s.size()) throw Unspec{}; // the error is checked, what follows it isn't
                            if (s[q] == '"' || s[q] == '\'' || s[q] == '#') throw Unspec{};
                            if (s[q] == '/' && q + 1 < s.size() && s[q + 1] == '*') {
                                q = s.find("*/", q + 2);
                                if (q == std::string::npos) throw Unspec{};
                                q++;
                            } else if (s[q] == '/' && q + 1 < s.size() && s[q + 1] == '/') {
                                if (s.find('\\') != std::string::npos) throw Unspec{};
                                q = s.find('\n', q);
                                if (q == std::string::npos) throw Unspec{};
                            } else if (s[q] == '(') nest++;
                            else if (s[q] == ')' && --nest == 0) break;
                            else if (s[q] == ',' && nest == 1) {
                                t.args.push_back(s.substr(a, q - a));
                                a = q + 1;
                            }
                        }
                        t.args.push_back(s.substr(a, q - a));
                        p = q + 1;
                    }
                    toks.push_back(t);
                    active.insert(found);
                    lex(defs[found].text, found + 1);
                    active.erase(found);
                    continue;
                }
                put(Token::Identifier, b, p);
                continue;
            }
            if (c == '"' || c == '\'') {
                p = quoted(s, p + 1, c);
                if (!p) { error(E::EOFInStringLiteral, file, s.size()); return; }
                put(Token::StringLiteral, b, p);
                continue;
            }
            static const struct { const char* s; Token::Type t; } puncs[] = {
                {"...", Token::Ellipsis}, {"<=", Token::LessThanOrEqual}, {">=", Token::GreaterThanOrEqual}, {"::", Token::DoubleColon},
                {"==", Token::DoubleEqual}, {"!=", Token::NotEqual}, {"+=", Token::PlusEqual}, {"-=", Token::MinusEqual}, {"->", Token::Arrow},
                {"*=", Token::StarEqual}, {"/=", Token::SlashEqual}, {"&&", Token::DoubleAmpersand}, {"||", Token::DoubleVerticalBar},
                {"++", Token::DoublePlus}, {"--", Token::DoubleMinus}, {"<<", Token::LeftShift}, {">>", Token::RightShift},
                {"{", Token::OpenCurly}, {"}", Token::CloseCurly}, {"(", Token::OpenParen}, {")", Token::CloseParen}, {"<", Token::OpenAngle}, {">", Token::CloseAngle},
                {"[", Token::OpenSquare}, {"]", Token::CloseSquare}, {";", Token::Semicolon}, {":", Token::SingleColon}, {"=", Token::SingleEqual},
                {",", Token::Comma}, {"?", Token::QuestionMark}, {"/", Token::ForwardSlash}, {"*", Token::Star}, {"%", Token::Percent}, {"&", Token::SingleAmpersand},
                {"|", Token::SingleVerticalBar}, {"+", Token::SinglePlus}, {"-", Token::SingleMinus}, {".", Token::Dot}, {"~", Token::Tilde}, {"^", Token::Caret}, {"!", Token::Bang}};
            bool got = false;
            for (auto& u : puncs) {
                size_t n = strlen(u.s);
                if (s.compare(p, n, u.s) != 0 || (closeAnglesOnly && c == '>' && n > 1)) continue;
                p += n;
                put(u.t, b, p);
                got = true;
                break;
            }
            if (!got) error(E::GarbageCharacters, file, p++);
        }
    }
};

static std::string show(const std::vector<Tok>& v) {
    std::string r;
    for (auto& t : v) {
        char h[40];
        snprintf(h, sizeof h, " %d@%u:%u'", (int) t.type, t.file, t.ofs);
        r += h + t.text + "'";
        for (auto& a : t.args) r += "(" + a + ")";
    }
    return r;
}
static void check(const std::string& src, const std::vector<Def>& defs, bool closeAnglesOnly = false) {
    cpp::PPVisitedFiles vf;
    cpp::Preprocessor pp;
    pp.visitedFiles = &vf;
    pp.tokenizeCloseAnglesOnly = closeAnglesOnly;
    auto& sf = vf.sourceFiles.append();
    sf.contents = String{StringView{src.data(), (u32) src.size()}};
    sf.fileLocMap = FileLocationMap::fromView(sf.contents);
    auto& chain = vf.includeChains.append();
    chain.isMacroExpansion = 0;
    chain.fileOrExpIdx = 0;
    auto& item = pp.stack.append();
    item.includeChainIdx = 0;
    item.vins = ViewInStream{sf.contents};
    pp.linearLocAtEndOfStackTop = src.size();
    cpp::PPVisitedFiles::LocationMapTraits::Item lm;
    lm.linearLoc = 0;
    lm.includeChainIdx = 0;
    lm.offset = 0;
    vf.locationMap.insert(std::move(lm));
    for (auto& d : defs) cpp::addPPDef(&pp, StringView{d.name.data(), (u32) d.name.size()}, StringView{d.text.data(), (u32) d.text.size()}, d.args);
    std::vector<std::string> includes, wantIncludes;
    pp.includeCallback = {[](std::vector<std::string>* v, StringView d) { v->push_back(std::string(d.bytes, d.numBytes)); }, &includes};
    std::vector<Err> errs;
    pp.errorHandler = [&](Owned<cpp::BaseError>&& e) {
        auto* pe = static_cast<cpp::Preprocessor::Error*>((cpp::BaseError*) e.borrow());
        s32 ofs = -1;
        auto it = vf.locationMap.findLastLessThan(pe->linearLoc + 1);
        MC_CHECK(it.isValid(), "an error's location %d is unknown in: %s", (int) pe->linearLoc, src.c_str());
        auto& ch = vf.includeChains[it.getItem().includeChainIdx];
        if (!ch.isMacroExpansion) {
            ofs = pe->linearLoc - it.getItem().linearLoc + it.getItem().offset;
            MC_CHECK(ofs >= 0 && ofs <= (s32) src.size(), "an error is reported at offset %d of: %s", ofs, src.c_str());
            MemOutStream mout;
            bool other = true;
            if (pe->otherLoc >= 0) {
                auto ot = vf.locationMap.findLastLessThan(pe->otherLoc + 1);
                other = !vf.includeChains[ot.getItem().includeChainIdx].isMacroExpansion;
            }
            if (other) {
                e->writeMessage(&mout, &vf);
                String m = mout.moveToString();
                MC_CHECK(m.findByte(':') > 0 && m.endsWith("\n"), "the message \"%s\" is written for: %s", std::string(m.bytes, m.numBytes).c_str(), src.c_str());
            }
        }
        errs.push_back({(u32) pe->type, ofs});
    };
    std::vector<Tok> got;
    u32 limit = 40 + 8 * src.size();
    std::string texts[8];
    for (;;) {
        Token t = cpp::readToken(&pp);
        if (t.type == Token::EndOfFile) break;
        MC_CHECK(t.type != Token::Invalid, "an invalid token is returned for: %s", src.c_str());
        MC_CHECK(got.size() < limit, "there's no end of tokens in: %s", src.c_str());
        Tok g{t.type, std::string(t.identifier.bytes, t.identifier.numBytes), 0, 0, {}};
        // Its location leads to it
        auto it = vf.locationMap.findLastLessThan(t.linearLoc + 1);
        MC_CHECK(it.isValid(), "a token's location %d is unknown in: %s", (int) t.linearLoc, src.c_str());
        if (t.type == Token::Macro) {
            // A macro is at the location where its expansion starts
            for (auto& a : pp.macroArgs) g.args.push_back(std::string(a.identifier.bytes, a.identifier.numBytes));
        } else {
            auto& ch = vf.includeChains[it.getItem().includeChainIdx];
            g.file = ch.isMacroExpansion ? ch.fileOrExpIdx + 1 : 0;
            g.ofs = t.linearLoc - it.getItem().linearLoc + it.getItem().offset;
            StringView c = vf.getContents(it.getItem().includeChainIdx);
            MC_CHECK(g.ofs + g.text.size() <= c.numBytes && std::string(c.bytes + g.ofs, g.text.size()) == g.text, "the token '%s' is said to be at offset %u of part %u of: %s", g.text.c_str(), g.ofs, g.file, src.c_str());
            if (!g.file) {
                MC_CHECK(t.identifier.bytes == sf.contents.bytes + g.ofs, "the token '%s' is said to be at offset %u of: %s", g.text.c_str(), g.ofs, src.c_str());
                auto fl = cpp::expandFileLocation(&vf, t.linearLoc).fileLoc;
                u32 line = 1;
                for (u32 i = 0; i < g.ofs; i++) line += src[i] == '\n';
                MC_CHECK(fl.lineNumber == line, "the token '%s' at offset %u is in line %u instead of %u of: %s", g.text.c_str(), g.ofs, fl.lineNumber, line, src.c_str());
            }
        }
        got.push_back(g);
        mc::step(1);
    }
    MC_CHECK(cpp::readToken(&pp).type == Token::EndOfFile, "a token follows the end of: %s", src.c_str());
    u64 h = 14695981039346656037ull;
    for (auto& t : got) h = (h ^ t.type) * 1099511628211ull;
    mc::state(h);
    // Tokens of the source are in order, and nothing but white space and reported characters is between them
    u32 at = 0, skipped = 0;
    bool anyDef = !defs.empty();
    for (auto& t : got) {
        if (t.file || t.type == Token::Macro) continue;
        MC_CHECK(t.ofs >= at, "tokens overlap or go back at %u of: %s", at, src.c_str());
        for (u32 i = at; i < t.ofs; i++) skipped += !white(src[i]);
        at = t.ofs + t.text.size();
    }
    for (u32 i = at; i < src.size(); i++) skipped += !white(src[i]);
    if (errs.empty() && !anyDef) MC_CHECK(!skipped, "%u characters are in no token of: %s", skipped, src.c_str());
    if (anyDef) mc::nontrivial();
    Lexer lx{defs, closeAnglesOnly};
    try { lx.lex(src, 0); } catch (Unspec&) { lx.unspec = true; }
    std::vector<Tok> want = lx.toks;
    for (auto& t : want)
        if (t.type == Token::Macro) t.file = t.ofs = 0;
    for (u32 i = 0; i < want.size() && i < got.size(); i++)
        MC_CHECK(want[i] == got[i], "token %u: got%s instead of%s in: %s", i, show({got[i]}).c_str(), show({want[i]}).c_str(), src.c_str());
    MC_CHECK(got.size() >= want.size(), "the tokens are%s instead of%s in: %s", show(got).c_str(), show(want).c_str(), src.c_str());
    MC_CHECK(errs.size() >= lx.errs.size(), "%u errors are reported instead of %u in: %s", (u32) errs.size(), (u32) lx.errs.size(), src.c_str());
    for (u32 i = 0; i < lx.errs.size(); i++) {
        MC_CHECK(errs[i].type == lx.errs[i].type, "error %u is of type %u instead of %u in: %s", i, errs[i].type, lx.errs[i].type, src.c_str());
        if (lx.errs[i].ofs >= 0) MC_CHECK(errs[i].ofs == lx.errs[i].ofs, "an error of type %u is at %d instead of %d in: %s", errs[i].type, errs[i].ofs, lx.errs[i].ofs, src.c_str());
    }
    if (lx.unspec) return;
    MC_CHECK(got.size() == want.size(), "the tokens are%s instead of%s in: %s", show(got).c_str(), show(want).c_str(), src.c_str());
    MC_CHECK(errs.size() == lx.errs.size(), "an error of type %u is reported in: %s", errs[lx.errs.size()].type, src.c_str());
    for (auto& t : want)
        if (t.type == Token::Directive) {
            size_t q = 1;
            while (q < t.text.size() && white(t.text[q])) q++;
            if (t.text.compare(q, 7, "include") == 0 && !(q + 7 < t.text.size() && idChar(t.text[q + 7]))) wantIncludes.push_back(t.text);
        }
    MC_CHECK(includes == wantIncludes, "%u include directives are reported in: %s", (u32) includes.size(), src.c_str());
}

static std::string pieces(const std::vector<std::string>& alpha, u32 maxLen) {
    u32 n = mc::choose(maxLen) + 1;
    std::string s;
    for (u32 i = 0; i < n; i++) s += alpha[mc::choose(alpha.size())];
    return s;
}
static void puncs() {
    bool angles = mc::choose(2);
    std::string s = pieces({"<", ">", "=", ":", "+", "-", "*", "/", "&", "|", "!", ".", "%", "^", "~", "?", ",", " ", "a", "@"}, mc::pick(3, 4));
    check(s, {}, angles);
}
static void literals() {
    std::string s = pieces({"0", "1", "x", "e", ".", "f", "U", "L", "\"", "'", "R", "(", ")", "\\", "\n", "+"}, mc::pick(5, 6));
    check(s, {});
}
static void raw() {
    std::string s = "R\"" + pieces({"a", "b", "(", ")", "\"", " ", ")a\"", ")\"", "\\"}, mc::pick(6, 7));
    check(s, {});
}
static void directives() {
    std::string s = pieces({"#", "define", "if", "\\", "\n", "\r\n", "//", "/*", "*/", " ", "a", "#include", "1", "\""}, mc::pick(5, 6));
    check(s, {});
}
static void macros() {
    static const std::vector<std::string> alpha = {"M", "N", "E", "F", "S", "T", "(", ")", ",", " ", "a", "/*,*/", "\n"};
    static const std::vector<Def> defs = {{"M", "x y", false}, {"N", "M+M z", false}, {"E", "", false}, {"F", "q M", true}, {"S", "S a", false}, {"T", "U 1", false}, {"U", "T(2)", false}};
    check(pieces(alpha, mc::pick(5, 6)), defs);
}
static void bytes() {
    std::string s = "a";
    s += (char) mc::choose(256);
    if (mc::choose(2)) s += (char) mc::choose(256);
    check(s, {});
    check(s.substr(1), {});
    check(s + "b", {});
}

MC_SCENARIOS = {{"punctuation", puncs, mc::LEAKS, "every short sequence of operator characters, inside and outside template arguments"},
                {"literals", literals, mc::LEAKS, "every short sequence of characters of numbers, strings and characters"},
                {"raw strings", raw, mc::LEAKS, "raw string literals with every short text and delimiter"},
                {"directives and comments", directives, mc::LEAKS, "every short sequence of pieces of directives and comments"},
                {"macros", macros, mc::LEAKS, "every short use of defined macros: nested, empty, with arguments and referring to themselves or each other"},
                {"bytes", bytes, mc::LEAKS, "every one and two bytes"},
                MC_END};
