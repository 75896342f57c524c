// Crowbar's tokenizer and parser against a plain reference grammar.
// uses exceptions
#include <functional>
#include "crowtest.h"
using namespace crow;

// The tokenizer reserves a gigabyte of addresses each time. This keeps AddressSanitizer from clearing its shadow of it.
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" void* mmap(void* a, size_t n, int p, int f, int fd, off_t o) { return (void*) syscall(SYS_mmap, a, n, p, f, fd, o); }
extern "C" void* mmap64(void* a, size_t n, int p, int f, int fd, off_t o) { return (void*) syscall(SYS_mmap, a, n, p, f, fd, o); }
extern "C" int munmap(void* a, size_t n) { return (int) syscall(SYS_munmap, a, n); }

static u64 gParsed;
static void check(const Source& s) {
    gParsed++;
    bool accept = true, unspec = false;
    Reject rej{0, false};
    P want;
    try {
        Ref r(s);
        want = r.file();
        unspec = r.unspec;
    } catch (Reject& r) { accept = false; rej = r; } catch (Unspec&) { unspec = true; }
    Hooks hooks;
    Tokenizer tkr;
    tkr.setSourceInput(view(s.text));
    Parser parser;
    parser.tkr = &tkr;
    parser.hooks = &hooks;
    Owned<StatementBlock> file = parser.parseFile();
    mc::step(1);
    if (unspec) return;
    if (!accept) {
        MC_CHECK(!hooks.errors.empty(), "no error is reported in: %s", s.text.c_str());
        std::string at = where(s.text, rej.off) + " error: ";
        // An end of file is reported at the end of the text
        std::string end = where(s.text, (u32) s.text.size()) + " error: ";
        const std::string& e = hooks.errors[0];
        if (rej.exact) MC_CHECK(e.compare(0, at.size(), at) == 0 || (rej.off >= s.offs.back() && e.compare(0, end.size(), end) == 0), "the error \"%s\" is reported instead of one at %s in: %s", e.c_str(), at.c_str(), s.text.c_str());
        return;
    }
    MC_CHECK(hooks.errors.empty(), "\"%s\" is reported in: %s", hooks.errors[0].c_str(), s.text.c_str());
    Conv c{tkr, s.text};
    std::string w = show(want), g = show(c.file(file));
    mc::state(std::hash<std::string>()(g));
    MC_CHECK(w == g, "the tree %s is made instead of %s of: %s", g.c_str(), w.c_str(), s.text.c_str());
}
static Toks inFn(const Toks& body) {
    Toks t = {"fn", "f", "(", "p", ")", "{"};
    t.insert(t.end(), body.begin(), body.end());
    t.push_back("}");
    return t;
}
static Toks words(const char* s) {
    Toks t;
    std::string cur;
    bool q = false;
    for (; *s; s++) {
        if (q && *s == '\\') { cur += *s++; cur += *s; continue; }
        if (*s == '"') q = !q;
        if (*s == ' ' && !q) { if (!cur.empty()) t.push_back(cur); cur = ""; }
        else if (*s == '|' && s[1] == ' ' && !q && cur.empty()) { t.push_back("\n"); }
        else cur += *s;
    }
    if (!cur.empty()) t.push_back(cur);
    return t;
}

// Every sequence of tokens as a function's body
static void scBodies() {
    static const Toks A = {"a", "1", "(", ")", "{", "}", ",", ".", "=", "+", "*", "-", "<", "if", "else", "while", "return", "\n", ";", "\"s\""};
    int L = mc::pick(4, 5);
    int i = mc::choose((int) A.size()), j = mc::choose((int) A.size() + 1);
    mc::nontrivial();
    if (j == (int) A.size()) { check(Source(inFn({A[i]}))); return; }
    Toks b = {A[i], A[j]};
    std::function<void()> rec = [&] {
        check(Source(inFn(b)));
        if ((int) b.size() == L) return;
        for (auto& t : A) { b.push_back(t); rec(); b.pop_back(); }
    };
    rec();
}
// Every sequence of tokens as a file
static void scFiles() {
    static const Toks A = {"fn", "f", "(", ")", "{", "}", ",", "1", "\n"};
    int L = mc::pick(7, 8);
    int i = mc::choose((int) A.size()), j = mc::choose((int) A.size()), k = mc::choose((int) A.size());
    mc::nontrivial();
    Toks b = {A[i], A[j], A[k]};
    if (!k) { check(Source({A[i]})); check(Source({A[i], A[j]})); }
    std::function<void()> rec = [&] {
        check(Source(b));
        if ((int) b.size() == L) return;
        for (auto& t : A) { b.push_back(t); rec(); b.pop_back(); }
    };
    // Beyond this length only those which start as a function does
    if (i != 0 && L > 5) L = 5;
    rec();
}
// Every expression made of up to some number of operators, written with as few parentheses as the reference needs: each
// is a sequence operand (operator operand)* with unary operators, postfixes and one pair of parentheses.
static void scOperators() {
    static const Toks ops = {"*", "/", "%", "+", "-", "<", "<=", ">", ">=", "==", "&&", "||"};
    int n = mc::pick(3, 4);
    int i = mc::choose((int) ops.size()), j = mc::choose((int) ops.size());
    int un = mc::choose(4); // which operand is preceded by an unary operator
    int open = mc::choose(3), len = mc::choose(3); // parentheses
    mc::nontrivial();
    std::vector<int> o = {i, j};
    std::function<void()> rec = [&] {
        for (int post = 0; post < 4; post++) {
            Toks b = {"x", "="};
            for (size_t k = 0; k <= o.size(); k++) {
                if (k == (size_t) open && len) b.push_back("(");
                if (k + 1 == (size_t) un) b.push_back(k % 3 == 0 ? "-" : k % 3 == 1 ? "!" : "~");
                b.push_back(std::string(1, (char) ('a' + k)));
                if (k == 1 && post == 1) { b.push_back("."); b.push_back("m"); }
                if (k == 1 && post == 2) { b.push_back("("); b.push_back("1"); b.push_back(")"); }
                if (k == (size_t) (open + len) && len) b.push_back(")");
                if (k == (size_t) (open + len) && len && post == 3) { b.push_back("."); b.push_back("q"); }
                if (k < o.size()) b.push_back(ops[o[k]]);
            }
            b.push_back("\n");
            check(Source(inFn(b)));
        }
        if ((int) o.size() == n) return;
        for (int k = 0; k < (int) ops.size(); k++) { o.push_back(k); rec(); o.pop_back(); }
    };
    rec();
}
// Whole programs, and each of their variations by one (thorough: two) tokens
static const char* programs[] = {
    "fn f ( ) { }",
    "fn f ( a , b ) { | a = b | }",
    "fn f ( a , | b ) | { a . b = c . d ( 1 , a . b ) ; g ( ) }",
    "fn f ( ) { if a { b ( ) } else { c ( ) } }",
    "fn f ( ) { | if a < 1 | { | b = 2 | } | else | { b = 3 } | c = 4 | }",
    "fn f ( ) { if a return 1 | else return 2 | }",
    "fn f ( ) { while a { b = b + 1 ; if c { return b } } | return 0 | }",
    "fn f ( ) { while ( a | < b ) | { } return - a * ( b + | c ) }",
    "fn f ( ) { return \"x${ a + 1 }y\" } fn g ( x ) { return f ( ) }",
    "fn f ( ) { x = \"${ a }${ b . c ( 1 , 2 ) }\" ; print ( \"\" , \"$ \\\" \\\\ \\${\" ) }",
    "fn f ( ) { if a { if b { } else { } } else { while c { d } } }",
    "fn f ( ) { a ( ) ( 1 ) . b ( c ( d ) ) | ; ; | ! a == ~ b }",
};
static void scEdits() {
    int p = mc::choose((int) (sizeof(programs) / sizeof(programs[0])));
    int kind = mc::choose(3);
    Toks base = words(programs[p]);
    int at = mc::choose((int) base.size() + 1);
    mc::nontrivial();
    static const Toks A = {"a", "1", "(", ")", "{", "}", ",", ".", "=", "+", "-", "!", "==", "if", "else", "while", "return", "fn", "\n", ";", "\"s\"", "@", "&", "/=", "[", "]", ":"};
    static const char* seps[] = {" ", " /*x*/ ", "   "};
    auto edits = [&](const Toks& t, size_t at, int kind, const std::function<void(const Toks&)>& fn) {
        Toks e = t;
        if (kind == 0) { if (at < e.size()) { e.erase(e.begin() + at); fn(e); } return; }
        if (kind == 1) { if (at >= e.size()) { fn(e); return; } for (auto& x : A) { e[at] = x; fn(e); } return; }
        e.insert(e.begin() + at, "");
        for (auto& x : A) { e[at] = x; fn(e); }
    };
    edits(base, (size_t) at, kind, [&](const Toks& t) {
        for (auto sep : seps) check(Source(t, sep));
        // What follows is cut off
        Toks cut = t;
        while (cut.size() > (size_t) at + 1) cut.pop_back();
        check(Source(cut));
        if (mc::tier() != 0)
            for (size_t b = at; b <= t.size() && b < (size_t) at + 6; b++)
                for (int k2 = 0; k2 < 3; k2++) edits(t, b, k2, [&](const Toks& t2) { check(Source(t2)); });
    });
}
// Every string literal of a few characters
struct StrRef {
    const std::string& s;
    size_t i;
    static bool blank(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
    P lit() { // after the opening quote
        P p = mk("str", 0);
        std::string cur;
        for (;;) {
            if (i >= s.size()) throw Reject{0, false};
            char c = s[i];
            if (c == '\\') {
                if (i + 1 >= s.size()) throw Reject{0, false};
                if (isalpha((u8) s[i + 1]) || s[i + 1] == '\n') throw Unspec{};
                cur += s[i + 1];
                i += 2;
            } else if (c == '"') {
                i++;
                p->pieces.push_back(cur);
                return p;
            } else if (c == '$' && i + 1 < s.size() && s[i + 1] == '{') {
                i += 2;
                p->pieces.push_back(cur);
                cur = "";
                while (i < s.size() && blank(s[i])) i++;
                if (i >= s.size()) throw Reject{0, false};
                if (s[i] == 'a') { P n = mk("name", 0); while (i < s.size() && s[i] == 'a') { n->name += 'a'; i++; } p->kids.push_back(n); }
                else if (s[i] == '"') { i++; p->kids.push_back(lit()); }
                else throw Reject{0, false};
                while (i < s.size() && blank(s[i])) i++;
                if (i >= s.size() || s[i] != '}') throw Reject{0, false};
                i++;
            } else { cur += c; i++; }
        }
    }
};
static void zero(const P& p) { if (!p) return; p->off = 0; for (auto& k : p->kids) zero(k); }
static void scStrings() {
    static const char A[] = "a\\\"${} ";
    int L = mc::pick(7, 8);
    std::string s;
    for (int k = 0; k < 3; k++) s += A[mc::choose(7)];
    mc::nontrivial();
    auto one = [&](const std::string& s) {
        for (int suffix = 0; suffix < 3; suffix++) {
            std::string rest = s + (suffix == 0 ? "\n}" : suffix == 1 ? "\"\n}" : "");
            std::string text = "fn f() {x=\"" + rest;
            bool accept = true, unspec = false;
            P want;
            try {
                StrRef r{rest, 0};
                want = r.lit();
                while (r.i < rest.size() && rest[r.i] == ' ') r.i++;
                if (rest.substr(r.i) != "\n}") unspec = true;
            } catch (Reject&) { accept = false; } catch (Unspec&) { unspec = true; }
            gParsed++;
            mc::step(1);
            Hooks hooks;
            Tokenizer tkr;
            tkr.setSourceInput(view(text));
            Parser parser;
            parser.tkr = &tkr;
            parser.hooks = &hooks;
            Owned<StatementBlock> file = parser.parseFile();
            if (unspec) continue;
            MC_CHECK(accept == hooks.errors.empty(), accept ? "an error is reported in: %s" : "no error is reported in: %s", text.c_str());
            if (!accept) continue;
            Conv c{tkr, text};
            P f = c.file(file);
            MC_CHECK(f->kids.size() == 1 && f->kids[0]->kids[0]->kids.size() == 1 && f->kids[0]->kids[0]->kids[0]->kind == "assign", "the tree %s is made of: %s", show(f).c_str(), text.c_str());
            P g = f->kids[0]->kids[0]->kids[0]->kids[1];
            zero(g);
            MC_CHECK(show(g) == show(want), "the string %s is read instead of %s from: %s", show(g).c_str(), show(want).c_str(), text.c_str());
        }
    };
    std::function<void()> rec = [&] {
        one(s);
        if ((int) s.size() == L - 1) return;
        for (const char* c = A; *c; c++) { s += *c; rec(); s.pop_back(); }
    };
    if (s == "aaa") for (auto t : {"", "a", "\\", "\"", "$", "\"\"", "$$", "\\$", "${"}) one(t);
    rec();
}
// Programs of every length around the places where the tokenizer's tables grow
static void scLengths() {
    int n = mc::choose(mc::pick(60, 200));
    int form = mc::choose(4);
    int shift = mc::choose(6);
    mc::nontrivial();
    Toks b;
    for (int i = 0; i < shift; i++) b.push_back(i % 2 ? ";" : "\n");
    for (int i = 0; i < n; i++) {
        std::string v = "v" + std::to_string(i * 7);
        switch (form) {
            case 0: b.insert(b.end(), {v, "=", v, "+", std::to_string(i), "\n"}); break;
            case 1: b.insert(b.end(), {"p", ".", v, "=", "g", "(", v, ",", "-", "1", ")", ";"}); break;
            case 2: b.insert(b.end(), {"if", v, "{", "return", v, "}", "else", "{", v, "=", "\"some ${ " + v + " } text that is rather long\"", "\n", "}"}); break;
            case 3: b.insert(b.end(), {"a", ";", "\n"}); break;
        }
    }
    check(Source(inFn(b)));
}
static void scNumbers() {
    int i = mc::choose(40);
    u32 v = i < 33 ? (u32) ((1ull << i) - 1) : (u32[]){7, 10, 99, 1000000000, 4294967294u, 4294967290u, 2147483648u}[i - 33];
    mc::nontrivial();
    check(Source(inFn({"x", "=", std::to_string(v), "\n"})));
    check(Source(inFn({"x", "=", "0" + std::to_string(v), "+", std::to_string(v), "\n"}), "  "));
}

MC_SCENARIOS = {
    {"bodies", scBodies, 0, "every sequence of tokens as the body of a function: accepted exactly if the grammar has it, and the tree made"},
    {"files", scFiles, 0, "every sequence of tokens as a file"},
    {"operators", scOperators, 0, "every sequence of operators with unary operators, postfixes and parentheses"},
    {"edits", scEdits, mc::LEAKS, "whole programs with tokens removed, replaced and inserted, and cut off"},
    {"strings", scStrings, 0, "every string literal of a few characters, with embedded expressions and escapes"},
    {"lengths", scLengths, mc::LEAKS, "programs of every length: the tree, and the place and text of each token read again"},
    {"numbers", scNumbers, 0, "numeric literals"},
    MC_END};
