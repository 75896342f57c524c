// Shared by the Crowbar harnesses: source text made of tokens, a reference parser (a plain grammar, one function per
// precedence level) and both parse trees written in the same notation.
#pragma once
#include "common.h"
#include <ply-crowbar/Core.h>
#include <ply-crowbar/Tokenizer.h>
#include <ply-crowbar/Parser.h>
#include <ply-crowbar/Interpreter.h>
#include <memory>
namespace crow {
using namespace ply;
using namespace ply::crowbar;
typedef std::vector<std::string> Toks;

struct Source {
    Toks toks;
    std::vector<u32> offs; // one more than toks: the end
    std::string text;
    Source(const Toks& t, const std::string& sep = " ") : toks(t) {
        for (auto& x : t) {
            offs.push_back((u32) text.size());
            text += x;
            text += sep;
        }
        offs.push_back((u32) text.size());
    }
};
struct Node;
typedef std::shared_ptr<Node> P;
struct Node {
    std::string kind, name;
    u32 num = 0;
    u32 off = 0;
    std::vector<P> kids;
    std::vector<std::string> pieces; // of a string: one literal before each kid, and one after the last
    Toks params;
};
inline P mk(const char* kind, u32 off) { P p = std::make_shared<Node>(); p->kind = kind; p->off = off; return p; }
inline std::string show(const P& p) {
    if (!p) return "null";
    std::string s = "(" + p->kind + "@" + std::to_string(p->off);
    if (!p->name.empty()) s += " " + p->name;
    if (p->kind == "int") s += " " + std::to_string(p->num);
    if (p->kind == "fn") { s += " ["; for (auto& x : p->params) s += x + " "; s += "]"; }
    if (p->kind == "str") {
        for (size_t i = 0; i < p->pieces.size(); i++) {
            s += " '" + p->pieces[i] + "'";
            if (i < p->kids.size()) s += " " + show(p->kids[i]);
        }
    } else {
        for (auto& k : p->kids) s += " " + show(k);
    }
    return s + ")";
}

struct Reject { u32 off; bool exact; };
struct Unspec {};
inline bool isKeyword(const std::string& s) { return s == "if" || s == "else" || s == "while" || s == "return" || s == "fn"; }
inline bool isIdent(const std::string& s) { return !s.empty() && (isalpha((u8) s[0]) || s[0] == '_' || (s[0] & 0x80)); }

// Strings with embedded expressions are given as one token, in which an embedded expression is again written in tokens
// separated by spaces.
struct Ref {
    const Source& src;
    size_t pos = 0;
    int depth = 1; // line ends count only if zero
    bool unspec = false; // something was accepted about which nothing is specified
    Ref(const Source& s) : src(s) {}
    const std::string& at(size_t i) { static std::string none; return i < src.toks.size() ? src.toks[i] : none; }
    const std::string& peek() {
        if (depth > 0) while (pos < src.toks.size() && src.toks[pos] == "\n") pos++;
        return at(pos);
    }
    u32 off() { peek(); return src.offs[pos]; }
    bool eat(const char* t) { if (peek() == t) { pos++; return true; } return false; }
    void need(const char* t) { if (!eat(t)) throw Reject{off(), true}; }
    struct Depth { int& d; int old; Depth(int& d, int v) : d(d), old(d) { d = v; } ~Depth() { d = old; } };

    P stringToken(const std::string& t, u32 o) {
        P p = mk("str", o);
        std::string lit;
        size_t i = 1;
        for (; i < t.size() && t[i] != '"';) {
            if (t[i] == '\\') { lit += t[i + 1]; i += 2; }
            else if (t[i] == '$' && t[i + 1] == '{') {
                size_t e = t.find('}', i);
                Toks inner;
                std::vector<u32> io;
                for (size_t k = i + 2; k < e;) {
                    if (t[k] == ' ') { k++; continue; }
                    size_t f = k;
                    while (f < e && t[f] != ' ') f++;
                    inner.push_back(t.substr(k, f - k));
                    io.push_back(o + (u32) k);
                    k = f;
                }
                Source s2(inner);
                io.push_back(o + (u32) e);
                s2.offs = io;
                Ref r2(s2);
                P ex = r2.expr();
                if (r2.pos != inner.size()) throw Reject{r2.off(), false};
                p->pieces.push_back(lit);
                lit = "";
                p->kids.push_back(ex);
                i = e + 1;
            } else lit += t[i++];
        }
        p->pieces.push_back(lit);
        return p;
    }
    P primary() {
        std::string t = peek();
        u32 o = off();
        if (t == "(") {
            pos++;
            P p;
            {
                Depth d(depth, depth + 1);
                p = expr();
                need(")");
            }
            return p;
        }
        if (isIdent(t)) {
            if (isKeyword(t)) throw Unspec{};
            pos++;
            P p = mk("name", o);
            p->name = t;
            return p;
        }
        if (!t.empty() && isdigit((u8) t[0])) {
            pos++;
            P p = mk("int", o);
            p->num = (u32) strtoul(t.c_str(), nullptr, 10);
            return p;
        }
        if (!t.empty() && t[0] == '"') { pos++; return stringToken(t, o); }
        throw Reject{o, true};
    }
    P postfix() {
        P p = primary();
        for (;;) {
            u32 o = off();
            if (peek() == "(") {
                pos++;
                P c = mk("call", o);
                c->kids.push_back(p);
                Depth d(depth, depth + 1);
                if (!eat(")"))
                    for (;;) {
                        c->kids.push_back(expr());
                        if (eat(")")) break;
                        need(",");
                    }
                p = c;
            } else if (peek() == ".") {
                pos++;
                if (!isIdent(peek())) throw Reject{off(), true};
                if (isKeyword(peek())) throw Unspec{};
                P c = mk("prop", off());
                c->name = peek();
                pos++;
                c->kids.push_back(p);
                p = c;
            } else return p;
        }
    }
    P unary() {
        const std::string& t = peek();
        if (t == "-" || t == "!" || t == "~") {
            P p = mk("unary", off());
            p->name = t;
            pos++;
            p->kids.push_back(unary());
            return p;
        }
        return postfix();
    }
    P level(size_t l) {
        static const std::vector<std::set<std::string>> levels = {{"||"}, {"&&"}, {"=="}, {"<", "<=", ">", ">="}, {"+", "-"}, {"*", "/", "%"}};
        if (l == levels.size()) return unary();
        P p = level(l + 1);
        for (;;) {
            const std::string& t = peek();
            if (t.empty() || !strchr("|&=<>+-*/%", t[0]) || !levels[l].count(t)) break;
            P b = mk("binary", off());
            b->name = t;
            pos++;
            b->kids.push_back(p);
            b->kids.push_back(level(l + 1));
            p = b;
        }
        return p;
    }
    P expr() { return level(0); }

    P body() {
        Depth d(depth, 1);
        if (peek() == "{") return block();
        if (peek() != "return") throw Reject{off(), false};
        Depth d0(depth, 0);
        P b = mk("block", 0);
        b->kids.push_back(statement());
        return b;
    }
    P block() {
        need("{");
        Depth d(depth, 0);
        P b = mk("block", 0);
        bool open = false; // the last statement needs no terminator
        for (;;) {
            const std::string& t = peek();
            if (t == "\n" || t == ";") { pos++; open = false; continue; }
            if (t == "}") { pos++; return b; }
            if (t.empty()) throw Reject{off(), true};
            if (open) unspec = true;
            b->kids.push_back(statement());
            const std::string& k = b->kids.back()->kind;
            open = k == "if" || k == "while" || k == "return";
        }
    }
    P statement() {
        std::string t = peek();
        u32 o = off();
        if (t == "if") {
            pos++;
            P s = mk("if", o);
            s->kids.push_back(expr());
            s->kids.push_back(body());
            size_t save = pos;
            Depth d(depth, 1);
            if (eat("else")) s->kids.push_back(body());
            else { if (save < pos) pos = save; s->kids.push_back(nullptr); }
            return s;
        }
        if (t == "while") {
            pos++;
            P s = mk("while", o);
            s->kids.push_back(expr());
            s->kids.push_back(body());
            return s;
        }
        if (t == "return") {
            pos++;
            P s = mk("return", o);
            s->kids.push_back(expr());
            return s;
        }
        if (isKeyword(t)) throw Unspec{};
        P e = expr();
        P s;
        if (peek() == "=") {
            if (e->kind != "name" && e->kind != "prop") unspec = true;
            pos++;
            s = mk("assign", o);
            s->kids = {e, expr()};
        } else {
            s = mk("eval", o);
            s->kids = {e};
        }
        if (peek() == "\n" || peek() == ";") pos++;
        else if (peek() != "}") throw Reject{off(), true};
        return s;
    }
    P file() {
        P f = mk("file", 0);
        while (!peek().empty()) {
            if (peek() != "fn") throw Reject{off(), true};
            pos++;
            if (!isIdent(peek())) throw Reject{off(), true};
            if (isKeyword(peek())) throw Unspec{};
            P fn = mk("fn", 0);
            fn->name = peek();
            pos++;
            need("(");
            if (!eat(")"))
                for (;;) {
                    if (!isIdent(peek())) throw Reject{off(), true};
                    if (isKeyword(peek())) throw Unspec{};
                    fn->params.push_back(peek());
                    pos++;
                    if (eat(")")) break;
                    need(",");
                }
            if (peek() != "{") throw Reject{off(), true};
            fn->kids.push_back(block());
            f->kids.push_back(fn);
        }
        return f;
    }
};

// The tree made by the library
struct Conv {
    Tokenizer& tkr;
    const std::string& text;
    std::string label(Label l) { return str(LabelMap::instance.view(l)); }
    u32 off(u32 tokenIdx) {
        ExpandedToken t = tkr.expandToken(tokenIdx);
        MC_CHECK(t.fileOffset < text.size(), "the location of a token, %u, is beyond the text", t.fileOffset);
        MC_CHECK(t.text.bytes == tkr.vin.start + t.fileOffset && t.text.numBytes > 0 && t.fileOffset + t.text.numBytes <= text.size(), "the text of a token at %u is not at its place, or ends at %d", t.fileOffset, (int) (t.fileOffset + t.text.numBytes));
        if (t.type == TokenType::Identifier) {
            std::string s = str(t.text), l = label(t.label);
            MC_CHECK(s.compare(0, l.size(), l) == 0 && s.find_first_of(";(){}=", l.size()) == std::string::npos, "the text of the name %s at %u is %s", l.c_str(), t.fileOffset, s.c_str());
        }
        return t.fileOffset;
    }
    P conv(const Expression* e) {
        if (!e) return nullptr;
        u32 o = off(e->tokenIdx);
        switch (e->id) {
            case Expression::ID::NameLookup: { P p = mk("name", o); p->name = label(e->nameLookup()->name); return p; }
            case Expression::ID::IntegerLiteral: { P p = mk("int", o); p->num = e->integerLiteral()->value; return p; }
            case Expression::ID::InterpolatedString: {
                P p = mk("str", o);
                bool open = true;
                p->pieces.push_back("");
                for (const auto& pc : e->interpolatedString()->pieces) {
                    p->pieces.back() += str(pc.literal);
                    if (pc.embed) { p->kids.push_back(conv(pc.embed)); p->pieces.push_back(""); }
                }
                (void) open;
                return p;
            }
            case Expression::ID::PropertyLookup: { P p = mk("prop", o); p->name = label(e->propertyLookup()->propertyName); p->kids = {conv(e->propertyLookup()->obj)}; return p; }
            case Expression::ID::BinaryOp: { P p = mk("binary", o); p->name = str(MethodTable::binaryOpToString(e->binaryOp()->op)); p->kids = {conv(e->binaryOp()->left), conv(e->binaryOp()->right)}; return p; }
            case Expression::ID::UnaryOp: { P p = mk("unary", o); p->name = str(MethodTable::unaryOpToString(e->unaryOp()->op)); p->kids = {conv(e->unaryOp()->expr)}; return p; }
            case Expression::ID::Call: {
                P p = mk("call", o);
                p->kids.push_back(conv(e->call()->callable));
                for (const Expression* a : e->call()->args) p->kids.push_back(conv(a));
                return p;
            }
            default: mc::fail("an expression of no kind");
        }
        return nullptr;
    }
    P conv(const StatementBlock* b) {
        if (!b) return nullptr;
        P p = mk("block", 0);
        for (const Statement* s : b->statements) p->kids.push_back(conv(s));
        return p;
    }
    P conv(const Statement* s) {
        switch (s->id) {
            case Statement::ID::If_: { P p = mk("if", off(s->tokenIdx)); p->kids = {conv(s->if_()->condition), conv((const StatementBlock*) s->if_()->trueBlock), conv((const StatementBlock*) s->if_()->falseBlock)}; return p; }
            case Statement::ID::While_: { P p = mk("while", off(s->tokenIdx)); p->kids = {conv(s->while_()->condition), conv((const StatementBlock*) s->while_()->block)}; return p; }
            case Statement::ID::Assignment: { P p = mk("assign", off(s->tokenIdx)); p->kids = {conv(s->assignment()->left), conv(s->assignment()->right)}; return p; }
            case Statement::ID::Evaluate: { P p = mk("eval", off(s->tokenIdx)); p->kids = {conv(s->evaluate()->expr)}; return p; }
            case Statement::ID::Return_: { P p = mk("return", off(s->tokenIdx)); p->kids = {conv(s->return_()->expr)}; return p; }
            case Statement::ID::FunctionDefinition: {
                P p = mk("fn", 0);
                p->name = label(s->functionDefinition()->name);
                for (Label l : s->functionDefinition()->parameterNames) p->params.push_back(label(l));
                p->kids = {conv((const StatementBlock*) s->functionDefinition()->body)};
                return p;
            }
            default: mc::fail("a statement of no kind");
        }
        return nullptr;
    }
    P file(const StatementBlock* b) { P p = conv(b); p->kind = "file"; return p; }
};

struct Hooks : Parser::Hooks {
    std::vector<std::string> errors;
    virtual void onError(StringView m) override { errors.push_back(str(m)); }
};
inline std::string where(const std::string& text, u32 off) {
    u32 line = 1, col = 1;
    for (u32 i = 0; i < off; i++) { if (text[i] == '\n') { line++; col = 1; } else col++; }
    return "(" + std::to_string(line) + ", " + std::to_string(col) + ")";
}
} // namespace crow
