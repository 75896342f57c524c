// The C++ parser on every short sequence of tokens, and on declarations written from a known tree.
#include "common.h"
#include <string>
#include <vector>
#include <ply-cpp/Core.h>
#include <ply-cpp/ParseAPI.h>
#include <ply-cpp/Parser.h>
#include <ply-cpp/Preprocessor.h>
#include <ply-cpp/ErrorFormatting.h>
#include <ply-cpp/ParseDeclarations.h>
#include <ply-reflect/TypeDescriptor_Def.h>
using namespace ply;


namespace g = cpp::grammar;
using Toks = std::vector<std::string>;

struct Ser { // writes trees down
    const cpp::PPVisitedFiles& vf;
    std::string t(const cpp::Token& tok) {
        if (!tok.isValid() || tok.type == cpp::Token::EndOfFile) return "";
        std::string s = str(tok.identifier);
        // The token's location leads to it
        auto it = vf.locationMap.findLastLessThan(tok.linearLoc + 1);
        MC_CHECK(it.isValid(), "the location %d of '%s' is unknown", (int) tok.linearLoc, s.c_str());
        const char* at = vf.sourceFiles[0].contents.bytes + (tok.linearLoc - it.getItem().linearLoc + it.getItem().offset);
        MC_CHECK(tok.identifier.bytes == at, "the location %d of '%s' is that of something else", (int) tok.linearLoc, s.c_str());
        return s;
    }
    std::string args(const Array<g::TemplateArgumentWithComma>& a) {
        std::string s;
        for (auto& x : a) {
            if (auto ty = x.type.typeID()) s += "T" + specs(ty->declSpecifierSeq) + prod(ty->abstractDcor);
            else s += "?" + t(x.type.unknown()->startToken);
            s += t(x.comma);
        }
        return s;
    }
    std::string comps(const Array<g::NestedNameComponent>& n) {
        std::string s;
        for (auto& c : n) {
            if (auto id = c.type.identifierOrTemplated()) s += t(id->name) + t(id->openAngled) + args(id->args) + t(id->closeAngled);
            else s += t(c.type.declType()->keyword) + t(c.type.declType()->openParen) + t(c.type.declType()->closeParen);
            s += t(c.sep);
        }
        return s;
    }
    std::string qid(const g::QualifiedID& q) {
        std::string s = comps(q.nestedName);
        if (auto x = q.unqual.identifier()) s += t(x->name);
        else if (auto x = q.unqual.templateID()) s += t(x->name) + t(x->openAngled) + args(x->args) + t(x->closeAngled);
        else if (auto x = q.unqual.declType()) s += t(x->keyword) + t(x->openParen) + t(x->closeParen);
        else if (auto x = q.unqual.destructor()) s += t(x->tilde) + t(x->name);
        else if (auto x = q.unqual.operatorFunc()) s += t(x->keyword) + t(x->punc) + t(x->punc2);
        else if (auto x = q.unqual.conversionFunc()) s += t(x->keyword) + specs(x->declSpecifierSeq) + prod(x->abstractDcor);
        return s;
    }
    std::string init(const g::Initializer& i) {
        if (auto x = i.assignment()) {
            std::string s = "I=" + t(x->equalSign);
            if (auto e = x->type.expression()) s += "E" + t(e->start) + ".." + t(e->end);
            else s += "T" + specs(x->type.typeID()->declSpecifierSeq) + prod(x->type.typeID()->abstractDcor);
            return s;
        }
        if (auto x = i.functionBody()) return "I" + t(x->colon) + t(x->openCurly) + t(x->closeCurly);
        if (auto x = i.bitField()) return "I" + t(x->colon) + t(x->expressionStart) + ".." + t(x->expressionEnd);
        return "";
    }
    std::string params(const g::ParamDeclarationList& l) {
        std::string s = t(l.openPunc);
        for (auto& p : l.params) s += "P" + specs(p.declSpecifierSeq) + dcor(p.dcor) + init(p.init) + t(p.comma);
        return s + t(l.closePunc);
    }
    std::string prod(const g::DeclaratorProduction* p) {
        std::string s = "D";
        for (; p; p = p->target) {
            if (auto x = p->type.pointerTo()) s += comps(x->nestedName) + t(x->punc);
            else if (auto x = p->type.arrayOf()) s += t(x->openSquare) + t(x->closeSquare);
            else if (auto x = p->type.qualifier()) s += t(x->keyword);
            else if (auto x = p->type.function()) {
                s += params(x->params);
                for (auto& q : x->qualifiers.tokens) s += t(q);
                s += t(x->arrow) + qid(x->trailingRetType);
            } else s += t(p->type.parenthesized()->openParen) + t(p->type.parenthesized()->closeParen);
            s += ".";
        }
        return s;
    }
    std::string dcor(const g::Declarator& d) { return prod(d.prod) + "N" + qid(d.qid); }
    std::string specs(const Array<Owned<g::DeclSpecifier>>& v) {
        std::string s = "S";
        for (const g::DeclSpecifier* d : v) {
            if (auto x = d->keyword()) s += t(x->token);
            else if (auto x = d->langLinkage()) s += t(x->extern_) + t(x->literal);
            else if (auto x = d->record()) {
                s += t(x->classKey) + "'" + qid(x->qid);
                for (auto& f : x->virtSpecifiers) s += t(f);
                s += t(x->colon);
                for (auto& b : x->baseSpecifierList) s += t(b.accessSpec) + "'" + qid(b.baseQid) + t(b.comma);
                s += t(x->openCurly) + list(x->visor_decls) + t(x->closeCurly);
            } else if (auto x = d->enum_()) {
                s += t(x->enumKey) + t(x->classKey) + "'" + qid(x->qid) + t(x->basePunc) + qid(x->base) + t(x->openCurly);
                for (const g::InitEnumeratorWithComma* e : x->enumerators) s += t(e->identifier) + init(e->init) + t(e->comma);
                s += t(x->closeCurly);
            } else if (auto x = d->typeID()) s += t(x->typename_) + "'" + qid(x->qid);
            else if (auto x = d->typeParam()) s += t(x->keyword) + t(x->ellipsis) + "'" + t(x->identifier);
            else s += t(d->ellipsis()->ellipsisToken);
            s += ",";
        }
        return s;
    }
    std::string simple(const g::Declaration::Simple& d) {
        std::string s = specs(d.declSpecifierSeq);
        for (auto& i : d.initDeclarators) s += dcor(i.dcor) + init(i.init) + t(i.comma);
        return s + t(d.semicolon);
    }
    std::string decl(const g::Declaration& d) {
        if (auto x = d.namespace_()) return t(x->keyword) + "'" + qid(x->qid) + t(x->openCurly) + list(x->visor_decls) + t(x->closeCurly);
        if (auto x = d.template_()) return t(x->keyword) + params(x->params) + decl(*x->visor_decl);
        if (auto x = d.simple()) return simple(*x.operator->());
        if (auto x = d.accessSpecifier()) return t(x->keyword) + t(x->colon);
        if (auto x = d.staticAssert()) return t(x->keyword) + t(x->argList.openParen) + t(x->argList.closeParen) + t(x->semicolon);
        if (auto x = d.usingDirective()) return t(x->using_) + t(x->namespace_) + "'" + qid(x->qid) + t(x->semicolon);
        if (auto x = d.alias()) return t(x->using_) + t(x->name) + t(x->equals) + specs(x->declSpecifierSeq) + dcor(x->dcor) + t(x->semicolon);
        if (auto x = d.linkage()) return t(x->extern_) + t(x->literal) + t(x->openCurly) + list(x->visor_decls) + t(x->closeCurly);
        return "";
    }
    std::string list(const Array<g::Declaration>& v) {
        std::string s;
        for (auto& d : v) {
            std::string x = decl(d);
            if (!x.empty()) s += "{" + x + "}"; // Empty declarations don't count
        }
        return s;
    }
};
struct Visor : cpp::ParseSupervisor {
    cpp::PPVisitedFiles* vf;
    std::vector<std::string> errors;
    std::string scopes; // of declarations
    u32 depth = 0;
    virtual void enter(AnyObject) override { depth++; }
    virtual void exit(AnyObject) override {
        MC_CHECK(depth > 0, "a scope is left that wasn't entered");
        depth--;
    }
    virtual void onGotDeclaration(const g::Declaration& d) override {
        if (d.simple()) scopes += str(getClassName()) + "," + str(getClassName("/", false)) + "," + str(getNamespacePrefix()) + ";";
    }
    virtual void onGotEnumerator(const g::InitEnumeratorWithComma* e) override {
        scopes += str(e->identifier.identifier) + "@" + str(getClassName()) + ";";
    }
    virtual bool handleError(Owned<cpp::BaseError>&& err) override {
        MemOutStream mout;
        err->writeMessage(&mout, vf);
        String s = mout.moveToString();
        MC_CHECK(s.endsWith("\n"), "an error's message is \"%s\"", str(s).c_str());
        errors.push_back(str(s));
        MC_CHECK(errors.size() < 1000, "there's no end of errors");
        return true;
    }
};
struct Result {
    std::vector<std::string> errors;
    std::string tree, scopes;
};
static Result parse(const std::string& src, bool dump) {
    cpp::PPVisitedFiles vf;
    Visor visor;
    visor.vf = &vf;
    auto tu = cpp::parse(String{view(src)}, &vf, {}, {}, &visor);
    MC_CHECK(visor.depth == 0, "%u scopes aren't left at the end of: %s", visor.depth, src.c_str());
    mc::step(1);
    Result r;
    r.errors = visor.errors;
    r.scopes = visor.scopes;
    if (dump) {
        r.tree = Ser{vf}.list(tu.visor_decls);
        MemOutStream mout;
        cpp::dumpParseTree(&mout, AnyObject::bind(&tu), 0, &vf);
    }
    return r;
}
static std::string join(const Toks& t) {
    std::string s;
    for (auto& x : t) s += x + (x.back() == '\n' ? "" : " ");
    return s;
}
static Toks words(const char* s) {
    Toks t;
    std::string cur;
    for (; *s; s++) {
        if (*s == ' ') {
            if (!cur.empty()) t.push_back(cur);
            cur.clear();
        } else cur += *s;
    }
    if (!cur.empty()) t.push_back(cur);
    return t;
}
static const Toks& vocab() {
    static const Toks v = [] {
        Toks t = words("class struct enum namespace template using extern static_assert friend virtual const typename operator ~ auto x A 1 \"s\" ; : :: , < > ( ) { } [ ] * & && = -> ... noexcept override default union typedef static public decltype alignas + >>");
        t.push_back("#x\n");
        t.push_back("/*c*/");
        return t;
    }();
    return v;
}
static void sequences() {
    Toks t;
    u32 n = mc::choose(mc::pick(3, 4));
    for (u32 i = 0; i < n; i++) t.push_back(vocab()[mc::choose(vocab().size())]);
    for (u32 i = 0; i < vocab().size(); i++) {
        Toks u = t;
        u.push_back(vocab()[i]);
        Result r = parse(join(u), false);
        mc::state(std::hash<std::string>()(r.errors.empty() ? "" : r.errors[0]));
    }
}


// A piece of a program, and how it's written down
struct G {
    Toks t;
    std::string s, scopes;
};
static G operator+(G a, const G& b) {
    a.t.insert(a.t.end(), b.t.begin(), b.t.end());
    a.s += b.s;
    a.scopes += b.scopes;
    return a;
}
static G tk(const char* w) { return {words(w), [&] { std::string s; for (auto& x : words(w)) s += x; return s; }(), ""}; }
static G lit(const char* s) { return {{}, s, ""}; }            // only written down
static G hidden(const char* w) { return {words(w), "", ""}; } // not written down

static bool gUnnamed; // scopes without names are in the program, what they're called is unspecified
static std::vector<std::string> gScope; // "N" + namespace or "R" + record
static G scoped() {
    std::string full, rec, ns;
    bool inNs = true;
    for (auto& x : gScope) {
        full += (full.empty() ? "" : "::") + x.substr(1);
        if (x[0] == 'R') { rec += (rec.empty() ? "" : "/") + x.substr(1); inNs = false; }
        else if (inNs) ns += x.substr(1) + "::";
    }
    return {{}, "", full + "," + rec + "," + ns + ";"};
}
static G simpleType(u32 k) {
    switch (k) {
        case 0: return tk("int");
        case 1: return tk("A :: B");
        case 2: return tk("V <") + lit("TS'int,D") + hidden("int") + tk(">");
        case 3: return tk("M <") + lit("TSconst,'A,D") + hidden("const A") + tk(",") + lit("?3") + hidden("3") + tk("> :: C");
        default: return tk("V <") + lit("TS'V<TS'int,D*.>,D") + hidden("V < int * >") + tk(">");
    }
}
enum { nTypes = 5 };
// The specifiers of a type
static G type(u32 k) {
    if (k < nTypes) return lit("S'") + simpleType(k) + lit(",");
    if (k == nTypes) return lit("S") + tk("const") + lit(",'") + tk("int") + lit(",");
    if (k == nTypes + 1) return lit("S'") + tk("int") + lit(",") + tk("const") + lit(",");
    if (k == nTypes + 2) return lit("S") + tk("typename") + lit("'") + tk("A :: B") + lit(",");
    return lit("S'") + hidden("decltype ( a < b )") + lit("decltype(),");
}
enum { nSpecs = nTypes + 4 };
// Operators before the name; written down from the last to the first
static G ptrs(u32 k, std::string& chain) {
    switch (k) {
        case 0: return {};
        case 1: chain = "*."; return hidden("*");
        case 2: chain = "&."; return hidden("&");
        case 3: chain = "&&."; return hidden("&&");
        case 4: chain = "const.*."; return hidden("* const");
        case 5: chain = "&.*."; return hidden("* &");
        default: chain = "A::*."; return hidden("A :: *");
    }
}
enum { nPtrs = 7 };
static G param(u32 k) {
    switch (k) {
        case 0: return lit("P") + type(0) + lit("DN");
        case 1: return lit("PS'A::B,D*.N") + hidden("A :: B *") + tk("p");
        case 2: return lit("P") + type(2) + lit("DN") + tk("q") + lit("I=") + tk("=") + lit("E1..1") + hidden("1");
        case 3: return lit("PS'int,D[].Nr") + hidden("int r [ 3 ]");
        case 4: return lit("PS...,DN") + hidden("...");
        default: return lit("PS'int,D(PS'char,DN).Nf") + hidden("int f ( char )");
    }
}
enum { nParams = 6 };
static G params(u32 k) { // 0 to 2 parameters
    if (!k) return tk("( )");
    if (k <= nParams) return tk("(") + param(k - 1) + tk(")");
    k -= nParams + 1;
    u32 a = k / nParams;
    if (a == 4) a = 0; // ... is the last one
    return tk("(") + param(a) + tk(",") + param(k % nParams) + tk(")");
}
enum { nParamLists = 1 + nParams + nParams * nParams };
static G expr(u32 k) { // first and last token
    switch (k) {
        case 0: return lit("1..1") + hidden("1");
        case 1: return lit("a..b") + hidden("a + b");
        case 2: return lit("f..)") + hidden("f ( 1 , x )");
        case 3: return lit("-..2") + hidden("- 1 * 2");
        case 4: return lit("\"s\"..\"t\"") + hidden("\"s\" \"t\"");
        case 5: return lit("a..3") + hidden("a ? 2 : 3");
        case 6: return lit("{..}") + hidden("{ 1 , { 2 } , }");
        default: return lit("[..}") + hidden("[ ] ( int x ) { return x ; }");
    }
}
enum { nExprs = 8 };
static G initializer(u32 k) {
    if (k == 0) return {};
    if (k <= nExprs) return lit("I=") + tk("=") + lit("E") + expr(k - 1);
    if (k == nExprs + 1) return lit("I=E..") + hidden("{ 1 , 2 }");
    return lit("I") + tk(":") + expr(0);
}
enum { nInits = nExprs + 3 };
static G variable(u32 p, const char* name, u32 suffix, u32 init) {
    std::string chain;
    G g = ptrs(p, chain);
    static const char* suf[] = {"", "[ 3 ]", "[ ]", "[ 2 ] [ n + 1 ]"};
    static const char* sufS[] = {"", "[].", "[].", "[].[]."};
    g = g + lit(("D" + std::string(sufS[suffix]) + chain + "N" + name).c_str()) + hidden(name) + hidden(suf[suffix]);
    return g + initializer(init);
}
static G function(u32 p, const G& name, u32 pl, u32 quals, u32 body) {
    std::string chain;
    G g = ptrs(p, chain);
    G par = params(pl);
    static const char* q[] = {"", "const", "const override", "&&"};
    static const char* qs[] = {"", "const", "constoverride", "&&"};
    g = g + lit(("D" + par.s + qs[quals] + "." + chain + "N" + name.s).c_str());
    g.t.insert(g.t.end(), name.t.begin(), name.t.end());
    g.t.insert(g.t.end(), par.t.begin(), par.t.end());
    g = g + hidden(q[quals]);
    switch (body) {
        case 0: return g + tk(";");
        case 1: return g + lit("I{}") + hidden("{ if ( a < b ) { c ( ) ; } }");
        case 2: return g + lit("I==E..") + hidden("= default") + tk(";");
        case 3: return g + lit("I==E..") + hidden("= 0") + tk(";");
        default: return g + lit("I:{}") + hidden(": a ( 1 ) , B < int > { 2 } { }");
    }
}
static G decls(u32 depth, const std::string& cls);
static G decl(u32 depth, const std::string& cls);
static u32 pickOne(u32 n) { return mc::choose(n); }
static G body(u32 depth, const std::string& cls, const char* open, const std::string& scope) {
    gScope.push_back(scope);
    G g = tk(open) + decls(depth, cls) + tk("}");
    gScope.pop_back();
    return g;
}
static G record(u32 depth) {
    static const char* keys[] = {"struct", "class", "union"};
    u32 k = pickOne(3);
    G g = lit("S") + tk(keys[k]) + lit("'") + tk("R");
    u32 b = pickOne(4);
    if (b == 1) g = g + tk("final");
    if (b == 2) g = g + tk(":") + lit("'") + tk("A :: B");
    if (b == 3) g = g + tk("final :") + tk("public") + lit("'") + tk("A") + tk(",") + lit("'") + tk("V <") + lit("TS'int,D") + hidden("int") + tk("> ,") + tk("private") + lit("'") + tk("C");
    return g + body(depth, "R", "{", "RR") + lit(",");
}
static G enumeration() {
    u32 k = pickOne(3);
    G g = lit("S") + tk(k == 1 ? "enum class" : "enum") + lit("'");
    if (k != 2) g = g + tk("E");
    if (k == 1) g = g + tk(": u8");
    g = g + tk("{");
    u32 n = pickOne(3);
    gUnnamed |= k == 2;
    gScope.push_back(k == 2 ? "R" : "RE");
    std::string full = scoped().scopes;
    full = full.substr(0, full.find(','));
    for (u32 i = 0; i < n; i++) {
        g = g + tk(i ? "f" : "e");
        if (i == pickOne(2)) g = g + lit("I=") + tk("=") + lit("E") + expr(pickOne(3));
        g.scopes += std::string(i ? "f" : "e") + "@" + full + ";";
        if (i + 1 < n || pickOne(2)) g = g + tk(",");
    }
    gScope.pop_back();
    return g + tk("}") + lit(",");
}
static G templateParams(u32 k) {
    switch (k) {
        case 0: return tk("< >");
        case 1: return tk("<") + lit("P") + lit("S") + tk("typename") + lit("'") + tk("T") + lit(",DNT") + tk(">");
        case 2: return tk("<") + lit("PS'int,DN") + hidden("int") + tk("N") + lit("I=") + tk("=") + lit("E4..4") + hidden("4") + tk(">");
        case 3: return tk("<") + lit("PStypename...'T,DNT") + hidden("typename ... T") + tk(">");
        default: return tk("<") + lit("PStypename'T,DNTI==TS'V<TS'int,D>,D") + hidden("typename T = V < int >") + tk(",") + lit("PS'A::B,D*.Np") + hidden("A :: B * p") + tk(">");
    }
}
static G decl(u32 depth, const std::string& cls) {
    u32 k = pickOne(depth ? 16 : 12);
    G here = scoped();
    auto S = [&](G g) { return g + here; };
    switch (k) {
        case 0: return S(type(pickOne(nSpecs)) + variable(pickOne(nPtrs), "x", 0, 0) + tk(";"));
        case 1: return S(type(0) + variable(0, "x", pickOne(4), pickOne(nInits)) + tk(";"));
        case 2: return S(lit("S") + tk("static") + lit(",'") + tk("int") + lit(",") + variable(pickOne(nPtrs), "x", 0, 1) + tk(",") + variable(pickOne(nPtrs), "y", pickOne(2), 0) + tk(";"));
        case 3: return S(type(pickOne(nSpecs)) + function(pickOne(nPtrs), tk("f"), 0, 0, pickOne(2)));
        case 4: return S(type(0) + function(0, pickOne(2) ? tk("f") : tk("A :: f"), pickOne(nParamLists), pickOne(4), pickOne(4)));
        case 5: {
            static const char* ops[] = {"operator +", "operator [ ]", "operator ( )", "operator ->", "operator ==", "operator <<", "operator ++", "operator *", "operator ="};
            return S(type(0) + function(0, tk(ops[pickOne(9)]), 1, 0, pickOne(2)));
        }
        case 6: // constructors and destructors
            if (!cls.empty()) {
                if (pickOne(2)) return S(lit("S") + function(0, tk(("~ " + cls).c_str()), 0, 0, pickOne(3)));
                static const u32 bodies[] = {0, 1, 2, 4};
                return S(lit("S") + function(0, tk(cls.c_str()), pickOne(4), 0, bodies[pickOne(4)]));
            }
            return S(lit("S") + function(0, tk(pickOne(2) ? "A :: ~ A" : "A :: A"), pickOne(2), 0, 1 + 3 * 0));
        case 7: { // conversions
            if (cls.empty()) return S(type(0) + variable(0, "z", 0, 0) + tk(";"));
            std::string chain;
            u32 p = pickOne(3);
            G ops = ptrs(p, chain);
            G nm = tk("operator") + type(pickOne(nTypes)) + lit(("D" + chain).c_str());
            nm.t.insert(nm.t.end(), ops.t.begin(), ops.t.end());
            return S(lit("S") + function(0, nm, 0, pickOne(2), pickOne(2)));
        }
        case 8: {
            static const char* use[] = {"using T =", "using namespace", "static_assert (", "public :"};
            u32 u = pickOne(4);
            if (u == 0) {
                std::string chain;
                G sp = type(pickOne(nTypes));
                G p = ptrs(pickOne(nPtrs), chain);
                return tk(use[0]) + sp + lit(("D" + chain + "N").c_str()) + p + tk(";");
            }
            if (u == 1) return tk("using namespace") + lit("'") + tk("A :: B ;");
            if (u == 2) return tk("static_assert (") + hidden("a < b && ( c || d ) , \"s\"") + tk(") ;");
            return cls.empty() ? hidden(";") : tk("public :");
        }
        case 9: return S(enumeration() + (pickOne(2) ? variable(0, "x", 0, 0) + tk(";") : hidden(";")));
        case 10: { // extern
            u32 e = pickOne(2);
            G g = e ? lit("S") + tk("extern \"C\"") + lit(",") : lit("S") + tk("extern") + lit(",");
            g = g + lit("'") + tk("int") + lit(",");
            return S(g + (pickOne(2) ? variable(pickOne(3), "x", 0, 0) + tk(";") : function(0, tk("f"), pickOne(3), 0, 0)));
        }
        case 11: return S(lit("S") + tk("friend") + lit(",") + tk("class") + lit("'") + tk("F") + lit(",") + hidden(";"));
        case 12: {
            G g = record(depth - 1);
            return S(g + (pickOne(2) ? variable(pickOne(2), "x", 0, 0) + tk(";") : hidden(";")));
        }
        case 13: {
            u32 n = pickOne(2); // namespaces without names are declarations without names
            G g = tk("namespace") + lit("'");
            if (n) g = g + tk("N");
            else gUnnamed = true;
            return g + body(depth - 1, "", "{", n ? "NN" : "N");
        }
        case 14: return tk("extern \"C\" {") + decls(depth - 1, "") + tk("}");
        default: {
            G g = tk("template") + templateParams(pickOne(5));
            G d;
            static const u32 kinds = 3;
            switch (pickOne(kinds)) {
                case 0: d = S(type(2) + function(0, tk("f"), 1, 0, pickOne(2))); break;
                case 1: d = S(record(depth - 1) + hidden(";")); break;
                default: d = tk("using T =") + type(2) + lit("D*.N") + hidden("*") + tk(";"); break;
            }
            return g + d;
        }
    }
}
static G decls(u32 depth, const std::string& cls) {
    G g;
    u32 n = pickOne(depth ? 2 : 2);
    for (u32 i = 0; i < n; i++) {
        G d = decl(depth, cls);
        if (!d.s.empty()) d.s = "{" + d.s + "}";
        g = g + d;
    }
    return g;
}
static bool idc(char c) { return isalnum((unsigned char) c) || c == '_' || c == '"'; }
static std::string layout(const Toks& t, u32 k) {
    std::string s = k == 4 ? "#if X\n" : "";
    for (u32 i = 0; i < t.size(); i++) {
        s += t[i];
        switch (k) {
            case 0: s += " "; break;
            case 1: s += "\n"; break;
            case 2: s += "/* c <( */"; break;
            case 3: s += " // c {\n\t"; break;
            case 4: s += i % 3 == 0 ? "\n#define X } \\\n {\n" : " "; break;
            default: // as little as possible
                if (i + 1 < t.size()) {
                    char a = t[i].back(), b = t[i + 1][0];
                    if ((idc(a) && idc(b)) || (ispunct((unsigned char) a) && ispunct((unsigned char) b) && !strchr("(){};,", a) && !strchr("(){};,", b))) s += " ";
                }
        }
    }
    return s;
}
static void check(const G& g, u32 step = 1) {
    u64 h = std::hash<std::string>()(g.s);
    mc::state(h);
    if (!gUnnamed) mc::nontrivial();
    for (u32 k = 0; k < 6; k += step) {
        std::string src = layout(g.t, k);
        Result r = parse(src, true);
        MC_CHECK(r.errors.empty(), "\"%s\" is reported in: %s", r.errors[0].c_str(), src.c_str());
        MC_CHECK(r.tree == g.s, "the tree is\n%s instead of\n%s for: %s", r.tree.c_str(), g.s.c_str(), src.c_str());
        MC_CHECK(gUnnamed || r.scopes == g.scopes, "declarations are in %s instead of %s in: %s", r.scopes.c_str(), g.scopes.c_str(), src.c_str());
    }
}
static void declarations() {
    gScope.clear();
    gUnnamed = false;
    bool nested = mc::choose(2);
    G g = decl(nested ? mc::pick(1, 2) : 0, "");
    if (!g.s.empty()) g.s = "{" + g.s + "}";
    check(g, nested && !mc::tier() ? 5 : 1);
}
static void pairs() {
    gScope.clear();
    gUnnamed = false;
    static const char* firsts[] = {"int x ;", "void f ( ) { }", "struct R { } ;", "enum { e } ;", "using namespace N ;", ";", "template < typename T > struct R { int y ; } ;", "namespace N { }", "extern \"C\" { }"};
    u32 f = mc::choose(9);
    Result r = parse(join(words(firsts[f])), true);
    MC_CHECK(r.errors.empty(), "\"%s\" is reported in: %s", r.errors[0].c_str(), firsts[f]);
    G g = decl(mc::pick(0, 1), "");
    if (!g.s.empty()) g.s = "{" + g.s + "}";
    G first{words(firsts[f]), r.tree, r.scopes};
    check(first + g, 5);
    check(g + first, 5);
}
static void damaged() {
    gScope.clear();
    gUnnamed = false;
    G g = decl(mc::pick(0, 1), "");
    for (u32 i = 0; i <= g.t.size(); i++) {
        Toks u = g.t;
        if (i < u.size()) {
            u.erase(u.begin() + i);
            parse(join(u), true);
        }
        for (auto& v : vocab()) {
            if (i < g.t.size()) {
                u = g.t;
                u[i] = v;
                parse(join(u), false);
            }
            if (mc::tier() && i < g.t.size() + 1) {
                u = g.t;
                u.insert(u.begin() + i, v);
                parse(join(u), false);
            }
        }
    }
    mc::state(std::hash<std::string>()(g.s));
}
static void inside() { // token sequences in every kind of place
    static const char* ctxs[] = {"class A {", "template <", "void f (", "enum E {", "int a =", "x <", "A :: A ( ) :", "class A :", "class A { A (", "class A { template < x >", "operator", "typename", "x [", "x = [ ] (", "A < B >", "x ( *", "template < template <"};
    Toks t = words(ctxs[mc::choose(sizeof ctxs / sizeof *ctxs)]);
    u32 n = mc::choose(mc::pick(2, 3));
    for (u32 i = 0; i < n; i++) t.push_back(vocab()[mc::choose(vocab().size())]);
    for (u32 i = 0; i < vocab().size(); i++) {
        Toks u = t;
        u.push_back(vocab()[i]);
        Result r = parse(join(u), true);
        mc::state(std::hash<std::string>()(r.tree));
    }
}
static void api() {
    // Without a supervisor, errors are dropped
    static const char* srcs[] = {"int x;", "int x", "}", "\"", "A::", ""};
    cpp::PPVisitedFiles vf;
    const char* src = srcs[mc::choose(6)];
    auto tu = cpp::parse(String{StringView{src}}, &vf);
    // A single declaration
    auto res = cpp::parseSimpleDeclaration(StringView{src}, 100);
    for (const cpp::BaseError* e : res.second) MC_CHECK(e, "a null error is returned");
    if (!strcmp(src, "int x;")) {
        MC_CHECK(res.second.isEmpty() && res.first.initDeclarators.numItems() == 1, "int x; isn't parsed");
        MC_CHECK(res.first.initDeclarators[0].dcor.qid.unqual.identifier()->name.linearLoc == 104, "x is at %d", res.first.initDeclarators[0].dcor.qid.unqual.identifier()->name.linearLoc);
    }
    mc::step(1);
}

MC_SCENARIOS = {{"token sequences", sequences, mc::LEAKS, "every short sequence of tokens"},
                {"token sequences inside declarations", inside, mc::LEAKS, "every short sequence of tokens after the start of a class, parameter list, expression and so on"},
                {"declarations", declarations, mc::LEAKS, "declarations written from a tree, in six layouts"},
                {"pairs of declarations", pairs, mc::LEAKS, "every small declaration before and after one of each kind"},
                {"damaged declarations", damaged, mc::LEAKS, "declarations with one token removed or replaced by any other"},
                {"interface", api, mc::LEAKS, "parsing without a supervisor, and of a single declaration"},
                MC_END};
