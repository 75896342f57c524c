// Crowbar's interpreter against a plain evaluator of the same program.
// uses exceptions
#include <functional>
#include "crowtest.h"
#include <ply-runtime/algorithm/Find.h>
#include <ply-reflect/builtin/TypeDescriptor_Function.h>
#include <ply-reflect/methods/BaseInterpreter.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
// The tokenizer reserves a gigabyte of addresses each time. This keeps AddressSanitizer from clearing its shadow of it.
extern "C" void* mmap(void* a, size_t n, int p, int f, int fd, off_t o) { return (void*) syscall(SYS_mmap, a, n, p, f, fd, o); }
extern "C" void* mmap64(void* a, size_t n, int p, int f, int fd, off_t o) { return (void*) syscall(SYS_mmap, a, n, p, f, fd, o); }
extern "C" int munmap(void* a, size_t n) { return (int) syscall(SYS_munmap, a, n); }
using namespace crow;

struct Obj {
    String name;
    u32 value = 0;
    bool flag = false;
    PLY_REFLECT()
};
#include <ply-reflect/TypeDescriptor_Def.h>
PLY_STRUCT_BEGIN(Obj) PLY_STRUCT_MEMBER(name) PLY_STRUCT_MEMBER(value) PLY_STRUCT_MEMBER(flag) PLY_STRUCT_END()

//---- the plain evaluator
struct V {
    enum T { None, Int, Bool, Str, Fn, Object } t = None;
    u32 i = 0;
    bool b = false;
    std::string s;
    P fn;
    struct O* o = nullptr; // properties, by reference
    static V num(u32 i) { V v; v.t = Int; v.i = i; return v; }
    static V boolean(bool b) { V v; v.t = Bool; v.b = b; return v; }
    static V str(const std::string& s) { V v; v.t = Str; v.s = s; return v; }
};
struct O { std::string name; u32 value = 0; bool flag = false; };
struct RunError {};
struct TooLong {};
struct Eval {
    P file;
    O obj;
    std::string out;
    u64 steps = 0;
    typedef std::map<std::string, V> Frame;
    P find(const std::string& n) { P r; for (auto& f : file->kids) if (f->name == n) r = f; return r; }
    static std::string text(const V& v) {
        if (v.t == V::Int) return std::to_string(v.i);
        if (v.t == V::Bool) return v.b ? "true" : "false";
        if (v.t == V::Str) return v.s;
        throw RunError{};
    }
    V value(const P& e, Frame& f) { V v = eval(e, f); if (v.t == V::None) throw RunError{}; return v; }
    V eval(const P& e, Frame& f) {
        if (++steps > 3000) throw TooLong{};
        if (e->kind == "int") return V::num(e->num);
        if (e->kind == "str") {
            std::string s = e->pieces[0];
            for (size_t i = 0; i < e->kids.size(); i++) s += text(value(e->kids[i], f)) + e->pieces[i + 1];
            return V::str(s);
        }
        if (e->kind == "name") {
            auto it = f.find(e->name);
            if (it != f.end()) return it->second;
            if (P fn = find(e->name)) { V v; v.t = V::Fn; v.fn = fn; return v; }
            if (e->name == "true" || e->name == "false") return V::boolean(e->name == "true");
            if (e->name == "print") { V v; v.t = V::Fn; return v; }
            throw RunError{};
        }
        if (e->kind == "prop") {
            V o = value(e->kids[0], f);
            if (o.t != V::Object) throw RunError{};
            if (e->name == "name") return V::str(o.o->name);
            if (e->name == "value") return V::num(o.o->value);
            if (e->name == "flag") return V::boolean(o.o->flag);
            throw RunError{};
        }
        if (e->kind == "unary") {
            V v = value(e->kids[0], f);
            if (v.t == V::Int) return V::num(e->name == "-" ? 0u - v.i : e->name == "!" ? !v.i : ~v.i);
            if (v.t == V::Bool && e->name == "!") return V::boolean(!v.b);
            throw RunError{};
        }
        if (e->kind == "binary") {
            const std::string& o = e->name;
            V a = value(e->kids[0], f), b;
            if (a.t == V::Bool && ((o == "&&" && !a.b) || (o == "||" && a.b))) {
                // Whether the right operand is evaluated is not specified
                try { b = value(e->kids[1], f); } catch (RunError&) { throw TooLong{}; }
                if (b.t != V::Bool) throw TooLong{};
            } else b = value(e->kids[1], f);
            if (a.t == V::Int && b.t == V::Int) {
                if (o == "+") return V::num(a.i + b.i);
                if (o == "-") return V::num(a.i - b.i);
                if (o == "*") return V::num(a.i * b.i);
                if (o == "/" || o == "%") { if (!b.i) throw RunError{}; return V::num(o == "/" ? a.i / b.i : a.i % b.i); }
                if (o == "==") return V::boolean(a.i == b.i);
                if (o == "<") return V::boolean(a.i < b.i);
                if (o == "<=") return V::boolean(a.i <= b.i);
                if (o == ">") return V::boolean(a.i > b.i);
                if (o == ">=") return V::boolean(a.i >= b.i);
            }
            if (a.t == V::Bool && b.t == V::Bool) {
                if (o == "==") return V::boolean(a.b == b.b);
                if (o == "&&") return V::boolean(a.b && b.b);
                if (o == "||") return V::boolean(a.b || b.b);
            }
            if (a.t == V::Str && b.t == V::Str && o == "+") return V::str(a.s + b.s);
            if (a.t == V::Str && b.t == V::Int && o == "*") { std::string s; if (b.i > 1000) throw TooLong{}; for (u32 k = 0; k < b.i; k++) { s += a.s; if (s.size() > 1000) throw TooLong{}; } return V::str(s); }
            throw RunError{};
        }
        if (e->kind == "call") {
            V c = value(e->kids[0], f);
            std::vector<V> args;
            for (size_t i = 1; i < e->kids.size(); i++) args.push_back(value(e->kids[i], f));
            if (c.t != V::Fn) throw RunError{};
            if (!c.fn) { // print
                if (args.size() != 1) throw RunError{};
                out += text(args[0]) + "\n";
                return V{};
            }
            if (args.size() != c.fn->params.size()) throw RunError{};
            Frame g;
            for (size_t i = 0; i < args.size(); i++) g[c.fn->params[i]] = args[i];
            return call(c.fn, g);
        }
        mc::fail("the reference does not know %s", e->kind.c_str());
        return V{};
    }
    int level = 0;
    V call(const P& fn, Frame& f) {
        if (++level > 12) throw TooLong{};
        V v;
        block(fn->kids[0], f, v);
        level--;
        return v;
    }
    bool block(const P& b, Frame& f, V& ret) {
        for (auto& s : b->kids) if (statement(s, f, ret)) return true;
        return false;
    }
    bool cond(const P& e, Frame& f) { V v = value(e, f); if (v.t != V::Bool) throw RunError{}; return v.b; }
    bool statement(const P& s, Frame& f, V& ret) {
        if (++steps > 3000) throw TooLong{};
        if (s->kind == "if") {
            if (cond(s->kids[0], f)) return block(s->kids[1], f, ret);
            return s->kids[2] ? block(s->kids[2], f, ret) : false;
        }
        if (s->kind == "while") {
            while (cond(s->kids[0], f)) if (block(s->kids[1], f, ret)) return true;
            return false;
        }
        if (s->kind == "return") { ret = value(s->kids[0], f); return true; }
        if (s->kind == "eval") { eval(s->kids[0], f); return false; }
        const P& l = s->kids[0];
        V o;
        if (l->kind == "prop") { o = value(l->kids[0], f); if (o.t != V::Object || (l->name != "name" && l->name != "value" && l->name != "flag")) throw RunError{}; }
        V v = value(s->kids[1], f);
        if (l->kind == "name") {
            auto it = f.find(l->name);
            // A variable keeps its type
            if (v.t != V::Fn && it != f.end() && it->second.t != v.t) throw RunError{};
            if (v.t == V::Object) throw TooLong{};
            f[l->name] = v;
            return false;
        }
        if (l->name == "name") { if (v.t != V::Str) throw RunError{}; o.o->name = v.s; }
        if (l->name == "value") { if (v.t != V::Int) throw RunError{}; o.o->value = v.i; }
        if (l->name == "flag") { if (v.t != V::Bool) throw RunError{}; o.o->flag = v.b; }
        return false;
    }
};

static MethodResult doPrint(BaseInterpreter* interp, const AnyObject& arg) {
    interp->returnValue = {};
    if (arg.is<u32>()) *interp->outs << *arg.cast<u32>() << '\n';
    else if (arg.is<bool>()) *interp->outs << *arg.cast<bool>() << '\n';
    else if (arg.is<String>()) *interp->outs << *arg.cast<String>() << '\n';
    else { interp->error(interp, "cannot print"); return MethodResult::Error; }
    return MethodResult::OK;
}
static std::vector<std::string>* gErrors;
static std::vector<std::string>* gTrace;

// Runs main(obj) of a program that is well-formed
static void check(const Source& s) {
    Ref r(s);
    Eval ev;
    bool wantError = false;
    try {
        ev.file = r.file();
        if (r.unspec) return;
    } catch (Reject&) { mc::fail("the harness made a malformed program: %s", s.text.c_str()); } catch (Unspec&) { return; }
    ev.obj.name = "apple";
    ev.obj.value = 7;
    P mainFn = ev.find("main");
    Eval::Frame fr;
    V o;
    o.t = V::Object;
    o.o = &ev.obj;
    fr["obj"] = o;
    try { ev.call(mainFn, fr); } catch (RunError&) { wantError = true; } catch (TooLong&) { return; }

    // In the library
    crow::Hooks hooks;
    Tokenizer tkr;
    tkr.setSourceInput(view(s.text));
    Parser parser;
    parser.tkr = &tkr;
    parser.hooks = &hooks;
    Owned<StatementBlock> file = parser.parseFile();
    MC_CHECK(hooks.errors.empty(), "%s", hooks.errors[0].c_str());
    // For some, the tree before and after is compared
    bool trees = std::hash<std::string>()(s.text) % 16 == 0;
    Conv conv{tkr, s.text};
    std::string before = trees ? show(conv.file(file)) : "";
    HashMap<VariableMapTraits> builtIns, ns;
    static bool true_, false_;
    true_ = true;
    false_ = false;
    builtIns.insertOrFind(LabelMap::instance.insertOrFind("print"))->obj = AnyObject::bind(doPrint);
    builtIns.insertOrFind(LabelMap::instance.insertOrFind("true"))->obj = AnyObject::bind(&true_);
    builtIns.insertOrFind(LabelMap::instance.insertOrFind("false"))->obj = AnyObject::bind(&false_);
    Sequence<AnyObject> fns;
    const Statement::FunctionDefinition* mainDef = nullptr;
    for (const Statement* st : file->statements) {
        const Statement::FunctionDefinition* d = st->functionDefinition().get();
        ns.insertOrFind(d->name)->obj = fns.append(AnyObject::bind(d));
        if (LabelMap::instance.view(d->name) == "main") mainDef = d;
    }
    std::vector<std::string> errors, trace;
    gErrors = &errors;
    gTrace = &trace;
    std::string got;
    Obj obj;
    obj.name = "apple";
    obj.value = 7;
    MethodResult res;
    {
        MemOutStream outs;
        Interpreter interp;
        interp.outs = &outs;
        interp.outerNameSpaces.append(&builtIns);
        interp.outerNameSpaces.append(&ns);
        interp.tkr = &tkr;
        interp.error = [](BaseInterpreter* base, StringView message) {
            gErrors->push_back(str(message));
            Interpreter* in = static_cast<Interpreter*>(base);
            for (Interpreter::StackFrame* f = in->currentFrame; f; f = f->prevFrame) {
                ExpandedToken t = in->tkr->expandToken(f->tokenIdx);
                gTrace->push_back(str(LabelMap::instance.view(f->functionDef->name)) + ":" + std::to_string(t.fileOffset));
            }
        };
        Interpreter::StackFrame frame;
        frame.interp = &interp;
        frame.functionDef = mainDef;
        frame.localVariableTable.insertOrFind(LabelMap::instance.insertOrFind("obj"))->obj = AnyObject::bind(&obj);
        res = execFunction(&frame, mainDef->body);
        if (res == MethodResult::OK && interp.returnValue.data) { AnyObject rv = interp.returnValue; if (rv.is<String>()) MC_CHECK(rv.cast<String>()->numBytes < 5000, "the result is corrupt"); }
        MC_CHECK(!interp.currentFrame, "a frame remains");
        u32 left = 0;
        for (AnyObject& o : interp.localVariableStorage.items) { (void) o; left++; }
        MC_CHECK(left <= 1, "%u objects remain on the stack after: %s", left, s.text.c_str());
        if (left) interp.localVariableStorage.deleteRange({interp.localVariableStorage.storage.end(), interp.localVariableStorage.items.begin()}, interp.localVariableStorage.items.end());
        got = str(outs.moveToString());
    }
    mc::step(1);
    MC_CHECK((res == MethodResult::Error) == wantError, wantError ? "no run-time error is reported in: %s" : "a run-time error is reported in: %s", s.text.c_str());
    MC_CHECK((errors.size() == 1) == wantError && errors.size() <= 1, "%d errors are reported in: %s", (int) errors.size(), s.text.c_str());
    MC_CHECK(got == ev.out, "the output is \"%s\" instead of \"%s\" of: %s", got.c_str(), ev.out.c_str(), s.text.c_str());
    MC_CHECK(str(obj.name) == ev.obj.name && obj.value == ev.obj.value && obj.flag == ev.obj.flag, "the object is %s %u %d instead of %s %u %d after: %s", str(obj.name).c_str(), obj.value, obj.flag, ev.obj.name.c_str(), ev.obj.value, ev.obj.flag, s.text.c_str());
    MC_CHECK(true_ && !false_, "true or false is changed by: %s", s.text.c_str());
    if (trees) MC_CHECK(show(conv.file(file)) == before, "the program is changed by running: %s", s.text.c_str());
    if (wantError) {
        MC_CHECK(trace.size() >= 1 && trace.back().compare(0, 5, "main:") == 0, "the trace of the error has no main in: %s", s.text.c_str());
        for (auto& t : trace) {
            // The place lies within the function
            std::string fn = t.substr(0, t.find(':'));
            size_t o = (size_t) atoi(t.c_str() + t.find(':') + 1), b = s.text.find("fn " + fn + " "), e = s.text.find("fn ", b + 1);
            MC_CHECK(o > b && (e == std::string::npos || o < e), "the place %s of an error is not in that function: %s", t.c_str(), s.text.c_str());
        }
    }
    mc::state(std::hash<std::string>()(got + (wantError ? "E" : "")));
}
static Toks words(const std::string& s) {
    Toks t;
    std::string cur;
    bool q = false;
    for (char c : s) {
        if (c == '"') q = !q;
        if ((c == ' ' || c == '\n') && !q) { if (!cur.empty()) t.push_back(cur); cur = ""; if (c == '\n') t.push_back("\n"); }
        else cur += c;
    }
    if (!cur.empty()) t.push_back(cur);
    return t;
}
static void run(const std::string& program) { check(Source(words(program))); }

// Every sequence of a few statements over two or three variables
static const char* stmts[] = {
    "x = 1", "x = \"s\"", "y = x", "x = y", "x = x + x", "y = \"v${ x }\"", "print ( x )", "print ( y )", "x = obj . name", "obj . name = x",
    "obj . name = obj . name + \"!\"", "x = obj . value", "obj . value = x", "y = id ( x )", "x = local ( y )", "y = first ( x , y )", "change ( x )", "x = nothing ( )", "nothing ( )",
    "print ( second ( id ( x ) , local ( y ) ) )", "y = first ( x )", "if x == 1 { y = x }", "if x { y = 2 }", "x = true", "y = ! x", "print ( id ( \"${ x }${ local ( x ) }\" ) )", "return x",
    "x = x", "y = x * 2", "z = x", "print ( z )", "x = id ( z ) + id ( z )",
};
static const char* helpers =
    "fn id ( a ) { return a }\n"
    "fn local ( a ) { b = a\n c = \"top\"\n d = b\n return b }\n"
    "fn first ( a , b ) { t = b\n u = a\n t = b\n return a }\n"
    "fn second ( a , b ) { return first ( b , a ) }\n"
    "fn change ( a ) { a = a + a\n print ( a ) }\n"
    "fn nothing ( ) { n = \"n\"\n n = n + n }\n";
static void scStatements() {
    const int n = sizeof(stmts) / sizeof(stmts[0]);
    int L = mc::pick(4, 5);
    int i = mc::choose(n), j = mc::choose(n);
    mc::nontrivial();
    std::vector<int> seq = {i, j};
    std::function<void()> rec = [&] {
        std::string p = std::string(helpers) + "fn main ( obj ) {\n";
        for (int k : seq) p += std::string(stmts[k]) + "\n";
        p += "print ( x )\nprint ( y )\n}";
        run(p);
        if ((int) seq.size() == L - 1) return;
        for (int k = 0; k < n; k++) { seq.push_back(k); rec(); seq.pop_back(); }
    };
    rec();
}
// Every expression of up to three operands of every type, printed and assigned
static void scExpressions() {
    static const char* A[] = {"0", "1", "7", "4294967295", "true", "false", "\"\"", "\"ab\"", "x", "s", "b", "obj . value", "obj . name", "obj . flag", "f ( 3 )", "g ( \"q\" )", "nothing ( )", "f", "obj", "undefined", "obj . nothing"};
    static const char* B[] = {"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "&&", "||"};
    static const char* U[] = {"", "- ", "! ", "~ "};
    const int na = sizeof(A) / sizeof(A[0]);
    int a = mc::choose(na), u = mc::choose(4), op = mc::choose(12);
    mc::nontrivial();
    std::string head = "fn f ( a ) { t = a + 1\n return t }\nfn g ( a ) { u = 1\n v = a\n u = 2\n return v }\nfn nothing ( ) { }\nfn main ( obj ) { x = 5\n s = \"str\"\n b = true\n";
    auto both = [&](const std::string& e) {
        run(head + "print ( " + e + " )\nprint ( x )\nprint ( s )\nprint ( b ) }");
        run(head + "y = " + e + "\nz = y\nprint ( \"<${ z }>\" )\nprint ( x )\nprint ( s ) }");
    };
    if (op == 0) both(std::string(U[u]) + A[a]);
    for (int c = 0; c < na; c++) {
        std::string e = std::string(U[u]) + A[a] + " " + B[op] + " " + A[c];
        both(e);
        if (u == 0 || mc::tier())
            for (int op2 = 0; op2 < 12; op2 += mc::tier() ? 1 : 1 + (op + c) % 4)
                for (int d = 0; d < na; d += mc::tier() ? 1 : 3) run(head + "print ( " + e + " " + B[op2] + " " + A[d] + " ) }");
        run(head + "if " + e + " { print ( 1 ) } else { print ( 2 ) }\nprint ( 3 ) }");
        run(head + "x = " + e + "\nprint ( x ) }");
        run(head + "s = " + e + "\nprint ( s ) }");
        run(head + "obj . name = " + e + "\nprint ( s ) }");
        run(head + "obj . value = " + e + "\nprint ( x ) }");
        run(head + "while " + e + " { x = x + 1\n if x > 9 return x\n }\nprint ( x ) }");
    }
}
// Control flow: every nesting of a few constructs
static std::string bodies(int depth, int k, int& id) {
    switch (k) {
        case 0: return "n = n + 1\nprint ( n )\n";
        case 1: return "return n\n";
        case 2: return "t" + std::to_string(id++) + " = \"t${ n }\"\n";
        default: return "";
    }
}
static void scFlow() {
    static const char* outer[] = {"if n < 2 { A } else { B }\n", "if n == 1 { A }\nB", "while n < 3 { A n = n + 1\n B }\n", "while n < 4 { if n == 2 { A } else { B } n = n + 1\n }\n", "if f ( n ) > 3 { A } else { if f ( n ) == 3 { B } }\n", "if f ( n ) == 2 return n\nA B"};
    int a = mc::choose(6), b = mc::choose(6), c = mc::choose(6);
    int n0 = mc::choose(3);
    mc::nontrivial();
    std::function<void(std::string, int, std::function<void(std::string)>)> fill;
    auto replace = [](std::string s, char ch, const std::string& by) { std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == ch) r += by; else r += s[i]; } return r; };
    static const char* leaf[] = {"n = n + 1\n", "print ( n )\n", "return n\n", "t = \"t${ n }\"\n print ( t )\n", "n = f ( n )\n"};
    for (auto& l1 : leaf)
        for (auto& l2 : leaf)
            for (auto& l3 : leaf)
                for (auto& l4 : leaf) {
                    if (!mc::tier() && (&l1 - leaf + &l2 - leaf + &l3 - leaf + &l4 - leaf) % 3) continue;
                    std::string inner1 = replace(replace(outer[b], 'A', l1), 'B', l2), inner2 = replace(replace(outer[c], 'A', l3), 'B', l4);
                    std::string body = replace(replace(outer[a], 'A', inner1), 'B', inner2);
                    run("fn f ( n ) { k = n + 1\n return k }\nfn g ( n ) {\n" + body + "return n * 10\n}\nfn main ( obj ) { n = " + std::to_string(n0) + "\nm = g ( n )\nprint ( m )\nprint ( n ) }");
                }
}
// Recursion, and many variables and temporary objects: the stack of objects grows over several blocks
static void scStack() {
    int n = mc::choose(mc::pick(150, 400));
    int kind = mc::choose(5);
    int shift = mc::choose(4);
    mc::nontrivial();
    std::string p = "fn id ( a ) { return a }\nfn local ( a ) { b = a\n c = true\n d = \"x\"\n e = 5\n return b }\n", m;
    for (int i = 0; i < shift; i++) m += i % 2 ? "p" + std::to_string(i) + " = true\n" : "p" + std::to_string(i) + " = 1\n";
    auto v = [](int i) { return "v" + std::to_string(i); };
    for (int i = 0; i < n; i++) {
        if (kind == 0) m += v(i) + " = " + (i % 3 == 0 ? "true" : i % 3 == 1 ? "\"text\"" : "12") + "\n";
        if (kind == 1) m += v(i) + " = \"text\"\n";
        if (kind == 2) m += v(i) + " = " + (i % 2 ? "true" : "3") + "\n";
    }
    if (kind < 3) {
        m += "x = \"a\" + local ( \"b\" ) + local ( \"c\" )\nprint ( x )\ny = local ( 1 + 2 * 3 )\nprint ( y )\nz = local ( 1 == 1 )\nprint ( z )\nx = local ( x ) + \"d\"\nprint ( x )\n";
        if (n) m += "print ( v0 )\nprint ( " + v(n - 1) + " )\nw = " + v(n / 2) + "\nprint ( w )\n";
    }
    if (kind == 3) { // many temporary objects in one statement
        m += "x = 1";
        for (int i = 0; i < n; i++) m += std::string(" + ") + (i % 2 ? "id ( 2 )" : "1");
        m += "\nprint ( x )\ny = 2\nz = \"s\"\nprint ( x == y )\nprint ( z )\n";
    }
    if (kind == 4) {
        m += "x = \"";
        for (int i = 0; i < n; i++) m += i % 2 ? "${ 1 == 2 }" : "${ 1 + 2 }";
        m += "\"\nprint ( x )\ny = \"${ x }${ x == x }\"\n";
    }
    run(p + "fn main ( obj ) {\n" + m + "}");
}
static void scRecursion() {
    int n = mc::choose(9);
    int kind = mc::choose(4);
    mc::nontrivial();
    static const char* fns[] = {
        "fn r ( n ) { if n < 2 return n\n return r ( n - 1 ) + r ( n - 2 ) }\n",
        "fn r ( n ) { if n == 0 return \"\"\n s = \"${ n }\"\n t = r ( n - 1 )\n u = s + t\n return u }\n",
        "fn r ( n ) { if n == 0 { return undefined }\n return q ( n ) }\nfn q ( n ) { return 1 + r ( n - 1 ) }\n",
        "fn r ( n ) { x = n\n if n > 0 { x = r ( n - 1 )\n print ( n ) }\n return x + n }\n",
    };
    run(std::string(fns[kind]) + "fn main ( obj ) { print ( r ( " + std::to_string(n) + " ) )\nr ( " + std::to_string(n) + " ) }");
}

MC_SCENARIOS = {
    {"statements", scStatements, 0, "every sequence of statements: variables, properties, calls, returns"},
    {"expressions", scExpressions, 0, "every expression of up to three operands of every type, in every position"},
    {"flow", scFlow, 0, "every nesting of conditionals, loops and returns"},
    {"stack", scStack, mc::LEAKS, "many variables and temporary objects"},
    {"recursion", scRecursion, mc::LEAKS, "recursive functions"},
    MC_END};
