// Reflected objects through Pylon: export and import, and import of damaged documents.
#include "pylontest.h"
#include <functional>
#include <cmath>
#include <pylon-reflect/Core.h>
#include <pylon-reflect/Import.h>
#include <pylon-reflect/Export.h>
using mc::pick;
using pylon::Node;
enum class Tint : u8 { Red, Green, Blue = 7 };
enum class Mode : u16 { Off = 5, On = 300 };
enum class Size : u32 { Small, Large = 70000 };
enum class Side { Left, Right, Count };
PLY_DECLARE_TYPE_DESCRIPTOR(Tint)
PLY_DECLARE_TYPE_DESCRIPTOR(Mode)
PLY_DECLARE_TYPE_DESCRIPTOR(Size)
PLY_DECLARE_TYPE_DESCRIPTOR(Side)
struct Inner { u32 a = 3; String s = "in"; PLY_REFLECT() };
struct Pick {
    struct One { u32 n = 1; PLY_REFLECT() };
    struct Two { String t = "two"; Array<u32> v; PLY_REFLECT() };
    enum class ID : u16 { One, Two, Count };
    union Storage_ { One one; Two two; Storage_() {} ~Storage_() {} };
    SWITCH_FOOTER(Pick, One)
    SWITCH_ACCESSOR(One, one)
    SWITCH_ACCESSOR(Two, two)
    PLY_SWITCH_REFLECT()
};
struct All {
    float f = 1.5f; u8 b = 9; u16 w = 10; u32 d = 11; s32 i = -12; bool t = true;
    Tint tint = Tint::Green; Mode mode = Mode::On; Size size = Size::Large;
    String str = "str"; Array<u32> au; Array<String> as; Array<Inner> ai; Array<Array<u32>> aa;
    FixedArray<u16, 2> fx; EnumIndexedArray<Inner, Side> ei; Inner in; Owned<Inner> own; Array<Owned<Inner>> ao; Pick sw;
    PLY_REFLECT()
    All() {
        au.append(21u); as.append("x"); ai.resize(1); aa.resize(1); aa[0].append(4u); fx[0] = 31; fx[1] = 32;
        ei[Side::Left].a = 41; ei[Side::Right].a = 42; own = new Inner; own->a = 51; ao.append(new Inner);
    }
};
SWITCH_TABLE_BEGIN(Pick)
SWITCH_TABLE_STATE(Pick, One)
SWITCH_TABLE_STATE(Pick, Two)
SWITCH_TABLE_END(Pick)
PLY_ENUM_BEGIN(, Tint)
PLY_ENUM_IDENTIFIER(Red) PLY_ENUM_IDENTIFIER(Green) PLY_ENUM_IDENTIFIER(Blue)
PLY_ENUM_END()
PLY_ENUM_BEGIN(, Mode)
PLY_ENUM_IDENTIFIER(Off) PLY_ENUM_IDENTIFIER(On)
PLY_ENUM_END()
PLY_ENUM_BEGIN(, Size)
PLY_ENUM_IDENTIFIER(Small) PLY_ENUM_IDENTIFIER(Large)
PLY_ENUM_END()
PLY_ENUM_BEGIN(, Side)
PLY_ENUM_IDENTIFIER(Left) PLY_ENUM_IDENTIFIER(Right)
PLY_ENUM_END()
PLY_STRUCT_BEGIN(Inner) PLY_STRUCT_MEMBER(a) PLY_STRUCT_MEMBER(s) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(Pick::One) PLY_STRUCT_MEMBER(n) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(Pick::Two) PLY_STRUCT_MEMBER(t) PLY_STRUCT_MEMBER(v) PLY_STRUCT_END()
PLY_SWITCH_BEGIN(Pick) PLY_SWITCH_MEMBER(One) PLY_SWITCH_MEMBER(Two) PLY_SWITCH_END()
static const char* Names[] = {"f", "b", "w", "d", "i", "t", "tint", "mode", "size", "str", "au", "as", "ai", "aa", "fx", "ei", "in", "own", "ao", "sw"};
PLY_STRUCT_BEGIN(All)
PLY_STRUCT_MEMBER(f) PLY_STRUCT_MEMBER(b) PLY_STRUCT_MEMBER(w) PLY_STRUCT_MEMBER(d) PLY_STRUCT_MEMBER(i) PLY_STRUCT_MEMBER(t)
PLY_STRUCT_MEMBER(tint) PLY_STRUCT_MEMBER(mode) PLY_STRUCT_MEMBER(size) PLY_STRUCT_MEMBER(str) PLY_STRUCT_MEMBER(au) PLY_STRUCT_MEMBER(as)
PLY_STRUCT_MEMBER(ai) PLY_STRUCT_MEMBER(aa) PLY_STRUCT_MEMBER(fx) PLY_STRUCT_MEMBER(ei) PLY_STRUCT_MEMBER(in) PLY_STRUCT_MEMBER(own) PLY_STRUCT_MEMBER(ao) PLY_STRUCT_MEMBER(sw)
PLY_STRUCT_END()
constexpr int N = 20;
static std::string num(double d) { char b[40]; snprintf(b, 40, "%.9g", d); return b; }
static std::string show(const Inner& x) { return "{" + std::to_string(x.a) + " " + esc(str(x.s)) + "}"; }
static std::string show(const Array<u32>& x) { std::string s = "["; for (u32 v : x) s += std::to_string(v) + " "; return s + "]"; }
static std::vector<std::string> show(const All& o) {
    std::vector<std::string> r{num(o.f), std::to_string(o.b), std::to_string(o.w), std::to_string(o.d), std::to_string(o.i), o.t ? "true" : "false",
        std::to_string((u32) o.tint), std::to_string((u32) o.mode), std::to_string((u32) o.size), esc(str(o.str)), show(o.au)};
    std::string s = "["; for (auto& v : o.as) s += esc(str(v)) + " "; r.push_back(s + "]");
    s = "["; for (auto& v : o.ai) s += show(v) + " "; r.push_back(s + "]");
    s = "["; for (auto& v : o.aa) s += show(v) + " "; r.push_back(s + "]");
    r.push_back(std::to_string(o.fx[0]) + " " + std::to_string(o.fx[1]));
    r.push_back(show(o.ei[Side::Left]) + " " + show(o.ei[Side::Right]));
    r.push_back(show(o.in)); r.push_back(o.own ? show(*o.own) : "null");
    s = "["; for (auto& v : o.ao) s += show(*v) + " "; r.push_back(s + "]");
    r.push_back(o.sw.id == Pick::ID::One ? "One" + std::to_string(o.sw.one()->n) : "Two" + esc(str(o.sw.two()->t)) + show(o.sw.two()->v));
    return r;
}
typedef std::function<void(All&)> Set;
static std::vector<Set> values(int m) {
    #define V(x) [](All& o) { x; }
    switch (m) {
        case 0: return {V(o.f = 0), V(o.f = -2.25f), V(o.f = 100), V(o.f = 0.125f), V(o.f = 65536)};
        case 1: return {V(o.b = 0), V(o.b = 127), V(o.b = 128), V(o.b = 255)};
        case 2: return {V(o.w = 0), V(o.w = 32768), V(o.w = 65535)};
        case 3: return {V(o.d = 0), V(o.d = 0x7fffffff), V(o.d = 0x80000000u), V(o.d = 0xffffffffu), V(o.d = 123456789)};
        case 4: return {V(o.i = 0), V(o.i = -1), V(o.i = 0x7fffffff), V(o.i = (s32) 0x80000000u)};
        case 5: return {V(o.t = false), V(o.t = true)};
        case 6: return {V(o.tint = Tint::Red), V(o.tint = Tint::Green), V(o.tint = Tint::Blue)};
        case 7: return {V(o.mode = Mode::Off), V(o.mode = Mode::On)};
        case 8: return {V(o.size = Size::Small), V(o.size = Size::Large)};
        case 9: return {V(o.str = ""), V(o.str = "a b"), V(o.str = "\"\\\n\t"), V(o.str = "true"), V(o.str = "\xc3\xa9"), V(o.str = (StringView{"a\0b", 3}))};
        case 10: return {V(o.au = {}), V(o.au = (Array<u32>{1, 2, 3})), V(o.au = (Array<u32>{0xffffffffu})), V(o.au = (Array<u32>{1, 2, 3, 4, 5}))};
        case 11: return {V(o.as = {}), V(o.as = (Array<String>{"", "q", "r s"}))};
        case 12: return {V(o.ai = {}), V(o.ai.resize(3); o.ai[1].a = 7; o.ai[2].s = "zz")};
        case 13: return {V(o.aa = {}), V(o.aa.resize(2); o.aa[0] = {}; o.aa[1].append(8u))};
        case 14: return {V(o.fx[0] = 0; o.fx[1] = 65535)};
        case 15: return {V(o.ei[Side::Left].a = 1), V(o.ei[Side::Right].s = "right")};
        case 16: return {V(o.in.a = 77), V(o.in.s = "")};
        case 17: return {V(o.own.clear()), V(if (!o.own) o.own = new Inner; o.own->s = "owned"), V(if (!o.own) o.own = new Inner; o.own->a = 0)};
        case 18: return {V(o.ao.clear()), V(o.ao.append(new Inner); o.ao.back()->a = 5)};
        default: return {V(o.sw.one().switchTo(); o.sw.one()->n = 5), V(o.sw.two().switchTo(); o.sw.two()->t = "t"), V(o.sw.two().switchTo(); o.sw.two()->v.append(6u))};
    }
    #undef V
}
static void same(const All& a, const std::vector<std::string>& want, const char* what) {
    auto got = show(a);
    for (int i = 0; i < N; i++) MC_CHECK(got[i] == want[i], "%s: member %s is %s instead of %s", what, Names[i], got[i].c_str(), want[i].c_str());
}
// every pair of values of two members, the others at their defaults, imported into every kind of object
static void trip() {
    int m1 = choose(N), m2 = choose(N);
    auto v1 = values(m1), v2 = values(m2);
    int k1 = choose((int) v1.size()), k2 = choose((int) v2.size());
    mc::casef("%s=%d %s=%d", Names[m1], k1, Names[m2], k2);
    All o; v1[k1](o); v2[k2](o);
    auto want = show(o);
    if (m1 != m2) mc::nontrivial(); mc::state((u64) std::hash<std::string>{}(want[m1] + "|" + want[m2]));
    auto node = pylon::exportObj(AnyObject::bind(&o));
    same(o, want, "the exported object changed");
    MC_CHECK(node->isObject(), "the export of a structure isn't an object");
    for (int i = 0; i < N; i++) MC_CHECK(node->get(Names[i])->isValid() == (i != 17 || (bool) o.own), "member %s is %s the export", Names[i], node->get(Names[i])->isValid() ? "in" : "missing from");
    // a null owned member isn't written, so the default remains
    auto expect = [&](All& fresh) { auto w = want; if (!o.own) w[17] = show(fresh)[17]; return w; };
    { All def; auto w = expect(def); auto got = pylon::import<All>(node); same(*got, w, "imported from the node"); }
    { All def; auto w = expect(def); pylon::importInto(AnyObject::bind(&def), node); same(def, w, "imported into an object"); }
    { // into an object that holds other values
        All def; for (int m = 0; m < N; m++) if (m != 17) values(m).back()(def);
        def.own->a = 99; auto w = expect(def);
        pylon::importInto(AnyObject::bind(&def), node); same(def, w, "imported into a changed object");
    }
    { // through text
        String text = pylon::toString(node);
        pylon::Parser parser; auto r = parser.parse(text);
        MC_CHECK(r.root->isObject(), "the exported text doesn't parse");
        All def; auto w = expect(def);
        auto got = pylon::import<All>(r.root); same(*got, w, "imported from text"); mc::step();
    }
}
// The documents put in place of a member.
static std::vector<Doc> odd() {
    auto T = [](std::string s) { Doc d; d.text = s; return d; };
    auto A = [](std::vector<Doc> v) { Doc d; d.kind = 1; for (auto& x : v) d.items.push_back({"", x}); return d; };
    auto O = [](std::vector<std::pair<std::string, Doc>> v) { Doc d; d.kind = 2; d.items = v; return d; };
    std::vector<Doc> r{T(""), T("x"), T("1"), T("-1"), T("255"), T("256"), T("65535"), T("65536"), T("4294967295"), T("4294967296"), T("-2147483648"), T("-2147483649"), T("2147483647"), T("2147483648"), T("1e30"), T("0.5"),
        T("true"), T("false"), T("Red"), T("Off"), T("Small"), T("Left"), T("One"), T("Two")};
    r.push_back(A({})); r.push_back(A({T("1")})); r.push_back(A({T("1"), T("2")})); r.push_back(A({T("1"), T("x"), T("3")})); r.push_back(A({T("x"), A({}), O({})}));
    r.push_back(A({A({T("1"), T("2")}), T("x")})); r.push_back(A({O({{"a", T("6")}}), T("y"), O({{"s", T("z")}, {"a", T("8")}})}));
    r.push_back(O({})); r.push_back(O({{"a", T("5")}})); r.push_back(O({{"s", T("t")}, {"a", T("x")}})); r.push_back(O({{"a", A({})}, {"zz", T("1")}, {"s", T("w")}}));
    r.push_back(O({{"Left", O({{"a", T("4")}})}})); r.push_back(O({{"Right", O({{"a", T("4")}})}, {"Left", T("x")}, {"Other", T("q")}})); r.push_back(O({{"Count", O({{"a", T("4")}})}}));
    r.push_back(O({{"One", O({{"n", T("8")}})}})); r.push_back(O({{"Two", O({{"t", T("8")}, {"v", A({T("1"), T("2")})}})}})); r.push_back(O({{"Two", T("8")}})); r.push_back(O({{"Three", O({})}})); r.push_back(O({{"One", O({})}, {"Two", O({})}}));
    r.push_back(O({{"One", O({{"n", A({})}})}})); r.push_back(O({{"Two", O({{"t", A({})}, {"v", T("x")}})}}));
    return r;
}
// The model: what a member becomes. A part of the document that doesn't match is ignored.
static bool number(const Doc& d, long double lo, long double hi, long double* out) {
    if (d.kind != 0 || d.text.empty()) return false;
    char* e; long double v = strtold(d.text.c_str(), &e);
    if (*e) return false;
    v = std::trunc(v);
    if (v < lo || v > hi) return false;
    *out = v; return true;
}
static const Doc* prop(const Doc& d, const char* n) { for (auto& p : d.items) if (p.first == n) return &p.second; return nullptr; }
static void setU32(u32& v, const Doc& d) { long double x; if (number(d, 0, 4294967295.0L, &x)) v = (u32) x; }
static void setStr(String& v, const Doc& d) { if (d.kind == 0) v = view(d.text); }
static void setInner(Inner& v, const Doc& d) { if (d.kind != 2) return; if (auto p = prop(d, "a")) setU32(v.a, *p); if (auto p = prop(d, "s")) setStr(v.s, *p); }
template <typename T, typename F> static void setArr(Array<T>& v, const Doc& d, F f) { if (d.kind != 1) return; v.resize((u32) d.items.size()); for (u32 i = 0; i < v.numItems(); i++) f(v[i], d.items[i].second); }
static void setVec(Array<u32>& v, const Doc& d) {
    if (d.kind != 1) return; u32 old = v.numItems(); v.resize((u32) d.items.size()); for (u32 i = old; i < v.numItems(); i++) v[i] = 0xABABABABu;
    for (u32 i = 0; i < v.numItems(); i++) setU32(v[i], d.items[i].second); }
static void model(All& o, int m, const Doc& d) {
    long double x;
    switch (m) {
        case 0: if (d.kind == 0 && !d.text.empty()) { char* e; float f = strtof(d.text.c_str(), &e); if (!*e) o.f = f; } break;
        case 1: if (number(d, 0, 255, &x)) o.b = (u8) x; break;
        case 2: if (number(d, 0, 65535, &x)) o.w = (u16) x; break;
        case 3: setU32(o.d, d); break;
        case 4: if (number(d, -2147483648.0L, 2147483647.0L, &x)) o.i = (s32) x; break;
        case 5: if (d.kind == 0) o.t = d.text == "true"; break;
        case 6: if (d.kind == 0 && d.text == "Red") o.tint = Tint::Red; if (d.kind == 0 && d.text == "Green") o.tint = Tint::Green; break;
        case 7: if (d.kind == 0 && d.text == "Off") o.mode = Mode::Off; if (d.kind == 0 && d.text == "On") o.mode = Mode::On; break;
        case 8: if (d.kind == 0 && d.text == "Small") o.size = Size::Small; if (d.kind == 0 && d.text == "Large") o.size = Size::Large; break;
        case 9: setStr(o.str, d); break;
        case 10: setVec(o.au, d); break;
        case 11: setArr(o.as, d, setStr); break;
        case 12: setArr(o.ai, d, setInner); break;
        case 13: setArr(o.aa, d, setVec); break;
        case 14: if (d.kind == 1) for (int i = 0; i < 2 && i < (int) d.items.size(); i++) if (number(d.items[i].second, 0, 65535, &x)) o.fx[i] = (u16) x; break;
        case 15: if (d.kind == 2) { if (auto p = prop(d, "Left")) setInner(o.ei[Side::Left], *p); if (auto p = prop(d, "Right")) setInner(o.ei[Side::Right], *p); } break;
        case 16: setInner(o.in, d); break;
        case 17: { o.own = new Inner; setInner(*o.own, d); break; }
        case 18: if (d.kind == 1) { o.ao.clear(); for (auto& k : d.items) { o.ao.append(new Inner); setInner(*o.ao.back(), k.second); } } break;
        case 19: if (d.kind == 2 && d.items.size() == 1) {
            const Doc& v = d.items[0].second;
            if (d.items[0].first == "One") { if (o.sw.id != Pick::ID::One) o.sw.one().switchTo(); if (v.kind == 2) if (auto p = prop(v, "n")) setU32(o.sw.one()->n, *p); }
            if (d.items[0].first == "Two") { if (o.sw.id != Pick::ID::Two) o.sw.two().switchTo(); if (v.kind == 2) { if (auto p = prop(v, "t")) setStr(o.sw.two()->t, *p); if (auto p = prop(v, "v")) setVec(o.sw.two()->v, *p); } }
        } break;
    }
}
// Unset items of an enlarged array of numbers are unspecified: accept any number there.
static bool fits(const std::string& got, const std::string& want) {
    size_t g = 0, w = 0; const std::string any = std::to_string(0xABABABABu);
    while (w < want.size()) {
        if (want.compare(w, any.size(), any) == 0) { if (g >= got.size() || !isdigit(got[g])) return false; while (g < got.size() && isdigit(got[g])) g++; w += any.size(); }
        else if (g < got.size() && got[g] == want[w]) { g++; w++; } else return false;
    }
    return g == got.size();
}
static void compare(const All& a, const std::vector<std::string>& want, int m, bool loose) {
    auto got = show(a);
    for (int i = 0; i < N; i++) {
        if (i == m && loose) continue;
        MC_CHECK(fits(got[i], want[i]), "member %s is %s instead of %s", Names[i], got[i].c_str(), want[i].c_str());
    }
}
static Doc full() { All o; auto n = pylon::exportObj(AnyObject::bind(&o)); return fromNode(n); }
// a whole document in which one member is replaced, or removed, or moved, or joined by extra ones
static void damage() {
    auto docs = odd();
    int m = choose(N), how = choose((int) docs.size() + 3), pos = choose(3), start = choose(2);
    mc::casef("%s how=%d order=%d start=%d", Names[m], how, pos, start);
    Doc d = full();
    All o; if (start) for (int k = 0; k < N; k++) if (k != 17) values(k).back()(o); else o.own.clear();
    All exp; if (start) for (int k = 0; k < N; k++) if (k != 17) values(k).back()(exp); else exp.own.clear();
    auto before = show(exp);
    if (how >= (int) docs.size()) {
        int h = how - (int) docs.size();
        size_t at = 0; while (d.items[at].first != Names[m]) at++;
        if (h == 0) d.items.erase(d.items.begin() + at);
        else if (h == 1) { auto k = d.items[at]; d.items.clear(); d.items.push_back(k); }
        else { Doc x; x.kind = 1; d.items.insert(d.items.begin() + at, {"unknown", x}); d.items.push_back({"", x}); d.items.push_back({std::string(Names[m]) + "_x", x}); }
    } else for (auto& p : d.items) if (p.first == Names[m]) p.second = docs[how];
    if (pos == 1) std::reverse(d.items.begin(), d.items.end());
    if (pos == 2) std::rotate(d.items.begin(), d.items.begin() + d.items.size() / 2, d.items.end());
    for (int k = 0; k < N; k++) if (auto p = prop(d, Names[k])) model(exp, k, *p);
    auto want = show(exp);
    if (how < (int) docs.size()) mc::nontrivial(); mc::state((u64) std::hash<std::string>{}(d.show()));
    auto node = toNode(d);
    pylon::importInto(AnyObject::bind(&o), node);
    bool loose = m == 17 && how < (int) docs.size() && docs[how].kind != 2;   // whether a mistyped owned object is replaced isn't defined
    compare(o, want, m, loose);
    (void) before;
    mc::step();
}
// whole documents of the wrong kind
static void wrong() {
    auto docs = odd();
    int how = choose((int) docs.size() + 1);
    Owned<Node> n = how < (int) docs.size() ? toNode(docs[how]) : Node::createInvalid();
    mc::casef("%s", how < (int) docs.size() ? docs[how].show().c_str() : "invalid");
    All def; auto want = show(def);
    auto got = pylon::import<All>(n);
    MC_CHECK((bool) got, "no object");
    same(*got, want, "imported from a document without its members");
    mc::state((u64) how); mc::step();
}
static void filter() {
    int m = choose(N);
    mc::casef("%s", Names[m]);
    All o; u32 calls = 0;
    auto want = fromNode(pylon::exportObj(AnyObject::bind(&o)));
    for (auto& p : want.items) if (p.first == Names[m]) { p.second = Doc{}; p.second.text = "filtered"; }
    const TypeDescriptor_Struct* st = getTypeDescriptor<All>()->cast<TypeDescriptor_Struct>();
    const auto* mem = st->findMember(Names[m]);
    struct Ctx { void* data; const TypeDescriptor* type; u32 calls; } ctx{PLY_PTR_OFFSET(&o, mem->offset), mem->type, 0};
    auto node = pylon::exportObj(AnyObject::bind(&o), {[](Ctx* c, AnyObject x) -> Owned<Node> {
        c->calls++;
        if (x.data == c->data && x.type == c->type) return Node::createText("filtered");
        return nullptr;
    }, &ctx});
    calls = ctx.calls;
    MC_CHECK(fromNode(node).same(want, false), "filtered export is %s", fromNode(node).show().c_str());
    mc::state((u64) m); mc::step(calls);
}
static void swap(Doc& d, int what, const std::string& top, const std::string& key) {
    bool hit = false;
    if (what == 0) hit = key == "a" || key == "n" || top == "d" || ((top == "au" || top == "aa") && d.kind == 0);
    if (what == 1) hit = key == "s" || top == "str" || (top == "as" && d.kind == 0);
    if (what == 2) hit = d.kind == 2 && d.items.size() == 2 && d.items[0].first == "a";
    if (hit) { d = Doc{}; d.text = "filtered"; return; }
    for (auto& p : d.items) swap(p.second, what, top.empty() ? p.first : top, p.first);
}
// a filter that replaces every object of one type, however deep
static void filterType() {
    int what = choose(3);
    mc::casef("%d", what);
    All o; auto want = fromNode(pylon::exportObj(AnyObject::bind(&o)));
    swap(want, what, "", "");
    const TypeDescriptor* types[] = {getTypeDescriptor<u32>(), getTypeDescriptor<String>(), getTypeDescriptor<Inner>()};
    struct Ctx { const TypeDescriptor* type; } ctx{types[what]};
    auto node = pylon::exportObj(AnyObject::bind(&o), {[](Ctx* c, AnyObject x) -> Owned<Node> {
        if (x.type == c->type) return Node::createText("filtered");
        return nullptr;
    }, &ctx});
    MC_CHECK(fromNode(node).same(want, false), "filtered export is %s instead of %s", fromNode(node).show().c_str(), want.show().c_str());
    mc::state((u64) what); mc::step();
}
MC_SCENARIOS = {
    {"round trip", trip, mc::LEAKS, "every pair of values of two of the 20 members of a structure, exported and imported four ways"},
    {"damaged document", damage, mc::LEAKS, "one member replaced by each of 45 documents, removed, kept alone or joined by unknown ones, in three orders, into a new or a used object"},
    {"wrong document", wrong, mc::LEAKS, "whole documents of the wrong kind"},
    {"filtered export", filter, mc::LEAKS, "an export whose filter replaces one member"},
    {"filter by type", filterType, mc::LEAKS, "an export whose filter replaces every object of one type"},
    MC_END};
