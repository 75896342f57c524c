// Saved object graphs: written, loaded by the same and by changed types.
#include "iotest.h"
#include <functional>
#include <cmath>
#include <ply-reflect/Core.h>
#include <ply-reflect/Asset.h>
#include <ply-reflect/TypedArray.h>
#include <ply-reflect/AnySavedObject.h>
using mc::pick;
// ---- the types, and their later versions ---------------------------------------
#define ENUMS(Red, A, Off, B, Left, C) \
    enum class Tint : u8 { A }; enum class Mode : u16 { B }; enum class Side { C, Count };
namespace v1 {
enum class Tint : u8 { Red, Green, Blue = 7 };
enum class Mode : u16 { Off = 5, On = 300 };
enum class Side { Left, Right, Count };
}
namespace v2 {
enum class Tint : u8 { Blue, Red = 9 };            // Green is gone, the others have other values
enum class Mode : u32 { Other, On = 70000, Off = 2 };
enum class Side { Top, Right, Left, Count };
}
#define DECL(ns) PLY_DECLARE_TYPE_DESCRIPTOR(ns::Tint) PLY_DECLARE_TYPE_DESCRIPTOR(ns::Mode) PLY_DECLARE_TYPE_DESCRIPTOR(ns::Side)
DECL(v1) DECL(v2)
#define E(ns, n, ids) PLY_ENUM_BEGIN(ns::, n) ids PLY_ENUM_END()
#define I(n) PLY_ENUM_IDENTIFIER(n)
E(v1, Tint, I(Red) I(Green) I(Blue)) E(v1, Mode, I(Off) I(On)) E(v1, Side, I(Left) I(Right))
E(v2, Tint, I(Blue) I(Red)) E(v2, Mode, I(Other) I(On) I(Off)) E(v2, Side, I(Top) I(Right) I(Left))
namespace v1 {
struct Inner { u32 a = 3; String s = "in"; PLY_REFLECT() };
struct Pick {
    struct One { u32 n = 1; PLY_REFLECT() };
    struct Two { String t = "two"; Array<u32> v; PLY_REFLECT() };
    enum class ID : u16 { One, Two, Count };
    union Storage_ { One one; Two two; Storage_() {} ~Storage_() {} };
    SWITCH_FOOTER(Pick, One) SWITCH_ACCESSOR(One, one) SWITCH_ACCESSOR(Two, two) PLY_SWITCH_REFLECT()
};
struct All {
    bool t = true; s8 i8 = -1; s16 i16 = -2; s32 i32 = -3; s64 i64 = -4; u8 n8 = 1; u16 n16 = 2; u32 n32 = 3; u64 n64 = 4; float f = 1.5f; double d = 2.5;
    Tint tint = Tint::Blue; Mode mode = Mode::On; String str = "str"; Array<u32> au; Array<String> as; Array<Inner> ai; Array<Array<u32>> aa;
    FixedArray<u16, 2> fx; EnumIndexedArray<Inner, Side> ei; Inner in; Owned<Inner> own; Array<Owned<Inner>> ao; Pick sw; Mode last = Mode::On; u32 end = 4321;
    PLY_REFLECT()
};
SWITCH_TABLE_BEGIN(Pick) SWITCH_TABLE_STATE(Pick, One) SWITCH_TABLE_STATE(Pick, Two) SWITCH_TABLE_END(Pick)
PLY_STRUCT_BEGIN(Inner) PLY_STRUCT_MEMBER(a) PLY_STRUCT_MEMBER(s) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(Pick::One) PLY_STRUCT_MEMBER(n) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(Pick::Two) PLY_STRUCT_MEMBER(t) PLY_STRUCT_MEMBER(v) PLY_STRUCT_END()
PLY_SWITCH_BEGIN(Pick) PLY_SWITCH_MEMBER(One) PLY_SWITCH_MEMBER(Two) PLY_SWITCH_END()
#define M PLY_STRUCT_MEMBER
PLY_STRUCT_BEGIN(All) M(t) M(i8) M(i16) M(i32) M(i64) M(n8) M(n16) M(n32) M(n64) M(f) M(d) M(tint) M(mode) M(str) M(au) M(as) M(ai) M(aa) M(fx) M(ei) M(in) M(own) M(ao) M(sw) M(last) M(end) PLY_STRUCT_END()
}
namespace v2 { // other order, types, defaults; some members gone (i16, aa), some new, some of another kind
struct Inner { String s = "two"; float added = 0.5f; u16 a = 13; PLY_REFLECT() };
struct Pick {
    struct Zero { u32 z = 1; PLY_REFLECT() };
    struct Two { Array<u32> v; String t = "new"; PLY_REFLECT() };
    struct One { u64 n = 1; PLY_REFLECT() };
    enum class ID : u16 { Zero, Two, One, Count };
    union Storage_ { Zero zero; Two two; One one; Storage_() {} ~Storage_() {} };
    SWITCH_FOOTER(Pick, Zero) SWITCH_ACCESSOR(Zero, zero) SWITCH_ACCESSOR(Two, two) SWITCH_ACCESSOR(One, one) PLY_SWITCH_REFLECT()
};
struct All {
    Pick sw; Array<Owned<Inner>> ao; Owned<Inner> own; u32 fresh = 77; Inner in; EnumIndexedArray<Inner, Side> ei; FixedArray<u32, 2> fx; Array<Inner> ai; Array<String> as; Array<u64> au;
    String str = "dflt"; Mode mode = Mode::Other; Tint tint = Tint::Red; float d = 9; double f = 9; u8 n64 = 9; s64 n32 = 9; u32 n16 = 9; s16 n8 = 9; s8 i64 = 9; double i32 = 9; s32 i8 = 9; u8 t = 9;
    Array<u32> also;
    PLY_REFLECT()
};
SWITCH_TABLE_BEGIN(Pick) SWITCH_TABLE_STATE(Pick, Zero) SWITCH_TABLE_STATE(Pick, Two) SWITCH_TABLE_STATE(Pick, One) SWITCH_TABLE_END(Pick)
PLY_STRUCT_BEGIN(Inner) M(s) M(added) M(a) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(Pick::Zero) M(z) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(Pick::Two) M(v) M(t) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(Pick::One) M(n) PLY_STRUCT_END()
PLY_SWITCH_BEGIN(Pick) PLY_SWITCH_MEMBER(Zero) PLY_SWITCH_MEMBER(Two) PLY_SWITCH_MEMBER(One) PLY_SWITCH_END()
PLY_STRUCT_BEGIN(All) M(sw) M(ao) M(own) M(fresh) M(in) M(ei) M(fx) M(ai) M(as) M(au) M(str) M(mode) M(tint) M(d) M(f) M(n64) M(n32) M(n16) M(n8) M(i64) M(i32) M(i8) M(t) M(also) PLY_STRUCT_END()
}
// ---- values ---------------------------------------------------------------------
typedef std::function<void(v1::All&)> Set;
static const char* Names[] = {"t", "i8", "i16", "i32", "i64", "n8", "n16", "n32", "n64", "f", "d", "tint", "mode", "str", "au", "as", "ai", "aa", "fx", "ei", "in", "own", "ao", "sw"};
constexpr int N = 24;
static std::vector<Set> values(int m) {
    using namespace v1;
    #define V(x) [](All& o) { x; }
    switch (m) {
        case 0: return {V(o.t = false), V(o.t = true)};
        case 1: return {V(o.i8 = 0), V(o.i8 = 127), V(o.i8 = -128)};
        case 2: return {V(o.i16 = 32767), V(o.i16 = -32768)};
        case 3: return {V(o.i32 = 0x7fffffff), V(o.i32 = (s32) 0x80000000u), V(o.i32 = 0)};
        case 4: return {V(o.i64 = 100), V(o.i64 = -128), V(o.i64 = 0x7fffffffffffffffLL), V(o.i64 = (s64) 0x8000000000000000ULL)};
        case 5: return {V(o.n8 = 0), V(o.n8 = 255)};
        case 6: return {V(o.n16 = 255), V(o.n16 = 65535)};
        case 7: return {V(o.n32 = 0x80000000u), V(o.n32 = 0xffffffffu)};
        case 8: return {V(o.n64 = 255), V(o.n64 = 0), V(o.n64 = ~0ull)};
        case 9: return {V(o.f = -0.1f), V(o.f = 3e38f), V(o.f = 0), V(o.f = INFINITY)};
        case 10: return {V(o.d = 0.25), V(o.d = -1e300), V(o.d = 0.1)};
        case 11: return {V(o.tint = Tint::Red), V(o.tint = Tint::Green)};
        case 12: return {V(o.mode = Mode::Off), V(o.mode = Mode::On)};
        case 13: return {V(o.str = ""), V(o.str = (StringView{"a\0b", 3})), V(o.str = String{view(std::string(300, 'x'))})};
        case 14: return {V(o.au = (Array<u32>{1u, 2u, 0xffffffffu})), V(o.au.resize(9); for (u32 i = 0; i < 9; i++) o.au[i] = i)};
        case 15: return {V(o.as = (Array<String>{"", "q", "r s"}))};
        case 16: return {V(o.ai.resize(3); o.ai[1].a = 7; o.ai[2].s = "zz")};
        case 17: return {V(o.aa.resize(2); o.aa[1].append(8u))};
        case 18: return {V(o.fx[0] = 1; o.fx[1] = 65535)};
        case 19: return {V(o.ei[Side::Left].a = 1), V(o.ei[Side::Right].s = "right"; o.ei[Side::Left].s = "")};
        case 20: return {V(o.in.a = 77), V(o.in.s = ""; o.in.a = 65535)};
        case 21: return {V(o.own = new Inner), V(o.own = new Inner; o.own->s = "owned"; o.own->a = 5)};
        case 22: return {V(o.ao.append(new Inner)), V(o.ao.append(new Inner); o.ao.append(nullptr); o.ao.append(new Inner); o.ao.back()->a = 5)};
        default: return {V(o.sw.one().switchTo(); o.sw.one()->n = 5), V(o.sw.two().switchTo(); o.sw.two()->t = "t"), V(o.sw.two().switchTo(); o.sw.two()->v.append(6u); o.sw.two()->v.append(7u))};
    }
    #undef V
}
template <typename T> static std::string num(T v) { char b[60]; snprintf(b, 60, "%.17Lg", (long double) v); return b; }
template <typename T> static std::string arr(const Array<T>& x) { std::string s = "["; for (auto v : x) s += num(v) + " "; return s + "]"; }
static std::string show(const v1::Inner& x) { return "{" + num(x.a) + " " + esc(str(x.s)) + "}"; }
static std::string show(const v2::Inner& x) { return "{" + num(x.a) + " " + esc(str(x.s)) + (x.added == 0.5f ? "" : " added") + "}"; }
template <typename P> static std::string showPick(const P& p) {
    switch (p.id) { case P::ID::One: return "One" + num(p.one()->n); case P::ID::Two: return "Two" + esc(str(p.two()->t)) + arr(p.two()->v); default: return "other"; }
}
template <typename Side, typename A> static void showCommon(const A& o, std::vector<std::pair<std::string, std::string>>& r) {
    auto put = [&](const char* n, std::string v) { r.push_back({n, v}); };
    put("t", num(o.t)); put("i8", num(o.i8)); put("i32", num(o.i32)); put("i64", num(o.i64)); put("n8", num(o.n8)); put("n16", num(o.n16)); put("n32", num(o.n32)); put("n64", num(o.n64)); put("f", num(o.f)); put("d", num(o.d));
    put("str", esc(str(o.str))); put("au", arr(o.au));
    std::string s = "["; for (auto& v : o.as) s += esc(str(v)) + " "; put("as", s);
    s = "["; for (auto& v : o.ai) s += show(v) + " "; put("ai", s);
    put("fx", num(o.fx[0]) + " " + num(o.fx[1]));
    put("ei", show(o.ei[Side::Left]) + " " + show(o.ei[Side::Right]));
    put("in", show(o.in)); put("own", o.own ? show(*o.own) : "null");
    s = "["; for (auto& v : o.ao) s += (v ? show(*v) : "null") + " "; put("ao", s);
    put("sw", showPick(o.sw));
}
typedef std::vector<std::pair<std::string, std::string>> Shown;
static Shown show(const v1::All& o) {
    Shown r; showCommon<v1::Side>(o, r);
    r.push_back({"i16", num(o.i16)}); std::string s = "["; for (auto& v : o.aa) s += arr(v) + " "; r.push_back({"aa", s});
    r.push_back({"tint", num((u32) o.tint)}); r.push_back({"mode", num((u32) o.mode)});
    return r;
}
static Shown show(const v2::All& o) {
    Shown r; showCommon<v2::Side>(o, r);
    r.push_back({"tint", num((u32) o.tint)}); r.push_back({"mode", num((u32) o.mode)});
    return r;
}
static void compare(const Shown& got, const Shown& want, const char* what) {
    for (size_t i = 0; i < got.size(); i++)
        MC_CHECK(got[i].first == want[i].first && (want[i].second == "?" || got[i].second == want[i].second), "%s: %s is %s instead of %s", what, got[i].first.c_str(), got[i].second.substr(0, 100).c_str(), want[i].second.substr(0, 100).c_str());
}
static std::string save(AnyObject o, int prefix) {
    MemOutStream mout;
    mout << StringView{"prefix text"}.left((u32) prefix);
    writeAsset(&mout, o);
    return str(mout.moveToString());
}
static AnyObject load(const std::string& bytes, int prefix, int way, PersistentTypeResolver* res) {
    HeapBytes hb{bytes};
    if (way == 0) {
        ViewInStream in{hb.view()};
        char tmp[16]; in.read({tmp, (u32) prefix});
        auto o = readAsset(&in, res);
        MC_CHECK(in.getSeekPos() == bytes.size(), "reading stops at %d of %d", (int) in.getSeekPos(), (int) bytes.size());
        return o;
    }
    // through a pipe that delivers the bytes one at a time
    CutSource* src = new CutSource{&bytes}; for (auto& c : src->cutAfter) c = 1;
    InStream in{OptionallyOwned<InPipe>{Owned<InPipe>{src}}, 7};
    char tmp[16]; in.read({tmp, (u32) prefix});
    return readAsset(&in, res);
}
// every pair of values of two members, loaded by the same types
static void trip() {
    int m1 = choose(N), m2 = choose(m1 + 1);
    auto a = values(m1), b = values(m2);
    int k1 = choose((int) a.size()), k2 = choose((int) b.size());
    mc::casef("%s=%d %s=%d", Names[m1], k1, Names[m2], k2);
    v1::All o; a[k1](o); b[k2](o);
    Shown want = show(o);
    mc::nontrivial(); std::string key; for (auto& w : want) key += w.second + "|"; mc::state(hstr(key));
    std::string bytes = save(AnyObject::bind(&o), 0);
    compare(show(o), want, "saving changed the object");
    ExpectedTypeResolver same{getTypeDescriptor<v1::All>()}, later{getTypeDescriptor<v2::All>()};
    for (int way = 0; way < 2; way++) {
        Owned<v1::All> r = load(bytes, 0, way, &same).cast<v1::All>();
        MC_CHECK((bool) r, "nothing loaded"); compare(show(*r), want, "loaded"); mc::step();
    }
    std::string moved = save(AnyObject::bind(&o), 7);
    MC_CHECK(moved == "prefix " + bytes, "the bytes depend on where they are written");
    { Owned<v1::All> r = load(moved, 7, 0, &same).cast<v1::All>(); compare(show(*r), want, "loaded after other data"); }
    // by later types: convert the expected values
    v2::All e;
    auto fits = [](long double v, long double lo, long double hi) { return v >= lo && v <= hi; };
    bool i64ok = fits(o.i64, -128, 127), n64ok = fits(o.n64, 0, 255), aok = true;
    e.t = o.t; e.i8 = o.i8; e.i32 = o.i32; e.i64 = i64ok ? (s8) o.i64 : 0; e.n8 = o.n8; e.n16 = o.n16; e.n32 = o.n32; e.n64 = n64ok ? (u8) o.n64 : 0; e.f = o.f; e.d = (float) o.d;
    e.str = o.str; e.au.resize(o.au.numItems()); for (u32 i = 0; i < o.au.numItems(); i++) e.au[i] = o.au[i]; e.as = o.as;
    auto conv = [&](v2::Inner& d, const v1::Inner& s) { d.a = (u16) s.a; if (s.a > 65535) aok = false; d.s = s.s; };
    e.ai.resize(o.ai.numItems()); for (u32 i = 0; i < o.ai.numItems(); i++) conv(e.ai[i], o.ai[i]);
    e.fx[0] = o.fx[0]; e.fx[1] = o.fx[1];
    conv(e.ei[v2::Side::Left], o.ei[v1::Side::Left]); conv(e.ei[v2::Side::Right], o.ei[v1::Side::Right]); conv(e.in, o.in);
    if (o.own) { e.own = new v2::Inner; conv(*e.own, *o.own); }
    for (auto& x : o.ao) { e.ao.append(x ? new v2::Inner : nullptr); if (x) conv(*e.ao.back(), *x); }
    if (o.sw.id == v1::Pick::ID::One) { e.sw.one().switchTo(); e.sw.one()->n = o.sw.one()->n; }
    else { e.sw.two().switchTo(); e.sw.two()->t = o.sw.two()->t; e.sw.two()->v = o.sw.two()->v; }
    if (o.tint == v1::Tint::Red) e.tint = v2::Tint::Red; else if (o.tint == v1::Tint::Blue) e.tint = v2::Tint::Blue;   // Green is unknown: the default stays
    e.mode = o.mode == v1::Mode::On ? v2::Mode::On : v2::Mode::Off;
    Shown w2 = show(e);
    for (auto& w : w2) if ((w.first == "i64" && !i64ok) || (w.first == "n64" && !n64ok) || (w.first == "d" && (double) (float) o.d != o.d && std::isinf((float) o.d))) w.second = "?";
    Owned<v2::All> r = load(bytes, 0, 0, &later).cast<v2::All>();
    compare(show(*r), w2, "loaded by later types");
    MC_CHECK(r->fresh == 77 && r->also.numItems() == 0 && r->ei[v2::Side::Top].a == 13 && r->ei[v2::Side::Top].s == "two", "a member that wasn't saved lost its default");
    mc::step(2);
}
// members of another kind than was saved: each member's default stays, the others load
struct Wrong {
    String t = "w"; u32 str = 5; Array<u32> f; u32 au = 6; u32 in = 7; v1::Inner ai; Owned<v1::Inner> fx; FixedArray<u32, 3> ei; v1::Tint own = v1::Tint::Green; v1::Mode n32 = v1::Mode::Off; u32 ao = 8;
    u32 sw = 9; v1::Pick d; EnumIndexedArray<u32, v1::Side> aa; u32 tint = 10; u32* n16 = nullptr; FixedArray<u16, 2> i64; Array<v1::Inner> mode; u32 n64 = 0; FixedArray<u32, 1> last; u32 end = 0;
    PLY_REFLECT()
};
PLY_STRUCT_BEGIN(Wrong) M(t) M(str) M(f) M(au) M(in) M(ai) M(fx) M(ei) M(own) M(n32) M(ao) M(sw) M(d) M(aa) M(tint) M(n16) M(i64) M(mode) M(n64) M(last) M(end) PLY_STRUCT_END()
struct Rest { u32 end = 0; PLY_REFLECT() };
PLY_STRUCT_BEGIN(Rest) M(end) PLY_STRUCT_END()
static void kinds() {
    int m1 = choose(N); auto a = values(m1); int k1 = choose((int) a.size());
    mc::casef("%s=%d", Names[m1], k1);
    v1::All o; for (int i = 0; i < N; i++) values(i).back()(o);
    a[k1](o); o.n64 = 123456;
    std::string bytes = save(AnyObject::bind(&o), 0);
    ExpectedTypeResolver res{getTypeDescriptor<Wrong>()};
    Owned<Wrong> r = load(bytes, 0, 0, &res).cast<Wrong>();
    MC_CHECK(r->t == "w" && r->str == 5 && r->f.numItems() == 0 && r->au == 6 && r->in == 7 && r->ai.a == 3 && r->ai.s == "in" && !r->fx && r->own == v1::Tint::Green && r->n32 == v1::Mode::Off && r->ao == 8 && r->sw == 9 &&
        r->d.id == v1::Pick::ID::One && r->d.one()->n == 1 && r->tint == 10 && !r->n16 && r->mode.numItems() == 0, "a member of another kind was loaded");
    MC_CHECK(r->n64 == 123456, "n64 is %u", r->n64);
    MC_CHECK(r->end == 4321, "the last member is %u", r->end);
    ExpectedTypeResolver rest{getTypeDescriptor<Rest>()};
    Owned<Rest> q = load(bytes, 0, 0, &rest).cast<Rest>();
    MC_CHECK(q->end == 4321, "after members that aren't there any more: %u", q->end);
    mc::state((u64) m1 * 10 + k1); mc::step();
}
// ---- graphs -----------------------------------------------------------------------
namespace v1 {
struct Item { Owned<Item> first; Item* link = nullptr; Array<Owned<Item>> kids; u32 v = 0; Array<Item*> links; PLY_REFLECT() };
struct Root { Item* top = nullptr; Owned<Item> one; Owned<Item> two; PLY_REFLECT() };
PLY_STRUCT_BEGIN(Item) M(first) M(link) M(kids) M(v) M(links) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(Root) M(top) M(one) M(two) PLY_STRUCT_END()
}
namespace v2 { // no "first": the objects in it are lost, and links to them become null
struct Item { u16 v = 0; Array<Item*> links; Array<Owned<Item>> kids; Item* link = nullptr; PLY_REFLECT() };
struct Root { Owned<Item> two; Owned<Item> one; Item* top = nullptr; PLY_REFLECT() };
PLY_STRUCT_BEGIN(Item) M(v) M(links) M(kids) M(link) PLY_STRUCT_END()
PLY_STRUCT_BEGIN(Root) M(two) M(one) M(top) PLY_STRUCT_END()
}
template <typename Item> static void number(Item* i, std::map<const Item*, u32>& ids) { if (i) ids[i] = i->v; }
template <typename Item> struct Walk {
    std::map<const Item*, bool> seen; std::string out;
    static Item* firstOf(v1::Item* i) { return (Item*) i->first.get(); }
    void node(const Item* i) {
        if (!i) { out += "-"; return; }
        seen[i] = true;
        out += "(" + std::to_string(i->v);
        auto link = [&](const Item* l) { out += l ? ">" + std::to_string(l->v) : std::string(">0"); targets.push_back(l); };
        link(i->link); out += "["; for (auto* l : i->links) link(l); out += "]";
        extra(i);
        for (auto& k : i->kids) node(k);
        out += ")";
    }
    void extra(const v1::Item* i) { if (withFirst) { out += "f"; node((const Item*) (const void*) &*i->first); } else skip(i->first); }
    void extra(const v2::Item*) {}
    void skip(const v1::Item*) {}
    bool withFirst = true; std::vector<const Item*> targets;
};
static void graph() {
    const int max = pick(3, 4);
    int n = choose(max) + 1;
    // item i > 0 hangs under an earlier item (as first or kid), or in the root's second place
    struct Plan { int parent, where, link, extra; } p[4]; 
    for (int i = 0; i < n; i++) {
        p[i].parent = i == 0 ? -1 : choose(i + 1) - 1;       // -1: the root
        p[i].where = p[i].parent < 0 ? 0 : choose(2);         // 0 kid, 1 first
        p[i].link = choose(n + 1) - 1;                        // -1: null
        p[i].extra = i + 1 == n ? choose(n + 2) - 2 : -2;     // -2: no item in links
    }
    int top = choose(n + 1) - 1;
    std::string what; for (int i = 0; i < n; i++) { char b[60]; snprintf(b, 60, "%d/%d>%d,%d ", p[i].parent, p[i].where, p[i].link, p[i].extra); what += b; }
    mc::casef("%s top %d", what.c_str(), top);
    v1::Root root; v1::Item* it[4];
    bool ok = true, lost[4] = {};
    for (int i = 0; i < n && ok; i++) {
        it[i] = new v1::Item; it[i]->v = (u32) i + 1;
        if (p[i].parent < 0) { if (!root.one) root.one = it[i]; else if (!root.two) root.two = it[i]; else { delete it[i]; ok = false; n = i; } }
        else if (p[i].where) { if (!it[p[i].parent]->first) { it[p[i].parent]->first = it[i]; lost[i] = true; } else { delete it[i]; ok = false; n = i; } }
        else it[p[i].parent]->kids.append(it[i]);
        if (ok && p[i].parent >= 0 && lost[p[i].parent]) lost[i] = true;
    }
    if (!ok) return;
    for (int i = 0; i < n; i++) { it[i]->link = p[i].link < 0 ? nullptr : it[p[i].link]; if (p[i].extra >= -1) { it[i]->links.append(p[i].extra < 0 ? nullptr : it[p[i].extra]); it[i]->links.append(it[0]); } }
    root.top = top < 0 ? nullptr : it[top];
    auto text = [](v1::Root& r) { Walk<v1::Item> w; w.node(r.one); w.node(r.two); for (auto* t : w.targets) MC_CHECK(!t || w.seen.count(t), "a link leads outside the graph");
        MC_CHECK(!r.top || w.seen.count(r.top), "the root's link leads outside"); return w.out + (r.top ? std::to_string(r.top->v) : "null"); };
    std::string want = text(root);
    mc::state(hstr(want)); if (n > 1) mc::nontrivial();
    std::string bytes = save(AnyObject::bind(&root), 0);
    ExpectedTypeResolver same{getTypeDescriptor<v1::Root>()}, later{getTypeDescriptor<v2::Root>()};
    for (int prefix = 0; prefix < 2; prefix++) {
        Owned<v1::Root> r = load(prefix ? save(AnyObject::bind(&root), 5) : bytes, prefix * 5, 0, &same).cast<v1::Root>();
        MC_CHECK((bool) r, "nothing loaded");
        std::string got = text(*r);
        MC_CHECK(got == want, "loaded %s instead of %s", got.c_str(), want.c_str()); mc::step();
    }
    // with types that leave some objects out
    for (int i = 0; i < n; i++) { if (it[i]->link && lost[it[i]->link->v - 1]) it[i]->link = nullptr; for (auto& l : it[i]->links) if (l && lost[l->v - 1]) l = nullptr; }
    if (root.top && lost[root.top->v - 1]) root.top = nullptr;
    Walk<v1::Item> e; e.withFirst = false; e.node(root.one); e.node(root.two); std::string want2 = e.out + (root.top ? std::to_string(root.top->v) : "null");
    Owned<v2::Root> r = load(bytes, 0, 0, &later).cast<v2::Root>();
    Walk<v2::Item> w; w.node(r->one); w.node(r->two); for (auto* t : w.targets) MC_CHECK(!t || w.seen.count(t), "a link leads outside the graph");
    std::string got = w.out + (r->top ? std::to_string(r->top->v) : "null");
    MC_CHECK(got == want2, "loaded by other types %s instead of %s", got.c_str(), want2.c_str()); mc::step();
    // the root and the whole file are gone; nothing of them is used by what was loaded
}
// ---- objects of any type -------------------------------------------------------------
struct Packed { u32 x = 1; u32 y = 2; PLY_REFLECT() };
PLY_STRUCT_BEGIN(Packed) M(x) M(y) PLY_STRUCT_END()
struct Misc { u32 before = 1; AnyOwnedObject any; AnySavedObject saved; TypedArray arr; AnyOwnedObject any2; Array<u16> tail; PLY_REFLECT() };
PLY_STRUCT_BEGIN(Misc) M(before) M(any) M(saved) M(arr) M(any2) M(tail) PLY_STRUCT_END()
struct Misc2 { Array<u16> tail; u32 before = 1; PLY_REFLECT() };
PLY_STRUCT_BEGIN(Misc2) M(tail) M(before) PLY_STRUCT_END()
static std::string render(AnyObject o) { // an independent reading through the descriptors
    if (!o.data) return "null";
    if (o.type->typeKey == &TypeKey_U16) return num(*(u16*) o.data);
    if (o.type->typeKey == &TypeKey_U32) return num(*(u32*) o.data);
    if (o.type->typeKey == &TypeKey_Float) return num(*(float*) o.data);
    if (o.type->typeKey == &TypeKey_String) { String* s = (String*) o.data; return esc(str(*s)); }
    if (o.type->typeKey == &TypeKey_Struct) { std::string s = "{"; for (auto& m : o.type->cast<TypeDescriptor_Struct>()->members) s += str(m.name) + "=" + render({PLY_PTR_OFFSET(o.data, m.offset), m.type}) + " "; return s + "}"; }
    if (o.type->typeKey == &TypeKey_Array) { auto* a = (details::BaseArray*) o.data; auto* t = o.type->cast<TypeDescriptor_Array>()->itemType; std::string s = "["; for (u32 i = 0; i < a->m_numItems; i++) s += render({PLY_PTR_OFFSET(a->m_items, i * t->fixedSize), t}) + " "; return s + "]"; }
    return "?" + str(o.type->getName().view());
}
static std::string render(Misc& m) {
    std::string s = num(m.before) + " any=" + render(m.any) + " saved=" + (m.saved.owned.type == getTypeDescriptor<EmptyType>() || !m.saved.owned.data ? std::string("{}") : render(m.saved.owned)) + " arr=[";
    for (u32 i = 0; i < m.arr.numItems(); i++) s += render(m.arr.getItem(i)) + " ";
    return s + "] any2=" + render(m.any2) + " tail=" + arr(m.tail);
}
static void anything() {
    int a = choose(4), s = choose(5), t = choose(6), a2 = choose(3);
    mc::casef("any=%d saved=%d array=%d any2=%d", a, s, t, a2);
    RegistryTypeResolver reg; reg.add(getTypeDescriptor<Misc>()); reg.add(getTypeDescriptor<Packed>()); reg.add(getTypeDescriptor<v1::Inner>()); reg.add(getTypeDescriptor<v1::All>());
    Misc m; m.before = 7; m.tail.append(u16(9)); m.tail.append(u16(65535));
    if (a == 1) { auto* p = new Packed; p->x = 5; m.any = AnyOwnedObject::bind(p); }
    if (a == 2) { auto* p = new v1::Inner; p->s = "hello"; m.any = AnyOwnedObject::bind(p); }
    if (a == 3) { auto* p = new v1::Inner; p->s = ""; m.any = AnyOwnedObject::bind(p); }
    if (s == 1) { auto* p = new Packed; p->y = 6; m.saved.owned = AnyOwnedObject::bind(p); m.saved.typeOwner = TypeOwnerResolver<Packed>::get(); }
    if (s == 2) { auto* p = new v1::Inner; p->s = "saved"; m.saved.owned = AnyOwnedObject::bind(p); m.saved.typeOwner = TypeOwnerResolver<v1::Inner>::get(); }
    if (s == 3) { auto* p = new v1::Pick::Two; p->v.append(4u); m.saved.owned = AnyOwnedObject::bind(p); m.saved.typeOwner = TypeOwnerResolver<v1::Pick::Two>::get(); }
    if (s == 4) { auto* p = new v1::Pick::One; m.saved.owned = AnyOwnedObject::bind(p); m.saved.typeOwner = TypeOwnerResolver<v1::Pick::One>::get(); }
    if (t == 1) m.arr = Array<u16>{u16(1), u16(2), u16(3)};
    if (t == 2) { Array<Packed> x; x.resize(2); x[1].x = 8; m.arr = std::move(x); }
    if (t == 3) { Array<v1::Inner> x; x.resize(2); x[1].s = "item"; m.arr = std::move(x); }
    if (t == 4) m.arr = Array<float>{0.5f};
    if (t == 5) m.arr = Array<u32>{};
    if (a2 == 1) m.any2 = AnyOwnedObject::bind(new Packed);
    if (a2 == 2) m.any2 = AnyOwnedObject::bind(new v1::Inner);
    std::string want = render(m);
    mc::state(hstr(want)); if (a + s + t + a2) mc::nontrivial();
    std::string bytes = save(AnyObject::bind(&m), 0);
    {
        Owned<Misc> r = load(bytes, 0, 0, &reg).cast<Misc>();
        std::string got = render(*r);
        MC_CHECK(got == want, "loaded %s instead of %s", got.c_str(), want.c_str());
        // what was loaded can be saved and loaded again
        std::string again = save(AnyObject::bind(r.get()), 0);
        Owned<Misc> r2 = load(again, 0, 0, &reg).cast<Misc>();
        got = render(*r2);
        MC_CHECK(got == want, "saved and loaded again: %s instead of %s", got.c_str(), want.c_str());
        r->arr.destroy(); r2->arr.destroy();
    }
    { // into a type that has none of these members
        ExpectedTypeResolver res{getTypeDescriptor<Misc2>()};
        Owned<Misc2> r = load(bytes, 0, 0, &res).cast<Misc2>();
        MC_CHECK(r->before == 7 && arr(r->tail) == arr(m.tail), "members are lost after skipped ones");
    }
    m.arr.destroy(); mc::step(3);
}
// the loaded object's lists replace those its constructor made
struct Preset { Array<String> names; Owned<v1::Inner> own; PLY_REFLECT() Preset() { names.append("default"); names.append("other"); own = new v1::Inner; } };
PLY_STRUCT_BEGIN(Preset) M(names) M(own) PLY_STRUCT_END()
static void preset() {
    int k = choose(4), o = choose(3);
    mc::casef("%d names, own %d", k, o);
    Preset p; p.names.clear(); for (int i = 0; i < k; i++) p.names.append(String::format("n{}", i));
    if (o == 0) p.own.clear(); if (o == 1) p.own->s = "mine";
    std::string bytes = save(AnyObject::bind(&p), 0);
    ExpectedTypeResolver res{getTypeDescriptor<Preset>()};
    Owned<Preset> r = load(bytes, 0, 0, &res).cast<Preset>();
    MC_CHECK(r->names.numItems() == (u32) k, "%u names instead of %d", r->names.numItems(), k);
    for (int i = 0; i < k; i++) MC_CHECK(r->names[i] == p.names[i], "name %d", i);
    MC_CHECK((bool) r->own == (bool) p.own && (!p.own || r->own->s == p.own->s), "the owned object differs");
    mc::state((u64) k * 3 + o); mc::step();
}
// a file of one object of each kind on its own, and an empty structure
struct Nothing { PLY_REFLECT() };
PLY_STRUCT_BEGIN(Nothing) PLY_STRUCT_END()
struct Small { Nothing n; u8 b = 1; Nothing m; PLY_REFLECT() };
PLY_STRUCT_BEGIN(Small) M(n) M(b) M(m) PLY_STRUCT_END()
static void small() {
    int k = choose(2);
    mc::casef("%d", k);
    if (k == 0) {
        Nothing n; std::string b = save(AnyObject::bind(&n), 0); ExpectedTypeResolver res{getTypeDescriptor<Nothing>()};
        Owned<Nothing> r = load(b, 0, 0, &res).cast<Nothing>(); MC_CHECK((bool) r, "an empty structure isn't loaded");
    } else {
        Small n; n.b = 200; std::string b = save(AnyObject::bind(&n), 0); ExpectedTypeResolver res{getTypeDescriptor<Small>()};
        Owned<Small> r = load(b, 0, 0, &res).cast<Small>(); MC_CHECK(r && r->b == 200, "an empty member breaks the others");
    }
    mc::state((u64) k); mc::step();
}
MC_SCENARIOS = {
    {"values", trip, mc::LEAKS, "every pair of values of two of the 24 members of a structure, loaded by the same types, by later types and from a dribbling pipe"},
    {"other kinds", kinds, mc::LEAKS, "every member loaded by a type whose members are of other kinds"},
    {"graph", graph, mc::LEAKS, "every tree of owned items with every choice of links between them"},
    {"any type", anything, mc::LEAKS, "objects and arrays whose types are saved with them"},
    {"preset", preset, mc::LEAKS, "lists and owned objects that already hold defaults"},
    {"small", small, mc::LEAKS, "empty structures"},
    MC_END};
