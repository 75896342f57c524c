// Recipes that gather structures from several source structures
#include "common.h"
#include <ply-reflect/Core.h>
#include <ply-reflect/TypeConverter.h>
#include <ply-runtime/io/OutStream.h>
using mc::choose; using mc::pick;
static TypeDescriptor* F() { return getTypeDescriptor<float>(); }
// every kind is made anew for each execution, and freed with it
struct Types {
    std::vector<TypeDescriptor*> all;
    ~Types() { for (auto* t : all) delete t; }
    template <typename T> TypeDescriptor* keep(T* t) { all.push_back(t); return t; }
    TypeDescriptor* fa(TypeDescriptor* t, u32 n, u32 stride = 0) { return keep(stride ? new TypeDescriptor_FixedArray{t, n, stride} : new TypeDescriptor_FixedArray{t, n}); }
    TypeDescriptor* ar(TypeDescriptor* t) { return keep(new TypeDescriptor_Array{t}); }
};
static const char* DstNames[] = {"f", "f[2]", "f[3]", "f[2]/8", "f[2][2]", "f[1]", "f[2]/12[3]"};
constexpr int NumDst = 7;
static TypeDescriptor* dstType(Types& t, int k) {
    switch (k) {
        case 0: return F();
        case 1: return t.fa(F(), 2);
        case 2: return t.fa(F(), 3);
        case 3: return t.fa(F(), 2, 8);
        case 4: return t.fa(t.fa(F(), 2), 2);
        case 5: return t.fa(F(), 1);
        default: return t.fa(t.fa(F(), 2, 12), 3);
    }
}
// the source kinds a target kind can be read from
static const char* FlatNames[] = {"f[2]", "f[3]", "f[2]/8", "Array", "Array/0", "Array/1", "Array/5"};
static const char* DeepNames[] = {"f[2][2]", "f[3]/16[1]", "Array[2]", "f[3][]", "f[3][]/0", "Array[]/3"};
static int numSrc(int dst) { return dst == 0 ? 1 : dst == 4 || dst == 6 ? 6 : 7; }
static TypeDescriptor* srcType(Types& t, int dst, int k) {
    if (dst == 0) return F();
    if (dst == 4 || dst == 6) switch (k) {
        case 0: return t.fa(t.fa(F(), 2), 2);
        case 1: return t.fa(t.fa(F(), 3, 16 / 3 * 2), 1);
        case 2: return t.fa(t.ar(F()), 2);
        case 3: case 4: return t.ar(t.fa(F(), 3));
        default: return t.ar(t.ar(F()));
    }
    switch (k) {
        case 0: return t.fa(F(), 2);
        case 1: return t.fa(F(), 3);
        case 2: return t.fa(F(), 2, 8);
        default: return t.ar(F());
    }
}
static u32 numItemsOf(int dst, int k, int depth, int index) {
    if (dst == 4 || dst == 6) return depth == 0 ? (k == 4 ? 0 : 3) : (u32) (index + (k == 2)) % 4;
    return k == 3 ? 2 : k == 4 ? 0 : k == 5 ? 1 : 5;
}
static float g_next;
struct Source {
    std::vector<void*> blocks;
    ~Source() { for (void* b : blocks) free(b); }
    void* mem(size_t n) { if (!n) return nullptr; void* p = malloc(n); memset(p, 0xEE, n); blocks.push_back(p); return p; }
    void fill(void* at, TypeDescriptor* t, int dst, int k, int depth = 0, int index = 0) {
        if (t == F()) { float v = g_next += 1.f; memcpy(at, &v, 4); return; }
        if (t->typeKey == &TypeKey_FixedArray) { auto* a = t->cast<TypeDescriptor_FixedArray>(); for (u32 i = 0; i < a->numItems; i++) fill(PLY_PTR_OFFSET(at, i * a->stride), a->itemType, dst, k, depth + 1, (int) i); return; }
        auto* a = t->cast<TypeDescriptor_Array>(); auto* b = (details::BaseArray*) at; u32 n = numItemsOf(dst, k, depth, index), sz = a->itemType->fixedSize;
        b->m_items = mem(n * sz); b->m_numItems = n; b->m_allocated = n;
        for (u32 i = 0; i < n; i++) fill(PLY_PTR_OFFSET(b->m_items, i * sz), a->itemType, dst, k, depth + 1, (int) i);
    }
};
// what the target must hold, straight from the two types
static void expect(char* dst, TypeDescriptor* d, const char* src, TypeDescriptor* s) {
    if (d == F()) { memcpy(dst, src, 4); mc::step(); return; }
    auto* a = d->cast<TypeDescriptor_FixedArray>();
    if (s->typeKey == &TypeKey_FixedArray) { auto* b = s->cast<TypeDescriptor_FixedArray>(); for (u32 i = 0; i < a->numItems && i < b->numItems; i++) expect(dst + i * a->stride, a->itemType, src + i * b->stride, b->itemType); }
    else { auto* b = s->cast<TypeDescriptor_Array>(); auto* arr = (const details::BaseArray*) src; for (u32 i = 0; i < a->numItems && i < arr->m_numItems; i++) expect(dst + i * a->stride, a->itemType, (const char*) arr->m_items + i * b->itemType->fixedSize, b->itemType); }
}
struct Member { int dst, src; int where; }; // where: 0 first source, 1 second source, 2 both
static void check(const std::vector<Member>& ms, bool reversed, int pad, int exp) {
    Types types; g_next = 0;
    static const char* names[] = {"a", "b", "ab", "position", "e", "f"};
    TypeDescriptor_Struct dstStruct{0, 4, "Dst"}, src0{0, 8, "S0"}, src1{0, 8, "S1"};
    TypeDescriptor_Struct* srcs[2] = {&src0, &src1};
    auto add = [&](TypeDescriptor_Struct& s, std::string name, TypeDescriptor* t, u32 gap) {
        u32 ofs = (s.fixedSize + gap + t->alignment - 1) / t->alignment * t->alignment;
        s.members.append({String{view(name)}, ofs, t}); s.fixedSize = ofs + t->fixedSize;
    };
    std::vector<TypeDescriptor*> dts, sts; std::vector<std::string> nm;
    for (size_t i = 0; i < ms.size(); i++) {
        dts.push_back(dstType(types, ms[i].dst)); sts.push_back(srcType(types, ms[i].dst, ms[i].src));
        nm.push_back(i < 6 ? std::string(names[i]) : "m" + std::to_string(i));
        add(dstStruct, nm[i], dts[i], pad * 4);
    }
    std::vector<size_t> order; for (size_t i = 0; i < ms.size(); i++) order.push_back(reversed ? ms.size() - 1 - i : i);
    add(src1, "unused", types.ar(F()), 0);
    for (size_t i : order) {
        if (ms[i].where != 1) add(src0, nm[i], sts[i], pad * 4);
        if (ms[i].where == 2) add(src1, nm[i], types.ar(types.ar(F())), 0); // never looked at
        if (ms[i].where == 1) { add(src0, nm[i] + "x", F(), 0); add(src1, nm[i], sts[i], 0); }
    }
    std::string got, want;
    {
        Source mem; void* sp[2] = {mem.mem(src0.fixedSize ? src0.fixedSize : 4), mem.mem(src1.fixedSize)};
        for (int s = 0; s < 2; s++) for (auto& m : srcs[s]->members) {
            size_t i = 0; while (i < nm.size() && nm[i] != str(m.name)) i++;
            if (i < nm.size() && sts[i] == m.type) mem.fill(PLY_PTR_OFFSET(sp[s], m.offset), m.type, ms[i].dst, ms[i].src);
            else if (m.type == F()) { float v = -1; memcpy(PLY_PTR_OFFSET(sp[s], m.offset), &v, 4); }
        }
        want.assign(dstStruct.fixedSize, '\xCD');
        for (size_t i = 0; i < ms.size(); i++) {
            auto& s = ms[i].where == 1 ? src1 : src0; u32 so = 0; for (auto& m : s.members) if (str(m.name) == nm[i]) so = m.offset;
            expect(&want[dstStruct.members[(u32) i].offset], dts[i], (const char*) sp[ms[i].where == 1] + so, sts[i]);
        }
        std::vector<std::string> before; for (int s = 0; s < 2; s++) before.push_back(std::string((char*) sp[s], srcs[s]->fixedSize));
        MemOutStream mout{(u32) exp};
        createConversionRecipe(&mout, &dstStruct, {srcs, 2});
        mout.flushMem();
        BlockList::Ref head = mout.getHeadRef();
        char* dst = (char*) malloc(dstStruct.fixedSize); memset(dst, 0xCD, dstStruct.fixedSize);
        for (int again = 0; again < 2; again++) { // recipes are made once and applied many times
            applyConversionRecipe(head.block, dst, {sp, 2});
            got.assign(dst, dstStruct.fixedSize);
            if (got != want) for (size_t i = 0; i < want.size(); i++) if (got[i] != want[i]) { free(dst); mc::fail("byte %d of the target is wrong (application %d)", (int) i, again + 1); }
        }
        free(dst);
        for (int s = 0; s < 2; s++) MC_CHECK(std::string((char*) sp[s], srcs[s]->fixedSize) == before[s], "a source was changed");
    }
    mc::state(hstr(want) * 31 + ms.size());
}
static void label(const std::vector<Member>& ms, bool rev, int pad, int exp) {
    std::string s;
    for (auto& m : ms) { s += DstNames[m.dst]; s += "<"; s += m.dst == 0 ? "f" : m.dst == 4 || m.dst == 6 ? DeepNames[m.src] : FlatNames[m.src]; s += m.where == 1 ? "@1 " : m.where == 2 ? "@both " : " "; if (s.size() > 150) break; }
    mc::casef("%s%spad %d, blocks of 2^%d", s.c_str(), rev ? "reversed " : "", pad, exp);
}
static void members() {
    int n = choose(pick(2, 3)) + 1; std::vector<Member> ms;
    for (int i = 0; i < n; i++) { Member m; m.dst = choose(NumDst); m.src = choose(numSrc(m.dst)); m.where = choose(3); ms.push_back(m); }
    bool rev = n > 1 && choose(2); int pad = choose(2), exp = n > 2 ? 11 : choose(2) ? 7 : 11;
    label(ms, rev, pad, exp);
    if (n > 1) mc::nontrivial();
    check(ms, rev, pad, exp);
}
// many members: the recipe covers several blocks, with every alignment of commands to their ends
static void many() {
    int kind = choose(NumDst), src = choose(numSrc(kind)), n = choose(pick(120, 400)) + 1, lead = choose(3), exp = choose(6) + 7;
    std::vector<Member> ms; for (int i = 0; i < lead; i++) ms.push_back({i, 0, i}); for (int i = 0; i < n; i++) ms.push_back({kind, src, i & 1});
    label(ms, false, 0, exp);
    mc::nontrivial();
    check(ms, false, 0, exp);
}
MC_SCENARIOS = {
    {"members", members, mc::LEAKS, "every structure of up to 2 (thorough 3) members of every target and source kind, in either or both sources"},
    {"many", many, mc::LEAKS, "recipes of up to 123 (thorough 403) members in blocks of 128 bytes to 4 KB"},
    MC_END};
