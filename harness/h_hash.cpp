// Hash128 (SpookyHash V2) against a byte-wise implementation, and Hasher against representation changes
#include "common.h"
#include <ply-runtime/container/Hash128.h>
#include <ply-runtime/container/Hash.h>
#include <ply-runtime/container/HashMap.h>
#include <ply-runtime/string/String.h>

namespace ref { // SpookyHash V2, straight from its definition, on a complete message
typedef uint64_t u;
static u rot(u x, int k) { return (x << k) | (x >> (64 - k)); }
static u ld(const std::string& s, size_t at, size_t n) { u v = 0; for (size_t i = 0; i < n; i++) v |= (u) (unsigned char) s[at + i] << (8 * i); return v; }
static const u K = 0xdeadbeefdeadbeefULL;
static void mix4(u* h) {
    static const int r[12] = {50, 52, 30, 41, 54, 48, 38, 37, 62, 34, 5, 36};
    for (int i = 0; i < 12; i++) { int x = (i + 2) % 4, y = (i + 3) % 4, z = i % 4; h[x] = rot(h[x], r[i]); h[x] += h[y]; h[z] ^= h[x]; }
}
static void end4(u* h) {
    static const int r[11] = {15, 52, 26, 51, 28, 9, 47, 54, 32, 25, 63};
    for (int i = 0; i < 11; i++) { int x = (i + 3) % 4, y = (i + 2) % 4; h[x] ^= h[y]; h[y] = rot(h[y], r[i]); h[x] += h[y]; }
}
static void mix12(u* s, const u* d) {
    static const int r[12] = {11, 32, 43, 31, 17, 28, 39, 57, 55, 54, 22, 46};
    for (int i = 0; i < 12; i++) { s[i] += d[i]; s[(i + 2) % 12] ^= s[(i + 10) % 12]; s[(i + 11) % 12] ^= s[i]; s[i] = rot(s[i], r[i]); s[(i + 11) % 12] += s[(i + 1) % 12]; }
}
static void end12(u* h) {
    static const int r[12] = {44, 15, 34, 21, 38, 33, 10, 13, 38, 53, 42, 54};
    for (int i = 0; i < 12; i++) { h[(i + 11) % 12] += h[(i + 1) % 12]; h[(i + 2) % 12] ^= h[(i + 11) % 12]; h[(i + 1) % 12] = rot(h[(i + 1) % 12], r[i]); }
}
static void hash(const std::string& s, u& o1, u& o2) {
    size_t n = s.size();
    if (n < 192) {
        u h[4] = {0, 0, K, K};
        size_t at = 0, rem = n;
        while (rem >= 32) { h[2] += ld(s, at, 8); h[3] += ld(s, at + 8, 8); mix4(h); h[0] += ld(s, at + 16, 8); h[1] += ld(s, at + 24, 8); at += 32; rem -= 32; }
        if (rem >= 16) { h[2] += ld(s, at, 8); h[3] += ld(s, at + 8, 8); mix4(h); at += 16; rem -= 16; }
        h[3] += (u) n << 56;
        if (rem == 0) { h[2] += K; h[3] += K; }
        else { h[2] += ld(s, at, std::min<size_t>(rem, 8)); if (rem > 8) h[3] += ld(s, at + 8, rem - 8); }
        end4(h);
        o1 = h[0]; o2 = h[1];
        return;
    }
    u h[12];
    for (int i = 0; i < 12; i++) h[i] = i % 3 == 2 ? K : 0;
    size_t at = 0;
    u d[12];
    for (; n - at >= 96; at += 96) { for (int i = 0; i < 12; i++) d[i] = ld(s, at + 8 * i, 8); mix12(h, d); }
    std::string t = s.substr(at);
    size_t rem = t.size();
    t.resize(96);
    t[95] = (char) rem;
    for (int i = 0; i < 12; i++) h[i] += ld(t, 8 * i, 8);
    end12(h); end12(h); end12(h);
    o1 = h[0]; o2 = h[1];
}
}
static std::string msg(int n, int kind) { std::string s(n, 0); for (int i = 0; i < n; i++) s[i] = kind == 0 ? (char) (i * 37 + 11) : kind == 1 ? (char) 0 : (char) 0xff; return s; }
static void whole() { // every length
    int n = choose(pick(800, 2500)), kind = choose(3), off = choose(3);
    std::string s = msg(n, kind);
    std::string padded = std::string(off, 'z') + s; // other alignment
    HeapBytes h{padded};
    StringView v = h.view().subStr(off);
    mc::step();
    if (n) mc::nontrivial();
    uint64_t a, b;
    ref::hash(s, a, b);
    u128 r = Hash128::compute(v);
    MC_CHECK(r.hi == a && r.lo == b, "the hash of %d bytes is %016llx%016llx, expected %016llx%016llx", n, (long long) r.hi, (long long) r.lo, (long long) a, (long long) b);
    uint64_t x = 0, y = 0;
    SpookyHash::Hash128(v.bytes, n, &x, &y);
    MC_CHECK(x == a && y == b, "one-shot hash of %d bytes differs", n);
    mc::state(a);
}
static void pieces() { // every division into up to three pieces around the block boundaries
    static const int lens[] = {0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 95, 96, 97, 127, 128, 159, 160, 191, 192, 193, 200, 255, 256, 257, 287, 288, 289, 383, 384, 385, 400, 500, 576, 577};
    int nl = pick(22, 37);
    int p[3];
    for (int i = 0; i < 3; i++) p[i] = lens[choose(nl) + (i == 0 ? 0 : 0)];
    int getAt = choose(3); // also ask for the hash in between
    std::string s = msg(p[0] + p[1] + p[2], 0);
    Hash128 h;
    size_t at = 0;
    for (int i = 0; i < 3; i++) {
        HeapBytes b{s.substr(at, p[i])};
        h.append(b.view());
        at += p[i];
        mc::step();
        if (getAt == i) {
            u128 r = h.get();
            uint64_t x, y;
            ref::hash(s.substr(0, at), x, y);
            MC_CHECK(r.hi == x && r.lo == y, "the hash after pieces of %d, %d, %d bytes differs (asked after piece %d)", p[0], p[1], p[2], i);
        }
    }
    uint64_t x, y;
    ref::hash(s, x, y);
    u128 r = h.get(), r2 = h.get();
    MC_CHECK(r.hi == x && r.lo == y, "the hash of pieces of %d, %d, %d bytes differs from the hash of the whole", p[0], p[1], p[2]);
    MC_CHECK(r.hi == r2.hi && r.lo == r2.lo, "asking twice gives different hashes");
    mc::nontrivial();
    mc::state(mc::mix(mc::mix(p[0], p[1]), p[2]));
}
static void tiny() { // byte-by-byte and doubling, every length
    int n = choose(pick(600, 1500)), step = 1 + choose(7);
    std::string s = msg(n, 0);
    Hash128 h;
    for (int i = 0; i < n; i += step) { HeapBytes b{s.substr(i, step)}; h.append(b.view()); }
    uint64_t x, y;
    ref::hash(s, x, y);
    u128 r = h.get();
    MC_CHECK(r.hi == x && r.lo == y, "the hash of %d bytes fed %d at a time differs", n, step);
    mc::step(n / step + 1);
    mc::nontrivial();
}
static void distinct() { // different short inputs have different hashes
    std::map<std::pair<u64, u64>, std::string> seen;
    int first = choose(pick(64, 256));
    for (int n = 1; n <= 3; n++)
        for (int k = 0; k < (n == 1 ? 1 : n == 2 ? 256 : pick(2048, 65536)); k++) {
            std::string s(1, (char) first);
            if (n > 1) s += (char) k;
            if (n > 2) s += (char) (k >> 8);
            u128 r = Hash128::compute(view(s));
            auto e = seen.emplace(std::make_pair(r.hi, r.lo), s);
            MC_CHECK(e.second || e.first->second == s, "\"%s\" and \"%s\" have the same hash", esc(s).c_str(), esc(e.first->second).c_str());
            mc::step();
        }
    mc::nontrivial();
}
static void hasher() { // equal keys hash equally in any representation and alignment
    int n = choose(pick(6, 7));
    std::string s;
    static const char A[] = {0, 'a', (char) 0x80, (char) 0xff};
    for (int i = 0; i < n; i++) s += A[choose(4)];
    mc::step();
    if (n) mc::nontrivial();
    HeapBytes h0{s};
    u32 h = Hasher::hash(h0.view());
    for (int off = 1; off < 5; off++) {
        HeapBytes hb{std::string(off, '#') + s};
        MC_CHECK(Hasher::hash(hb.view().subStr(off)) == h, "the hash of \"%s\" depends on alignment", esc(s).c_str());
    }
    String o{h0.view()};
    HybridString y{h0.view()};
    MC_CHECK(Hasher::hash(o.view()) == h && Hasher::hash(y.view()) == h, "the hash of \"%s\" depends on its owner", esc(s).c_str());
    { Hasher a; a << o; MC_CHECK(a.result() == h, "streaming a String gives another hash"); }
    { Hasher a; a << StringView{y}; MC_CHECK(a.result() == h && a.result() == h, "streaming a HybridString gives another hash"); }
    mc::state(h);
}
static void hasherNumbers() {
    static const float fs[] = {0.0f, -0.0f, 1.0f, -1.0f, 1e-38f, 3.4e38f};
    int i = choose(6), j = choose(6);
    mc::step();
    mc::nontrivial();
    Hasher a, b;
    a << fs[i]; b << fs[j];
    MC_CHECK((a.result() == b.result()) == (fs[i] == fs[j]), "floats %g and %g: equality and hashes disagree", fs[i], fs[j]);
    u64 x = 1ull << (choose(64)), y = x + choose(2);
    Hasher c, d;
    c << x; d << y;
    MC_CHECK((c.result() == d.result()) == (x == y), "u64 hashes of %llx and %llx", (long long) x, (long long) y);
    MC_CHECK(Hasher::hash(x) == Hasher::hash((s64) x), "signed and unsigned hashes differ");
    mc::state(mc::mix(a.result(), c.result()));
}
MC_SCENARIOS = {
    {"whole", whole, 0, "every length against the published algorithm"},
    {"pieces", pieces, mc::LEAKS, "every division into three pieces of boundary lengths"},
    {"tiny", tiny, mc::LEAKS, "small pieces, every length"},
    {"distinct", distinct, 0, "short inputs"},
    {"hasher", hasher, mc::LEAKS, "string hashes across owners and alignments"},
    {"numbers", hasherNumbers, 0, "number hashes"},
    MC_END,
};
