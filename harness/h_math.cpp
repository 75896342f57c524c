// C47: vectors, boxes, axes, rotations, matrices and integer helpers, against plain arithmetic
#include "common.h"
#include <ply-math/Base.h>
#include <math.h>
#include <string.h>
#include <limits.h>
#include <algorithm>
#include <vector>
using namespace ply;
using mc::choose; using mc::pick;
#define CHK(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)
static uint64_t hb(const void* p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t*) p)[i]) * 1099511628211ull; return h; }
static bool near(double a, double b, double eps = 1e-5) { return fabs(a - b) <= eps * (1 + std::max(fabs(a), fabs(b))); }
static float fromBits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static uint32_t bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
//---------------------------------------------------------------- integers
template <typename I> static void helpers(I v) { // v >= 0
    typedef typename std::make_unsigned<I>::type U;
    U u = (U) v;
    int pop = __builtin_popcountll((uint64_t) u);
    CHK(isPowerOf2(v) == (pop <= 1), "isPowerOf2(%llx) is %d", (unsigned long long) u, isPowerOf2(v));
    CHK(countSetBits(v) == (u32) pop, "countSetBits(%llx) is %u", (unsigned long long) u, countSetBits(v));
    uint64_t top = std::is_signed<I>::value ? (1ull << (sizeof(I) * 8 - 2)) : (1ull << (sizeof(I) * 8 - 1));
    if (u && u <= top) {
        uint64_t p = 1;
        while (p < u) p <<= 1;
        CHK((U) roundUpPowerOf2(v) == p, "roundUpPowerOf2(%llx) is %llx", (unsigned long long) u, (unsigned long long) roundUpPowerOf2(v));
    }
    for (int k = 0; k < (int) sizeof(I) * 8 - 1; k++) {
        uint64_t a = 1ull << k;
        I i1 = (I) a;
        bool aligned = u % a == 0;
        CHK(isAlignedPowerOf2(v, i1) == aligned, "isAlignedPowerOf2(%llx, %llx)", (unsigned long long) u, (unsigned long long) a);
        uint64_t up = aligned ? u : u - u % a + a;
        if (up < u || up > (uint64_t) std::numeric_limits<I>::max()) continue;
        CHK((U) alignPowerOf2(v, i1) == (U) up, "alignPowerOf2(%llx, %llx) is %llx", (unsigned long long) u, (unsigned long long) a, (unsigned long long) alignPowerOf2(v, i1));
        if (sizeof(I) == 8 && k < 31) CHK((U) alignPowerOf2(v, (u32) a) == (U) up && isAlignedPowerOf2(v, (u32) a) == aligned && (U) alignPowerOf2(v, (s32) a) == (U) up, "aligning %llx to a 32-bit %llx", (unsigned long long) u, (unsigned long long) a);
    }
}
static std::vector<uint64_t> corners(int w) {
    std::vector<uint64_t> r;
    uint64_t mask = w == 64 ? ~0ull : (1ull << w) - 1;
    for (int i = 0; i <= w; i++) for (int j = 0; j <= i; j++) for (int d = -2; d <= 2; d++) {
        uint64_t a = i == 64 ? 0 : 1ull << i, b = j == i ? 0 : 1ull << j;
        r.push_back((a + b + (uint64_t) (int64_t) d) & mask);
        r.push_back((a - b + (uint64_t) (int64_t) d) & mask);
    }
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
template <typename Dst, typename Src> static void demote(Src s) {
    if ((s < 0) != ((Dst) s < 0) || (Src) (Dst) s != s) return; // out of range
    CHK((safeDemote<Dst, Src>(s)) == (Dst) s, "safeDemote changes %lld", (long long) s);
}
template <typename S> static void demotes(S s) { demote<s8>(s); demote<u8>(s); demote<s16>(s); demote<u16>(s); demote<s32>(s); demote<u32>(s); demote<s64>(s); demote<u64>(s); }
static void integers() {
    int w = choose(5);
    if (w == 0) { // every value of 8 and 16 bits
        for (int v = 0; v < 65536; v++) {
            if (v < 256) { helpers((u8) v); demotes((u8) v); demotes((s8) v); if (v < 128) helpers((s8) v); }
            helpers((u16) v); demotes((u16) v); demotes((s16) v);
            if (v < 32768) helpers((s16) v);
            CHK(countSetBits((s16) v) == (u32) __builtin_popcount(v), "countSetBits of a negative number"); 
            mc::step();
        }
    } else if (w < 3) {
        for (uint64_t v : corners(32)) { if (w == 1) helpers((u32) v); else if (!(v >> 31)) helpers((s32) v); demotes((u32) v); demotes((s32) v); CHK(countSetBits((s32) v) == (u32) __builtin_popcount((u32) v), "countSetBits(%d)", (s32) v); mc::step(); }
    } else for (uint64_t v : corners(64)) {
        if (w == 3) helpers((u64) v); else if (!(v >> 63)) helpers((s64) v);
        demotes((u64) v); demotes((s64) v);
        CHK(deavalanche((u64) avalanche((u64) v)) == v && avalanche((u64) deavalanche((u64) v)) == v, "avalanche of %llx", (unsigned long long) v);
        CHK(reverse((u32) v) == __builtin_bswap32((u32) v), "reverse");
        mc::step();
    }
    mc::nontrivial();
}
static void mixing() { // 2^20 values of 32 bits each time (thorough: all of them, each time 2^24)
    uint32_t lo = (uint32_t) choose(pick(64, 256)) << pick(26, 24), n = 1u << pick(20, 24);
    for (uint32_t i = 0; i < n; i++) {
        uint32_t v = lo + i;
        CHK(deavalanche((u32) avalanche((u32) v)) == v, "avalanche of %x", v);
        CHK(reverse((u32) v) == __builtin_bswap32(v), "reverse of %x", v);
    }
    if (mc::tier()) for (uint32_t i = 0; i < n; i += 1) { uint32_t v = lo + i; CHK(countSetBits(v) == (u32) __builtin_popcount(v) && isPowerOf2(v) == ((v & (v - 1)) == 0), "bits of %x", v); }
    mc::step(n);
    mc::nontrivial();
}
//---------------------------------------------------------------- single floats
static std::vector<float> floats() { // small multiples of 1/8 and their neighbours, and larger ones
    std::vector<float> r;
    for (int i = -80; i <= 80; i++) { float f = i / 8.f; r.push_back(f); if (i) { r.push_back(nextafterf(f, -1e9f)); r.push_back(nextafterf(f, 1e9f)); } }
    for (float f : {100.f, 1000.5f, 32767.5f, 65535.f, 1048575.75f, 4194303.5f, 8388607.f, 8388608.f, 16777215.f, 16777216.f, 1e9f, 1e-3f, 1e-6f, 1e-30f, 0.1f, 0.3f, 0.7f, 1.f / 3}) { r.push_back(f); r.push_back(-f); }
    return r;
}
static void rounding() {
    static const float sp[] = {1, 0.5f, 0.25f, 2, 4, 3, 0.1f, 10, 1 / 3.f};
    static const std::vector<float> fs = floats();
    float s = sp[choose(9)];
    bool pow2 = s == 1 || s == 0.5f || s == 0.25f || s == 2 || s == 4;
    for (float v : fs) {
        double q = (double) v / s;
        if (fabs(q) > 2e9) continue;
        float qf = v / s;
        double tol = pow2 ? 0 : std::max(fabs(q), 1.0) * 3e-7;
        float up = roundUp(v, s), down = roundDown(v, s), mid = roundNearest(v, s);
        double nu = up / (double) s, nd = down / (double) s, nm = mid / (double) s; // how many spacings
        CHK(near(nu, rint(nu), 1e-6) && near(nd, rint(nd), 1e-6) && near(nm, rint(nm), 1e-6), "rounding %.9g to %g gives %.9g, %.9g, %.9g", v, s, up, down, mid);
        CHK(nu >= q - tol && nu - q <= 1 + tol && (!pow2 || rint(q) != q || nu == q), "roundUp(%.9g, %g) is %.9g", v, s, up);
        CHK(nd <= q + tol && q - nd <= 1 + tol && (!pow2 || rint(q) != q || nd == q), "roundDown(%.9g, %g) is %.9g", v, s, down);
        CHK(fabs(nm - q) <= 0.5 + tol + (fabs(q) < 1 << 24 ? 1e-7 * std::max(1.0, fabs(q)) : 0), "roundNearest(%.9g, %g) is %.9g", v, s, mid);
        CHK(isRounded(Float2{v, s}, s) == (mid == v && roundNearest(s, s) == s), "isRounded(%.9g, %g)", v, s);
        if (pow2 && fabs(q) < 1 << 22) CHK((mid == v) == (rint(q) == q), "%.9g is rounded to %g: %d", v, s, mid == v);
        if (s == 1 && fabs(v) < 1e9) {
            CHK(fastRoundInt(v) == mid && fastRound(v) == mid, "fastRoundInt(%.9g)", v);
            if (fabs(v) < 1 << 22 && fabs(fabs(v - (double) truncf(v)) - 0.5) > 1e-6) CHK(mid == roundf(v), "roundNearest(%.9g) is %.9g", v, mid);
            if (truncf(v) == v) CHK(exactInt(v) == (s32) v, "exactInt");
        }
        float w = wrap(v, s);
        CHK(w >= -tol * s && w <= s + tol * s, "wrap(%.9g, %g) is %.9g", v, s, w);
        double k = (v - (double) w) / s;
        CHK(fabs(k - rint(k)) <= 1e-6 * std::max(1.0, fabs(q)), "wrap(%.9g, %g) is %.9g", v, s, w);
        if (s == 1) { float o = wrapOne(v); CHK(o == w, "wrapOne(%.9g)", v); }
        uint64_t h[2] = {bits(mid), bits(s)};
        mc::state(hb(h, 16));
        mc::step();
        (void) qf;
    }
    mc::nontrivial();
}
static void nearestInts() { // by exponent and leading bits of the significand
    uint32_t hi = (uint32_t) choose(256) << 24;
    for (uint32_t i = 0; i < 1u << 24; i += pick(257, 1)) {
        float v = fromBits(hi | i);
        if (!(fabsf(v) < 2147483000.f)) continue;
        double r = fastRoundInt(v);
        CHK(fabs(r - v) <= 0.5 * (fabsf(v) < 8388608 ? 1.0000002 : 1) + (fabsf(v) >= 8388608 ? 0.5 : 0) && fastRound(v) == (float) r, "fastRoundInt(%.9g) is %.9g", v, r);
        mc::step();
    }
    mc::nontrivial();
}
static void halves() { // floats to half precision, by truncation
    uint32_t hi = (uint32_t) choose(512) << 23;
    for (uint32_t i = 0; i < 1u << 23; i += pick(129, 1)) {
        float v = fromBits(hi | i);
        if (!(fabsf(v) < 65000.f)) break;
        u16 h = floatToHalf(v);
        double m = 0;
        if (h & 0x7fff) m = ldexp(1024 + (h & 1023), ((h >> 10) & 31) - 25);
        CHK(((h & 0x7fff) == 0) == (fabsf(v) < 6.103515625e-05f), "floatToHalf(%.9g) is %x", v, h);
        if (h & 0x7fff) CHK((h >> 15) == (bits(v) >> 31) && m <= fabsf(v) && fabsf(v) < m + ldexp(1, ((h >> 10) & 31) - 25), "floatToHalf(%.9g) is %x", v, h);
        mc::step();
    }
    Int4<u16> q = floatToHalf(Float4{1, -2, 0.5f, 0});
    CHK(q.x == 0x3c00 && q.y == 0xc000 && q.z == 0x3800 && q.w == 0, "floatToHalf of a vector");
    mc::nontrivial();
}
static void colors() {
    int k = choose(4);
    if (k == 0) for (int i = 0; i < 256; i++) { // every byte
        float f = i / 255.f;
        Int4<u8> c = to8888(Float4{f, 1 - f, 0, 1});
        CHK(c.x == i && c.y == 255 - i && c.z == 0 && c.w == 255, "to8888(%d/255) is %d %d %d %d", i, c.x, c.y, c.z, c.w);
        for (int up = 0; up < 4; up++) {
            char t[9];
            snprintf(t, sizeof t, up & 1 ? "%02X%02x%02x%02X" : "%02x%02X%02X%02x", i, 255 - i, i ^ 15, up * 85);
            Float4 v = fromHex<Float4>(t);
            CHK(near(v.x, f, 1e-6) && near(v.y, 1 - f, 1e-6) && near(v.z, (i ^ 15) / 255.f, 1e-6) && near(v.w, up * 85 / 255.f, 1e-6), "fromHex(%s)", t);
            Int4<u8> b = to8888(v);
            CHK(b.x == i && b.y == 255 - i && b.z == (i ^ 15) && b.w == up * 85, "the colour %s becomes %d %d %d %d", t, b.x, b.y, b.z, b.w);
            t[6] = 0;
            Float3 v3 = fromHex<Float3>(t);
            CHK(v3 == v.asFloat3(), "fromHex of three components");
        }
        mc::step();
    }
    if (k == 1) { // curves are inverse to each other and increase
        double last = -1, lastL = -1;
        for (int i = 0; i <= 65536; i++) {
            float f = i / 65536.f, l = sRGBToLinear(f), s = linearToSRGB(f);
            double L = f <= 0.04045 ? f / 12.92 : pow((f + 0.055) / 1.055, 2.4);
            CHK(near(l, L, 1e-5), "sRGBToLinear(%.9g) is %.9g", f, l);
            CHK(near(linearToSRGB(l), f, 2e-5) && near(sRGBToLinear(s), f, 2e-5), "sRGB of %.9g", f);
            CHK(l > last && s > lastL, "the curve decreases at %.9g", f);
            last = l; lastL = s;
            Float4 v = fromSRGB(Float4{f, 0, 1, f}), w = toSRGB(Float4{f, 0, 1, f});
            CHK(v.x == l && v.y == 0 && near(v.z, 1) && v.w == f && w.x == s && w.w == f && fromSRGB(Float3{0, f, 1}).y == l && toSRGB(Float3{0, 1, f}).z == s, "sRGB of a vector");
            mc::step();
        }
    }
    if (k == 2) for (int i = -20000; i <= 20000; i++) {
        float a = i / 1000.f;
        CHK(fabs(fastSin(a) - sin(a)) < 1.2e-3 && fabs(fastCos(a) - cos(a)) < 1.2e-3, "fastSin(%g) is %g, fastCos is %g", a, fastSin(a), fastCos(a));
        Float2 c = fastCosSin(a), e = Complex::fromAngle(a);
        CHK(c.x == fastCos(a) && c.y == fastSin(a), "fastCosSin");
        CHK(near(e.x, cos(a)) && near(e.y, sin(a)) && near(remainder(Complex::getAngle(e) - (double) a, 2 * M_PI), 0, 1e-5), "Complex at %g", a);
        mc::step();
    }
    if (k == 3) {
        static const float vs[] = {-2, -1, 0, 0.5f, 1, 3};
        for (float a : vs) for (float b : vs) for (float c : vs) for (float d : vs) {
            for (int i = 0; i <= 8; i++) {
                float t = i / 8.f, u = 1 - t;
                CHK(near(interpolateCubic(a, b, c, d, t), u * u * u * a + 3 * u * u * t * b + 3 * u * t * t * c + t * t * t * d), "interpolateCubic");
                CHK(near(interpolateCubic(Float2{a, d}, Float2{b, c}, Float2{c, b}, Float2{d, a}, t).y, interpolateCubic(d, c, b, a, t)), "interpolateCubic of vectors");
                CHK(near(applySimpleCubic(t), interpolateCubic(0.f, 0.f, 1.f, 1.f, t)), "applySimpleCubic");
                CHK(near(derivativeCubic(0.f, 0.f, 1.f, 1.f, t) * 3, 6 * t * u), "derivativeCubic");
            }
            CHK(Complex::mul({a, b}, {c, d}) == Float2(a * c - b * d, a * d + b * c), "Complex::mul");
            if (b >= 0) {
                float r = approach(a, c, b), m = std::min(b, fabsf(c - a));
                CHK(r == a + (c > a ? m : -m), "approach(%g, %g, %g) is %g", a, c, b, r);
            }
            CHK(near(ply::mix(a, b, c), a + (b - a) * c), "mix");
            if (a != b) CHK(near(ply::unmix(a, b, ply::mix(a, b, c)), c), "unmix");
            if (b <= c) { float r = clamp(a, b, c); CHK(r == (a < b ? b : a > c ? c : a), "clamp"); }
            CHK(square(a) == a * a && square((double) a) == (double) a * a, "square");
            CHK(bitwiseEqual(a, b) == (a == b), "bitwiseEqual");
            mc::step();
        }
    }
    mc::nontrivial();
}
//---------------------------------------------------------------- vectors
template <typename V> struct Vec;
template <> struct Vec<Float2> { enum { N = 2 }; typedef float T; static Float2 make(const float* a) { return {a[0], a[1]}; } };
template <> struct Vec<Float3> { enum { N = 3 }; typedef float T; static Float3 make(const float* a) { return {a[0], a[1], a[2]}; } };
template <> struct Vec<Float4> { enum { N = 4 }; typedef float T; static Float4 make(const float* a) { return {a[0], a[1], a[2], a[3]}; } };
template <typename I> struct Vec<Int2<I>> { enum { N = 2 }; typedef I T; static Int2<I> make(const I* a) { return {a[0], a[1]}; } };
template <typename I> struct Vec<Int3<I>> { enum { N = 3 }; typedef I T; static Int3<I> make(const I* a) { return {a[0], a[1], a[2]}; } };
template <typename I> struct Vec<Int4<I>> { enum { N = 4 }; typedef I T; static Int4<I> make(const I* a) { return {a[0], a[1], a[2], a[3]}; } };
template <typename V> static const typename Vec<V>::T* comps(const V& v) { return (const typename Vec<V>::T*) &v; }
template <typename V, typename F> static void each(const V& got, const char* what, F f) {
    for (int i = 0; i < Vec<V>::N; i++) {
        auto w = f(i);
        CHK(comps(got)[i] == w || (w != w && comps(got)[i] != comps(got)[i]), "component %d of %s is %.9g instead of %.9g", i, what, (double) comps(got)[i], (double) w);
    }
}
static bool bget(const Bool2& b, int i) { return i ? b.y : b.x; }
static bool bget(const Bool3& b, int i) { return i == 0 ? b.x : i == 1 ? b.y : b.z; }
static bool bget(const Bool4& b, int i) { return i == 0 ? b.x : i == 1 ? b.y : i == 2 ? b.z : b.w; }
template <typename V, typename B, typename F> static void bools(const B& got, const char* what, F f) {
    bool an = false, al = true;
    for (int i = 0; i < Vec<V>::N; i++) { bool w = f(i); CHK(bget(got, i) == w, "component %d of %s is %d", i, what, !w); an = an || w; al = al && w; }
    CHK(any(got) == an && all(got) == al, "any or all of %s", what);
}
template <typename V> static void unpack(int code, const typename Vec<V>::T* vals, int nvals, typename Vec<V>::T* a) { for (int i = 0; i < Vec<V>::N; i++) { a[i] = vals[code % nvals]; code /= nvals; } }
template <typename V, typename T> static void pairs(const V& u, const V& v, const T* a, const T* b) { // what float and integer vectors have in common
    const int N = Vec<V>::N;
    each(u + v, "a sum", [&](int i) { return (T) (a[i] + b[i]); });
    each(u - v, "a difference", [&](int i) { return (T) (a[i] - b[i]); });
    each(u * v, "a product", [&](int i) { return (T) (a[i] * b[i]); });
    each(min(u, v), "min", [&](int i) { return std::min(a[i], b[i]); });
    each(max(u, v), "max", [&](int i) { return std::max(a[i], b[i]); });
    V w = u; w += v; each(w, "+=", [&](int i) { return (T) (a[i] + b[i]); });
    w = u; w -= v; each(w, "-=", [&](int i) { return (T) (a[i] - b[i]); });
    w = u; w *= v; each(w, "*=", [&](int i) { return (T) (a[i] * b[i]); });
    bool div = true, same = true;
    double d = 0, l = 0;
    for (int i = 0; i < N; i++) { div = div && b[i] != 0; same = same && a[i] == b[i]; d += (double) a[i] * b[i]; l += (double) a[i] * a[i]; }
    if (div) {
        each(u / v, "a quotient", [&](int i) { return (T) (a[i] / b[i]); });
        w = u; w /= v; each(w, "/=", [&](int i) { return (T) (a[i] / b[i]); });
    }
    each(u * b[0], "a multiple", [&](int i) { return (T) (a[i] * b[0]); });
    w = u; w *= b[0]; each(w, "*= a number", [&](int i) { return (T) (a[i] * b[0]); });
    CHK((u == v) == same && (u != v) == !same, "equality");
    bools<V>(u < v, "<", [&](int i) { return a[i] < b[i]; });
    bools<V>(u <= v, "<=", [&](int i) { return a[i] <= b[i]; });
    bools<V>(u > v, ">", [&](int i) { return a[i] > b[i]; });
    bools<V>(u >= v, ">=", [&](int i) { return a[i] >= b[i]; });
    CHK((double) dot(u, v) == d, "the dot product is %g instead of %g", (double) dot(u, v), d);
    CHK((double) u.length2() == l, "length2 is %g instead of %g", (double) u.length2(), l);
    mc::step();
}
static double cross2(const float* a, const float* b) { return (double) a[0] * b[1] - (double) a[1] * b[0]; }
template <typename V> static void floatOnly(const V& u, const V& v, const float* a, const float* b) {
    const int N = Vec<V>::N;
    each(-u, "a negation", [&](int i) { return -a[i]; });
    each(abs(u), "abs", [&](int i) { return fabsf(a[i]); });
    each(pow(abs(u), v), "pow", [&](int i) { return powf(fabsf(a[i]), b[i]); });
    double len = 0, dist = 0;
    for (int i = 0; i < N; i++) { len += (double) a[i] * a[i]; dist += ((double) a[i] - b[i]) * ((double) a[i] - b[i]); }
    len = sqrt(len); dist = sqrt(dist);
    CHK(near(u.length(), len), "length is %g", u.length());
    CHK(u.isUnit() == (fabs(1 - len * len) < 0.001), "isUnit");
    if (len > 0) { V n = u.normalized(), s = u.safeNormalized(v); for (int i = 0; i < N; i++) CHK(near(comps(n)[i], a[i] / len) && comps(s)[i] == comps(n)[i], "normalized"); }
    else { V s = u.safeNormalized(v), t = u.safeNormalized(); CHK(s == v && comps(t)[0] == 1 && t.length() == 1, "safeNormalized of zero"); }
    for (float e : {0.25f, 1.f, 2.f}) if (fabs(dist - e) > 1e-4) CHK(isNear(u, v, e) == (dist < e), "isNear");
    if (b[0] != 0) {
        V q = u / b[0], r = u;
        r /= b[0];
        for (int i = 0; i < N; i++) CHK(near(comps(q)[i], a[i] / b[0]) && comps(r)[i] == comps(q)[i], "dividing by a number");
    }
    each(b[0] - u, "a number minus a vector", [&](int i) { return b[0] - a[i]; });
    V lo = min(u, v), hi = max(u, v);
    for (float x : {-3.f, 0.25f, 1.f}) { V w; float wc[N]; for (int i = 0; i < N; i++) wc[i] = x + (i * 7 % 5) * 0.75f - 1; memcpy((void*) &w, wc, sizeof wc); each(clamp(w, lo, hi), "clamp", [&](int i) { return std::max(std::min(a[i], b[i]), std::min(wc[i], std::max(a[i], b[i]))); }); }
    for (float sp : {1.f, 0.5f}) {
        each(roundUp(u, sp), "roundUp", [&](int i) { return roundUp(a[i], sp); });
        each(roundDown(u, sp), "roundDown", [&](int i) { return roundDown(a[i], sp); });
        each(roundNearest(u, sp), "roundNearest", [&](int i) { return roundNearest(a[i], sp); });
        bool r = true;
        for (int i = 0; i < N; i++) r = r && roundNearest(a[i], sp) == a[i];
        CHK(isRounded(u, sp) == r, "isRounded");
    }
    for (float f : {0.f, 0.25f, 1.f, 2.f}) { V m = ply::mix(u, v, f); for (int i = 0; i < N; i++) CHK(near(comps(m)[i], a[i] + (b[i] - a[i]) * f), "mix"); }
    V c = clampLength(u, 1.5f), ap = approach(u, v, 0.75f);
    for (int i = 0; i < N; i++) {
        CHK(near(comps(c)[i], len <= 1.5 ? a[i] : a[i] * 1.5 / len), "clampLength");
        CHK(near(comps(ap)[i], dist <= 0.75 ? b[i] : a[i] + (b[i] - a[i]) * 0.75 / dist), "approach of vectors");
    }
    CHK(u.r() == a[0] && u.g() == a[1], "components as colours");
}
template <typename V> static void swizzles(const V& u, const float* a) {
    const u32 N = Vec<V>::N;
    for (u32 i = 0; i < N; i++) for (u32 j = 0; j < N; j++) {
        CHK(u.swizzle(i, j) == Float2(a[i], a[j]), "swizzle");
        for (u32 k = 0; k < N; k++) {
            CHK(u.swizzle(i, j, k) == Float3(a[i], a[j], a[k]), "swizzle");
            for (u32 l = 0; l < N; l++) CHK(u.swizzle(i, j, k, l) == Float4(a[i], a[j], a[k], a[l]), "swizzle");
        }
    }
}
static int power(int b, int e) { int r = 1; while (e--) r *= b; return r; }
static const float FV[] = {-2, 0, 0.5f, 1, 3, -0.25f};
template <typename V> static void floatVectors(int nv) {
    int total = power(nv, Vec<V>::N), x = choose(total);
    float a[4] = {}, b[4] = {};
    unpack<V>(x, FV, nv, a);
    V u = Vec<V>::make(a);
    swizzles(u, a);
    for (int y = 0; y < total; y++) {
        unpack<V>(y, FV, nv, b);
        V v = Vec<V>::make(b);
        pairs(u, v, a, b);
        floatOnly(u, v, a, b);
    }
    mc::state(hb(a, sizeof a) + Vec<V>::N);
    mc::nontrivial();
}
static void vec2() {
    floatVectors<Float2>(6);
    float a[4], b[4];
    for (int x = 0; x < 36; x++) for (int y = 0; y < 36; y++) { unpack<Float2>(x, FV, 6, a); unpack<Float2>(y, FV, 6, b); CHK(cross(Float2{a[0], a[1]}, Float2{b[0], b[1]}) == cross2(a, b), "cross"); }
    CHK((Float2{2.75f, -3.5f}.to<IntVec2>() == IntVec2{2, -3}), "to");
}
static void vec3() {
    int nv = pick(5, 6);
    floatVectors<Float3>(nv);
    static const int total = nv * nv * nv;
    float a[4], b[4];
    unpack<Float3>(choose(total), FV, nv, a);
    Float3 u = {a[0], a[1], a[2]};
    for (int y = 0; y < total; y++) {
        unpack<Float3>(y, FV, nv, b);
        Float3 v = {b[0], b[1], b[2]}, c = cross(u, v);
        CHK(c.x == (double) a[1] * b[2] - (double) a[2] * b[1] && c.y == (double) a[2] * b[0] - (double) a[0] * b[2] && c.z == cross2(a, b), "cross");
    }
    CHK(u.asFloat2() == Float2(a[0], a[1]) && (Float3{u.asFloat2(), a[2]}) == u && (u * 4).to<IntVec3>() == IntVec3((int) (a[0] * 4), (int) (a[1] * 4), (int) (a[2] * 4)) && u.b() == a[2], "parts of a Float3");
}
static void vec4() {
    floatVectors<Float4>(pick(4, 5));
    float a[4] = {1, 2, 3, 4};
    Float4 u = {a[0], a[1], a[2], a[3]};
    CHK(u.asFloat2() == Float2(1, 2) && u.asFloat3() == Float3(1, 2, 3) && (Float4{Float3{1, 2, 3}, 4}) == u && (Float4{Float2{1, 2}, 3, 4}) == u && u.b() == 3 && u.a() == 4 && u.to<IntVec4>() == IntVec4(1, 2, 3, 4), "parts of a Float4");
    u.r() = 9; u.g() = 8; u.b() = 7; u.a() = 6;
    CHK(u == Float4(9, 8, 7, 6) && u.asQuaternion().asFloat4() == u, "components as colours");
}
template <typename V> static void intVectors(const typename Vec<V>::T* vals, int nv) {
    typedef typename Vec<V>::T T;
    const int N = Vec<V>::N;
    int total = power(nv, N), x = choose(total);
    T a[4] = {}, b[4] = {};
    unpack<V>(x, vals, nv, a);
    V u = Vec<V>::make(a);
    each(-u, "a negation", [&](int i) { return (T) -a[i]; });
    each(u.reverse(), "reverse", [&](int i) { return a[N - 1 - i]; });
    each(V::splat(a[0]), "splat", [&](int) { return a[0]; });
    for (int i = 0; i < N; i++) { V w = u; CHK(u[i] == a[i], "[]"); w[i] = 77; each(w, "[] =", [&](int k) { return k == i ? (T) 77 : a[k]; }); }
    for (int y = 0; y < total; y++) {
        unpack<V>(y, vals, nv, b);
        V v = Vec<V>::make(b);
        pairs(u, v, a, b);
        if (b[0] != 0) { V w = u; w /= b[0]; each(w, "/= a number", [&](int i) { return (T) (a[i] / b[0]); }); each(u / b[0], "dividing by a number", [&](int i) { return (T) (a[i] / b[0]); }); }
    }
    mc::state(hb(a, sizeof a) + 10 * N + sizeof(T));
    mc::nontrivial();
}
static const s32 IV[] = {-3, 0, 1, 2, 46340, -7};
static const s16 SV[] = {-300, 0, 1, 7, 181};
static const u8 BV[] = {0, 1, 15, 7, 128};
static void ints() {
    switch (choose(9)) {
        case 0: intVectors<Int2<s32>>(IV, 6); break;
        case 1: intVectors<Int3<s32>>(IV, pick(5, 6)); break;
        case 2: intVectors<Int4<s32>>(IV, pick(4, 5)); break;
        case 3: intVectors<Int2<s16>>(SV, 5); break;
        case 4: intVectors<Int3<s16>>(SV, pick(4, 5)); break;
        case 5: intVectors<Int4<s16>>(SV, pick(3, 4)); break;
        case 6: intVectors<Int2<u8>>(BV, 5); break;
        case 7: intVectors<Int3<u8>>(BV, pick(4, 5)); break;
        default: intVectors<Int4<u8>>(BV, pick(3, 4)); break;
    }
    IntVec2 p{3, -4};
    CHK((p.yx() == IntVec2{-4, 3}) && (p.swizzle(1, 1) == IntVec2{-4, -4}) && (p.to<Float2>() == Float2{3, -4}) && cross(p, IntVec2{2, 5}) == 23 && (p + 1 == IntVec2{4, -3}) && (p - 1 == IntVec2{2, -5}), "an Int2");
    IntVec3 q{1, 2, 3};
    CHK((q.asInt2() == IntVec2{1, 2}) && (q.swizzle(2, 0, 1) == IntVec3{3, 1, 2}) && (q.to<Float3>() == Float3{1, 2, 3}) && (IntVec4{1, 2, 3, 4}.swizzle(3, 2, 0, 0) == IntVec4{4, 3, 1, 1}), "an Int3");
}
//---------------------------------------------------------------- boxes, as sets of points
template <typename V, typename T> static void boxes(int lim, std::vector<T> probe) {
    typedef Box<V> B;
    auto coords = [&](int c) { return std::pair<T, T>{(T) (c % lim), (T) (c / lim % lim)}; };
    int sq = lim * lim;
    auto x = coords(choose(sq)), y = coords(choose(sq));
    B a{V{x.first, y.first}, V{x.second, y.second}};
    auto in = [](const B& b, T px, T py) { return b.mins.x <= px && px < b.maxs.x && b.mins.y <= py && py < b.maxs.y; };
    auto eq = [](const B& b, T x0, T y0, T x1, T y1) { return b.mins.x == x0 && b.mins.y == y0 && b.maxs.x == x1 && b.maxs.y == y1; };
    bool emptyA = !(x.first < x.second && y.first < y.second);
    CHK(a.isEmpty() == emptyA, "isEmpty");
    CHK((a.size() == V{(T) (x.second - x.first), (T) (y.second - y.first)}) && a.width() == x.second - x.first && a.height() == y.second - y.first, "the size");
    CHK(B::fromSize(a.mins, a.size()) == a && B::fromSize(x.first, y.first, a.width(), a.height()) == a, "fromSize");
    CHK(eq(expand(a, V{1, 2}), x.first - 1, y.first - 2, x.second + 1, y.second + 2) && shrink(expand(a, V{1, 2}), V{1, 2}) == a, "expand and shrink");
    CHK(eq(makeSolid(a), std::min(x.first, x.second), std::min(y.first, y.second), std::max(x.first, x.second), std::max(y.first, y.second)), "makeSolid");
    CHK((a.topLeft() == V{x.first, y.second}) && (a.bottomRight() == V{x.second, y.first}), "corners");
    V mid = a.mid();
    CHK(mid.x == (T) ((x.first + x.second) / (T) 2) && mid.y == (T) ((y.first + y.second) / (T) 2), "the middle of %g to %g is %g", (double) x.first, (double) x.second, (double) mid.x);
    CHK(makeUnion(B::empty(), a) == a && makeUnion(B::empty(), a.mins) == B{a.mins} && B::empty().isEmpty() && intersect(B::full(), a) == a && B::full().contains(a), "empty and full boxes");
    CHK(B::zero() == B(V{0}) && !B::full().isEmpty(), "the zero box");
    CHK((makeUnion(a.mins, a.maxs) == makeSolid(a)), "the union of two points");
    CHK(eq(a * V{2, 3}, x.first * 2, y.first * 3, x.second * 2, y.second * 3), "scaling");
    for (T px : probe) for (T py : probe) {
        V p{px, py};
        CHK(a.contains(p) == in(a, px, py), "contains a point");
        B u = makeUnion(a, p);
        CHK(eq(u, std::min(x.first, px), std::min(y.first, py), std::max(x.second, px), std::max(y.second, py)), "the union with a point");
        if (!emptyA) { V c = a.clamp(p); CHK(c.x == std::min(std::max(px, x.first), x.second) && c.y == std::min(std::max(py, y.first), y.second), "clamp"); }
    }
    for (int i = 0; i < sq; i++) for (int j = 0; j < sq; j++) {
        auto x2 = coords(i), y2 = coords(j);
        B b{V{x2.first, y2.first}, V{x2.second, y2.second}};
        bool emptyB = !(x2.first < x2.second && y2.first < y2.second);
        CHK((a == b) == (x == x2 && y == y2), "equality");
        B s = a + b, d = a - b, e = a;
        CHK(eq(s, x.first + x2.first, y.first + y2.first, x.second + x2.second, y.second + y2.second), "+");
        CHK(eq(d, x.first - x2.first, y.first - y2.first, x.second - x2.second, y.second - y2.second), "-");
        e += b; CHK(e == s, "+="); e -= b; CHK(e == a, "-=");
        e = a; e *= V{2, 3}; CHK((e == a * V{2, 3}), "*=");
        B n = intersect(a, b), u = makeUnion(a, b);
        bool meet = false, sub = true;
        for (T px : probe) for (T py : probe) {
            bool ia = in(a, px, py), ib = in(b, px, py);
            CHK(in(n, px, py) == (ia && ib), "a point of the intersection");
            if (!emptyA && !emptyB && (ia || ib)) CHK(in(u, px, py), "a point of the union");
            meet = meet || (ia && ib);
            sub = sub && (!ib || ia);
        }
        if (!emptyA && !emptyB) CHK(a.intersects(b) == meet && a.contains(b) == sub && n.isEmpty() == !meet, "[%g %g][%g %g] and [%g %g][%g %g]: intersects %d, contains %d", (double) x.first, (double) x.second, (double) y.first, (double) y.second, (double) x2.first, (double) x2.second, (double) y2.first, (double) y2.second, a.intersects(b), a.contains(b));
        if (!emptyA && !emptyB) CHK(eq(u, std::min(x.first, x2.first), std::min(y.first, y2.first), std::max(x.second, x2.second), std::max(y.second, y2.second)), "the union");
        mc::step();
    }
    mc::state(hb(&a, sizeof a));
    if (!emptyA) mc::nontrivial();
}
static void rects() { boxes<Float2, float>(pick(4, 5), {-0.5f, 0, 0.5f, 1, 1.5f, 2, 2.5f, 3, 3.5f, 4}); }
static void intRects() { boxes<IntVec2, s32>(pick(4, 5), {-1, 0, 1, 2, 3, 4}); }
static void rectMath() {
    static const float c[] = {-1.5f, 0, 0.25f, 1, 2.75f};
    Rect r{{c[choose(5)], c[choose(5)]}, {c[choose(5)], c[choose(5)]}};
    if (r.isEmpty()) { mc::markRedundant(); return; }
    for (float x : c) for (float y : c) {
        Float2 m = r.mix(Float2{x, y}), u = r.unmix(m);
        CHK(near(m.x, r.mins.x + (r.maxs.x - r.mins.x) * x) && near(m.y, r.mins.y + (r.maxs.y - r.mins.y) * y), "mix");
        CHK(near(u.x, x) && near(u.y, y), "unmix");
        Rect q = r.mix(Rect{{x, y}, {y, x}}), b = r.unmix(q);
        CHK(near(q.mins.x, m.x) && near(q.maxs.y, r.mix(Float2{y, x}).y) && near(b.mins.x, x) && near(b.maxs.x, y), "mix of a box");
        if (x != 0 && y != 0) { Rect d = r / Float2{x, y}, e = r; e /= Float2{x, y}; CHK(near(d.mins.x, r.mins.x / x) && near(d.maxs.y, r.maxs.y / y) && e == d, "dividing a box"); }
        mc::step();
    }
    for (float s : {1.f, 0.5f}) {
        Rect e = roundExpand(r, s), n = roundNearest(r, s);
        CHK(e.contains(r) && isRounded(e.mins, s) && isRounded(e.maxs, s) && all(r.mins - e.mins < Float2{s}) && all(e.maxs - r.maxs < Float2{s}), "roundExpand");
        CHK(n.mins == roundNearest(r.mins, s) && n.maxs == roundNearest(r.maxs, s), "roundNearest of a box");
    }
    IntRect i = (r * Float2{4, 4}).to<IntRect>();
    CHK((i.mins == IntVec2{(s32) (r.mins.x * 4), (s32) (r.mins.y * 4)}) && (i.maxs == IntVec2{(s32) (r.maxs.x * 4), (s32) (r.maxs.y * 4)}), "to");
    Box3D b{{r.mins, -1}, {r.maxs, 2}};
    CHK(b.depth() == 3 && b.contains(Float3{r.mins, -1}) && !b.contains(Float3{r.mins, 2}) && !b.isEmpty() && b.mid() == Float3(r.mid(), 0.5f) && Box3D::full().contains(b) && makeUnion(Box3D::empty(), b) == b, "a box in space");
    ScalePos2 sp = ScalePos2::mapToRect(r), inv = sp.inverted();
    for (float x : c) for (float y : c) {
        Float2 p = {x, y}, q = sp * p;
        CHK(isNear(q, r.mix(p), 1e-5f) && isNear(inv * q, p, 1e-5f), "mapToRect");
        ScalePos2 t = ScalePos2::makeTranslation(p), s2 = ScalePos2::makeScale({2, -3}), id = ScalePos2::identity();
        CHK(isNear(t * q, q + p, 1e-5f), "a translation by (%g, %g) moves (%g, %g) to (%g, %g)", x, y, q.x, q.y, (t * q).x, (t * q).y);
        CHK(s2 * q == q * Float2(2, -3) && id * q == q && isNear((t * (s2 * sp)) * p, t * (s2 * (sp * p)), 1e-4f), "composing scales and translations");
        CHK((sp * Rect{p, {2, 2}}).mins == sp * p && (sp * Rect{p, {2, 2}}).maxs == sp * Float2(2, 2), "mapping a box");
        CHK(sp.asFloat4() == Float4(sp.scale, sp.pos.x, sp.pos.y), "asFloat4");
    }
    mc::nontrivial();
}
//---------------------------------------------------------------- axes
static Float3 axis(Axis3 a) { int i = (int) a; float v[3] = {}; v[i / 2] = i % 2 ? -1 : 1; return {v[0], v[1], v[2]}; }
static bool inOrder(AxisRot r) { return r.isOrtho() && r.isRightHanded(); }
static std::vector<AxisRot> allRots() {
    std::vector<AxisRot> v;
    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) for (int k = 0; k < 6; k++) if (i / 2 != j / 2 && j / 2 != k / 2 && i / 2 != k / 2) v.push_back(AxisRot{(Axis3) i, (Axis3) j, (Axis3) k});
    return v;
}
static Float3 apply(AxisRot r, const Float3& v) { return axis(r[0]) * v.x + axis(r[1]) * v.y + axis(r[2]) * v.z; }
static void axes() {
    std::vector<AxisRot> all = allRots();
    int k = choose((int) all.size());
    AxisRot r = all[k];
    if (k == 0) {
        for (int i = 0; i < 6; i++) {
            Axis3 a = (Axis3) i;
            CHK(toFloat3(a) == axis(a) && isValid(a) && axis(abs(a)) == abs(axis(a)) && sgn(a) == (i % 2 ? -1 : 1) && axis(negate(a)) == -axis(a) && mulSign(a, 1) == a && mulSign(a, -1) == negate(a), "the axis %d", i);
            CHK(dot(a, Float3{2, 3, 5}) == dot(axis(a), Float3{2, 3, 5}), "dot of an axis and a vector");
            for (int j = 0; j < 6; j++) {
                Axis3 b = (Axis3) j;
                CHK(isPerp(a, b) == (dot(axis(a), axis(b)) == 0) && dot(a, b) == dot(axis(a), axis(b)), "dot of axes %d and %d", i, j);
                if (isPerp(a, b)) CHK(axis(cross(a, b)) == cross(axis(a), axis(b)), "cross of axes %d and %d", i, j);
            }
            for (u32 c = 0; c < 3; c++) { AxisRot m = AxisRot::makeBasis(a, c); CHK(inOrder(m) && m[c] == a, "makeBasis"); }
        }
        CHK(!isValid(Axis3::Count) && !isValid(Axis2::Count), "isValid");
        for (int i = 0; i < 4; i++) {
            Axis2 a = (Axis2) i;
            Float2 f = toFloat2(a);
            CHK((f == Float2{i == 0 ? 1.f : i == 2 ? -1.f : 0, i == 1 ? 1.f : i == 3 ? -1.f : 0}) && isValid(a) && toFloat3(a) == Float3(f, 0) && axis(toAxis3(a)) == Float3(f, 0) && toAxis2(toAxis3(a)) == a && sgn(a) == (i < 2 ? 1 : -1), "the flat axis %d", i);
            Float2 v = a * Float2{2, 5};
            CHK(v == Complex::mul(f, {2, 5}) && a * Float3(2, 5, 7) == Float3(v, 7), "rotating by the flat axis %d", i);
            CHK(Complex::mul(toFloat2(negate(a)), f) == Float2(1, 0), "negating the flat axis %d", i); // the opposite rotation
            AxisRot q = AxisRot::fromRot2D(a);
            CHK(inOrder(q) && q * Float3(2, 5, 7) == a * Float3(2, 5, 7), "fromRot2D");
            AxisRot tr = toAxisRot((Reflection) i);
            CHK(tr == q, "toAxisRot");
        }
        for (int i = 0; i < 8; i++) {
            Float2x2 m = ReflectXform[i];
            CHK(m * m.transposed() == Float2x2::identity(), "a reflection");
        }
    }
    CHK(r.isValid() && r.isOrtho() && r.isRightHanded() == (dot(cross(axis(r[0]), axis(r[1])), axis(r[2])) > 0), "isRightHanded");
    static const Float3 v = {2, 3, -5};
    CHK(r * v == apply(r, v), "rotating a vector");
    for (int i = 0; i < 6; i++) CHK(axis(r * (Axis3) i) == apply(r, axis((Axis3) i)), "rotating an axis");
    for (int i = 0; i < 4; i++) CHK(axis(r * (Axis2) i) == apply(r, toFloat3((Axis2) i)), "rotating a flat axis");
    CHK(r.inverted() * (r * v) == v && r * (r.inverted() * v) == v && r * r.inverted() == AxisRot::identity(), "the inverse");
    Float3x3 m = r.toFloat3x3();
    CHK(m * v == r * v && r.toFloat4x4() * Float4(v, 1) == Float4(r * v, 1), "as a matrix");
    if (r.isRightHanded()) { CHK(AxisRot(r[0], r[1]) == r, "from two axes"); Quaternion q = Quaternion::fromOrtho(m); CHK(isNear(q * v, r * v, 1e-4f), "as a quaternion"); }
    AxisRotPos p{r, {1, -2, 4}};
    CHK(p * v == r * v + Float3(1, -2, 4) && p.inverted() * (p * v) == v && p.toFloat4x4() * Float4(v, 1) == Float4(p * v, 1), "with a position");
    CHK(AxisRotPos::identity() * v == v && AxisRotPos::makeTranslation({1, 2, 3}) * v == v + Float3(1, 2, 3), "a translation");
    int n = 0;
    for (AxisRot o : all) {
        CHK((r * o) * v == r * (o * v) && (r == o) == (r * v == o * v) && (r != o) == !(r == o) && (r < o) + (o < r) + (r == o) == 1, "the product");
        AxisRotPos q{o, {3, 0, -1}};
        CHK((p * q) * v == p * (q * v) && (p * o) * v == p * (o * v) && (o * p) * v == o * (p * v) && (p == q) == false, "the product with positions");
        for (AxisRot t : all) CHK(!(r < o && o < t) || r < t, "the order is not transitive");
        n++;
        mc::step();
    }
    if (k == 0) { int m2 = 0, good = 0; AxisRot::forEach([&](AxisRot a) { m2++; good += a.isOrtho(); for (auto& o : all) n -= o == a; }); CHK(m2 == 48 && good == 48 && n == 0, "forEach visits %d", m2); }
    mc::state(hb(&r, sizeof r));
    mc::nontrivial();
}
//---------------------------------------------------------------- rotations and matrices
static std::vector<Quaternion> quats() {
    std::vector<Quaternion> v;
    static const float c[] = {0, 1, -1, 0.5f};
    for (float x : c) for (float y : c) for (float z : c) for (float w : c) {
        if (x == 0 && y == 0 && z == 0 && w == 0) continue;
        if (mc::tier() == 0 && (x != 0) + (y != 0) + (z != 0) + (w != 0) == 3) continue;
        v.push_back(Quaternion{x, y, z, w}.normalized());
    }
    return v;
}
struct M3 { double m[3][3]; }; // rows and columns
static M3 rot(const Quaternion& q) {
    double x = q.x, y = q.y, z = q.z, w = q.w;
    return {{{w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z}}};
}
static void nearV(const Float3& g, const double* w, const char* what, double eps = 1e-5) { CHK(near(g.x, w[0], eps) && near(g.y, w[1], eps) && near(g.z, w[2], eps), "%s is (%g, %g, %g) instead of (%g, %g, %g)", what, g.x, g.y, g.z, w[0], w[1], w[2]); }
static void mulV(const M3& m, const Float3& v, double* r) { for (int i = 0; i < 3; i++) r[i] = m.m[i][0] * v.x + m.m[i][1] * v.y + m.m[i][2] * v.z; }
static void rotations() {
    static const std::vector<Quaternion> all = quats();
    Quaternion q = all[choose((int) all.size())];
    M3 m = rot(q);
    static const Float3 vs[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {2, -3, 5}};
    Float3x3 m3 = Float3x3::fromQuaternion(q);
    Float3 pos{1, -4, 7};
    Float3x4 m34 = Float3x4::fromQuaternion(q, pos);
    Float4x4 m44 = Float4x4::fromQuaternion(q, pos);
    QuatPos qp{q, pos};
    for (auto& v : vs) {
        double w[3], wp[3];
        mulV(m, v, w);
        for (int i = 0; i < 3; i++) wp[i] = w[i] + (&pos.x)[i];
        nearV(q * v, w, "the rotated vector");
        nearV(m3 * v, w, "the vector rotated by a matrix");
        nearV(m34 * v, wp, "the vector moved by a 3x4 matrix");
        nearV((m44 * Float4{v, 1}).asFloat3(), wp, "the vector moved by a 4x4 matrix");
        nearV((m34 * Float4{v, 0}).asFloat3(), w, "the direction moved by a 3x4 matrix");
        nearV(qp * v, wp, "the moved vector");
        CHK((m34 * Float4{v, 2}).w == 2 && (m44 * Float4{v, 1}).w == 1, "the fourth component");
        double o[3] = {v.x, v.y, v.z};
        nearV(q.inverted() * (q * v), o, "the inverse");
        nearV(qp.inverted() * (qp * v), o, "the inverse with position");
        nearV(m34.invertedOrtho() * (m34 * v), o, "the inverse of a 3x4 matrix");
        nearV((m44.invertedOrtho() * (m44 * Float4{v, 1})).asFloat3(), o, "the inverse of a 4x4 matrix");
        {
            // A matrix times its inverse is the identity, in each of the sixteen entries.
            Float4x4 prod[2] = {m44.invertedOrtho() * m44, m44 * m44.invertedOrtho()};
            for (Float4x4& pm : prod)
                for (u32 c = 0; c < 4; c++)
                    for (u32 r = 0; r < 4; r++)
                        CHK(fabs((&pm.col[c].x)[r] - (c == r ? 1 : 0)) < 1e-4, "the product with the inverse is the identity");
        }
        nearV(m3.transposed() * (m3 * v), o, "the transposed matrix");
        nearV((Float3x4::fromQuatPos(qp) * v), wp, "fromQuatPos");
        nearV((Float4x4::fromQuatPos(qp) * Float4{v, 1}).asFloat3(), wp, "fromQuatPos");
        QuatPosScale qs{qp, {2, 3, -1}};
        double s[3], sp[3];
        mulV(m, v * Float3{2, 3, -1}, s);
        for (int i = 0; i < 3; i++) sp[i] = s[i] + (&pos.x)[i];
        nearV(qs * v, sp, "a scaled vector");
        nearV((qs.toFloat4x4() * Float4{v, 1}).asFloat3(), sp, "a scaling matrix");
        nearV(qs.toFloat3x4() * v, sp, "a scaling matrix");
        nearV((qp * qs) * v, (const double[]){(double) (qp * (qs * v)).x, (double) (qp * (qs * v)).y, (double) (qp * (qs * v)).z}, "a scaled product");
        nearV(QuatPosScale::makeScale({2, 3, -1}) * v, (const double[]){v.x * 2., v.y * 3., -v.z}, "makeScale");
        nearV(QuatPosScale::makeTranslation(pos) * v, (const double[]){v.x + 1., v.y - 4., v.z + 7.}, "makeTranslation");
        CHK(QuatPosScale::identity() * v == v && QuatPos::identity() * v == v && Quaternion::identity() * v == v && isNear(QuatPos::makeTranslation(pos) * v, v + pos, 1e-5f), "identities");
    }
    CHK(isNear(q.rotateUnitX(), q * Float3(1, 0, 0), 1e-5f) && isNear(q.rotateUnitY(), q * Float3(0, 1, 0), 1e-5f) && isNear(q.rotateUnitZ(), q * Float3(0, 0, 1), 1e-5f), "rotated axes");
    Quaternion back[3] = {Quaternion::fromOrtho(m3), Quaternion::fromOrtho(m44), Quaternion::fromOrtho(m34)};
    for (auto& b : back) CHK(std::min((b.asFloat4() - q.asFloat4()).length(), (b.asFloat4() + q.asFloat4()).length()) < 1e-4 && b.w >= -1e-6, "fromOrtho gives (%g %g %g %g) for (%g %g %g %g)", b.x, b.y, b.z, b.w, q.x, q.y, q.z, q.w);
    QuatPos bp = QuatPos::fromOrtho(m44), bp3 = QuatPos::fromOrtho(m34);
    CHK(isNear(bp.pos, pos, 1e-5f) && isNear(bp.quat * vs[3], q * vs[3], 1e-4f) && isNear(bp3.pos, pos, 1e-5f) && isNear(bp3 * vs[3], qp * vs[3], 1e-4f), "fromOrtho with a position");
    CHK(!m3.hasScale() && !m34.hasScale() && (m3 * Float3x3::makeScale({1, 1.5f, 1})).hasScale(), "hasScale");
    CHK(m34.toFloat4x4() == m44 && m44.toFloat3x4() == m34 && m44.toFloat3x3() == m3 && m34.asFloat3x3() == m3 && Float3x4(m3, pos) == m34 && Float4x4(m3, pos) == m44, "converting matrices");
    CHK(m44.transposed().transposed() == m44 && m44.transposed()[1].z == m44[2].y && m44.transposed()[3].x == m44[0].w, "transposed");
    for (const Quaternion& o : all) {
        Float3 v = vs[3];
        CHK(isNear((q * o) * v, q * (o * v), 1e-4f), "the product of rotations");
        Quaternion n = q.negatedIfCloserTo(o);
        float d0 = (q.asFloat4() - o.asFloat4()).length2(), d1 = (q.asFloat4() + o.asFloat4()).length2();
        CHK(near((n.asFloat4() - o.asFloat4()).length2(), std::min(d0, d1)) && isNear(n * v, q * v, 1e-4f), "negatedIfCloserTo");
        if (fabsf(d0 - d1) > 1e-3f) {
            Quaternion h = mix(q, o, 0.5f), s = mix(q, o, 0.f), e = mix(q, o, 1.f);
            CHK(isNear(s * v, q * v, 1e-3f) && isNear(e * v, o * v, 1e-3f) && h.asFloat4().isUnit(), "mix");
            CHK(isNear((q.inverted() * h) * v, (h.inverted() * o) * v, 2e-3f), "mix is not halfway");
        }
        QuatPos b{o, {2, 0, -1}};
        CHK(isNear((qp * b) * v, qp * (b * v), 1e-4f) && isNear((qp * o) * v, qp * (o * v), 1e-4f) && isNear((q * b) * v, q * (b * v), 1e-4f), "the product with positions");
        Float3x3 o3 = Float3x3::fromQuaternion(o);
        Float3x4 o34 = Float3x4::fromQuatPos(b);
        Float4x4 o44 = Float4x4::fromQuatPos(b);
        CHK(isNear((m3 * o3) * v, m3 * (o3 * v), 1e-4f) && isNear((m34 * o34) * v, m34 * (o34 * v), 1e-4f), "products of matrices");
        Float4 f{v, 1}, w = m44 * (o44 * f);
        CHK(isNear((m44 * o44) * f, w, 1e-4f) && isNear((m34 * o44) * f, w, 1e-4f) && isNear((m44 * o34) * f, w, 1e-4f), "products of matrices of different sizes");
        mc::step();
    }
    mc::state(hb(&q, sizeof q));
    mc::nontrivial();
}
static void directions() { // rotations between, about and along directions
    std::vector<Float3> ds;
    for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) if (x || y || z) { ds.push_back(Float3((float) x, (float) y, (float) z).normalized()); ds.push_back(Float3((float) x, (float) y * 0.5f + 0.01f, (float) z * 3).normalized()); }
    Float3 a = ds[choose((int) ds.size())];
    CHK(fabsf(dot(notCollinear(a), a)) < 0.96f && fabsf(dot(anyPerp(a), a)) < 1e-5f && anyPerp(a).length() > 0.2f, "anyPerp");
    for (const Float3& b : ds) {
        Quaternion q = Quaternion::fromUnitVectors(a, b);
        float d = dot(a, b);
        if (d > -0.9999f || d < -0.99999994f) CHK(isNear(q * a, b, 1e-3f) && q.asFloat4().isUnit(), "from (%g %g %g) to (%g %g %g), dot %g, leads to (%g %g %g)", a.x, a.y, a.z, b.x, b.y, b.z, d, (q * a).x, (q * a).y, (q * a).z);
        for (int f = 0; f < 6; f++) {
            Axis3 fwd = (Axis3) f;
            Float3x3 l = makeBasis(a, fwd);
            CHK(isNear(l * toFloat3(fwd), a, 1e-4f) && !l.hasScale() && dot(cross(l[0], l[1]), l[2]) > 0.99f, "makeBasis of one direction");
            for (int u = 0; u < 6; u++) if (f / 2 != u / 2) {
                Float3x3 m = makeBasis(a, b, fwd, (Axis3) u);
                CHK(isNear(m * toFloat3(fwd), a, 1e-4f) && !m.hasScale(0.01f) && dot(cross(m[0], m[1]), m[2]) > 0.99f, "makeBasis");
                if (fabsf(d) < 0.99f) { Float3 up = m * toFloat3((Axis3) u), want = (b - a * d).normalized(); CHK(isNear(up, want, 1e-3f), "makeBasis leads up to (%g %g %g)", up.x, up.y, up.z); }
            }
        }
        mc::step();
    }
    for (int i = -16; i <= 16; i++) {
        float t = i * Pi / 8;
        Quaternion q = Quaternion::fromAxisAngle(a, t);
        CHK(isNear(q * a, a, 1e-4f), "the axis is moved");
        Float3 p = anyPerp(a).normalized(), r = p * cosf(t) + cross(a, p) * sinf(t);
        CHK(isNear(q * p, r, 1e-4f) && isNear(Float3x3::makeRotation(a, t) * p, r, 1e-4f) && isNear(Float3x4::makeRotation(a, t) * p, r, 1e-4f) && isNear((Float4x4::makeRotation(a, t) * Float4{p, 1}), Float4(r, 1), 1e-4f) && isNear(QuatPos::makeRotation(a, t) * p, r, 1e-4f), "a rotation by %g", t);
    }
    if (fabsf(a.z) < 0.99f) {
        Float4x4 w = lookAt(a * 3);
        CHK(isNear(w * Float4(a, 0), Float4(0, 0, -1, 0), 1e-4f) && (w * Float4(0, 0, 1, 0)).y > 0 && fabsf((w * Float4(0, 0, 1, 0)).x) < 1e-4f, "lookAt");
    }
    mc::nontrivial();
}
static void matrices() {
    static const float c[] = {0, 1, -2, 0.5f};
    int k = choose(3);
    if (k == 0) { // 2x2
        float v[8];
        int code = choose(256);
        for (int i = 0; i < 4; i++) { v[i] = c[code % 4]; code /= 4; }
        Float2x2 a{{v[0], v[1]}, {v[2], v[3]}};
        CHK((a.transposed() == Float2x2{{v[0], v[2]}, {v[1], v[3]}}), "transposed");
        for (int d = 0; d < 256; d++) {
            int e = d;
            for (int i = 4; i < 8; i++) { v[i] = c[e % 4]; e /= 4; }
            Float2x2 b{{v[4], v[5]}, {v[6], v[7]}}, p = a * b;
            CHK((p == Float2x2{{v[0] * v[4] + v[2] * v[5], v[1] * v[4] + v[3] * v[5]}, {v[0] * v[6] + v[2] * v[7], v[1] * v[6] + v[3] * v[7]}}), "the product of 2x2 matrices");
            CHK(a * Float2(v[4], v[5]) == p[0] && (a == b) == (memcmp(v, v + 4, 16) == 0) && (a != b) == !(a == b), "2x2 matrices");
            mc::step();
        }
        CHK(a * Float2x2::identity() == a && (Float2x2::makeScale({2, 3}) * Float2(5, 7) == Float2(10, 21)) && isNear(Float2x2::makeRotation(Pi / 6) * Float2(1, 0), Float2(0.8660254f, 0.5f), 1e-5f), "identity, scale and rotation");
        CHK((Float2x2::fromComplex({v[0], v[1]}) * Float2(v[2], v[3]) == Complex::mul({v[0], v[1]}, {v[2], v[3]})), "fromComplex");
    } else if (k == 1) { // larger matrices with one or two unusual elements
        int n = choose(3), R = n == 2 ? 4 : 3, C = n == 0 ? 3 : 4, at = choose(R * C), at2 = choose(R * C);
        float a[4][4], b[4][4];
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { a[i][j] = (float) ((i * 7 + j * 3) % 5) - 2; b[i][j] = (float) ((i * 3 + j * 5) % 7) - 3; }
        a[at / R][at % R] = 100;
        b[at2 / R][at2 % R] = -1000;
        double w[4][4]; // columns
        for (int x = 0; x < C; x++) for (int r = 0; r < R; r++) {
            w[x][r] = 0;
            for (int m = 0; m < C; m++) w[x][r] += (double) a[m][r] * (m < R ? b[x][m] : x == C - 1 ? 1 : 0);
        }
        auto v3 = [](float* f) { return Float3(f[0], f[1], f[2]); };
        auto v4 = [](float* f) { return Float4(f[0], f[1], f[2], f[3]); };
        auto c3 = [&](const Float3& g, int x) { CHK(g.x == w[x][0] && g.y == w[x][1] && g.z == w[x][2], "column %d of the product", x); };
        if (n == 0) {
            Float3x3 A{v3(a[0]), v3(a[1]), v3(a[2])}, B{v3(b[0]), v3(b[1]), v3(b[2])}, P = A * B, T = A.transposed();
            for (int x = 0; x < 3; x++) { c3(P[x], x); c3(A * B[x], x); for (int r = 0; r < 3; r++) CHK((&T[x].x)[r] == a[r][x], "transposed"); }
            Float3x3 D = A; (&D[at2 / 3].x)[at2 % 3] += 1;
            CHK(A * Float3x3::identity() == A && A != D && !(A == D) && Float3x3::makeScale({2, 3, 4}) * Float3(1, 1, 1) == Float3(2, 3, 4), "3x3 matrices");
        } else if (n == 1) {
            Float3x4 A{v3(a[0]), v3(a[1]), v3(a[2]), v3(a[3])}, B{v3(b[0]), v3(b[1]), v3(b[2]), v3(b[3])}, P = A * B;
            for (int x = 0; x < 4; x++) c3(P[x], x);
            c3(A * B[3], 3);
            Float3x4 D = A; (&D[at2 / 3].x)[at2 % 3] += 1;
            CHK(A * Float3x4::identity() == A && A != D && !(A == D) && Float3x4::makeScale({2, 3, 4}) * Float3(1, 1, 1) == Float3(2, 3, 4) && Float3x4::makeTranslation({2, 3, 4}) * Float3(1, 1, 1) == Float3(3, 4, 5), "3x4 matrices");
            CHK((A.toFloat4x4() * B.toFloat4x4()) == P.toFloat4x4() && A.toFloat4x4() * B == P.toFloat4x4() && A * B.toFloat4x4() == P.toFloat4x4(), "products of different sizes");
        } else {
            Float4x4 A{v4(a[0]), v4(a[1]), v4(a[2]), v4(a[3])}, B{v4(b[0]), v4(b[1]), v4(b[2]), v4(b[3])}, P = A * B, T = A.transposed();
            for (int x = 0; x < 4; x++) for (int r = 0; r < 4; r++) CHK((&P[x].x)[r] == w[x][r] && (&T[x].x)[r] == a[r][x], "element %d,%d of the product", x, r);
            Float4x4 D = A; (&D[at2 / 4].x)[at2 % 4] += 1;
            CHK(A * Float4x4::identity() == A && A != D && !(A == D) && Float4x4::makeScale({2, 3, 4}) * Float4(1, 1, 1, 1) == Float4(2, 3, 4, 1) && Float4x4::makeTranslation({2, 3, 4}) * Float4(1, 1, 1, 1) == Float4(3, 4, 5, 1), "4x4 matrices");
        }
        mc::step();
    } else { // projections take the corners of what is seen to the corners of the cube
        static const float e[] = {-2, -0.5f, 1, 3};
        int i = choose(4), j = choose(4), l = choose(4), m = choose(4), z = choose(3);
        if (i == j || l == m) { mc::markRedundant(); return; }
        Rect f{{e[i], e[l]}, {e[j], e[m]}};
        float zn = z == 2 ? 5.f : 0.5f, zf = z == 0 ? 4.f : z == 1 ? 100.f : 2.f;
        Float4x4 p = Float4x4::makeProjection(f, zn, zf), o = Float4x4::makeOrtho(f, zn, zf);
        for (int k2 = 0; k2 < 8; k2++) {
            float d = k2 & 4 ? zf : zn, x = k2 & 1 ? f.maxs.x : f.mins.x, y = k2 & 2 ? f.maxs.y : f.mins.y;
            Float4 s = p * Float4(x * d, y * d, -d, 1), t = o * Float4(x, y, -d, 1);
            Float3 want(k2 & 1 ? 1.f : -1.f, k2 & 2 ? 1.f : -1.f, k2 & 4 ? 1.f : -1.f);
            CHK(near(s.w, d) && isNear(s.asFloat3() / s.w, want, 1e-4f), "the corner %d of the frustum (%g..%g, %g..%g) is seen at (%g %g %g)", k2, f.mins.x, f.maxs.x, f.mins.y, f.maxs.y, s.x / s.w, s.y / s.w, s.z / s.w);
            CHK(t.w == 1 && isNear(t.asFloat3(), want, 1e-4f), "the corner %d of the box is seen at (%g %g %g)", k2, t.x, t.y, t.z);
            mc::step();
        }
        Rect fov = rectFromFov(Pi / 2, 1.5f);
        CHK(near(fov.maxs.y, 1) && near(fov.maxs.x, 1.5) && near(fov.mins.x, -1.5) && near(fov.mins.y, -1), "rectFromFov");
    }
    mc::nontrivial();
}
MC_SCENARIOS = {
    {"integers", integers, 0, "every 8- and 16-bit value, and every 32- and 64-bit value near two powers of two"},
    {"mixing", mixing, 0, "the integer mixing function is undone (thorough: every 32-bit value)"},
    {"rounding", rounding, 0, "numbers around every small multiple of 1/8, with nine spacings"},
    {"nearestInts", nearestInts, 0, "floats of every exponent (thorough: every float)"},
    {"halves", halves, 0, "floats of every exponent (thorough: every float) in half precision"},
    {"colors", colors, 0, "colours, curves and approximations"},
    {"vec2", vec2, 0, "every pair of vectors of six values"},
    {"vec3", vec3, 0, "every pair of vectors of five (thorough six) values"},
    {"vec4", vec4, 0, "every pair of vectors of four (thorough five) values"},
    {"ints", ints, 0, "every pair of integer vectors of three types"},
    {"rects", rects, 0, "every pair of boxes on a grid"},
    {"intRects", intRects, 0, "every pair of integer boxes on a grid"},
    {"rectMath", rectMath, 0, "interpolation, rounding and maps of boxes"},
    {"axes", axes, 0, "every axis, and every pair of the 48 axis-aligned rotations and reflections"},
    {"rotations", rotations, 0, "every pair of rotations of a family"},
    {"directions", directions, 0, "every pair of 52 directions"},
    {"matrices", matrices, 0, "products, transpositions and projections"},
    MC_END};
