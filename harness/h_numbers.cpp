// Numbers as text: every 16-bit integer and every neighbourhood of a power in every radix; every
// short digit string; every division of it; floating point over every exponent and boundary.
#include "iotest.h"
#include <math.h>
#include <float.h>

typedef unsigned __int128 U128;
typedef __int128 S128;
static std::string radixText(U128 v, u32 radix, bool cap) {
    std::string s;
    do { u32 d = (u32) (v % radix); s += (char) (d < 10 ? '0' + d : (cap ? 'A' : 'a') + d - 10); v /= radix; } while (v);
    std::reverse(s.begin(), s.end());
    return s;
}
static int digitOf(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }

// What parsing `text` as an integer of [lo, hi] must do
struct IntWant { bool error; S128 value; size_t used; };
static IntWant wantInt(const std::string& text, u32 radix, S128 lo, S128 hi) {
    IntWant w{false, 0, 0};
    bool neg = false;
    if (lo < 0 && !text.empty() && text[0] == '-') { neg = true; w.used = 1; }
    size_t first = w.used;
    bool huge = false;
    while (w.used < text.size() && digitOf(text[w.used]) < (int) radix) {
        w.value = w.value * radix + digitOf(text[w.used++]);
        if (w.value > ((S128) 1 << 100)) { huge = true; w.value = (S128) 1 << 90; }
    }
    if (neg) w.value = -w.value;
    w.error = huge || w.used == first || w.value < lo || w.value > hi;
    return w;
}
template <class T> static void parseInt(const std::string& text, u32 radix, const char* type, u32 mask = 0, bool divided = false) {
    IntWant w = wantInt(text, radix, (S128) std::numeric_limits<T>::min(), (S128) std::numeric_limits<T>::max());
    std::string src = text;
    T got; size_t used; bool error;
    if (divided) {
        CutSource* s = new CutSource{&src};
        for (size_t i = 1; i < src.size(); i++) if (mask >> ((i - 1) % 31) & 1) s->cutAfter[i] = 1;
        InStream ins{OptionallyOwned<InPipe>{Owned<InPipe>{s}}, 7};
        got = ins.parse<T>(fmt::Radix{radix}); used = (size_t) ins.getSeekPos(); error = ins.anyParseError();
    } else {
        HeapBytes hb{src};
        ViewInStream ins{hb.view()};
        got = ins.parse<T>(fmt::Radix{radix}); used = (size_t) ins.getSeekPos(); error = ins.anyParseError();
    }
    mc::step();
    MC_CHECK(used == w.used, "parsing \"%s\" as %s in radix %u consumes %zu characters instead of %zu", esc(text).c_str(), type, radix, used, w.used);
    MC_CHECK(error == w.error, "parsing \"%s\" as %s in radix %u %s", esc(text).c_str(), type, radix, error ? "fails" : "reports no error");
    if (!error) MC_CHECK((S128) got == w.value, "\"%s\" in radix %u is parsed as the %s %lld", esc(text).c_str(), radix, type, (long long) got);
}
static void parseAll(const std::string& text, u32 radix) {
    parseInt<u8>(text, radix, "u8"); parseInt<s8>(text, radix, "s8"); parseInt<u16>(text, radix, "u16"); parseInt<s16>(text, radix, "s16");
    parseInt<u32>(text, radix, "u32"); parseInt<s32>(text, radix, "s32"); parseInt<u64>(text, radix, "u64"); parseInt<s64>(text, radix, "s64");
}
template <class T> static void printOne(T v, u32 radix) {
    S128 wide = v;
    std::string want = wide < 0 ? "-" + radixText((U128) -wide, radix, false) : radixText((U128) wide, radix, false);
    std::string got = str(String::from(fmt::WithRadix{v, radix}));
    mc::step();
    MC_CHECK(got == want, "%s prints as \"%s\" in radix %u", want.c_str(), got.c_str(), radix);
    if (radix > 10) {
        std::string capWant = want; for (char& c : capWant) c = (char) toupper(c);
        got = str(String::from(fmt::WithRadix{v, radix, true}));
        MC_CHECK(got == capWant, "%s prints as \"%s\" in capitals in radix %u", capWant.c_str(), got.c_str(), radix);
    }
    if (radix == 10) { got = str(String::from(v)); MC_CHECK(got == want, "%s prints as \"%s\"", want.c_str(), got.c_str()); }
    if (radix == 16) { got = str(String::from(fmt::Hex{v})); MC_CHECK(got == want, "%s prints as \"%s\" in hexadecimal", want.c_str(), got.c_str()); }
    parseInt<T>(want, radix, "its own type");
}
static void small() { // every 8- and 16-bit value
    u32 radix = 2 + choose(35), block = choose(16);
    mc::nontrivial();
    mc::state(mc::mix(radix, block));
    MC_LOG("radix %u, 16-bit values from %x", radix, block * 4096);
    for (u32 i = 0; i < 4096; i++) {
        u32 v = block * 4096 + i;
        printOne<u16>((u16) v, radix); printOne<s16>((s16) v, radix);
        if (v < 256) { printOne<u8>((u8) v, radix); printOne<s8>((s8) v, radix); }
    }
}
static std::set<u64> boundaries() {
    std::set<u64> s;
    auto around = [&](U128 v) { for (int d = -2; d <= 2; d++) s.insert((u64) (v + (U128) (S128) d)); };
    for (int k = 0; k <= 64; k++) around((U128) 1 << k);
    for (u32 r = 3; r <= 36; r++) for (U128 p = r; p < ((U128) 1 << 65); p *= r) around(p);
    return s;
}
static void wide() { // neighbourhoods of every power of every radix, in every radix
    u32 radix = 2 + choose(35);
    int part = choose(8), k = 0;
    mc::nontrivial();
    mc::state(mc::mix(radix, part));
    MC_LOG("radix %u, part %d of the boundary values", radix, part);
    for (u64 v : boundaries()) {
        if (k++ % 8 != part) continue;
        printOne<u64>(v, radix); printOne<s64>((s64) v, radix); printOne<s64>((s64) (0 - v), radix);
        printOne<u32>((u32) v, radix); printOne<s32>((s32) (u32) v, radix);
        // strings around the value: one more digit, leading zeros, a sign, something after it
        std::string t = radixText(v, radix, (v & 1) != 0);
        for (const char* pre : {"", "-", "0", "-000", "00000000000000000000"}) for (const char* post : {"", "0", "z", " ", "-"}) parseAll(pre + t + post, radix);
    }
    for (u64 base : {(u64) 1 << 7, (u64) 1 << 8, (u64) 1 << 15, (u64) 1 << 16, (u64) 1 << 31, (u64) 1 << 32, (u64) 1 << 63})
        for (int d = -40; d <= 40; d++) for (const char* pre : {"", "-"}) parseAll(pre + radixText((U128) base + (U128) (S128) d, radix, false), radix);
    for (int d = -40; d <= 40; d++) for (const char* pre : {"", "-"}) parseAll(pre + radixText(((U128) 1 << 64) + (U128) (S128) d, radix, false), radix);
}
static void strings() { // every short string
    static const u32 radices[] = {2, 8, 10, 16, 36};
    std::string text = chooseText({"0", "1", "9", "a", "F", "z", "-", " "}, pick(4, 6));
    mc::nontrivial();
    mc::state(hstr(text));
    MC_LOG("\"%s\"", text.c_str());
    for (u32 r : radices) parseAll(text, r);
}
static void divided() { // every division of numbers at the limits
    static const char* const t[] = {"-128", "255", "256", "65535 ", "-9223372036854775808", "18446744073709551615x", "18446744073709551616", "0", "-", "00000000000000000000000000042"};
    std::string text = t[choose(10)];
    u32 lo = choose(32);
    mc::nontrivial();
    MC_LOG("\"%s\" divided (low bits %u)", text.c_str(), lo);
    u32 bits = (u32) std::min<size_t>(text.size(), pick(10, 16));
    for (u32 hi = 0; hi < (1u << bits) / 32 + 1; hi++) {
        u32 mask = hi * 32 + lo;
        for (u32 shift : {0u, text.size() > bits ? (u32) text.size() - bits - 1 : 0u}) {
            u32 m = mask << shift;
            parseInt<u64>(text, 10, "u64", m, true); parseInt<s64>(text, 10, "s64", m, true); parseInt<u8>(text, 10, "u8", m, true); parseInt<s8>(text, 10, "s8", m, true);
            mc::state(mc::mix(hstr(text), m));
        }
    }
}
// ---- floating point ----
static bool isDigit(char c) { return c >= '0' && c <= '9'; }
static void parseFloat(const std::string& text, u32 mask, bool divided) {
    // -? D* [. D*] [eE [+-]? D+]
    size_t n = 0, digits = 0, fraction = 0, expDigits = 0;
    bool exp = false;
    if (n < text.size() && text[n] == '-') n++;
    size_t numStart = n;
    while (n < text.size() && isDigit(text[n])) { n++; digits++; }
    if (n < text.size() && text[n] == '.') { n++; while (n < text.size() && isDigit(text[n])) { n++; fraction++; } }
    size_t mantissaEnd = n;
    if (digits > 0 && n < text.size() && (text[n] | 32) == 'e') {
        exp = true; n++;
        if (n < text.size() && (text[n] == '+' || text[n] == '-')) n++;
        while (n < text.size() && isDigit(text[n])) { n++; expDigits++; }
    }
    if (digits == 0 && fraction > 0) return; // ".5": whether this is a number is not specified
    bool error = digits == 0 || (exp && expDigits == 0);
    std::string src = text;
    double got; size_t used; bool gotError; float gotf;
    if (divided) {
        CutSource* s = new CutSource{&src};
        for (size_t i = 1; i < src.size(); i++) if (mask >> (i - 1) & 1) s->cutAfter[i] = 1;
        InStream ins{OptionallyOwned<InPipe>{Owned<InPipe>{s}}, 7};
        got = ins.parse<double>(); used = (size_t) ins.getSeekPos(); gotError = ins.anyParseError();
        gotf = (float) got;
    } else {
        HeapBytes hb{src};
        { ViewInStream ins{hb.view()}; got = ins.parse<double>(); used = (size_t) ins.getSeekPos(); gotError = ins.anyParseError(); }
        { ViewInStream ins{hb.view()}; gotf = ins.parse<float>(); MC_CHECK(ins.anyParseError() == gotError, "parsing \"%s\" as a float disagrees", text.c_str()); }
    }
    mc::step();
    MC_CHECK(gotError == error, "parsing \"%s\" as a double %s", esc(text).c_str(), gotError ? "fails" : "reports no error");
    if (error) return;
    MC_CHECK(used == n, "parsing \"%s\" as a double consumes %zu characters instead of %zu", esc(text).c_str(), used, n);
    double want = strtod(text.substr(0, n).c_str(), nullptr);
    bool ok = got == want || fabs(got - want) <= fabs(want) * 8 * DBL_EPSILON || (fabs(want) < 1e-290 && fabs(got) < 1e-280);
    MC_CHECK(ok && signbit(got) == signbit(want), "\"%s\" is parsed as %.17g", esc(text).c_str(), got);
    if (fabs(want) < 1e38 && fabs(want) > 1e-37) MC_CHECK(fabs(gotf - want) <= fabs(want) * 1e-7, "\"%s\" is parsed as the float %.9g", esc(text).c_str(), gotf);
    (void) numStart; (void) mantissaEnd;
}
static void floats() {
    std::string text = chooseText({"0", "1", "7", ".", "e", "-", "+", "x"}, pick(6, 7));
    mc::nontrivial();
    mc::state(hstr(text));
    MC_LOG("\"%s\"", text.c_str());
    parseFloat(text, 0, false);
    if (text.size() < 6) for (u32 mask = 1; mask < (1u << text.size()) / 2; mask++) parseFloat(text, mask, true);
}
static void exponents() { // every exponent, several mantissas
    int e = choose(700) - 350, m = choose(7);
    static const char* const mant[] = {"1", "0", "9.999", "123456789012345", "0.000123", "-2.5", "1234567890123456789012345.678901234567890123456789"};
    char t[128];
    snprintf(t, sizeof t, "%se%s%d", mant[m], e >= 0 && (e & 1) ? "+" : "", e);
    mc::nontrivial(); mc::state(hstr(t));
    MC_LOG("\"%s\"", t);
    // intermediate overflow and underflow of mantissa times power are not specified
    double want = strtod(t, nullptr);
    if (want != 0 && (fabs(want) > 1e300 || fabs(want) < 1e-280)) return;
    if (e < -280 || e > 300) if (want != 0) return;
    if (want == 0 && mant[m][0] != '0') return;
    parseFloat(t, 0, false);
}
static void fractions() { // long fractions in every radix
    u32 radix = 2 + choose(35);
    u32 n = 1 + choose(pick(70, 140)), pattern = choose(4);
    std::string text = "1.";
    long double want = 1, unit = 1;
    for (u32 i = 0; i < n; i++) {
        u32 d = pattern == 0 ? radix - 1 : pattern == 1 ? 1 : pattern == 2 ? (i % radix) : (i + 1 == n ? radix - 1 : 0);
        text += radixText(d, radix, false);
        unit /= radix; want += unit * d;
    }
    mc::nontrivial(); mc::state(hstr(text, radix)); mc::step();
    MC_LOG("\"%s\" in radix %u", text.c_str(), radix);
    ViewInStream ins{view(text)};
    double got = ins.parse<double>(fmt::Radix{radix});
    MC_CHECK(!ins.anyParseError() && ins.getSeekPos() == text.size(), "\"%s\" in radix %u: error or not consumed", text.c_str(), radix);
    MC_CHECK(fabsl(got - want) <= want * 8 * DBL_EPSILON, "\"%s\" in radix %u is parsed as %.17g instead of %.17Lg", text.c_str(), radix, got, want);
}
// print a double: the text denotes a value within one unit of its last digit
static void printDouble(double v, u32 radix) {
    fmt::WithRadix w{(u64) 0, radix};
    w.type = fmt::WithRadix::Double; w.double_ = v;
    std::string s = radix == 10 ? str(String::from(v)) : str(String::from(w));
    mc::step();
    std::string t = s;
    if (!t.empty() && t[0] == '-') { MC_CHECK(signbit(v), "%.17g prints as \"%s\"", v, s.c_str()); t = t.substr(1); } else MC_CHECK(!signbit(v), "%.17g prints as \"%s\"", v, s.c_str());
    size_t n = 0; long double value = 0, unit = 1; size_t ip = 0, fp = 0;
    while (n < t.size() && digitOf(t[n]) < (int) radix) { value = value * radix + digitOf(t[n++]); ip++; }
    if (n < t.size() && t[n] == '.') { n++; while (n < t.size() && fp < 3 && digitOf(t[n]) < (int) radix) { unit /= radix; value += unit * digitOf(t[n++]); fp++; } }
    if (n < t.size() && t[n] == 'e') {
        n++;
        bool neg = false; if (n < t.size() && t[n] == '-') { neg = true; n++; }
        long e = 0; size_t k = 0;
        while (n < t.size() && digitOf(t[n]) < (int) radix) { e = e * radix + digitOf(t[n++]); k++; }
        MC_CHECK(k > 0, "%.17g prints as \"%s\"", v, s.c_str());
        long double p = powl((long double) radix, neg ? -e : e);
        value *= p; unit *= p;
        MC_CHECK(ip == 1 && fp == 3, "%.17g prints as \"%s\"", v, s.c_str());
    }
    MC_CHECK(n == t.size() && ip > 0 && fp == 3, "%.17g prints as \"%s\" in radix %u", v, s.c_str(), radix);
    long double slack = fabs(v) < 1e-300 ? 4 : 1.0001L; // subnormal numbers have few digits of their own
    if (fabsl(value - fabs(v)) > unit * slack) { mc::casef("%.17g radix %u", v, radix); mc::fail("%.17g prints as \"%s\" in radix %u", v, s.c_str(), radix); }
    if (radix == 10 && fabs(v) > 1e-280 && fabs(v) < 1e300) { // and it parses back
        ViewInStream ins{view(s)};
        double back = ins.parse<double>();
        MC_CHECK(!ins.anyParseError() && ins.getSeekPos() == s.size() && fabsl(fabs(back) - fabsl(value)) <= fabsl(value) * 8 * DBL_EPSILON && (signbit(back) == signbit(v)), "%.17g prints as \"%s\", which parses as %.17g", v, s.c_str(), back);
    }
}
static void around(double v, u32 radix) {
    double up = v, down = v;
    for (int i = 0; i < 3; i++) {
        if (isfinite(up)) { printDouble(up, radix); printDouble(-up, radix); }
        printDouble(down, radix); printDouble(-down, radix);
        up = nextafter(up, INFINITY); down = nextafter(down, 0);
    }
}
static void printFloats() {
    int which = choose(3);
    mc::nontrivial();
    if (which == 0) { // every binary exponent
        int e = choose(2098) - 1074;
        mc::state(e);
        MC_LOG("2^%d and neighbours", e);
        around(ldexp(1, e), 10); around(ldexp(1.5, e), 10); around(ldexp(1 + 1 / 3.0, e), 10);
        for (u32 r : {2, 3, 7, 14}) if (e > -1000) around(ldexp(1.25, e), r);
    } else if (which == 1) { // every power of ten times 1..9, and 9.999 and so on
        int e = choose(631) - 323;
        mc::state(mc::mix(1, e));
        MC_LOG("powers of ten: 1e%d", e);
        char b[32];
        for (const char* m : {"1", "2", "3", "4", "5", "6", "7", "8", "9", "9.999", "9.9995", "1.0005", "1.001", "1.1"}) {
            snprintf(b, 32, "%se%d", m, e);
            double v = strtod(b, nullptr);
            if (isfinite(v)) around(v, 10);
        }
    } else { // every thousandth
        int block = choose(400);
        mc::state(mc::mix(2, block));
        MC_LOG("thousandths from %d", block * 50);
        for (int i = 0; i < 50; i++) { int k = block * 50 + i; around(k / 1000.0, 10); around(k * 53.0 / 1000, 10); around((float) (k / 1000.0f), 10); }
    }
}
template <class T, typename std::enable_if_t<std::is_constructible<fmt::WithRadix, T, u32>::value, int> = 0> static fmt::WithRadix makeRadix(T v, u32 r) { return fmt::WithRadix(v, r); }
template <class T, typename std::enable_if_t<!std::is_constructible<fmt::WithRadix, T, u32>::value, int> = 0> static fmt::WithRadix makeRadix(T, u32) { mc::fail("fmt::WithRadix does not accept a floating-point value"); }
static void special() {
    mc::nontrivial(); mc::step(4);
    MC_CHECK(str(String::from(INFINITY)) == "inf" && str(String::from(-INFINITY)) == "-inf" && str(String::from(fabs(NAN))) == "nan", "infinity or NaN prints as a number");
    MC_CHECK(str(String::from(true)) == "true" && str(String::from(false)) == "false", "booleans");
    bool hexOfDouble = std::is_constructible<fmt::Hex, double>::value;
    MC_CHECK(hexOfDouble, "fmt::Hex does not accept a floating-point value");
    fmt::WithRadix w{makeRadix<double>(1.5, 2)};
    MC_CHECK(str(String::from(w)) == "1.100", "1.5 in radix 2 is \"%s\"", str(String::from(w)).c_str());
}
MC_SCENARIOS = {
    {"small", small, 0, "every 8- and 16-bit integer in every radix, printed and parsed back"},
    {"wide", wide, 0, "neighbourhoods of every power of every radix and of every type's limits, as every type, in every radix"},
    {"strings", strings, 0, "every string of up to 4 (6) characters over digits, letters, '-' and space, as every type in radix 2, 8, 10, 16, 36"},
    {"divided", divided, 0, "numbers at the limits, delivered in every division"},
    {"floats", floats, 0, "every string of up to 6 (7) characters over digits, '.', 'e', '-', '+'; short ones in every division"},
    {"exponents", exponents, 0, "every decimal exponent times seven mantissas"},
    {"fractions", fractions, 0, "fractions of 1 to 70 (140) digits in every radix"},
    {"print-floats", printFloats, 0, "doubles around every power of 2 and of 10 and every thousandth up to 20"},
    {"special", special, 0, "infinities, NaN, booleans, fmt::Hex"},
    MC_END,
};
