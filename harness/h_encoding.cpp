// Text encodings: every code point, every short byte sequence.
#include "common.h"
#include <ply-runtime/string/TextEncoding.h>
typedef DecodeResult::Status St;
static const char* stName(St s) { return s == St::Valid ? "valid" : s == St::Invalid ? "invalid" : "truncated"; }

static std::string refEncode(int enc, u32 p) {
    std::string s;
    if (enc == 0) {
        if (p < 0x80) s += (char) p;
        else if (p < 0x800) { s += (char) (0xc0 + p / 64); s += (char) (0x80 + p % 64); }
        else if (p < 0x10000) { s += (char) (0xe0 + p / 4096); s += (char) (0x80 + p / 64 % 64); s += (char) (0x80 + p % 64); }
        else { s += (char) (0xf0 + p / 262144); s += (char) (0x80 + p / 4096 % 64); s += (char) (0x80 + p / 64 % 64); s += (char) (0x80 + p % 64); }
    } else {
        u32 units[2]; int n = 0;
        if (p < 0x10000) units[n++] = p;
        else { units[n++] = 0xd800 + (p - 0x10000) / 1024; units[n++] = 0xdc00 + (p - 0x10000) % 1024; }
        for (int i = 0; i < n; i++) { char hi = (char) (units[i] >> 8), lo = (char) units[i]; if (enc == 2) { s += hi; s += lo; } else { s += lo; s += hi; } }
    }
    return s;
}
template <class Enc> static void pointsOf(int enc, u32 from, u32 to) {
    char* buf = (char*) malloc(4);
    for (u32 p = from; p < to; p++) {
        std::string want = refEncode(enc, p);
        char name[32]; snprintf(name, 32, "U+%04X", p); 
        memset(buf, 0x7e, 4);
        u32 n = Enc::encodePoint({buf, (u32) want.size()}, p);
        mc::step();
        if (n != want.size() || memcmp(buf, want.data(), n) != 0 || Enc::numBytes(p) != n) { mc::casef("%s enc %d", name, enc); mc::fail("%s is encoded as %s, expected %s", name, esc({buf, n}).c_str(), esc(want).c_str()); }
        for (size_t k = n; k < 4; k++) MC_CHECK(buf[k] == 0x7e, "%s: bytes beyond the encoding are changed", name);
        bool surrogate = p >= 0xd800 && p < 0xe000;
        char* exact = (char*) malloc(n);
        memcpy(exact, buf, n);
        DecodeResult d = Enc::decodePoint({exact, n});
        if (surrogate && enc != 0) MC_CHECK(d.status != St::Valid && d.point == (s32) p && d.numBytes == 2, "the lone surrogate %s is decoded as %x, %d bytes, %s", name, d.point, d.numBytes, stName(d.status));
        else MC_CHECK(d.status == St::Valid && d.point == (s32) p && d.numBytes == n, "%s is decoded as %x, %d bytes, %s", name, d.point, d.numBytes, stName(d.status));
        MC_CHECK(Enc::backNumBytes({exact, n}) == n, "%s: backNumBytes", name);
        ::free(exact);
        // followed by something else, the same
        char more[8]; memcpy(more, buf, n);
        for (int f : {0x41, 0xff, 0x80, 0xd8, 0xdb}) {
            memset(more + n, f, 8 - n);
            if (surrogate && enc != 0) continue;
            d = Enc::decodePoint({more, 8});
            MC_CHECK(d.status == St::Valid && d.point == (s32) p && d.numBytes == n, "%s followed by %02x is decoded as %x, %d bytes", name, f, d.point, d.numBytes);
        }
        // cut short
        for (u32 k = 0; k < n; k++) {
            HeapBytes cut{std::string(buf, k)};
            d = Enc::decodePoint(cut.view());
            MC_CHECK(d.status == St::Truncated, "the first %u bytes of %s decode as %s", k, name, stName(d.status));
            MC_CHECK((d.point >= 0) == (d.numBytes > 0) && d.numBytes <= k, "the first %u bytes of %s: point %d, %d bytes", k, name, d.point, d.numBytes);
        }
    }
    ::free(buf);
}
static void points() {
    int enc = choose(3);
    u32 block = choose(272);
    mc::nontrivial();
    mc::state(mc::mix(enc, block));
    u32 from = block * 4096;
    MC_LOG("encoding %d, points from %x", enc, from);
    if (enc == 0) pointsOf<UTF8>(0, from, from + 4096);
    else if (enc == 1) pointsOf<UTF16_LE>(1, from, from + 4096);
    else pointsOf<UTF16_BE>(2, from, from + 4096);
}
// What the decoder must say about a byte sequence
static void checkUtf8(const u8* b, u32 n) {
    char* exact = (char*) malloc(n ? n : 1);
    memcpy(exact, b, n);
    DecodeResult d = UTF8::decodePoint({exact, n});
    mc::step();
    std::string name = esc(std::string((const char*) b, n));
    MC_CHECK((d.point >= 0) == (d.numBytes > 0) && d.numBytes <= n, "%s: point %d, %d bytes", name.c_str(), d.point, d.numBytes);
    u32 len = b[0] < 0x80 ? 1 : b[0] < 0xc0 ? 0 : b[0] < 0xe0 ? 2 : b[0] < 0xf0 ? 3 : b[0] < 0xf8 ? 4 : 0;
    u32 value = len == 1 ? b[0] : len == 2 ? b[0] & 31 : len == 3 ? b[0] & 15 : b[0] & 7;
    u32 k = 1;
    while (k < len && k < n && (b[k] & 0xc0) == 0x80) { value = value * 64 + (b[k] & 63); k++; }
    bool complete = len && k == len;
    bool canonical = complete && refEncode(0, value).size() == len && value < 0x110000;
    if (complete && d.status == St::Valid) MC_CHECK(d.point == (s32) value && d.numBytes == len, "%s is decoded as %x, %d bytes", name.c_str(), d.point, d.numBytes);
    else if (complete && canonical) mc::fail("%s is a well-formed character, but decodes as %s", name.c_str(), stName(d.status));
    else { // one code unit at a time
        MC_CHECK(d.status != St::Valid, "%s is decoded as valid", name.c_str());
        MC_CHECK(d.point == b[0] && d.numBytes == 1, "%s is malformed, but decodes as %x, %d bytes", name.c_str(), d.point, d.numBytes);
        if (d.status == St::Truncated) MC_CHECK(len > n, "%s is reported as truncated, but no continuation makes it a character", name.c_str());
        if (len > n && k == n) MC_CHECK(d.status == St::Truncated, "%s is a character cut short, but decodes as %s", name.c_str(), stName(d.status));
    }
    // walking backwards finds the same boundaries as walking forwards
    u32 fwd[8], nf = 0, at = 0;
    while (at < n) { fwd[nf++] = at; at += std::max<u32>(1, UTF8::decodePoint({exact + at, n - at}).numBytes); }
    u32 end = n;
    while (end > 0) {
        u32 c = UTF8::backNumBytes({exact, end});
        MC_CHECK(c >= 1 && c <= end, "%s: backNumBytes is %u of %u", name.c_str(), c, end);
        end -= c;
        MC_CHECK(nf > 0 && fwd[--nf] == end, "%s: walking backwards stops at %u, forwards does not", name.c_str(), end);
    }
    ::free(exact);
}
static void utf8Short() { // every sequence of up to 3 bytes
    u8 b[3]; b[0] = choose(256);
    mc::nontrivial();
    mc::state(b[0]);
    MC_LOG("sequences starting with %02x", b[0]);
    checkUtf8(b, 1);
    bool all = b[0] >= 0x80;
    for (int i = 0; i < 256; i++) {
        b[1] = i;
        checkUtf8(b, 2);
        int stepBy = all ? 1 : 16;
        if (!mc::tier() && !(i % 16 == 0 || i % 16 == 15)) continue;
        for (int j = 0; j < 256; j += stepBy) { b[2] = j; checkUtf8(b, 3); }
    }
}
static void utf8Long() { // sequences of 4 and 5 bytes from boundary values
    static const u8 v[] = {0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf7, 0xf8, 0xfe, 0xff};
    u8 b[5]; b[0] = v[choose(20)]; b[1] = v[choose(20)];
    mc::nontrivial();
    mc::state(mc::mix(b[0], b[1]));
    MC_LOG("sequences starting with %02x %02x", b[0], b[1]);
    for (u8 x : v) for (u8 y : v) {
        b[2] = x; b[3] = y;
        checkUtf8(b, 4);
        if (mc::tier()) for (u8 z : v) { b[4] = z; checkUtf8(b, 5); }
    }
}
template <class Enc> static void pairs(int enc, u32 hiByte) {
    static const u32 second[] = {0, 0x41, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdead, 0xdfff, 0xe000, 0xffff};
    for (u32 lo = 0; lo < 256; lo++) {
        u32 first = hiByte * 256 + lo;
        for (u32 s : second) for (int swap = 0; swap < 2; swap++) for (u32 n = 0; n <= 5; n++) {
            u32 a = swap ? s : first, c = swap ? first : s;
            std::string t;
            for (u32 u : {a, c, 0x4142u}) { char h = (char) (u >> 8), l = (char) u; if (enc == 2) { t += h; t += l; } else { t += l; t += h; } }
            HeapBytes hb{t.substr(0, n)};
            DecodeResult d = Enc::decodePoint(hb.view());
            mc::step();
            bool high = a >= 0xd800 && a < 0xdc00, low = a >= 0xdc00 && a < 0xe000, pair = high && c >= 0xdc00 && c < 0xe000;
            s32 point; St st; u32 k;
            if (n < 2) { point = -1; st = St::Truncated; k = 0; }
            else if (n >= 4 && pair) { point = 0x10000 + (a - 0xd800) * 1024 + (c - 0xdc00); st = St::Valid; k = 4; }
            else { point = a; k = 2; st = low ? St::Invalid : high ? (n < 4 ? St::Truncated : St::Invalid) : St::Valid; }
            MC_CHECK(d.point == point && d.numBytes == k && d.status == st, "UTF-16 %04x %04x cut to %u bytes is decoded as %x, %d bytes, %s; expected %x, %u bytes, %s", a, c, n, d.point, d.numBytes, stName(d.status), point, k, stName(st));
            u32 back = Enc::backNumBytes(hb.view());
            if (n == 4) MC_CHECK(back == (pair ? 4u : 2u), "UTF-16 %04x %04x: backNumBytes is %u", a, c, back);
            else MC_CHECK(n == 2 || n == 3 || n == 5 ? (back >= 2 && back <= n) : back == 0, "UTF-16 backNumBytes is %u of %u", back, n);
        }
    }
}
static void utf16() {
    int be = choose(2); u32 hi = choose(256);
    mc::nontrivial();
    mc::state(mc::mix(be, hi));
    MC_LOG("UTF-16 %s, units %02x00 to %02xff", be ? "BE" : "LE", hi, hi);
    if (be) pairs<UTF16_BE>(2, hi); else pairs<UTF16_LE>(1, hi);
}
static void bytesEnc() {
    for (u32 p = 0; p < 0x110000; p += 4096 > p ? 1 : 97) {
        char b = 0x7e;
        MC_CHECK(Enc_Bytes::encodePoint({&b, 1}, p) == 1 && (u8) b == (p < 256 ? p : 0x95) && Enc_Bytes::numBytes(p) == 1, "U+%04X as a byte is %02x", p, (u8) b);
        mc::step();
    }
    for (u32 c = 0; c < 256; c++) {
        char b = (char) c;
        DecodeResult d = Enc_Bytes::decodePoint({&b, 1});
        MC_CHECK(d.point == (s32) c && d.numBytes == 1 && d.status == St::Valid && Enc_Bytes::backNumBytes({&b, 1}) == 1, "byte %02x", c);
    }
    MC_CHECK(Enc_Bytes::decodePoint({}).numBytes == 0 && Enc_Bytes::backNumBytes({}) == 0, "empty");
    MC_CHECK(UTF8::decodePoint({}).numBytes == 0 && UTF8::backNumBytes({}) == 0, "empty");
    mc::nontrivial(); mc::state(1);
}
MC_SCENARIOS = {
    {"points", points, 0, "every code point in UTF-8, UTF-16LE and UTF-16BE: encoded, decoded, cut short at every byte, followed by other bytes"},
    {"utf8-short", utf8Short, 0, "every sequence of up to 3 bytes as UTF-8"},
    {"utf8-long", utf8Long, 0, "every sequence of 4 or 5 boundary bytes as UTF-8"},
    {"utf16-pairs", utf16, 0, "every 16-bit unit before and after every kind of unit, cut to 0 to 5 bytes"},
    {"bytes", bytesEnc, 0, "single-byte encoding"},
    MC_END,
};
