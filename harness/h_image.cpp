// C48: images — pixels, views, fills, copies and conversions inside guarded memory, against plain loops
#include "common.h"
#include <image/Core.h>
#include <image/Image.h>
#include <image-png/PNG.h>
#include "iotest.h"
#include <png.h>
#include <math.h>
using namespace ply::image;
typedef ply::image::Image Img;
typedef ply::image::Format Fmt;
static const struct { Fmt f; int bpp; } Formats[] = {
    {Fmt::Unknown, 0}, {Fmt::Char, 1}, {Fmt::Byte, 1}, {Fmt::Byte2, 2}, {Fmt::RGBA, 4}, {Fmt::BGRA, 4}, {Fmt::ARGB, 4}, {Fmt::ABGR, 4}, {Fmt::Float, 4}, {Fmt::S16, 2},
    {Fmt::U16, 2}, {Fmt::S16_2, 4}, {Fmt::Half, 2}, {Fmt::Float2, 8}, {Fmt::Half2, 4}, {Fmt::Float4, 16}, {Fmt::Half4, 8}, {Fmt::D24S8, 4}};
static const int NF = 18;
// An image in the middle of a block of memory, with space between rows; every byte is known
struct Guarded {
    enum { Guard = 48 };
    std::string bytes, start; // memory is a separate block so that its ends are exact
    char* mem; size_t n; Img im; int bpp;
    Guarded(Fmt f, int bpp, int w, int h, int pad, int seed) : bpp(bpp) {
        int stride = w * bpp + pad;
        n = Guard * 2 + stride * h;
        mem = (char*) aligned_alloc(16, (n + 15) & ~15);
        for (size_t i = 0; i < n; i++) start += (char) (i * 37 + 11 + seed * 91 + (i >> 3));
        memcpy(mem, start.data(), n);
        im = Img{mem + Guard, stride, w, h, f};
    }
    Guarded(const Guarded&) = delete;
    ~Guarded() { ::free(mem); }
    size_t at(const Img& v, int x, int y) const { return v.data - mem + (long) y * v.stride + x * bpp; }
    void fill(std::string s) { for (size_t i = 0; i < n; i++) { start[i] = s[i % s.size()]; } memcpy(mem, start.data(), n); }
    // every pixel of the view holds want(x, y); every other byte is unchanged
    template <class F> void check(const Img& v, const char* what, F want) {
        std::string w = start;
        for (int y = 0; y < v.height; y++) for (int x = 0; x < v.width; x++) { std::string p = want(x, y); MC_CHECK((int) p.size() == bpp, "oracle"); w.replace(at(v, x, y), bpp, p); }
        for (size_t i = 0; i < n; i++)
            if (mem[i] != w[i]) {
                bool in = false;
                for (int y = 0; y < v.height; y++) for (int x = 0; x < v.width; x++) { size_t a = at(v, x, y); if (i >= a && i < a + bpp) { in = true; mc::fail("%s: byte %d of pixel (%d, %d) is %02x instead of %02x", what, (int) (i - a), x, y, (unsigned char) mem[i], (unsigned char) w[i]); } }
                if (!in) mc::fail("%s: a byte outside the rectangle is changed (%ld bytes from its first pixel)", what, (long) i - (long) at(v, 0, 0));
            }
        mc::step();
    }
    std::string px(const Img& v, int x, int y) const { return start.substr(at(v, x, y), bpp); }
};
static std::string b4(uint32_t v) { return std::string((char*) &v, 4); }
static uint16_t half(uint32_t f, bool* ok) { // truncating, small numbers to zero
    uint32_t e = f >> 23 & 255; *ok = e < 127 + 16;
    if (e < 127 - 14) return 0;
    return (uint16_t) (f >> 16 & 0x8000) | (uint16_t) ((e - 112) << 10) | (uint16_t) (f >> 13 & 0x3ff);
}
static void layout() {
    int f = choose(NF), w = choose(pick(4, 6)), h = choose(pick(4, 6)), pad = choose(3) * 4;
    Fmt fmt = Formats[f].f; int bpp = Formats[f].bpp;
    mc::casef("format %d, %d by %d, %d bytes between rows", f, w, h, pad);
    Guarded g{fmt, bpp, w, h, pad, 0};
    Img& im = g.im; const Img& ci = im;
    MC_CHECK(im.bytespp == bpp && (int) Img::FormatToBPP[f] == bpp && (int) fmt == f, "%d bytes per pixel", im.bytespp);
    MC_CHECK(im.dims() == (IntVec2{w, h}) && im.getRect() == (IntRect{{0, 0}, {w, h}}) && im.isSquare() == (w == h), "dimensions");
    if (im.stride > 0) MC_CHECK(im.size() == (u32) (im.stride * h), "size");
    MC_CHECK(im.isChar() == (fmt == Fmt::Char) && im.isByte() == (fmt == Fmt::Byte) && im.isByte2() == (fmt == Fmt::Byte2) && im.isFloat() == (fmt == Fmt::Float) && im.isHalf() == (fmt == Fmt::Half) && im.isFloat2() == (fmt == Fmt::Float2) && im.isHalf2() == (fmt == Fmt::Half2) && im.isFloat4() == (fmt == Fmt::Float4) && im.isHalf4() == (fmt == Fmt::Half4) && im.isU16() == (fmt == Fmt::U16), "a test of the format");
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        char* want = g.mem + Guarded::Guard + y * (w * bpp + pad) + x * bpp;
        MC_CHECK(im.getPixel(x, y) == want && ci.getPixel(x, y) == want, "pixel (%d, %d)", x, y);
        if (bpp == 4) MC_CHECK((char*) im.get<u32>(x, y) == want && (const char*) ci.get<u32>(x, y) == want, "pixel (%d, %d)", x, y);
        if (bpp == 16) MC_CHECK((char*) im.get<Float4>(x, y) == want, "pixel (%d, %d)", x, y);
        mc::step();
    }
    Img later{im}; later.bytespp = 77; later.onPostSerialize();
    MC_CHECK(later.bytespp == bpp, "bytes per pixel after loading");
    Img other{nullptr, 0, h, w, fmt}; MC_CHECK(sameDims(im, other) == (w == h) && sameDims(im, later), "sameDims");
    mc::state(hstr(std::to_string(f * 10000 + w * 1000 + h * 100 + pad)));
    mc::nontrivial();
}
// a view of a view names the same pixels as one view
static void crops() {
    int f = choose(NF - 1) + 1, w = choose(pick(3, 4)) + 1, h = choose(pick(3, 4)) + 1;
    Fmt fmt = Formats[f].f; int bpp = Formats[f].bpp;
    mc::casef("format %d, %d by %d", f, w, h);
    for (int pad = 0; pad <= 4; pad += 4) {
        Guarded g{fmt, bpp, w, h, pad, 0};
        for (int x0 = 0; x0 <= w; x0++) for (int x1 = x0; x1 <= w; x1++) for (int y0 = 0; y0 <= h; y0++) for (int y1 = y0; y1 <= h; y1++) {
            Img v = crop(g.im, IntRect{{x0, y0}, {x1, y1}});
            MC_CHECK(v.width == x1 - x0 && v.height == y1 - y0 && v.format == fmt && v.bytespp == bpp && v.stride == g.im.stride, "crop's dimensions");
            for (int y = y0; y < y1; y++) for (int x = x0; x < x1; x++) MC_CHECK(v.getPixel(x - x0, y - y0) == g.im.getPixel(x, y), "pixel (%d, %d) of (%d..%d, %d..%d)", x, y, x0, x1, y0, y1);
            mc::step();
            int W = v.width, H = v.height;
            for (int a0 = 0; a0 <= W; a0++) for (int a1 = a0 + 1; a1 <= W; a1++) for (int b0 = 0; b0 <= H; b0++) for (int b1 = b0 + 1; b1 <= H; b1++) {
                Img u = crop(v, IntRect{{a0, b0}, {a1, b1}}), d = crop(g.im, IntRect{{x0 + a0, y0 + b0}, {x0 + a1, y0 + b1}});
                MC_CHECK(u.data == d.data && u.stride == d.stride && sameDims(u, d) && u.format == d.format, "a crop of a crop");
            }
        }
        mc::state(hstr(std::to_string(f * 1000 + w * 100 + h * 10 + pad)));
    }
    mc::nontrivial();
}
// every operation on every rectangle of a destination, from every place of a source
enum { OClear32, OClearF, OClearF4, OCopy, OFlip, OCopy32, OHalf, OHalf2, OHalf4, OSRGB, NOps };
static void ops() {
    static const char* names[] = {"clear(u32)", "clear(float)", "clear(Float4)", "copy", "verticalFlip", "copy32Bit", "convertFloatToHalf", "convertFloat2ToHalf2", "convertFloat4ToHalf4", "linearToSRGB"};
    int op = choose(NOps), w = choose(pick(4, 5)) + 1, h = choose(pick(4, 5)) + 1;
    int nf = op == OClear32 || op == OCopy32 ? 8 : op == OCopy || op == OFlip ? NF - 1 : 1;
    int k = choose(nf);
    static const int four[] = {4, 5, 6, 7, 8, 11, 14, 17};
    int df = op == OClear32 || op == OCopy32 ? four[k] : op == OCopy || op == OFlip ? k + 1 : op == OClearF ? 8 : op == OClearF4 ? 15 : op == OHalf ? 12 : op == OHalf2 ? 14 : op == OHalf4 ? 16 : 4;
    int sf = op == OHalf ? 8 : op == OHalf2 ? 13 : op == OHalf4 ? 15 : op == OSRGB ? 2 : op == OCopy32 ? four[7 - k] : df;
    mc::casef("%s, %d by %d, format %d", names[op], w, h, df);
    int db = Formats[df].bpp, sb = Formats[sf].bpp;
    for (int dpad = 0; dpad < 3; dpad++)
        for (int x0 = 0; x0 < w; x0++) for (int x1 = x0 + 1; x1 <= w; x1++) for (int y0 = 0; y0 < h; y0++) for (int y1 = y0 + (x0 + 1 < x1 || w == 1 ? 0 : 1); y1 <= h; y1++) {
            if (y1 == y0 && x0 == x1) continue;
            Guarded d{Formats[df].f, db, w, h, dpad == 1 ? 16 : dpad == 2 ? 4 * db : 0, 1};
            int sx = dpad == 0 ? 0 : w - x1, sy = dpad == 1 ? 0 : h - y1; // where the source is
            Guarded s{Formats[sf].f, sb, w, h, dpad == 2 ? 0 : dpad == 1 ? 3 * sb : 16, 2};
            if (op >= OHalf && op <= OHalf4) { // floats that fit
                static const float vals[] = {0, 1, -1, 0.5f, 1.99951f, -3.25f, 65504, 65535, -65504, 6.1035156e-5f, 6.1035149e-5f, 3e-8f, -3e-8f, -0.f, 1e-30f, 0.333333f, 1024.6f, -2047.9f, 9.9999f};
                std::string p; for (float v : vals) p += std::string((char*) &v, 4);
                s.fill(p);
            }
            Img dv = crop(d.im, IntRect{{x0, y0}, {x1, y1}}), sv = crop(s.im, IntRect{{sx, sy}, {sx + x1 - x0, sy + y1 - y0}});
            auto same = [&](int x, int y) { return s.px(sv, x, y); };
            switch (op) {
                case OClear32: { u32 v = 0x01020304 + x0; clear(dv, v); d.check(dv, names[op], [&](int, int) { return b4(v); }); break; }
                case OClearF: { float v = -2.75f + y0; clear(dv, v); d.check(dv, names[op], [&](int, int) { return std::string((char*) &v, 4); }); break; }
                case OClearF4: { Float4 v{1.5f, -2, 3e7f, 0.25f}; clear(dv, v); d.check(dv, names[op], [&](int, int) { return std::string((char*) &v, 16); }); break; }
                case OCopy: {
                    OwnImage c = ply::image::copy(sv);
                    MC_CHECK(sameDims(c, sv) && c.format == sv.format && c.bytespp == sv.bytespp && c.stride >= c.width * sb, "the copy's dimensions");
                    for (int y = 0; y < c.height; y++) for (int x = 0; x < c.width; x++) MC_CHECK(!memcmp(c.getPixel(x, y), s.px(sv, x, y).data(), sb), "pixel (%d, %d) of the copy", x, y);
                    MC_CHECK(c.height == 0 || c.data < s.mem || c.data >= s.mem + s.n, "the copy is not a copy");
                    mc::step();
                    break;
                }
                case OFlip: verticalFlip(dv, sv); d.check(dv, names[op], [&](int x, int y) { return s.px(sv, x, dv.height - 1 - y); }); break;
                case OCopy32: copy32Bit(dv, sv); d.check(dv, names[op], same); break;
                case OHalf: case OHalf2: case OHalf4: {
                    if (op == OHalf) convertFloatToHalf(dv, sv); else if (op == OHalf2) convertFloat2ToHalf2(dv, sv); else convertFloat4ToHalf4(dv, sv);
                    d.check(dv, names[op], [&](int x, int y) {
                        std::string p = s.px(sv, x, y), o;
                        for (size_t i = 0; i < p.size(); i += 4) { uint32_t f; memcpy(&f, p.data() + i, 4); bool ok; uint16_t h = half(f, &ok); MC_CHECK(ok, "oracle"); o += std::string((char*) &h, 2); }
                        return o;
                    });
                    break;
                }
                case OSRGB: {
                    linearToSRGB(dv, sv);
                    d.check(dv, names[op], [&](int x, int y) { unsigned char v = (unsigned char) s.px(sv, x, y)[0]; int o = (int) lround(255 * pow(v / 255.0, 1 / 2.2)); char p[] = {(char) o, (char) o, (char) o, (char) (255 - v)}; return std::string(p, 4); });
                    break;
                }
            }
            s.check(s.im, "the source", [&](int x, int y) { return s.px(s.im, x, y); });
        }
    mc::state(hstr(std::to_string(op * 100000 + df * 1000 + w * 10 + h)));
    mc::nontrivial();
}
// one value of every pixel
static void values() {
    int what = choose(5), hi = choose(256);
    mc::casef("values %d, group %d", what, hi);
    mc::nontrivial();
    if (what == 0) { // a byte as sRGB
        Guarded s{Fmt::Byte, 1, 1, 1, 0, 0}, d{Fmt::RGBA, 4, 1, 1, 0, 0};
        s.im.data[0] = (char) hi; linearToSRGB(d.im, s.im);
        int o = (int) lround(255 * pow(hi / 255.0, 1 / 2.2)); char p[] = {(char) o, (char) o, (char) o, (char) (255 - hi)};
        MC_CHECK(!memcmp(d.im.data, p, 4), "%d becomes %02x %02x %02x %02x", hi, (u8) d.im.data[0], (u8) d.im.data[1], (u8) d.im.data[2], (u8) d.im.data[3]);
        return;
    }
    if (what == 1) { // colours
        for (int ch = 0; ch < 4; ch++) for (int rest = 0; rest < 3; rest++) {
            u8 c[4]; for (int i = 0; i < 4; i++) c[i] = i == ch ? (u8) hi : (u8) (rest == 0 ? 0 : rest == 1 ? 255 : 64 * i + 5);
            Int4<u8> col{c[0], c[1], c[2], c[3]};
            u32 r = toRGBA(col), a = toABGR(col);
            u8 rb[4], ab[4]; memcpy(rb, &r, 4); memcpy(ab, &a, 4);
            for (int i = 0; i < 4; i++) { MC_CHECK(rb[i] == c[i], "toRGBA of (%d, %d, %d, %d)", c[0], c[1], c[2], c[3]); MC_CHECK(ab[3 - i] == c[i], "toABGR of (%d, %d, %d, %d) is %08x", c[0], c[1], c[2], c[3], a); }
        }
        return;
    }
    // a group of floats in one row, as halves
    static const uint32_t lows[] = {0, 1, 0xfff, 0x1000, 0x1fff};
    std::vector<uint32_t> fl;
    uint32_t top = (uint32_t) hi << 24;
    if (pick(0, 1)) for (uint32_t i = 0; i < 1u << 24; i++) fl.push_back(top | i);
    else for (uint32_t i = 0; i < 1u << 24; i += 0x2000) for (uint32_t l : lows) fl.push_back(top | i | l);
    std::vector<uint32_t> in; std::vector<uint16_t> want;
    for (uint32_t v : fl) { bool ok; uint16_t h = half(v, &ok); if (ok) { in.push_back(v); want.push_back(h); } }
    int per = what == 2 ? 1 : what == 3 ? 2 : 4;
    if (pick(0, 1) == 0 && what > 2 && (hi & 15) != 3 && (hi & 15) != 8) return;
    while (in.size() % per) { in.push_back(0); want.push_back(0); }
    int w = (int) in.size() / per;
    if (!w) return;
    std::vector<uint16_t> out(in.size() + 1, 0xabcd);
    Img s{(char*) in.data(), (s32) in.size() * 4, w, 1, what == 2 ? Fmt::Float : what == 3 ? Fmt::Float2 : Fmt::Float4}, d{(char*) out.data(), (s32) in.size() * 2, w, 1, what == 2 ? Fmt::Half : what == 3 ? Fmt::Half2 : Fmt::Half4};
    if (what == 2) convertFloatToHalf(d, s); else if (what == 3) convertFloat2ToHalf2(d, s); else convertFloat4ToHalf4(d, s);
    for (size_t i = 0; i < in.size(); i++) MC_CHECK(out[i] == want[i], "float %08x becomes half %04x instead of %04x", in[i], out[i], want[i]);
    MC_CHECK(out[in.size()] == 0xabcd, "beyond the end");
    mc::step(in.size());
}
// owners of images: one owner per block, freed once
static void owners() {
    int n = pick(4, 5);
    std::vector<int> seq; for (int i = 0; i < n; i++) seq.push_back(choose(7));
    struct Model { int w = 0, h = 0; Fmt f = Fmt::Unknown; bool has = false; char fill = 0; };
    Model m[2];
    {
        OwnImage a, b; OwnImage* im[2] = {&a, &b};
        std::string log;
        for (int i = 0; i < n; i++) {
            int op = seq[i], t = op & 1;
            switch (op) {
                case 0: case 1: { // allocate
                    int w = 1 + i, h = 2 + t; Fmt f = i & 1 ? Fmt::RGBA : Fmt::Half;
                    im[t]->alloc(w, h, f); m[t] = Model{w, h, f, true, (char) (i + 1)};
                    memset(im[t]->data, i + 1, w * h * (i & 1 ? 4 : 2));
                    log += "alloc ";
                    break;
                }
                case 2: case 3: *im[t] = std::move(*im[1 - t]); m[t] = m[1 - t]; m[1 - t] = Model{}; log += "move "; break;
                case 4: { OwnImage c{std::move(*im[0])}; MC_CHECK(!im[0]->data, "moved from"); *im[1] = std::move(c); m[1] = m[0]; m[0] = Model{}; log += "construct "; break; }
                case 5: if (m[0].has) { char* p = im[0]->release(); MC_CHECK(p && p[0] == m[0].fill, "release"); PLY_HEAP.free(p); m[0] = Model{}; } else MC_CHECK(!im[0]->release(), "release of nothing"); log += "release "; break;
                case 6: if (m[1].has) { *im[0] = ply::image::copy(*im[1]); m[0] = m[1]; } log += "copy "; break;
            }
            mc::casef("%s", log.c_str());
            for (int k = 0; k < 2; k++) {
                Model& e = m[k]; OwnImage& o = *im[k];
                MC_CHECK((o.data != nullptr) == e.has && o.format == e.f && o.width == e.w && o.height == e.h, "image %d", k);
                if (!e.has) { MC_CHECK(o.stride == 0 && o.bytespp == 0, "image %d isn't empty", k); continue; }
                for (int y = 0; y < e.h; y++) for (int x = 0; x < e.w; x++) for (int j = 0; j < o.bytespp; j++) MC_CHECK(o.getPixel(x, y)[j] == e.fill, "image %d's pixels", k);
            }
            if (m[0].has && m[1].has) MC_CHECK(a.data != b.data, "two owners of one block");
            mc::step();
        }
    }
    mc::state(hstr(std::to_string(m[0].w * 1000 + m[1].w * 100 + m[0].has * 10 + m[1].has)));
    mc::nontrivial();
}
// PNG files, read back by libpng
static std::string decodePNG(const std::string& file, int* w, int* h) {
    png_image p; memset(&p, 0, sizeof p); p.version = PNG_IMAGE_VERSION;
    MC_CHECK(png_image_begin_read_from_memory(&p, file.data(), file.size()), "the file can't be read: %s", p.message);
    bool gray = !(p.format & PNG_FORMAT_FLAG_COLOR);
    p.format = gray ? PNG_FORMAT_GRAY : PNG_FORMAT_RGBA;
    std::string o(PNG_IMAGE_SIZE(p), 0);
    MC_CHECK(png_image_finish_read(&p, nullptr, &o[0], 0, nullptr), "the file can't be read: %s", p.message);
    *w = p.width; *h = p.height;
    return o;
}
static void png() {
    int f = choose(3), w = choose(pick(4, 6)) + 1, h = choose(pick(4, 6)) + 1, pad = choose(2), seed = choose(3), room = choose(3);
    Fmt fmt = f == 0 ? Fmt::RGBA : f == 1 ? Fmt::BGRA : Fmt::Byte; int bpp = f == 2 ? 1 : 4;
    mc::casef("%s, %d by %d", f == 0 ? "RGBA" : f == 1 ? "BGRA" : "grey", w, h);
    Guarded g{fmt, bpp, w + 1, h + 1, pad * 12, seed};
    Img v = crop(g.im, IntRect{{seed & 1, pad}, {w + (seed & 1), h + pad}});
    std::string file;
    if (room == 0) { MemOutStream out; writePNG(v, &out); String s = out.moveToString(); file = str(s); }
    else { StrSink sink{&file}; OutStream out{borrow((OutPipe*) &sink), room == 1 ? 7u : 9u}; writePNG(v, &out); out.flush(); }
    g.check(g.im, "the image", [&](int x, int y) { return g.px(g.im, x, y); });
    int rw = 0, rh = 0; std::string px = decodePNG(file, &rw, &rh);
    MC_CHECK(rw == w && rh == h && px.size() == (size_t) w * h * bpp, "the file has %d by %d pixels", rw, rh);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        std::string want = g.px(v, x, y), got = px.substr((y * w + x) * bpp, bpp);
        if (f == 1) std::swap(want[0], want[2]);
        MC_CHECK(got == want, "pixel (%d, %d) is %s instead of %s", x, y, esc(got).c_str(), esc(want).c_str());
    }
    mc::step(); mc::state(hstr(file)); mc::nontrivial();
}
MC_SCENARIOS = {
    {"layout", layout, 0, "every format, size and stride: dimensions, tests and addresses of pixels"},
    {"crops", crops, 0, "every rectangle of every small image, and every rectangle of it"},
    {"ops", ops, mc::LEAKS, "every operation on every rectangle of every small image, in guarded memory"},
    {"values", values, 0, "every byte and colour channel, and floats of every exponent (thorough: every float)"},
    {"owners", owners, mc::LEAKS, "sequences of allocations, moves, releases and copies of two owned images"},
    {"png", png, mc::LEAKS, "PNG files of small images, read back by libpng"},
    MC_END};
