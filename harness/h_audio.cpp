// C49: audio buffers, mixing with saturation, gain and pitch, and saved clips, against 64-bit arithmetic
#include "iotest.h"
#include <audio-primitives/Core.h>
#include <audio-primitives/Render.h>
#include <audio-primitives/Saturate.h>
#include <audio-primitives/OfflineClip.h>
#include <ply-reflect/Core.h>
#include <ply-reflect/Asset.h>
using namespace ply::audio;
typedef ply::audio::Format Fmt;
#define CHK(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)
static int sat(int64_t v) { return v > 32767 ? 32767 : v < -32768 ? -32768 : (int) v; }
static const int Edges[] = {0, 1, -1, 2, 100, -100, 16384, -16384, 32766, 32767, -32767, -32768};
static const int NE = 12;
// samples with known bytes around them; the memory ends where the guard does
struct Mem {
    enum { Guard = 16 };
    size_t n; char* mem; std::string start;
    Mem(size_t samples) : n(samples), mem((char*) ::malloc(samples * 2 + 2 * Guard)) { memset(mem, 0x5a, n * 2 + 2 * Guard); }
    Mem(const Mem&) = delete;
    ~Mem() { ::free(mem); }
    s16* s() { return (s16*) (mem + Guard); }
    char* c() { return mem + Guard; }
    void guards(const char* what) { for (int i = 0; i < Guard; i++) CHK(mem[i] == 0x5a && mem[Guard + n * 2 + i] == 0x5a, "%s writes outside its buffer", what); }
};
// exact memory: reading before or after it is seen by AddressSanitizer
struct Exact { s16* p; Exact(size_t n) : p((s16*) ::malloc(n ? n * 2 : 1)) {} ~Exact() { ::free(p); } Exact(const Exact&) = delete; };
static void saturate() {
    int hi = choose(256);
    mc::casef("samples %d to %d", hi * 256 - 32768, hi * 256 - 32513);
    for (int a = hi * 256 - 32768; a < hi * 256 - 32512; a++) {
        for (int b = -32768; b <= 32767; b += pick(61, 1)) CHK(saturatingAdd((s16) a, (s16) b) == sat((int64_t) a + b), "%d + %d is %d", a, b, saturatingAdd((s16) a, (s16) b));
        for (int d = -3; d <= 3; d++) for (int e : {32767 - a, -32768 - a, -a, a, 32767, -32768}) { int b = e + d; if (b >= -32768 && b <= 32767) CHK(saturatingAdd((s16) a, (s16) b) == sat((int64_t) a + b), "%d + %d is %d", a, b, saturatingAdd((s16) a, (s16) b)); }
        mc::step();
    }
    mc::nontrivial();
}
// sums of short buffers of every number of channels
static void mixes() {
    int ch = choose(3) + 1, frames = choose(pick(4, 6)), rot = choose(NE), rot2 = choose(NE);
    mc::casef("%d frames of %d channels", frames, ch);
    Fmt f = Fmt::encode((u8) ch, Fmt::SampleType::S16);
    int n = frames * ch;
    Mem d(n); Exact s(n);
    std::vector<int> a, b;
    for (int i = 0; i < n; i++) { a.push_back(Edges[(i + rot) % NE]); b.push_back(Edges[(i * 5 + rot2) % NE]); d.s()[i] = (s16) a[i]; s.p[i] = (s16) b[i]; }
    mix(Buffer{d.c(), (u32) frames, 44100, f}, Buffer{(char*) s.p, (u32) frames, 44100, f});
    for (int i = 0; i < n; i++) { CHK(d.s()[i] == sat(a[i] + b[i]), "sample %d: %d and %d are mixed to %d", i, a[i], b[i], d.s()[i]); CHK(s.p[i] == b[i], "the source is changed"); }
    d.guards("mix");
    mc::step(); mc::state(hstr(std::string((char*) d.s(), n * 2))); if (n) mc::nontrivial();
}
static const int Levels[] = {0, 1, 2, 255, 256, 12345, 32767, 32768, 65535, 65536, -1, -2, -32768, -65535};
static void leveled() {
    int li = choose(14), di = choose(NE), part = choose(8), ch = choose(2) + 1;
    int level = Levels[li];
    mc::casef("level %d onto %d", level, Edges[di]);
    int n = 65536 / 8;
    Mem d(n); Exact s(n);
    for (int i = 0; i < n; i++) { d.s()[i] = (s16) Edges[di]; s.p[i] = (s16) (part * n + i - 32768); }
    Fmt f = Fmt::encode((u8) ch, Fmt::SampleType::S16);
    u32 frames = (u32) (n / ch);
    mixLeveled(Buffer{d.c(), frames, 48000, f}, Buffer{(char*) s.p, frames, 48000, f}, level);
    for (int i = 0; i < n; i++) { int64_t v = part * n + i - 32768; int want = sat(Edges[di] + ((v * level) >> 16)); CHK(d.s()[i] == want, "%d at level %d onto %d is %d instead of %d", (int) v, level, Edges[di], d.s()[i], want); }
    d.guards("mixLeveled");
    mc::step(n); mc::nontrivial();
}
static void dynLevel() {
    static const uint32_t starts[] = {0, 1, 0x3fff, 0x4000, 0x10000000, 0x20000001, 0x3fffffff, 0x40000000};
    static const int64_t steps[] = {0, 1, -1, 0x4000, -0x4000, 0x3fff, 0x1000000, -0x1000000, 0x10000000, -0x10000000, 0x20000000, -0x20000000, 0x40000000, -0x40000000};
    uint32_t level = starts[choose(8)]; int64_t step = steps[choose(14)]; int frames = choose(pick(6, 9));
    for (int k = 0; k < frames; k++) { int64_t l = level + k * step; if (l < 0 || l > 0x40000000) return mc::markRedundant(); }
    mc::casef("level %u, step %lld, %d frames", level, (long long) step, frames);
    for (int rot = 0; rot < NE; rot++) for (int di = 0; di < NE; di++) {
        Mem d(frames * 2); Exact s(frames * 2);
        for (int i = 0; i < frames * 2; i++) { d.s()[i] = (s16) Edges[(di + i / 2) % NE]; s.p[i] = (s16) Edges[(i * 7 + rot) % NE]; }
        mixDynLevel(Buffer{d.c(), (u32) frames, 44100, Fmt::StereoS16}, Buffer{(char*) s.p, (u32) frames, 44100, Fmt::StereoS16}, level, (s32) step);
        for (int i = 0; i < frames * 2; i++) {
            int64_t l = level + (i / 2) * step, v = Edges[(i * 7 + rot) % NE]; int to = Edges[(di + i / 2) % NE], want = sat(to + ((v * (l >> 14)) >> 16));
            CHK(d.s()[i] == want, "sample %d: %d onto %d at level %lld is %d instead of %d", i, (int) v, to, (long long) l, d.s()[i], want);
        }
        d.guards("mixDynLevel");
        mc::step();
    }
    mc::state(hstr(std::to_string(level) + "/" + std::to_string(step) + "/" + std::to_string(frames))); if (frames) mc::nontrivial();
}
static void pitched() {
    static const uint32_t fr[] = {0, 1, 0x4000, 0x8000, 0xffff};
    static const uint32_t st[] = {0, 1, 0x3333, 0x8000, 0xffff, 0x10000, 0x10001, 0x18000, 0x20000, 0x35555, 0x50000};
    static const int vol[] = {0, 1, 0x4000, 0xffff, 0x10000, -0x8000, -0xffff};
    int n = choose(pick(6, 9)) + 2, frames = choose(pick(6, 9)); uint32_t f0 = fr[choose(5)], step = st[choose(11)]; int v = vol[choose(7)];
    for (int k = 0; k < frames; k++) if ((int64_t) ((f0 + (uint64_t) k * step) >> 16) + 1 >= n) return mc::markRedundant();
    if (!frames && (f0 || v)) return mc::markRedundant();
    mc::casef("%d frames from %d, from %x in steps of %x at volume %d", frames, n, f0, step, v);
    for (int rot = 0; rot < NE; rot++) for (int di = 0; di < NE; di += 2) {
        Mem d(frames * 2); Exact s(n * 2);
        for (int i = 0; i < n * 2; i++) s.p[i] = (s16) Edges[(i * 5 + (i >> 2) + rot) % NE];
        for (int i = 0; i < frames * 2; i++) d.s()[i] = (s16) Edges[(di + i) % NE];
        MixPitchedDirectParams p; p.dst = d.c(); p.dstEnd = d.c() + frames * 4; p.src = (char*) s.p; p.srcEnd = (char*) (s.p + n * 2); p.sf16 = f0; p.srcStep = step; p.volume16 = v;
        mixPitchedDirect(p);
        for (int i = 0; i < frames * 2; i++) {
            uint64_t pos = f0 + (uint64_t) (i / 2) * step; int at = (int) (pos >> 16); int64_t fpart = pos & 65535;
            int64_t x = s.p[at * 2 + (i & 1)], y = s.p[at * 2 + 2 + (i & 1)], pre = (x * (65536 - fpart) + y * fpart) >> 16;
            int want = sat(Edges[(di + i) % NE] + ((pre * v) >> 16));
            CHK(d.s()[i] == want, "sample %d of frame %d is %d instead of %d", i & 1, i / 2, d.s()[i], want);
        }
        d.guards("mixPitchedDirect");
        mc::step();
    }
    mc::state(hstr(std::to_string(f0) + "/" + std::to_string(step) + "/" + std::to_string(frames) + "/" + std::to_string(n) + "/" + std::to_string(v))); if (frames) mc::nontrivial();
}
static void buffers() {
    int ch = choose(255) + 1, type = choose(2);
    Fmt f = Fmt::encode((u8) ch, Fmt::SampleType(type));
    int stride = ch * (type ? 4 : 2);
    mc::casef("%d channels of type %d", ch, type);
    CHK(f.stride == stride && f.numChannels == ch && (int) f.sampleType == type, "the format has %d bytes", f.stride);
    Fmt g = f; g.stride = 9; g.onPostSerialize(); CHK(g.stride == stride && g == f, "the format after loading");
    for (int o = 1; o < 256; o += 7) for (int t = 0; t < 2; t++) CHK((f == Fmt::encode((u8) o, Fmt::SampleType(t))) == (o == ch && t == type), "comparing formats");
    if (ch == 1 && type == 0) CHK(f == Fmt::MonoS16, "MonoS16");
    if (ch == 2 && type == 0) CHK(f == Fmt::StereoS16, "StereoS16");
    if (ch > 9 && ch < 250) { mc::step(); return; }
    for (int n = 0; n <= 5; n++) {
        std::string mem(n * stride + 32, 0x33);
        char* p = &mem[16];
        Buffer b{p, (u32) n, 22050, f};
        CHK(b.getSizeBytes() == (u32) (n * stride) && b.getEndPtr() == p + n * stride, "size");
        for (int o = 0; o <= n; o++) {
            CHK(b.getSampleAt(o) == p + o * stride, "frame %d", o);
            for (int len = -1; len <= n - o; len++) {
                Buffer r = b.getSubregion(o, len); int want = len < 0 ? n - o : len;
                CHK(r.samples == p + o * stride && r.numSamples == (u32) want && r.sampleRate == b.sampleRate && r.format == f, "frames %d of %d from %d", len, n, o);
                r.zero();
                for (int i = 0; i < (int) mem.size(); i++) CHK(mem[i] == (i >= 16 + o * stride && i < 16 + (o + want) * stride ? 0 : 0x33), "zeroing %d frames from %d of %d touches byte %d", want, o, n, i - 16);
                mem.assign(mem.size(), 0x33);
                if (want) { Buffer q = r.getSubregion(want - 1); CHK(q.samples == p + (o + want - 1) * stride && q.numSamples == 1, "a part of a part"); }
                mc::step();
            }
        }
    }
    mc::state(hstr(std::to_string(ch * 2 + type))); mc::nontrivial();
}
static void clips() {
    int ch = choose(3) + 1, type = choose(2), n = choose(pick(5, 8)), way = choose(2);
    float rate = n & 1 ? 44100.f : 8000.5f;
    mc::casef("%d frames of %d channels of type %d", n, ch, type);
    Fmt f = Fmt::encode((u8) ch, Fmt::SampleType(type));
    Owned<OfflineClipNode> node = OfflineClipNode::create(n, rate, f);
    CHK(node->buffer.samples == node->samples.bytes && node->samples.numBytes == (u32) (n * f.stride) && node->buffer.numSamples == (u32) n && node->buffer.sampleRate == rate && node->buffer.format == f, "a new clip");
    std::string data; for (u32 i = 0; i < node->samples.numBytes; i++) { data += (char) (i * 41 + n); node->samples.bytes[i] = data[i]; }
    OfflineClip clip; clip.node = std::move(node);
    std::string bytes;
    { MemOutStream mout; writeAsset(&mout, AnyObject::bind(&clip)); bytes = str(mout.moveToString()); }
    clip.node.clear();
    ExpectedTypeResolver res{getTypeDescriptor<OfflineClip>()};
    HeapBytes hb{bytes};
    Owned<OfflineClip> r;
    if (way == 0) { ViewInStream in{hb.view()}; r = readAsset(&in, &res).cast<OfflineClip>(); }
    else { CutSource* src = new CutSource{&bytes}; for (auto& c : src->cutAfter) c = 1; InStream in{OptionallyOwned<InPipe>{Owned<InPipe>{src}}, 7}; r = readAsset(&in, &res).cast<OfflineClip>(); }
    CHK((bool) r && (bool) r->node, "nothing loaded");
    OfflineClipNode& l = *r->node;
    CHK(str(l.samples) == data, "the samples");
    CHK(l.buffer.samples == l.samples.bytes, "the loaded buffer doesn't point to the loaded samples");
    CHK(l.buffer.numSamples == (u32) n && l.buffer.sampleRate == rate && l.buffer.format.numChannels == ch && (int) l.buffer.format.sampleType == type && l.buffer.format.stride == f.stride, "the loaded buffer: %u frames of %d bytes", l.buffer.numSamples, l.buffer.format.stride);
    mc::step(); mc::state(hstr(bytes)); mc::nontrivial();
}
MC_SCENARIOS = {
    {"saturate", saturate, 0, "every sample plus others of every range (thorough: every pair of samples)"},
    {"mixes", mixes, 0, "short buffers of extreme samples"},
    {"leveled", leveled, 0, "every sample at every level of a set onto extreme samples"},
    {"dynLevel", dynLevel, 0, "every level, step and length of a set"},
    {"pitched", pitched, 0, "every start, step, volume and pair of lengths of a set"},
    {"buffers", buffers, 0, "every format, and every part of a buffer"},
    {"clips", clips, mc::LEAKS, "clips, saved and loaded"},
    MC_END};
