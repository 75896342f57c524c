// Text formats: every short text through every format and back, with every division; every short
// byte sequence through autodetection.
#include "iotest.h"
#include <ply-runtime/io/text/TextFormat.h>
typedef TextFormat::Encoding Enc;
typedef TextFormat::NewLine NL;
static const char* encName(Enc e) { return e == Enc::Bytes ? "bytes" : e == Enc::UTF8 ? "UTF-8" : e == Enc::UTF16_be ? "UTF-16BE" : "UTF-16LE"; }
static std::string fname(const TextFormat& f) { return std::string(encName(f.encoding)) + (f.newLine == NL::CRLF ? " CRLF" : " LF") + (f.bom ? " BOM" : ""); }

static void put(std::string& s, Enc e, u32 p) {
    if (e == Enc::Bytes) { s += (char) p; return; }
    if (e == Enc::UTF8) {
        if (p < 0x80) s += (char) p;
        else if (p < 0x800) { s += (char) (0xc0 | p >> 6); s += (char) (0x80 | (p & 63)); }
        else if (p < 0x10000) { s += (char) (0xe0 | p >> 12); s += (char) (0x80 | (p >> 6 & 63)); s += (char) (0x80 | (p & 63)); }
        else { s += (char) (0xf0 | p >> 18); s += (char) (0x80 | (p >> 12 & 63)); s += (char) (0x80 | (p >> 6 & 63)); s += (char) (0x80 | (p & 63)); }
        return;
    }
    u32 u[2]; int n = 0;
    if (p < 0x10000) u[n++] = p;
    else { u[n++] = 0xd800 + ((p - 0x10000) >> 10); u[n++] = 0xdc00 + ((p - 0x10000) & 1023); }
    for (int i = 0; i < n; i++) { char lo = (char) u[i], hi = (char) (u[i] >> 8); if (e == Enc::UTF16_le) { s += lo; s += hi; } else { s += hi; s += lo; } }
}
// What a file holding these characters must contain
static std::string fileOf(const TextFormat& f, const std::vector<u32>& pts) {
    std::string s;
    if (f.bom) put(s, f.encoding, 0xfeff);
    for (u32 p : pts) {
        if (p == '\n' && f.newLine == NL::CRLF) put(s, f.encoding, '\r');
        put(s, f.encoding, p);
    }
    return s;
}
static std::string utf8(const std::vector<u32>& pts) { std::string s; for (u32 p : pts) put(s, Enc::UTF8, p); return s; }
static TextFormat chooseFormat() {
    static const Enc e[] = {Enc::UTF8, Enc::UTF16_be, Enc::UTF16_le, Enc::Bytes};
    TextFormat f;
    f.encoding = e[choose(4)];
    f.newLine = choose(2) ? NL::CRLF : NL::LF;
    f.bom = f.encoding != Enc::Bytes && choose(2);
    return f;
}
static OptionallyOwned<InStream> source(const std::string* bytes, u32 mask, size_t base) {
    CutSource* s = new CutSource{bytes};
    for (size_t i = 0; i < 30 && base + i + 1 <= bytes->size(); i++) if (mask >> i & 1) s->cutAfter[base + i + 1] = 1;
    return Owned<InStream>{new InStream{OptionallyOwned<InPipe>{Owned<InPipe>{s}}, 7}};
}
static std::string load(const TextFormat& f, const std::string& bytes, u32 mask, size_t base, bool detect, TextFormat* found, int style) {
    OptionallyOwned<InStream> ins = style == 0 ? OptionallyOwned<InStream>{Owned<InStream>{new InStream{OptionallyOwned<InPipe>{Owned<InPipe>{new CutSource{&bytes}}}}}} : source(&bytes, mask, base);
    if (detect) *found = TextFormat::autodetect(ins);
    const TextFormat& use = detect ? *found : f;
    Owned<InStream> text = use.createImporter(std::move(ins));
    return str(text->readRemainingContents());
}
static void check(const TextFormat& f, const std::vector<u32>& pts, size_t at) {
    // write, in every division near `at`
    std::string text = utf8(pts), want = fileOf(f, pts);
    size_t from = 0;
    for (size_t i = 0; i < at && i < pts.size(); i++) { std::string one; put(one, Enc::UTF8, pts[i]); from += one.size(); }
    u32 tail = (u32) std::min<size_t>(text.size() - std::min(from, text.size()), 6);
    for (u32 mask = 0; mask < (1u << tail); mask++) {
        std::string got;
        {
            StrSink* sink = new StrSink{&got};
            OptionallyOwned<OutStream> outs{Owned<OutStream>{new OutStream{OptionallyOwned<OutPipe>{Owned<OutPipe>{sink}}, 7}}};
            Owned<OutStream> exp = f.createExporter(std::move(outs));
            size_t start = 0;
            for (size_t i = 0; i < text.size(); i++) {
                bool cut = i + 1 == text.size() || (i >= from && (mask >> (i - from) & 1));
                if (!cut) continue;
                HeapBytes hb{text.substr(start, i + 1 - start)};
                exp->write(hb.view());
                if ((mask & 1) && (i + 1 == text.size() || (text[i + 1] & 0xc0) != 0x80)) exp->flushMem(); // flushing in the middle of a character ends it
                start = i + 1;
            }
            mc::step();
            if (mask & 2) MC_CHECK(exp->flush(), "flush fails");
        }
        MC_CHECK(got == want, "saving \"%s\" as %s writes \"%s\" instead of \"%s\"", esc(text.substr(std::min(from, text.size()))).c_str(), fname(f).c_str(), esc(got.substr(0, 200)).c_str(), esc(want.substr(0, 200)).c_str());
    }
    // read it back, with CR LF untouched by how it is divided
    for (u32 mask = 0; mask < 64; mask += 3)
        for (int style : {0, 1}) {
            if (style == 0 && mask) continue;
            size_t base = at ? want.size() - std::min<size_t>(want.size(), 8) : 0;
            std::string got = load(f, want, mask, base, false, nullptr, style);
            mc::step();
            MC_CHECK(got == text, "\"%s\" saved as %s loads as \"%s\" (division %u)", esc(text.substr(std::min(from, text.size()))).c_str(), fname(f).c_str(), esc(got).c_str(), mask);
        }
}
static std::vector<u32> choosePoints(const TextFormat& f, int maxLen) {
    static const u32 wide[] = {'a', '\n', 0xe9, 0x20ac, 0x1f600, 0xfeff};
    std::vector<u32> pts;
    int n = choose(maxLen + 1);
    for (int i = 0; i < n; i++) pts.push_back(f.encoding == Enc::Bytes ? wide[choose(3)] : wide[choose(6)]);
    return pts;
}
static void roundTrip() {
    TextFormat f = chooseFormat();
    std::vector<u32> pts = choosePoints(f, pick(3, 5));
    mc::nontrivial();
    MC_LOG("%s: \"%s\"", fname(f).c_str(), esc(utf8(pts)).c_str());
    mc::state(mc::mix(hstr(utf8(pts)), hstr(fname(f))));
    check(f, pts, 0);
}
static void blocks() {
    TextFormat f = chooseFormat();
    int prefix = choose(2) ? 120 + choose(9) : 56 + choose(9);
    std::vector<u32> pts = choosePoints(f, 2);
    mc::nontrivial();
    MC_LOG("%s: %d characters and \"%s\"", fname(f).c_str(), prefix, esc(utf8(pts)).c_str());
    std::vector<u32> all(prefix, 'x');
    all.insert(all.end(), pts.begin(), pts.end());
    check(f, all, prefix);
}
static void loadAny() { // text with any mix of newlines: importing drops CRs only
    TextFormat f = chooseFormat();
    std::vector<u32> pts;
    int n = choose(pick(4, 6) + 1);
    std::string bytes, want;
    bool withBom = f.bom && choose(2);
    if (withBom) put(bytes, f.encoding, 0xfeff);
    for (int i = 0; i < n; i++) {
        static const u32 p[] = {'\r', '\n', 'a', 0xe9};
        u32 c = p[choose(4)];
        put(bytes, f.encoding, c);
        if (c != '\r') put(want, Enc::UTF8, c);
    }
    mc::nontrivial();
    mc::state(hstr(bytes));
    for (int style : {0, 1})
        for (u32 mask = 0; mask < 256; mask += style ? 7 : 256) {
            std::string got = load(f, bytes, mask, 0, false, nullptr, style);
            mc::step();
            MC_CHECK(got == want, "\"%s\" read as %s is \"%s\"", esc(bytes).c_str(), fname(f).c_str(), esc(got).c_str());
        }
}
// Files whose content determines their format
static void detect() {
    int kind = choose(4);
    TextFormat f;
    std::vector<u32> pts;
    int n = choose(pick(4, 6) + 1);
    bool any = false, lf = false;
    for (int i = 0; i < n; i++) {
        u32 c;
        if (kind == 0) { static const u32 p[] = {'a', '\n', 0xe9, 0x1f600}; c = p[choose(4)]; } // with a byte-order mark
        else if (kind == 1) { static const u32 p[] = {'a', '\n', 0xe9, 0x20ac, 0x1f600}; c = p[choose(5)]; } // UTF-8
        else if (kind == 2) { static const u32 p[] = {'a', '\n', ' ', '~'}; c = p[choose(4)]; } // UTF-16, ASCII only
        else { static const u32 p[] = {'a', '\n', ' ', 0xe9}; c = p[choose(4)]; any |= c == 0xe9 && i + 1 < n; }
        lf |= c == '\n';
        pts.push_back(c);
    }
    f.newLine = choose(2) ? NL::CRLF : NL::LF;
    if (kind == 0) { static const Enc e[] = {Enc::UTF8, Enc::UTF16_be, Enc::UTF16_le}; f.encoding = e[choose(3)]; f.bom = true; }
    else if (kind == 1) f.encoding = Enc::UTF8;
    else if (kind == 2) f.encoding = choose(2) ? Enc::UTF16_le : Enc::UTF16_be;
    else f.encoding = Enc::Bytes;
    if (kind == 3) { if (!any) return; pts.insert(pts.end(), 3, 'z'); } // the last few bytes may look like a character cut short
    if (kind == 2 && pts.empty()) return;
    bool big = kind < 2 && choose(2);
    if (big) { // the text straddles the 4000 bytes that are examined
        int pad = 3990 + choose(12);
        std::vector<u32> all;
        std::string unit; put(unit, f.encoding, 'x');
        while ((int) (all.size() * unit.size()) < pad) all.push_back('x');
        all.insert(all.end(), pts.begin(), pts.end());
        pts = all;
        lf = false; // newlines near the end may not be examined
    }
    std::string bytes = fileOf(f, pts), text = utf8(pts);
    mc::nontrivial();
    mc::state(hstr(bytes));
    MC_LOG("%s file \"%s\"", fname(f).c_str(), esc(bytes.size() > 60 ? bytes.substr(bytes.size() - 60) : bytes).c_str());
    for (int style : {0, 1}) {
        TextFormat found;
        std::string got = load(f, bytes, 0x55, 0, true, &found, style);
        mc::step();
        MC_CHECK(found.encoding == f.encoding && found.bom == f.bom, "a file in %s is taken for %s", fname(f).c_str(), fname(found).c_str());
        if (lf) MC_CHECK(found.newLine == f.newLine, "a file in %s is taken for %s", fname(f).c_str(), fname(found).c_str());
        MC_CHECK(got == text, "an autodetected %s file loads as \"%s\"", fname(f).c_str(), esc(got.substr(0, 100)).c_str());
        if (!big && lf && !(f.bom && f.encoding == Enc::Bytes)) {
            // saving in the format that was found restores the file
            std::string again;
            { OptionallyOwned<OutStream> outs{Owned<OutStream>{new OutStream{OptionallyOwned<OutPipe>{Owned<OutPipe>{new StrSink{&again}}}, 7}}};
              Owned<OutStream> exp = found.createExporter(std::move(outs)); exp->write(view(got)); }
            MC_CHECK(again == bytes, "a loaded file saved in its own format changes to \"%s\"", esc(again).c_str());
        }
    }
}
// Any bytes: autodetection ends, gives a usable format and leaves the stream where it was
static void detectAny() {
    std::string bytes = chooseText({std::string(1, 0), "\n", "\r", "a", "\x80", "\xbb", "\xbf", "\xc3", "\xd8", "\xef", "\xfe", "\xff"}, pick(4, 5));
    int pad = choose(3);
    if (pad) bytes = std::string(pad == 1 ? 127 : 3999, 'x') + bytes;
    mc::nontrivial();
    mc::state(hstr(bytes));
    MC_LOG("%d bytes before; \"%s\"", pad == 0 ? 0 : pad == 1 ? 127 : 3999, esc(bytes.substr(pad == 0 ? 0 : pad == 1 ? 127 : 3999)).c_str());
    for (int style : {0, 1}) {
        OptionallyOwned<InStream> ins = style == 0 ? OptionallyOwned<InStream>{Owned<InStream>{new InStream{OptionallyOwned<InPipe>{Owned<InPipe>{new CutSource{&bytes}}}}}} : source(&bytes, 5, 0);
        TextFormat found = TextFormat::autodetect(ins);
        mc::step();
        MC_CHECK(!(found.bom && found.encoding == Enc::Bytes) && (u32) found.encoding <= (u32) Enc::UTF16_le, "unusable format");
        MC_CHECK(ins->getSeekPos() == 0, "autodetection leaves the stream at %llu", (unsigned long long) ins->getSeekPos());
        std::string rest = str(ins->readRemainingContents());
        MC_CHECK(rest == bytes, "after autodetection the stream holds \"%s\"", esc(rest.substr(0, 80)).c_str());
    }
    TextFormat found;
    std::string a = load(found, bytes, 0, 0, true, &found, 0), b = load(found, bytes, 9, 0, true, &found, 1);
    MC_CHECK(a == b, "the text depends on how the file is divided");
    bool hasBom = bytes.compare(0, 3, "\xef\xbb\xbf") == 0 || bytes.compare(0, 2, "\xfe\xff") == 0 || bytes.compare(0, 2, "\xff\xfe") == 0;
    MC_CHECK(found.bom == hasBom, "a byte-order mark is %s", hasBom ? "missed" : "imagined");
}
MC_SCENARIOS = {
    {"round-trip", roundTrip, mc::LEAKS, "every text of up to 3 (5) characters in every format: exact bytes written, same text loaded, every division"},
    {"blocks", blocks, mc::LEAKS, "the same around the 128-byte block boundaries"},
    {"load-any", loadAny, mc::LEAKS, "every mix of CR, LF and characters in every format, with and without the byte-order mark"},
    {"detect", detect, mc::LEAKS, "files whose content determines their format"},
    {"detect-any", detectAny, mc::LEAKS, "every byte sequence of up to 4 (5) bytes, at the start and around offsets 128 and 4000"},
    MC_END,
};
