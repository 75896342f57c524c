// Text conversion: every short text (valid, malformed, truncated), every division into input
// chunks, every small output buffer, through every route, for every pair of encodings.
#include "iotest.h"
#include <ply-runtime/io/text/TextConverter.h>

static const TextEncoding* encOf(int e) {
    switch (e) {
        case 0: return TextEncoding::get<Enc_Bytes>();
        case 1: return TextEncoding::get<UTF8>();
        case 2: return TextEncoding::get<UTF16_LE>();
        default: return TextEncoding::get<UTF16_BE>();
    }
}
static const char* const encName[] = {"bytes", "UTF-8", "UTF-16LE", "UTF-16BE"};

// The points of the whole text, taken one at a time from an exact-size copy of what remains
static std::vector<u32> pointsOf(int e, const std::string& s, bool flush = true) {
    std::vector<u32> v;
    size_t pos = 0;
    while (pos < s.size()) {
        HeapBytes rest{s.substr(pos)};
        DecodeResult d = encOf(e)->decodePoint(rest.view());
        if (d.status == DecodeResult::Status::Truncated && (d.point < 0 || !flush)) break;
        MC_CHECK(d.numBytes > 0, "the decoder does not advance on %s", esc(s.substr(pos)).c_str());
        v.push_back(d.point);
        pos += d.numBytes;
    }
    return v;
}
static std::string encode(int e, const std::vector<u32>& points) {
    std::string s;
    for (u32 p : points) {
        char b[8];
        u32 n = encOf(e)->encodePoint({b, 8}, p);
        MC_CHECK(n > 0, "U+%04X cannot be encoded as %s", p, encName[e]);
        s.append(b, n);
    }
    return s;
}
// Independent encoder for well-formed text
static std::string plain(int e, u32 p) {
    std::string s;
    if (e == 0) s += (char) p;
    else if (e == 1) {
        if (p < 0x80) s += (char) p;
        else if (p < 0x800) { s += (char) (0xc0 | p >> 6); s += (char) (0x80 | (p & 63)); }
        else if (p < 0x10000) { s += (char) (0xe0 | p >> 12); s += (char) (0x80 | (p >> 6 & 63)); s += (char) (0x80 | (p & 63)); }
        else { s += (char) (0xf0 | p >> 18); s += (char) (0x80 | (p >> 12 & 63)); s += (char) (0x80 | (p >> 6 & 63)); s += (char) (0x80 | (p & 63)); }
    } else {
        std::vector<u32> u;
        if (p < 0x10000) u.push_back(p);
        else { u.push_back(0xd800 + ((p - 0x10000) >> 10)); u.push_back(0xdc00 + ((p - 0x10000) & 1023)); }
        for (u32 x : u) { char lo = (char) x, hi = (char) (x >> 8); if (e == 2) { s += lo; s += hi; } else { s += hi; s += lo; } }
    }
    return s;
}
struct Text { int src, dst; std::string in, want, wantUnflushed; };
static Text chooseTextFor(int len8, int len16, int lenPts, bool allDst = true) {
    Text t;
    int kind = choose(3);
    if (kind == 0) { // any bytes
        t.src = choose(2); // bytes, UTF-8
        if (t.src == 0) t.in = chooseText({"a", "\x80", "\xff"}, std::min(len8, 3));
        else t.in = chooseText({"a", "\x80", "\xc3", "\xe2", "\xf0", "\xff"}, len8);
    } else if (kind == 1) {
        t.src = 2 + choose(2);
        t.in = chooseText({std::string(1, 0), "a", "\xd8", "\xdc"}, len16);
    } else { // well-formed
        t.src = 1 + choose(3);
        int n = choose(lenPts + 1);
        std::vector<u32> pts;
        for (int i = 0; i < n; i++) { static const u32 p[] = {'a', 0xe9, 0x20ac, 0x1f600}; pts.push_back(p[choose(4)]); }
        for (u32 p : pts) t.in += plain(t.src, p);
        t.dst = choose(4);
        if (t.dst != 0) {
            for (u32 p : pts) t.want += plain(t.dst, p);
            t.wantUnflushed = t.want;
            MC_CHECK(encode(t.dst, pointsOf(t.src, t.in)) == t.want, "%s of %s", encName[t.dst], esc(t.in).c_str());
            MC_LOG("%s to %s: \"%s\"", encName[t.src], encName[t.dst], esc(t.in).c_str());
            return t;
        }
        t.want = encode(t.dst, pts);
        t.wantUnflushed = t.want;
        return t;
    }
    t.dst = allDst ? choose(4) : 1 + choose(2);
    t.want = encode(t.dst, pointsOf(t.src, t.in));
    t.wantUnflushed = encode(t.dst, pointsOf(t.src, t.in, false));
    MC_LOG("%s to %s: \"%s\"", encName[t.src], encName[t.dst], esc(t.in).c_str());
    return t;
}
static std::vector<std::string> divide(const std::string& s, u32 mask) {
    std::vector<std::string> v(1);
    for (size_t i = 0; i < s.size(); i++) {
        if (i > 0 && (mask >> (i - 1) & 1)) v.emplace_back();
        v.back() += s[i];
    }
    return v;
}
static u32 numDivisions(const std::string& s) { return s.size() < 2 ? 1 : 1u << (s.size() - 1); }

// convert() on memory, with output buffers of a fixed size
static void memory() {
    Text t = chooseTextFor(pick(4, 5), pick(5, 6), pick(3, 4));
    u32 nDiv = numDivisions(t.in);
    if (nDiv > 1) mc::nontrivial();
    for (u32 mask = 0; mask < nDiv; mask++)
        for (int cap : {1, 2, 3, 4, 5, 9}) {
            std::vector<std::string> chunks = divide(t.in, mask);
            TextConverter conv{encOf(t.dst), encOf(t.src)};
            std::string got;
            char* out = (char*) malloc(cap);
            for (size_t k = 0; k <= chunks.size(); k++) { // last round: flush
                bool flush = k == chunks.size();
                HeapBytes hb{flush ? std::string() : chunks[k]};
                StringView src = hb.view();
                for (int rounds = 0;; rounds++) {
                    MC_CHECK(rounds < 60, "convert() never finishes");
                    MutableStringView dst{out, (u32) cap};
                    u32 before = src.numBytes;
                    bool did = conv.convert(&dst, &src, flush);
                    mc::step();
                    u32 wrote = (u32) (dst.bytes - out);
                    MC_CHECK(wrote + dst.numBytes == (u32) cap, "the output buffer is miscounted");
                    MC_CHECK(src.numBytes <= before && src.bytes + src.numBytes == hb.p + hb.n, "the input is miscounted");
                    got.append(out, wrote);
                    MC_LOG("  convert(%u bytes, room %d%s): wrote %u, left %u", before, cap, flush ? ", flush" : "", wrote, src.numBytes);
                    MC_CHECK(did == (wrote > 0) || did, "convert() reports no work after writing");
                    mc::state(mc::mix(mc::mix(conv.srcSmallBuf.numBytes, conv.dstSmallBuf.numBytes), hstr(got)));
                    if (wrote == 0) { MC_CHECK(src.numBytes == 0, "convert() makes no progress with %u bytes of input left", src.numBytes); break; }
                }
            }
            ::free(out);
            if (got != t.want) {
                mc::casef("%s to %s of \"%s\", division %u, buffers of %d", encName[t.src], encName[t.dst], esc(t.in).c_str(), mask, cap);
                mc::fail("%s \"%s\" becomes %s \"%s\" instead of \"%s\" (division %u, buffers of %d bytes)", encName[t.src], esc(t.in).c_str(), encName[t.dst], esc(got).c_str(), esc(t.want).c_str(), mask, cap);
            }
        }
}
// Through pipes, with blocks of 128 bytes and text before it so that it falls on a block boundary
static void outPipe() {
    Text t = chooseTextFor(pick(3, 4), pick(4, 5), pick(2, 3));
    static const int prefixes[] = {0, 61, 62, 63, 64, 124, 125, 126, 127, 128};
    int prefix = prefixes[choose(10)];
    mc::nontrivial();
    std::string before = encode(t.src, std::vector<u32>(prefix, 'x'));
    std::string want = encode(t.dst, std::vector<u32>(prefix, 'x')) + t.want;
    for (u32 mask = 0; mask < numDivisions(t.in); mask++) {
        std::string got;
        {
            OptionallyOwned<OutStream> inner{Owned<OutStream>{new OutStream{OptionallyOwned<OutPipe>{Owned<OutPipe>{new StrSink{&got}}}, 7}}};
            OutStream outs{OptionallyOwned<OutPipe>{Owned<OutPipe>{new OutPipe_TextConverter{std::move(inner), encOf(t.dst), encOf(t.src)}}}, 7};
            outs.write(view(before));
            for (const std::string& c : divide(t.in, mask)) {
                HeapBytes hb{c};
                MC_CHECK(outs.write(hb.view()), "write fails");
                mc::step();
            }
            MC_CHECK(outs.flush(), "flush fails");
            MC_CHECK(got == want, "\"%s\" (%s) after %d characters, division %u, is written as %s \"%s\" instead of \"%s\"", esc(t.in).c_str(), encName[t.src], prefix, mask, encName[t.dst], esc(got).c_str(), esc(want).c_str());
        }
        MC_CHECK(got == want, "closing the stream changes the output to \"%s\"", esc(got).c_str());
    }
    // ends without flush: whatever is complete must have been written when the streams are closed
    {
        std::string got;
        {
            OptionallyOwned<OutStream> inner{Owned<OutStream>{new OutStream{OptionallyOwned<OutPipe>{Owned<OutPipe>{new StrSink{&got}}}, 7}}};
            OutStream outs{OptionallyOwned<OutPipe>{Owned<OutPipe>{new OutPipe_TextConverter{std::move(inner), encOf(t.dst), encOf(t.src)}}}, 7};
            outs.write(view(before + t.in));
        }
        std::string complete = encode(t.dst, std::vector<u32>(prefix, 'x')) + t.wantUnflushed;
        MC_CHECK(got.compare(0, complete.size(), complete) == 0 && want.compare(0, got.size(), got) == 0, "closed without flush, the output is \"%s\"", esc(got).c_str());
    }
}
static void outPipeFails() {
    Text t = chooseTextFor(2, 3, 2, false);
    std::string want = encode(t.dst, std::vector<u32>(100, 'x')) + t.want;
    mc::nontrivial();
    for (size_t room = 0; room < want.size(); room++) {
        std::string got;
        OptionallyOwned<OutStream> inner{Owned<OutStream>{new OutStream{OptionallyOwned<OutPipe>{Owned<OutPipe>{new StrSink{&got, room}}}, 7}}};
        OutStream outs{OptionallyOwned<OutPipe>{Owned<OutPipe>{new OutPipe_TextConverter{std::move(inner), encOf(t.dst), encOf(t.src)}}}, 7};
        outs.write(view(encode(t.src, std::vector<u32>(100, 'x'))));
        outs.write(view(t.in));
        mc::step(3);
        MC_CHECK(!outs.flush(), "flush succeeds although the destination only took %zu bytes", room);
        MC_CHECK(want.compare(0, got.size(), got) == 0, "the destination got \"%s\"", esc(got).c_str());
    }
}
static void inPipe() {
    Text t = chooseTextFor(pick(3, 4), pick(4, 5), pick(2, 3));
    static const int prefixes[] = {0, 61, 62, 63, 64, 124, 125, 126, 127, 128};
    int prefix = prefixes[choose(10)];
    mc::nontrivial();
    std::string src = encode(t.src, std::vector<u32>(prefix, 'x')) + t.in;
    std::string want = encode(t.dst, std::vector<u32>(prefix, 'x')) + t.want;
    size_t base = src.size() - t.in.size();
    for (u32 mask = 0; mask < numDivisions(t.in); mask++)
        for (int cap : {1, 2, 3, 5, 0}) {
            CutSource* source = new CutSource{&src};
            source->cutAfter[base] = 1;
            for (size_t i = 1; i < t.in.size(); i++) if (mask >> (i - 1) & 1) source->cutAfter[base + i] = 1;
            OptionallyOwned<InStream> ins{Owned<InStream>{new InStream{OptionallyOwned<InPipe>{Owned<InPipe>{source}}, 7}}};
            Owned<InPipe> pipe{new InPipe_TextConverter{std::move(ins), encOf(t.dst), encOf(t.src)}};
            std::string got;
            if (cap) {
                char* out = (char*) malloc(cap);
                for (int rounds = 0;; rounds++) {
                    MC_CHECK(rounds < 600, "reading never ends");
                    u32 n = pipe->readSome({out, (u32) cap});
                    mc::step();
                    MC_CHECK(n <= (u32) cap, "readSome returns %u for %d bytes", n, cap);
                    if (n == 0) break;
                    got.append(out, n);
                }
                MC_CHECK(pipe->readSome({out, (u32) cap}) == 0, "more text appears after the end");
                ::free(out);
            } else {
                InStream all{OptionallyOwned<InPipe>{std::move(pipe)}, 7};
                got = str(all.readRemainingContents());
                mc::step();
            }
            MC_CHECK(got == want, "%s \"%s\" after %d characters, division %u, is read as %s \"%s\" instead of \"%s\" (buffers of %d)", encName[t.src], esc(t.in).c_str(), prefix, mask, encName[t.dst], esc(got).c_str(), esc(want).c_str(), cap);
        }
}
static void wholeString() {
    Text t = chooseTextFor(pick(5, 6), pick(6, 7), 4);
    HeapBytes hb{t.in};
    mc::step();
    std::string got = str(TextConverter::convertInternal(encOf(t.dst), encOf(t.src), hb.view()));
    MC_CHECK(got == t.want, "%s \"%s\" converts to %s \"%s\" instead of \"%s\"", encName[t.src], esc(t.in).c_str(), encName[t.dst], esc(got).c_str(), esc(t.want).c_str());
}
MC_SCENARIOS = {
    {"memory", memory, mc::LEAKS, "convert() between memory buffers: every text, every division, output buffers of 1 to 9 bytes"},
    {"out-pipe", outPipe, mc::LEAKS, "OutPipe_TextConverter between streams with 128-byte blocks, text at every offset in the block"},
    {"out-pipe-fails", outPipeFails, mc::LEAKS, "the destination accepts only the first k bytes"},
    {"in-pipe", inPipe, mc::LEAKS, "InPipe_TextConverter from a stream with 128-byte blocks, every division of the source"},
    {"whole", wholeString, mc::LEAKS, "TextConverter::convert of whole strings"},
    MC_END,
};
