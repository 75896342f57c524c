// Newline filters: every short text over CR, LF and letters, every division, every position
// relative to the block boundaries, in both directions.
#include "iotest.h"
#include <ply-runtime/io/text/NewLineFilter.h>

static std::string normal(const std::string& s, bool crlf) {
    std::string o;
    for (char c : s) {
        if (c == '\r') continue;
        if (c == '\n' && crlf) o += '\r';
        o += c;
    }
    return o;
}
static std::string alphabetText(int n) { return chooseText({"\r", "\n", "a", std::string(1, 0)}, n); }
static std::string prefixText(int n) { std::string s; for (int i = 0; i < n; i++) s += (char) ('b' + i % 23); return s; }

static void out() {
    bool crlf = choose(2);
    int prefix = choose(2) ? 122 + choose(7) : 0;
    std::string text = alphabetText(pick(5, 7));
    std::string all = prefixText(prefix) + text, want = normal(all, crlf);
    mc::nontrivial();
    mc::state(mc::mix(hstr(all), crlf));
    u32 nDiv = text.size() < 2 ? 1 : 1u << (text.size() - 1);
    for (u32 mask = 0; mask < nDiv; mask++)
        for (int flushAll : {0, 1}) {
            std::string got;
            {
                OptionallyOwned<OutStream> inner{Owned<OutStream>{new OutStream{OptionallyOwned<OutPipe>{Owned<OutPipe>{new StrSink{&got}}}, 7}}};
                Owned<OutPipe> pipe = createOutNewLineFilter(std::move(inner), crlf);
                MC_CHECK(pipe->write(view(prefixText(prefix))), "write fails");
                size_t from = 0;
                for (size_t i = 1; i <= text.size(); i++) {
                    if (i < text.size() && !(mask >> (i - 1) & 1)) continue;
                    HeapBytes hb{text.substr(from, i - from)};
                    from = i;
                    mc::step();
                    MC_CHECK(pipe->write(hb.view()), "write fails");
                    if (flushAll) {
                        MC_CHECK(pipe->flush(false), "flush fails");
                        std::string sofar = normal(prefixText(prefix) + text.substr(0, i), crlf);
                        MC_CHECK(got == sofar, "after \"%s\" the output is \"%s\"", esc(text.substr(0, i)).c_str(), esc(got.substr(std::min<size_t>(got.size(), prefix))).c_str());
                    }
                }
            }
            MC_CHECK(got == want, "\"%s\" after %d bytes (crlf %d, division %u, flush %d) is written as \"%s\"", esc(text).c_str(), prefix, crlf, mask, flushAll, esc(got.substr(std::min<size_t>(got.size(), prefix))).c_str());
            // idempotent
            if (mask == 0) {
                std::string again;
                { OptionallyOwned<OutStream> inner{Owned<OutStream>{new OutStream{OptionallyOwned<OutPipe>{Owned<OutPipe>{new StrSink{&again}}}, 7}}};
                  OutStream outs{OptionallyOwned<OutPipe>{createOutNewLineFilter(std::move(inner), crlf)}, 7};
                  outs.write(view(got)); }
                MC_CHECK(again == got, "normalising \"%s\" again gives \"%s\"", esc(got).c_str(), esc(again).c_str());
            }
        }
}
static void outFails() {
    bool crlf = choose(2);
    std::string text = prefixText(126) + alphabetText(pick(4, 5)) + prefixText(20);
    std::string want = normal(text, crlf);
    mc::nontrivial();
    for (size_t room : {0, 1, 100, 127, 128, 129, 130, 140}) {
        if (room >= want.size()) continue;
        std::string got;
        OptionallyOwned<OutStream> inner{Owned<OutStream>{new OutStream{OptionallyOwned<OutPipe>{Owned<OutPipe>{new StrSink{&got, room}}}, 7}}};
        OutStream outs{OptionallyOwned<OutPipe>{createOutNewLineFilter(std::move(inner), crlf)}, 7};
        outs.write(view(text));
        bool ok = outs.flush();
        mc::step(2);
        MC_CHECK(!ok, "flush succeeds although the destination only took %zu of %zu bytes", room, want.size());
        MC_CHECK(want.compare(0, got.size(), got) == 0, "the destination got other bytes");
    }
}
static void in() {
    int prefix = choose(2) ? 124 + choose(6) : 0;
    std::string text = alphabetText(pick(5, 7));
    std::string src = prefixText(prefix) + text, want = normal(src, false);
    mc::nontrivial();
    mc::state(hstr(src));
    u32 nDiv = text.size() < 2 ? 1 : 1u << (text.size() - 1);
    for (u32 mask = 0; mask < nDiv; mask++)
        for (int cap : {1, 2, 3, 0}) {
            CutSource* source = new CutSource{&src};
            source->cutAfter[prefix] = 1;
            for (size_t i = 1; i < text.size(); i++) if (mask >> (i - 1) & 1) source->cutAfter[prefix + i] = 1;
            OptionallyOwned<InStream> ins{Owned<InStream>{new InStream{OptionallyOwned<InPipe>{Owned<InPipe>{source}}, 7}}};
            Owned<InPipe> pipe = createInNewLineFilter(std::move(ins));
            std::string got;
            if (cap) {
                char* out = (char*) malloc(cap);
                for (;;) {
                    u32 n = pipe->readSome({out, (u32) cap});
                    mc::step();
                    MC_CHECK(n <= (u32) cap, "readSome returns %u for %d bytes", n, cap);
                    if (n == 0) break;
                    got.append(out, n);
                    MC_CHECK(got.size() <= want.size(), "too much is read");
                }
                MC_CHECK(pipe->readSome({out, (u32) cap}) == 0, "more text appears after the end");
                ::free(out);
            } else {
                InStream all{OptionallyOwned<InPipe>{std::move(pipe)}, 7};
                got = str(all.readRemainingContents());
                mc::step();
            }
            MC_CHECK(got == want, "\"%s\" after %d bytes (division %u, buffers of %d) is read as \"%s\"", esc(text).c_str(), prefix, mask, cap, esc(got.substr(std::min<size_t>(got.size(), prefix))).c_str());
        }
}
MC_SCENARIOS = {
    {"out", out, mc::LEAKS, "writing: every text over CR, LF, a letter and NUL, every division, at every place around a block boundary"},
    {"out-fails", outFails, mc::LEAKS, "the destination accepts only the first k bytes"},
    {"in", in, mc::LEAKS, "reading: the same texts, every division of the source, buffers of 1, 2, 3 bytes and a stream"},
    MC_END,
};
