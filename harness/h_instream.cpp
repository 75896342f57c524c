// InStream: every mix of reads, contiguous requests, skips, save points, rewinds and moves, over
// sources that deliver their bytes in every division, checked against the byte string itself.
#include "common.h"
#include <ply-runtime/io/InStream.h>
#include <ply-runtime/io/OutStream.h>
#include <ply-runtime/container/BlockList.h>

static std::string source(size_t n) {
    std::string s;
    for (size_t i = 0; i < n; i++) s += (char) (1 + (i * 37 + i / 251) % 251);
    return s;
}
// Delivers the source in pieces chosen by the explorer: everything that fits, one byte, or a few
struct TestPipe : InPipe {
    static Funcs Funcs_;
    const std::string* src; size_t pos = 0; int fixedSize; bool* destroyed; bool ended = false;
    TestPipe(const std::string* src, int fixedSize, bool* destroyed) : InPipe{&Funcs_}, src{src}, fixedSize{fixedSize}, destroyed{destroyed} {}
    static void destroy(InPipe* p) { *static_cast<TestPipe*>(p)->destroyed = true; }
    static u32 readSome(InPipe* p_, MutableStringView buf) {
        TestPipe* p = static_cast<TestPipe*>(p_);
        MC_CHECK(buf.numBytes > 0, "the source is asked for 0 bytes");
        size_t left = p->src->size() - p->pos;
        if (left == 0) { p->ended = true; MC_LOG("  source: end"); return 0; }
        size_t most = std::min<size_t>(left, buf.numBytes), n = most;
        if (p->fixedSize > 0) n = std::min<size_t>(most, p->fixedSize);
        else {
            size_t alt[3] = {most, 1, most > 3 ? most - 2 : 1};
            n = alt[choose(most > 3 ? 3 : most > 1 ? 2 : 1)];
        }
        memcpy(buf.bytes, p->src->data() + p->pos, n);
        p->pos += n;
        MC_LOG("  source: %zu of %u bytes", n, buf.numBytes);
        return (u32) n;
    }
};
InPipe::Funcs TestPipe::Funcs_ = {TestPipe::destroy, TestPipe::readSome, InPipe::getFileSize_Unsupported};

struct Model {
    std::string src; size_t pos = 0;
    Owned<TestPipe> dummy;
    InStream ins; bool isPipe;
    bool destroyed = false, owner;
    struct Save { BlockList::Ref ref; size_t pos; };
    std::vector<Save> saves;
    TestPipe* pipe = nullptr;
    Model(size_t n, bool pipeIn, bool owner, int fixedSize) : src(source(n)), isPipe(pipeIn), owner(owner) {
        if (isPipe) {
            pipe = new TestPipe{&src, fixedSize, &destroyed};
            if (owner) ins = InStream{OptionallyOwned<InPipe>{Owned<InPipe>{pipe}}, 7};
            else ins = InStream{OptionallyOwned<InPipe>{Borrowed<InPipe>{pipe}}, 7};
        } else ins = ViewInStream{view(src)};
    }
    ~Model() {
        saves.clear();
        { InStream last{std::move(ins)}; }
        if (isPipe) {
            MC_CHECK(destroyed == owner, owner ? "the owned source was not destroyed with the stream" : "the borrowed source was destroyed");
            if (!owner) delete pipe;
        }
    }
    size_t left() { return src.size() - pos; }
    void checkWindow() {
        u32 n = ins.numBytesAvailable();
        MC_CHECK(n <= left(), "%u bytes available, but only %zu remain", n, left());
        MC_CHECK(memcmp(ins.curByte, src.data() + pos, n) == 0, "the bytes available at %zu are not the source's", pos);
        MC_CHECK(ins.getSeekPos() == pos, "getSeekPos() is %llu at offset %zu", (unsigned long long) ins.getSeekPos(), pos);
        if (ins.atEOF()) MC_CHECK(n == left(), "end of input reported with %zu bytes left, %u of them available", left(), n);
    }
    void make(u32 n) {
        u32 got = ins.tryMakeBytesAvailable(n);
        MC_LOG("tryMakeBytesAvailable(%u) -> %u (at %zu of %zu)", n, got, pos, src.size());
        MC_CHECK(got <= (u32) ins.numBytesAvailable(), "tryMakeBytesAvailable(%u) returns %u but only %d are available", n, got, ins.numBytesAvailable());
        if (left() >= n) MC_CHECK(got >= n, "tryMakeBytesAvailable(%u) returns %u with %zu bytes left", n, got, left());
        else { MC_CHECK(got == left(), "tryMakeBytesAvailable(%u) returns %u with %zu bytes left", n, got, left()); MC_CHECK(ins.atEOF(), "a short result without end of input"); }
    }
    void read(u32 n) {
        std::string buf(n + 1, '\x7e');
        bool ok = ins.read({&buf[0], n});
        MC_LOG("read(%u) -> %d (at %zu of %zu)", n, ok, pos, src.size());
        size_t k = std::min<size_t>(n, left());
        MC_CHECK(ok == (k == n), "read(%u) returns %d with %zu bytes left", n, ok, left());
        MC_CHECK(buf.compare(0, k, src, pos, k) == 0, "read(%u) at %zu gives the wrong bytes", n, pos);
        MC_CHECK(buf.compare(k, n - k, std::string(n - k, '\0')) == 0, "read(%u) does not zero what it can't fill", n);
        MC_CHECK(buf[n] == '\x7e', "read(%u) writes more than asked", n);
        pos += k;
    }
    void skip(u32 n) {
        bool ok = ins.skip(n);
        MC_LOG("skip(%u) -> %d (at %zu of %zu)", n, ok, pos, src.size());
        size_t k = std::min<size_t>(n, left());
        MC_CHECK(ok == (k == n), "skip(%u) returns %d with %zu bytes left", n, ok, left());
        pos += k;
    }
    void byte() {
        u8 b = ins.readByte();
        MC_LOG("readByte -> %u (at %zu of %zu)", b, pos, src.size());
        if (left()) { MC_CHECK(b == (u8) src[pos], "readByte at %zu gives %u", pos, b); pos++; }
        else { MC_CHECK(b == 0, "readByte at the end gives %u", b); MC_CHECK(ins.atEOF(), "no end of input reported"); }
    }
    void advance() { // consume what is available, as parsers do
        u32 n = ins.numBytesAvailable();
        MC_LOG("take the %u available bytes", n);
        ins.advanceByte(n); pos += n;
    }
    void save() {
        MC_LOG("save position %zu", pos);
        saves.push_back({ins.getBlockRef(), pos});
    }
    void rewind(size_t i) {
        MC_LOG("rewind from %zu to %zu", pos, saves[i].pos);
        ins.rewind(saves[i].ref);
        pos = saves[i].pos;
        MC_CHECK(!ins.atEOF() || left() == 0, "end of input not cleared by rewind");
    }
    void text(size_t i) { // the bytes between a save point and the current position
        if (saves[i].pos > pos) return;
        BlockList::WeakRef end = ins.getBlockRef();
        { // start must precede end in the list of blocks
            bool reach = false;
            for (BlockList::Footer* b = saves[i].ref.block; b; b = b->nextBlock) reach |= b == end.block;
            if (!reach) return;
        }
        String s = BlockList::toString(BlockList::Ref{saves[i].ref}, end);
        MC_LOG("text from %zu to %zu", saves[i].pos, pos);
        MC_CHECK(str(s) == src.substr(saves[i].pos, pos - saves[i].pos), "the text from %zu to %zu has %u bytes or differs", saves[i].pos, pos, s.numBytes);
    }
    void move() {
        MC_LOG("move the stream away and back");
        InStream other{std::move(ins)};
        MC_CHECK(ins.numBytesAvailable() == 0 && ins.readByte() == 0 && ins.atEOF(), "a moved-from stream still gives data");
        ins = std::move(other);
    }
    void rest() {
        MC_LOG("readRemainingContents (at %zu of %zu)", pos, src.size());
        String s = ins.readRemainingContents();
        MC_CHECK(str(s) == src.substr(pos), "readRemainingContents at %zu of %zu gives %u bytes or differs", pos, src.size(), s.numBytes);
        MC_CHECK(ins.atEOF() && ins.tryMakeBytesAvailable() == 0, "data after the remaining contents were read");
    }
    uint64_t hash() { 
        uint64_t h = mc::mix(pos, src.size());
        h = mc::mix(h, ins.numBytesAvailable());
        if (isPipe) h = mc::mix(h, pipe->pos);
        for (auto& s : saves) h = mc::mix(h, s.pos);
        return h;
    }
};

static void pipeOps() {
    static const size_t sizes[] = {0, 3, 127, 128, 131, 260, 400};
    size_t n = sizes[choose(7)];
    static const int fixed[] = {1 << 20, 5, 127, 64};
    Model m(n, true, true, fixed[choose(4)]);
    static const u32 starts[] = {0, 1, 125, 127, 128, 254};
    u32 st = starts[choose(n > 250 ? 6 : n > 126 ? 4 : 1)];
    bool early = st && choose(2); // keep the beginning alive
    if (early) m.save();
    if (st) m.skip(st);
    int depth = pick(4, 5);
    for (int i = 0; i < depth; i++) {
        mc::step();
        switch (choose(13)) {
            case 0: m.byte(); break;
            case 1: m.make(2); break;
            case 2: m.make(4); break;
            case 3: m.make(130); break;
            case 4: m.read(4); break;
            case 5: m.read(129); break;
            case 6: m.skip(3); break;
            case 7: m.advance(); break;
            case 8: if (m.saves.size() < 2) m.save(); else return; break;
            case 9: if (m.saves.size() > 0) m.rewind(0); else return; break;
            case 10: if (m.saves.size() > 1) m.rewind(1); else return; break;
            case 11: if (m.saves.size() > 0) { MC_LOG("forget the first save point"); m.saves.erase(m.saves.begin()); } else return; break;
            case 12: m.make(60); m.advance(); break;
        }
        m.checkWindow();
        mc::state(m.hash());
        if (m.saves.size()) mc::nontrivial();
        for (size_t j = 0; j < m.saves.size(); j++) m.text(j);
    }
    while (m.saves.size() > 1) m.saves.pop_back();
    switch (choose(3)) {
        case 0: m.move(); m.checkWindow(); m.rest(); break;
        case 1: m.saves.clear(); m.rest(); break;
        case 2: if (m.saves.size()) m.rewind(0); while (m.left()) m.byte(); m.byte(); break;
    }
}
// every division of a short source, with few operations
static void pipeDivisions() {
    size_t n = choose(4) * 3;
    Model m(n, true, choose(2), 0);
    int depth = pick(4, 5);
    for (int i = 0; i < depth; i++) {
        mc::step();
        switch (choose(7)) {
            case 0: m.byte(); break;
            case 1: m.make(2); break;
            case 2: m.make(4); break;
            case 3: m.read(3); break;
            case 4: m.skip(2); break;
            case 5: if (m.saves.empty()) m.save(); else m.rewind(0); break;
            case 6: m.advance(); break;
        }
        m.checkWindow();
        mc::state(m.hash());
        if (n) mc::nontrivial();
        if (m.saves.size()) m.text(0);
    }
    m.saves.clear();
    m.rest();
}
static void viewOps() {
    size_t n = choose(10);
    Model m(n, false, false, 0);
    for (int i = 0; i < 5; i++) {
        mc::step();
        switch (choose(8)) {
            case 0: m.byte(); break;
            case 1: m.make(1); break;
            case 2: m.make(4); break;
            case 3: m.read(3); break;
            case 4: m.read(4); break;
            case 5: m.skip(3); break;
            case 6: m.advance(); break;
            case 7: m.move(); m.ins.status.eof = 0; break;
        }
        u32 k = m.ins.numBytesAvailable();
        MC_CHECK(k == m.left() && memcmp(m.ins.curByte, m.src.data() + m.pos, k) == 0, "%u bytes available, expected %zu", k, m.left());
        mc::state(mc::mix(n, m.pos));
        if (n) mc::nontrivial();
    }
}
MC_SCENARIOS = {
    {"pipe", pipeOps, mc::LEAKS, "all sequences of 4 operations (reads, contiguous requests, skips, save points, rewinds) from 6 positions around block boundaries, 4 delivery sizes"},
    {"divisions", pipeDivisions, mc::LEAKS, "all sequences of 4 operations over every division of a short source into pieces"},
    {"view", viewOps, mc::LEAKS, "all sequences of 5 operations on streams over memory"},
    MC_END,
};
