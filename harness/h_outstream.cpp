// OutStream: every mix of writes, contiguous requests, flushes and moves, to sinks that may fail.
#include "common.h"
#include <ply-runtime/io/OutStream.h>
#include <ply-runtime/container/BlockList.h>

struct TestSink : OutPipe {
    static Funcs Funcs_;
    std::string got; bool canFail, failed = false; int writes = 0, flushes = 0, deviceFlushes = 0; bool* destroyed;
    size_t keptOnFailure = 0;
    TestSink(bool canFail, bool* destroyed) : OutPipe{&Funcs_}, canFail{canFail}, destroyed{destroyed} {}
    static void destroy(OutPipe* p) { TestSink* s = static_cast<TestSink*>(p); *s->destroyed = true; std::string().swap(s->got); }
    static bool write(OutPipe* p_, StringView buf) {
        TestSink* p = static_cast<TestSink*>(p_);
        MC_CHECK(!p->failed, "bytes are sent to a destination that has failed");
        p->writes++;
        if (p->canFail && choose(2)) {
            p->failed = true;
            MC_LOG("  sink: write of %u bytes fails", buf.numBytes);
            return false;
        }
        p->got += str(buf);
        MC_LOG("  sink: %u bytes", buf.numBytes);
        return true;
    }
    static bool flush(OutPipe* p_, bool dev) { TestSink* p = static_cast<TestSink*>(p_); p->flushes++; p->deviceFlushes += dev; return true; }
    static u64 seek(OutPipe*, s64, SeekDir) { return 0; }
};
OutPipe::Funcs TestSink::Funcs_ = {TestSink::destroy, TestSink::write, TestSink::flush, TestSink::seek};

static std::string data(size_t at, size_t n) {
    std::string s;
    for (size_t i = 0; i < n; i++) s += (char) (1 + ((at + i) * 37 + (at + i) / 251) % 251);
    return s;
}
// Writes through `outs`; `m` is what has been accepted so far
struct Writer {
    std::string m;
    bool dead = false; // the destination has failed: nothing more counts
    void note(OutStream& o, bool failed, bool ok) {
        if (failed) dead = true;
        MC_CHECK(o.atEOF() == dead, "atEOF() is %d", o.atEOF());
        MC_CHECK(ok == !dead, "the operation returns %d", ok);
    }
    void write(OutStream& o, size_t n, const bool* failed) {
        std::string d = data(m.size(), n);
        HeapBytes hb{d};
        MC_LOG("write %zu bytes (after %zu)", n, m.size());
        bool ok = o.write(hb.view());
        m += d;
        if (failed) note(o, *failed, ok);
        else MC_CHECK(ok, "write() fails");
    }
    void byte(OutStream& o, const bool* failed) {
        std::string d = data(m.size(), 1);
        MC_LOG("writeByte (after %zu)", m.size());
        bool ok = o.writeByte((u8) d[0]);
        m += d;
        if (failed) { if (*failed) dead = true; MC_CHECK(ok || dead, "writeByte fails"); MC_CHECK(o.atEOF() == dead, "atEOF() is %d", o.atEOF()); }
        else MC_CHECK(ok, "writeByte fails");
    }
    void tryMake(OutStream& o, u32 n, u32 use, const bool* failed) {
        u32 got = o.tryMakeBytesAvailable(n);
        MC_LOG("tryMakeBytesAvailable(%u) -> %u, use %u (after %zu)", n, got, use, m.size());
        if (failed && *failed) dead = true;
        MC_CHECK(got <= o.numBytesAvailable(), "%u bytes promised, %u available", got, o.numBytesAvailable());
        if (!dead) MC_CHECK(got >= n, "only %u of %u bytes made available", got, n);
        if (got < use) return;
        std::string d = data(m.size(), use);
        memcpy(o.curByte, d.data(), use); o.curByte += use;
        m += d;
    }
    void make(OutStream& o, u32 n, u32 use, const bool* failed) {
        o.makeBytesAvailable(n);
        MC_LOG("makeBytesAvailable(%u), use %u (after %zu)", n, use, m.size());
        if (failed && *failed) dead = true;
        MC_CHECK(o.numBytesAvailable() >= n, "%u of %u bytes made available", o.numBytesAvailable(), n);
        std::string d = data(m.size(), use);
        memcpy(o.curByte, d.data(), use); o.curByte += use;
        m += d;
    }
    void fill(OutStream& o) {
        u32 n = o.numBytesAvailable();
        MC_LOG("fill the %u bytes available (after %zu)", n, m.size());
        std::string d = data(m.size(), n);
        memcpy(o.curByte, d.data(), n); o.curByte += n;
        m += d;
    }
};
static void pipeOps() {
    bool canFail = choose(2), owned = choose(2);
    bool destroyed = false;
    TestSink* sink = new TestSink{canFail, &destroyed};
    std::string result; bool failedAtEnd;
    Writer w;
    {
        OutStream o = owned ? OutStream{OptionallyOwned<OutPipe>{Owned<OutPipe>{sink}}, 7} : OutStream{OptionallyOwned<OutPipe>{Borrowed<OutPipe>{sink}}, 7};
        const bool* f = &sink->failed;
        static const u32 starts[] = {0, 126, 128};
        u32 st = starts[choose(3)];
        if (st) w.write(o, st, f);
        int depth = pick(4, 5);
        for (int i = 0; i < depth; i++) {
            mc::step();
            switch (choose(13)) {
                case 0: w.byte(o, f); break;
                case 1: w.write(o, 0, nullptr == f ? f : f); break;
                case 2: w.write(o, 3, f); break;
                case 3: w.write(o, 128, f); break;
                case 4: w.write(o, 300, f); break;
                case 5: w.tryMake(o, 2, 1, f); break;
                case 6: w.tryMake(o, 130, 130, f); break;
                case 7: w.make(o, 4, 2, f); break;
                case 8: w.make(o, 200, 129, f); break;
                case 9: w.fill(o); break;
                case 10: case 11: {
                    bool dev = i & 1;
                    int before = sink->flushes;
                    bool wasDead = w.dead;
                    MC_LOG("flush (%zu bytes written)", w.m.size());
                    o.flush(dev);
                    if (sink->failed) w.dead = true;
                    MC_CHECK(sink->flushes == before + 1, "flush() does not reach the destination");
                    if (!w.dead) MC_CHECK(sink->got == w.m, "%zu bytes received after a flush, %zu written, or they differ", sink->got.size(), w.m.size());
                    (void) wasDead;
                    break;
                }
                case 12: { MC_LOG("move away and back"); OutStream p{std::move(o)}; MC_CHECK(!o.anyBytesAvailable(), "a moved-from stream has room"); o = std::move(p); break; }
            }
            size_t n = sink->got.size();
            MC_CHECK(n <= w.m.size() && w.m.compare(0, n, sink->got) == 0, "the destination did not get the first %zu bytes written", n);
            if (!w.dead) MC_CHECK(o.getSeekPos() == w.m.size(), "getSeekPos() is %llu after %zu bytes", (unsigned long long) o.getSeekPos(), w.m.size());
            mc::state(mc::mix(mc::mix(n, w.m.size()), o.numBytesAvailable() * 2 + w.dead));
            if (w.m.size() > 128) mc::nontrivial();
        }
        MC_LOG("destroy the stream (%zu bytes written)", w.m.size());
        if (owned) { // keep what was received: the sink is destroyed with the stream
            o.flush(false);
            if (sink->failed) w.dead = true;
            result = sink->got; failedAtEnd = sink->failed;
        }
    }
    if (!owned) { result = sink->got; failedAtEnd = sink->failed; MC_CHECK(!destroyed, "a borrowed destination was destroyed"); delete (OutPipe*) sink; }
    else MC_CHECK(destroyed, "the owned destination was not destroyed with the stream");
    if (!failedAtEnd) MC_CHECK(result == w.m, "%zu bytes received, %zu written, or they differ", result.size(), w.m.size());
    else MC_CHECK(w.m.compare(0, result.size(), result) == 0, "the bytes received before the failure differ");
}
static void memOps() {
    Writer w;
    MemOutStream o{7};
    static const u32 starts[] = {0, 126, 128};
    u32 st = starts[choose(3)];
    if (st) w.write(o, st, nullptr);
    int depth = pick(5, 6);
    for (int i = 0; i < depth; i++) {
        mc::step();
        switch (choose(9)) {
            case 0: w.byte(o, nullptr); break;
            case 1: w.write(o, 3, nullptr); break;
            case 2: w.write(o, 300, nullptr); break;
            case 3: w.tryMake(o, 130, 130, nullptr); break;
            case 4: w.make(o, 200, 129, nullptr); break;
            case 5: w.fill(o); break;
            case 6: MC_LOG("flush"); o.flush(); break;
            case 7: o.format("{}{}", 12, "x"); MC_LOG("format"); w.m += "12x"; break;
            case 8: { // a copy of what's written so far
                o.flushMem();
                String s = BlockList::toString(o.getHeadRef());
                MC_CHECK(str(s) == w.m, "the blocks hold %u bytes, %zu written, or they differ", s.numBytes, w.m.size());
                break;
            }
        }
        MC_CHECK(o.getSeekPos() == w.m.size(), "getSeekPos() is %llu after %zu bytes", (unsigned long long) o.getSeekPos(), w.m.size());
        mc::state(mc::mix(w.m.size(), o.numBytesAvailable()));
        if (w.m.size() > 128) mc::nontrivial();
    }
    String s = o.moveToString();
    MC_CHECK(str(s) == w.m, "moveToString() gives %u bytes, %zu written, or they differ", s.numBytes, w.m.size());
    MC_CHECK(!o.writeByte(1) && o.getSeekPos() == 0, "the stream accepts bytes after moveToString()");
}
static void viewOps() {
    size_t cap = choose(6);
    HeapBytes room{std::string(cap, '\x7e')};
    std::string m;
    {
        ViewOutStream o{MutableStringView{room.p, (u32) cap}};
        for (int i = 0; i < 4; i++) {
            mc::step();
            switch (choose(4)) {
                case 0: { bool ok = o.writeByte('a' + i); MC_LOG("writeByte -> %d", ok); MC_CHECK(ok == (m.size() < cap), "writeByte returns %d", ok); if (ok) m += (char) ('a' + i); break; }
                case 1: case 2: {
                    std::string d(choose(2) ? 2 : 3, 'A' + i);
                    bool was = o.atEOF();
                    bool ok = o.write(view(d));
                    MC_LOG("write %zu -> %d", d.size(), ok);
                    MC_CHECK(ok == !o.atEOF(), "write() returns %d, atEOF() is %d", ok, o.atEOF());
                    if (!was && m.size() + d.size() <= cap) MC_CHECK(ok, "a write that fits fails");
                    if (m.size() + d.size() > cap) MC_CHECK(!ok, "a write that doesn't fit succeeds");
                    size_t n = o.curByte - o.startByte;
                    MC_CHECK(n >= m.size() && n <= std::min(cap, m.size() + d.size()), "%zu bytes written", n);
                    m += d.substr(0, n - m.size());
                    break;
                }
                case 3: { u32 got = o.tryMakeBytesAvailable(2); MC_CHECK((got >= 2) == (m.size() + 2 <= cap), "tryMakeBytesAvailable(2) returns %u with %zu left", got, cap - m.size()); break; }
            }
            mc::state(mc::mix(cap, m.size() * 2 + o.atEOF()));
            MC_CHECK(std::string(room.p, m.size()) == m, "the memory does not hold the bytes written");
        }
        MC_CHECK(o.getSeekPos() == m.size(), "getSeekPos");
    }
    MC_CHECK(std::string(room.p + m.size(), cap - m.size()) == std::string(cap - m.size(), '\x7e'), "bytes beyond those written are changed");
}
MC_SCENARIOS = {
    {"pipe", pipeOps, mc::LEAKS, "all sequences of 4 writes, requests, flushes and moves around block boundaries, the destination failing at any write"},
    {"memory", memOps, mc::LEAKS, "all sequences of 5 writes, requests and flushes of a memory stream"},
    {"view", viewOps, mc::LEAKS, "all sequences of 4 writes into fixed memory of 0 to 5 bytes"},
    MC_END,
};
