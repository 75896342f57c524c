// Pipe_FD under every outcome of the system calls: short transfers, interruptions and errors.
#include "common.h"
#include <ply-runtime/io/impl/Pipe_FD.h>
#include <ply-runtime/io/InStream.h>
#include <ply-runtime/io/OutStream.h>
#include <unistd.h>
#include <errno.h>
#include <sys/syscall.h>

static const int FD = 1000; // not a real descriptor
struct Kernel {
    bool active = false, isOpen = true;
    std::string data; size_t pos = 0; // readable data; written data
    int interrupts = 0, errors = 0, shorts = 1 << 30, closes = 0;
    bool failed = false;
    size_t transferred = 0;
};
static Kernel K;
static ssize_t transfer(bool reading, size_t n, size_t most) {
    MC_CHECK(K.isOpen, "the descriptor is used after it was closed");
    MC_CHECK(n > 0, "a transfer of 0 bytes");
    if (most == 0) return 0;
    size_t opts[4]; int k = 0;
    opts[k++] = most;
    if (K.shorts > 0) { if (most > 1) opts[k++] = 1; if (most > 2) opts[k++] = most - 1; }
    int extra = (K.interrupts > 0 ? 1 : 0) + (K.errors > 0 ? 1 : 0) ;
    int c = choose(k + extra);
    if (c < k) { if (opts[c] != most) K.shorts--; MC_LOG("  %s: %zu of %zu", reading ? "read" : "write", opts[c], n); return opts[c]; }
    if (c == k && K.interrupts > 0) { K.interrupts--; MC_LOG("  %s: EINTR", reading ? "read" : "write"); errno = EINTR; return -1; }
    K.errors--; K.failed = true;
    MC_LOG("  %s: error", reading ? "read" : "write");
    errno = reading ? ECONNRESET : choose(2) ? EPIPE : ENOSPC;
    return -1;
}
extern "C" ssize_t read(int fd, void* buf, size_t n) {
    if (fd != FD || !K.active) return syscall(SYS_read, fd, buf, n);
    ssize_t r = transfer(true, n, std::min(n, K.data.size() - K.pos));
    if (r > 0) { memcpy(buf, K.data.data() + K.pos, r); K.pos += r; }
    return r;
}
extern "C" ssize_t write(int fd, const void* buf, size_t n) {
    if (fd != FD || !K.active) return syscall(SYS_write, fd, buf, n);
    MC_CHECK(!K.failed, "another write follows a failed one");
    ssize_t r = transfer(false, n, n);
    if (r > 0) K.data.append((const char*) buf, r);
    return r;
}
extern "C" int close(int fd) {
    if (fd != FD || !K.active) return (int) syscall(SYS_close, fd);
    MC_CHECK(K.isOpen, "the descriptor is closed twice");
    K.isOpen = false; K.closes++;
    if (K.interrupts > 0 && choose(2)) { MC_LOG("  close: EINTR"); errno = EINTR; return -1; }
    return 0;
}
static std::string bytes(size_t n) {
    std::string s;
    for (size_t i = 0; i < n; i++) s += (char) (1 + (i * 37 + i / 251) % 251);
    return s;
}
static void begin(int interrupts, int errors, int shorts) {
    K = Kernel{};
    K.active = true;
    K.interrupts = interrupts; K.errors = errors; K.shorts = shorts;
}
static void writes() {
    begin(pick(2, 3), choose(2), pick(4, 6));
    std::string expect;
    {
        Owned<OutPipe_FD> pipe = new OutPipe_FD{FD};
        int depth = 3;
        static const u32 sizes[] = {0, 1, 2, 5};
        for (int i = 0; i < depth && !K.failed; i++) {
            mc::step();
            std::string d = bytes(expect.size() + 5).substr(expect.size(), sizes[choose(4)]);
            HeapBytes hb{d};
            bool ok = pipe->write(hb.view());
            MC_LOG("write %zu bytes -> %d", d.size(), ok);
            MC_CHECK(ok == !K.failed, "write() returns %d, the system call %s", ok, K.failed ? "failed" : "did not fail");
            expect += d;
            if (ok) MC_CHECK(K.data == expect, "%zu bytes of %zu arrived", K.data.size(), expect.size());
            else MC_CHECK(expect.compare(0, K.data.size(), K.data) == 0, "wrong bytes arrived");
            mc::state(mc::mix(mc::mix(K.data.size(), expect.size()), K.failed * 64 + K.interrupts * 8 + K.shorts));
            if (K.shorts < pick(4, 6) || K.interrupts < pick(2, 3)) mc::nontrivial();
        }
    }
    MC_CHECK(K.closes == 1, "the descriptor was closed %d times", K.closes);
    K.active = false;
}
static void reads() {
    begin(pick(2, 3), choose(2), pick(4, 6));
    K.data = bytes(choose(7));
    size_t at = 0;
    {
        Owned<InPipe_FD> pipe = new InPipe_FD{FD};
        for (int i = 0; i < 4; i++) {
            mc::step();
            u32 n = 1 + choose(3) * 2;
            std::string buf(n + 1, '\x7e');
            if (choose(2)) {
                u32 r = pipe->readSome({&buf[0], n});
                MC_LOG("readSome(%u) -> %u", n, r);
                MC_CHECK(r <= n && at + r == K.pos, "readSome(%u) returns %u, %zu bytes were read", n, r, K.pos - at);
                MC_CHECK(r > 0 || K.failed || at == K.data.size(), "readSome reports the end at %zu of %zu", at, K.data.size());
                MC_CHECK(buf.compare(0, r, K.data, at, r) == 0, "wrong bytes");
                at += r;
                if (r == 0) break;
            } else {
                bool ok = pipe->read({&buf[0], n});
                MC_LOG("read(%u) -> %d", n, ok);
                if (ok) { MC_CHECK(K.pos == at + n && buf.compare(0, n, K.data, at, n) == 0, "read(%u) at %zu: wrong bytes, or %zu consumed", n, at, K.pos - at); at += n; }
                else { MC_CHECK(K.failed || at + n > K.data.size(), "read(%u) fails at %zu of %zu", n, at, K.data.size()); break; }
            }
            MC_CHECK(buf[n] == '\x7e', "bytes written beyond the buffer");
            mc::state(mc::mix(mc::mix(at, K.data.size()), K.failed * 64 + K.interrupts * 8 + K.shorts));
            if (K.shorts < pick(4, 6) || K.interrupts < pick(2, 3)) mc::nontrivial();
        }
    }
    MC_CHECK(K.closes == 1, "the descriptor was closed %d times", K.closes);
    K.active = false;
}
// a whole file through the buffered streams
static void streamOut() {
    begin(pick(2, 3), choose(2), pick(4, 6));
    static const size_t sizes[] = {1, 127, 128, 129, 300};
    std::string d = bytes(sizes[choose(5)]);
    bool ok = true, flushed = false;
    {
        OutStream o{OptionallyOwned<OutPipe>{Owned<OutPipe>{new OutPipe_FD{FD}}}, 7};
        size_t step = choose(2) ? 50 : 400;
        for (size_t i = 0; i < d.size(); i += step) {
            mc::step();
            ok = o.write(view(d.substr(i, step))) && ok;
            if (i == 50 && choose(2)) { MC_LOG("flush"); o.flush(); flushed = true; ok = !o.atEOF(); }
            mc::state(mc::mix(mc::mix(i, K.data.size()), K.failed * 64 + K.interrupts * 8 + K.shorts));
        }
        o.flush();
        MC_CHECK(o.atEOF() == K.failed, "atEOF() is %d, the system call %s", o.atEOF(), K.failed ? "failed" : "did not fail");
        mc::nontrivial();
    }
    (void) flushed;
    if (!K.failed) MC_CHECK(ok && K.data == d, "%zu of %zu bytes arrived, or they differ", K.data.size(), d.size());
    else MC_CHECK(d.compare(0, K.data.size(), K.data) == 0, "wrong bytes arrived before the failure");
    MC_CHECK(K.closes == 1, "the descriptor was closed %d times", K.closes);
    K.active = false;
}
static void streamIn() {
    begin(pick(2, 3), choose(2), pick(4, 6));
    static const size_t sizes[] = {0, 1, 127, 128, 129, 300};
    K.data = bytes(sizes[choose(6)]);
    {
        InStream in{OptionallyOwned<InPipe>{Owned<InPipe>{new InPipe_FD{FD}}}, 7};
        std::string got;
        switch (choose(3)) {
            case 0: got = str(in.readRemainingContents()); break;
            case 1: while (u32 n = in.tryMakeBytesAvailable(4)) { n = std::min<u32>(4, in.numBytesAvailable()); got += str(StringView{in.curByte, n}); in.curByte += n; if (in.atEOF() && !in.numBytesAvailable()) break; } break;
            case 2: { char buf[61]; while (in.read({buf, 61})) got.append(buf, 61); size_t left = K.data.size() - got.size(); if (!K.failed) { MC_CHECK(left < 61, "read() fails with %zu bytes left", left); got.append(buf, left); } break; }
        }
        mc::step(); mc::nontrivial();
        mc::state(mc::mix(K.data.size(), got.size()));
        if (!K.failed) MC_CHECK(got == K.data, "%zu of %zu bytes arrived, or they differ", got.size(), K.data.size());
        else MC_CHECK(K.data.compare(0, got.size(), got) == 0, "wrong bytes arrived");
        MC_CHECK(in.atEOF(), "no end of input reported");
    }
    MC_CHECK(K.closes == 1, "the descriptor was closed %d times", K.closes);
    K.active = false;
}
MC_SCENARIOS = {
    {"writes", writes, mc::LEAKS, "three writes of 0 to 5 bytes, every outcome of every write(2): complete, 1 byte, all but one byte, interrupted, failed"},
    {"reads", reads, mc::LEAKS, "four reads, every outcome of every read(2)"},
    {"stream-out", streamOut, mc::LEAKS, "a buffered stream over a descriptor, every outcome of every write(2)"},
    {"stream-in", streamIn, mc::LEAKS, "a buffered stream over a descriptor, every outcome of every read(2)"},
    MC_END,
};
