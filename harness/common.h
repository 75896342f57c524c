#pragma once
#include <mc.h>
#include <ply-runtime/Core.h>
#include <ply-runtime/Base.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <string.h>
using namespace ply;
using mc::choose;
using mc::pick;

static inline std::string str(StringView v) { return std::string(v.bytes ? v.bytes : "", v.numBytes); }
static inline StringView view(const std::string& s) { return StringView{s.data(), (u32) s.size()}; }
static inline std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        char b[8];
        if (c == '\\') o += "\\\\";
        else if (c >= 32 && c < 127) o += c;
        else { snprintf(b, 8, "\\x%02x", c); o += b; }
    }
    return o;
}
static inline uint64_t hstr(const std::string& s, uint64_t seed = 7) { return mc::hashBytes(s.data(), s.size(), seed + 1469598103934665603ull); }
// exact-size heap copy, so that AddressSanitizer sees any access beyond the end
struct HeapBytes {
    char* p; size_t n;
    HeapBytes(const std::string& s) : p((char*) ::malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); if (!n) {} }
    ~HeapBytes() { ::free(p); }
    HeapBytes(const HeapBytes&) = delete;
    StringView view() const { return StringView{p, (u32) n}; }
};

// An object that knows whether it is alive and owns a heap block
struct Tracked {
    static long& live() { static long n = 0; return n; }
    enum : u32 { Alive = 0xa11fe00d, Dead = 0xdeadbeef };
    u32 magic;
    int* p;
    Tracked(int v = -1) : magic(Alive), p((int*) ::malloc(sizeof(int))) { *p = v; live()++; }
    Tracked(const Tracked& o) : magic(Alive), p((int*) ::malloc(sizeof(int))) { o.check(); *p = o.value(); live()++; }
    Tracked(Tracked&& o) : magic(Alive), p(o.p) { o.check(); o.p = nullptr; live()++; }
    ~Tracked() { check(); ::free(p); p = nullptr; magic = Dead; live()--; }
    void check() const { if (magic != Alive) mc::fail("an object is used that was never constructed or is already destroyed (magic %08x)", magic); }
    void operator=(const Tracked& o) { check(); o.check(); int v = o.value(); if (!p) p = (int*) ::malloc(sizeof(int)); *p = v; }
    void operator=(Tracked&& o) { check(); o.check(); if (this == &o) return; ::free(p); p = o.p; o.p = nullptr; }
    int value() const { check(); return p ? *p : -2; }
    bool operator==(const Tracked& o) const { return value() == o.value(); }
};
