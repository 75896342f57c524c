// The heap (Doug Lea's allocator) against a set of disjoint filled blocks. Pages come from
// an arena the harness owns, so that the position of each new segment relative to the
// previous ones (above, below, apart) is an explored choice too.
#include "common.h"
#include <ply-runtime/memory/Heap.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>
#if !PLY_USE_DLMALLOC
#error
#endif

static char* g_arena;
static const size_t ArenaSize = 96u << 20;
static bool g_on;
static int g_mode;          // 0 upward adjacent, 1 downward adjacent, 2 upward with gaps
static char *g_lo, *g_hi;   // range in use
struct Map { char* p; size_t n; };
static Map g_maps[512];
static int g_numMaps;

static void arenaInit() {
    if (g_arena) return;
    g_arena = (char*) syscall(SYS_mmap, 0, ArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void arenaReset(int mode) {
    arenaInit();
    g_mode = mode;
    g_lo = g_hi = g_arena + ArenaSize / 2;
    g_numMaps = 0;
}
extern "C" void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) noexcept {
    if (!g_on || fd != -1) return (void*) syscall(SYS_mmap, a, n, prot, flags, fd, off);
    MC_CHECK(n % 4096 == 0 && n > 0, "mmap of %zu bytes", n);
    char* p;
    if (g_mode == 1) { g_lo -= n; p = g_lo; }
    else { if (g_mode == 2) g_hi += 4096; p = g_hi; g_hi += n; }
    if (g_lo < g_arena || g_hi > g_arena + ArenaSize || g_numMaps >= 512) mc::fail("the heap asks for more than 48 MB of pages");
    if (n <= 65536) memset(p, 0, n);
    else syscall(SYS_madvise, p, n, MADV_DONTNEED);
    g_maps[g_numMaps++] = Map{p, n};
    return p;
}
extern "C" int munmap(void* a, size_t n) noexcept {
    if (!g_on) return (int) syscall(SYS_munmap, a, n);
    // remove [a, a+n) from the mapped ranges; it must be mapped
    char *b = (char*) a, *e = b + n;
    size_t removed = 0;
    for (int i = 0; i < g_numMaps; i++) {
        Map m = g_maps[i];
        char *x = std::max(b, m.p), *y = std::min(e, m.p + m.n);
        if (x >= y) continue;
        removed += y - x;
        memset(x, 0xdd, std::min<size_t>(y - x, 8192));
        g_maps[i] = g_maps[--g_numMaps];
        if (m.p < x) g_maps[g_numMaps++] = Map{m.p, size_t(x - m.p)};
        if (y < m.p + m.n) g_maps[g_numMaps++] = Map{y, size_t(m.p + m.n - y)};
        i--;
        if (removed == n) break;
    }
    MC_CHECK(removed == n, "the heap unmaps %zu bytes of which %zu were not mapped", n, n - removed);
    return 0;
}
static bool mapped(char* p, size_t n) {
    // merge: every byte must lie in some mapped range
    char* e = p + n;
    while (p < e) {
        bool any = false;
        for (int i = 0; i < g_numMaps && !any; i++)
            if (p >= g_maps[i].p && p < g_maps[i].p + g_maps[i].n) { p = g_maps[i].p + g_maps[i].n; any = true; }
        if (!any) return false;
    }
    return true;
}

struct Blk { char* p; size_t n, use; unsigned char tag; };
struct H {
    alignas(16) Heap_DL heap;
    std::vector<Blk> live;
    unsigned char nextTag = 1;
    H(int mode) { arenaReset(mode); heap.zeroInit(); g_on = true; }
    ~H() { g_on = false; }
    static size_t span(size_t n) { return n; }
    static void fill(const Blk& b) {
        if (b.use <= 2048) memset(b.p, b.tag, b.use);
        else { memset(b.p, b.tag, 512); memset(b.p + b.use - 512, b.tag, 512); for (size_t i = 512; i < b.use - 512; i += 512) b.p[i] = b.tag; }
    }
    static void verify(const char* p, unsigned char tag, size_t n, size_t use, const char* what) {
        auto bad = [&](size_t i) { mc::fail("%s: byte %zu of a %zu-byte block is changed (%02x instead of %02x)", what, i, use, (unsigned char) p[i], tag); };
        if (use <= 2048) { for (size_t i = 0; i < n; i++) if ((unsigned char) p[i] != tag) bad(i); return; }
        for (size_t i = 0; i < 512 && i < n; i++) if ((unsigned char) p[i] != tag) bad(i);
        for (size_t i = 512; i < use - 512 && i < n; i += 512) if ((unsigned char) p[i] != tag) bad(i);
        for (size_t i = use - 512; i < n; i++) if ((unsigned char) p[i] != tag) bad(i);
    }
    void verifyAll(const char* what) { for (Blk& b : live) verify(b.p, b.tag, b.use, b.use, what); }
    Blk adopt(void* q, size_t n, size_t align, const char* what) {
        MC_CHECK(q, "%s(%zu) returned null", what, n);
        char* p = (char*) q;
        size_t use = heap.getSize(p);
        MC_CHECK(use >= n, "%s(%zu): the block has %zu bytes", what, n, use);
        MC_CHECK(((uptr) p & (align - 1)) == 0, "%s(%zu): address %zx is not aligned to %zu", what, n, (size_t) (p - g_arena), align);
        MC_CHECK(mapped(p, use), "%s(%zu): the block is not inside pages the heap owns", what, n);
        for (Blk& b : live)
            MC_CHECK(p + use <= b.p || b.p + b.use <= p, "%s(%zu): the block overlaps a live block of %zu bytes", what, n, b.n);
        Blk b{p, n, use, nextTag++};
        if (nextTag == 0) nextTag = 1;
        return b;
    }
    void alloc(size_t n) {
        MC_LOG("alloc %zu", n);
        Blk b = adopt(heap.operate("").alloc(n), n, 16, "alloc");
        fill(b); live.push_back(b);
        done("alloc");
    }
    void aligned(size_t n, size_t a) {
        MC_LOG("allocAligned %zu, %zu", n, a);
        Blk b = adopt(heap.operate("").allocAligned(n, a), n, std::max<size_t>(a, 16), "allocAligned");
        fill(b); live.push_back(b);
        done("allocAligned");
    }
    void free(size_t i) {
        MC_LOG("free block %zu (%zu bytes)", i, live[i].n);
        Blk b = live[i];
        live.erase(live.begin() + i);
        heap.operate("").free(b.p);
        done("free");
    }
    void realloc(size_t i, size_t n) {
        MC_LOG("realloc block %zu (%zu bytes) to %zu", i, live[i].n, n);
        Blk o = live[i];
        live.erase(live.begin() + i);
        void* q = heap.operate("").realloc(o.p, n);
        Blk b = adopt(q, n, 16, "realloc");
        verify(b.p, o.tag, std::min(o.use, b.use), o.use, "realloc");
        fill(b); live.insert(live.begin() + i, b);
        done("realloc");
    }
    void done(const char* what) {
        mc::step();
        verifyAll(what);
        uint64_t h = 0;
        for (Blk& b : live) h = mc::mix(h, mc::mix(b.p - g_arena, b.use));
        for (int i = 0; i < g_numMaps; i++) h = mc::mix(h, mc::mix(g_maps[i].p - g_arena, g_maps[i].n));
        mc::state(h);
    }
    // everything freed: nothing may be counted as in use
    void drain(bool fromFront) {
        while (live.size()) free(fromFront ? 0 : live.size() - 1);
        auto st = heap.operate("").getStats();
        MC_CHECK(st.inUseBytes <= 4096 && st.inUseBytes <= st.systemBytes, "everything is freed but %zu of %zu bytes are in use", (size_t) st.inUseBytes, (size_t) st.systemBytes);
    }
};

// every operation sequence over a set of sizes
static void sequences(const std::vector<size_t>& sizes, const std::vector<size_t>& rsizes, const std::vector<std::pair<size_t, size_t>>& al, int D, int maxLive, int modes) {
    H h(modes > 1 ? choose(modes) : 0);
    for (int d = 0; d < D; d++) {
        int nA = (int) h.live.size() < maxLive ? (int) sizes.size() : 0;
        int nAl = (int) h.live.size() < maxLive ? (int) al.size() : 0;
        int nL = (int) h.live.size(), nR = (int) rsizes.size();
        int c = choose(nA + nAl + nL + nL * nR);
        if (c < nA) h.alloc(sizes[c]);
        else if ((c -= nA) < nAl) h.aligned(al[c].first, al[c].second);
        else if ((c -= nAl) < nL) h.free(c);
        else { c -= nL; h.realloc(c / nR, rsizes[c % nR]); }
    }
    mc::nontrivial();
    h.drain(h.live.size() & 1);
}
static void small() { sequences({1, 24, 25, 56, 72, 100}, {1, 40, 88}, {{24, 64}}, pick(5, 6), 4, 1); }
static void tree() { sequences({240, 249, 400, 1000, 3000}, {24, 264, 2000}, {{300, 256}}, pick(5, 6), 4, 1); }
static void segments() { sequences({100, 2000, 4000, 9000}, {24, 5000, 20000}, {{3000, 4096}}, pick(5, 6), 4, 3); }
static void large() { sequences({24, 70000, 270000, 300001}, {100, 262144, 400000}, {{270000, 4096}}, pick(4, 5), 3, 3); }

// a row of blocks of chosen sizes, freed in every order with an allocation, reallocation or
// nothing half-way: coalescing on both sides, bins and tree bins of every shape
static void orders(const std::vector<size_t>& sizes, int N, const std::vector<size_t>& mid) {
    H h(0);
    for (int i = 0; i < N; i++) h.alloc(sizes[choose((int) sizes.size())]);
    int after = 1 + choose(N - 1);
    int what = choose((int) mid.size() + 2);
    for (int i = 0; i < N; i++) {
        if (i == after) {
            if (what < (int) mid.size()) h.alloc(mid[what]);
            else h.realloc(0, what - mid.size() == 0 ? 600 : 20);
        }
        h.free(choose(std::min<int>(N - i, (int) h.live.size())));
    }
    mc::nontrivial();
    if (h.live.size()) { h.alloc(700); }
    h.drain(true);
}
static void ordersSmall() { orders({24, 100, 300}, pick(4, 5), {40, 200}); }
static void ordersTree() { orders({260, 800, 1600}, pick(4, 5), {520, 1300}); }
// many blocks of a few sizes: fill, free a periodic subset, refill with another size
static void bulk() {
    H h(choose(3));
    static const size_t S[] = {16, 40, 120, 248, 264, 520, 1016, 2040, 4072, 8200};
    size_t a = S[choose(10)], b = S[choose(10)], c = S[choose(10)];
    int period = 2 + choose(3), phase = choose(period);
    int n = 24;
    for (int i = 0; i < n; i++) h.alloc(i & 1 ? a : b);
    std::vector<size_t> del;
    for (int i = n - 1; i >= 0; i--) if (i % period != phase) h.free(i);
    for (int i = 0; i < 8; i++) h.alloc(c);
    for (int i = 0; i < 4; i++) h.realloc(i * 2, i & 1 ? a : c + b);
    mc::nontrivial();
    h.drain(choose(2));
}
MC_SCENARIOS = {
    {"small", small, 0, "every sequence of alloc/realloc/free/aligned alloc over small-bin sizes"},
    {"tree", tree, 0, "the same over tree-bin sizes"},
    {"segments", segments, 0, "the same over page-crossing sizes, new segments above, below or apart"},
    {"large", large, 0, "the same around the direct-mapping threshold"},
    {"orders-small", ordersSmall, 0, "rows of blocks freed in every order"},
    {"orders-tree", ordersTree, 0, "rows of larger blocks freed in every order"},
    {"bulk", bulk, 0, "24 blocks, a periodic subset freed and refilled"},
    MC_END};
