// Two threads use the heap at once (the real Doug Lea heap under its lazily created lock)
#include "common.h"
#include "mcsched.h"
#include <ply-runtime/thread/impl/Thread_POSIX.h>
#include <ply-runtime/memory/Heap.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
using Th = Thread_POSIX;
static char* g_arena; static size_t g_used; static bool g_on;
extern "C" void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) noexcept {
    if (!g_on || fd != -1) return (void*) syscall(SYS_mmap, a, n, prot, flags, fd, off);
    if (g_used + n > (8u << 20)) mc::fail("heap asks for too many pages");
    char* p = g_arena + g_used; g_used += n;
    memset(p, 0, n);
    return p;
}
extern "C" int munmap(void* a, size_t n) noexcept { return g_on ? 0 : (int) syscall(SYS_munmap, a, n); }
static void use(Heap_DL& h, const int* ops, int n, int tag) {
    char* p[4]; size_t sz[4]; int k = 0;
    for (int i = 0; i < n; i++) {
        auto fill = [&](int j) { for (size_t q = 0; q < sz[j]; q++) p[j][q] = (char) tag; };
        auto check = [&](int j, size_t m) { for (size_t q = 0; q < m; q++) MC_CHECK(p[j][q] == (char) tag, "thread %d's block is changed", sched::self()); };
        switch (ops[i]) {
            case 0: sz[k] = 24; p[k] = (char*) h.operate("").alloc(24); fill(k++); break;
            case 1: sz[k] = 300; p[k] = (char*) h.operate("").alloc(300); fill(k++); break;
            case 2: if (k) { check(k - 1, sz[k - 1]); p[k - 1] = (char*) h.operate("").realloc(p[k - 1], 120); check(k - 1, std::min<size_t>(sz[k - 1], 120)); sz[k - 1] = 120; fill(k - 1); } break;
            case 3: if (k) { k--; check(k, sz[k]); h.operate("").free(p[k]); } break;
        }
    }
    while (k) { k--; for (size_t q = 0; q < sz[k]; q++) MC_CHECK(p[k][q] == (char) tag, "block changed"); h.operate("").free(p[k]); }
}
static void heap(bool first) {
    int n = 2, ops[2][3];
    for (int t = 0; t < 2; t++) for (int i = 0; i < n; i++) ops[t][i] = choose(4);
    if (!g_arena) g_arena = (char*) syscall(SYS_mmap, 0, 8u << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g_used = 0;
    mc::nontrivial();
    alignas(64) static Heap_DL h;
    h.zeroInit();
    g_on = true;
    sched::run(pick(3, 6), [&] {
        if (!first) h.operate("").free(h.operate("").alloc(10));
        Th a([&] { use(h, ops[0], n, 1); });
        use(h, ops[1], n, 2);
        a.join();
        auto st = h.operate("").getStats();
        MC_CHECK(st.inUseBytes <= 4096, "bytes in use after everything is freed");
    });
    g_on = false;
    h.~Heap_DL();
}
static void warm() { heap(false); }
static void cold() { heap(true); }
MC_SCENARIOS = {
    {"mt-warm", warm, 0, "two threads on an initialised heap"},
    {"mt-first", cold, 0, "two threads race for the heap's first use"},
    MC_END};
