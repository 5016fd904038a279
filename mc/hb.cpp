// Vector-clock race detection behind the ThreadSanitizer instrumentation interface (see hb.h).
// Not thread safe: exactly one thread of the program under test runs at any time.
#include "hb.h"
#include "shim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <new>
#include <malloc.h>
#include <unistd.h>
namespace mc { extern int g_cur; extern char *g_tls; extern size_t g_tlsSize; }
extern "C" char __executable_start;
namespace hb {
static const int MAXT = 32;
struct VC { uint32_t c[MAXT]; };
static VC vc[MAXT];
static bool active = false, inside = false;
uint64_t accesses = 0, sections = 0;
void (*onRace)(const Race &) = nullptr;
bool atomicsYield = true;
bool muted[128];
enum { RD = 0, WR = 1, ARD = 2, AWR = 3 };
struct Acc { uint8_t tid, mask, kind; uint32_t clk; const void *pc; };
struct Cell { uintptr_t g; uint32_t gen; uint8_t n; Acc a[10]; };
static std::vector<Cell> tab(1 << 14);
static size_t used = 0;
static uint32_t gen = 1;
static std::unordered_map<const void *, VC> locks;
struct Rng { uintptr_t a, b; };
static Rng ign[16]; static int nign = 0;
static std::string where(const void *pc) {
    char cmd[128], out[512]; std::string r;
    snprintf(cmd, sizeof cmd, "addr2line -Cfpse /proc/%d/exe %lx 2>/dev/null", (int) getpid(), (unsigned long) pc - 1);
    if ((uintptr_t) pc > (uintptr_t) &__executable_start && (uintptr_t) &__executable_start > 0x10000000)
        snprintf(cmd, sizeof cmd, "addr2line -Cfpse /proc/%d/exe %lx 2>/dev/null", (int) getpid(), (unsigned long) ((uintptr_t) pc - (uintptr_t) &__executable_start) - 1);
    FILE *f = popen(cmd, "r"); if (!f) return "?";
    while (fgets(out, sizeof out, f)) r += out;
    pclose(f); while (!r.empty() && (r.back() == '\n')) r.pop_back();
    if (r.size() > 300) r = "..." + r.substr(r.size() - 300);
    return r;
}
static Cell *find(uintptr_t g, bool create) {
    size_t m = tab.size() - 1, i = (g * 0x9e3779b97f4a7c15ull >> 20) & m;
    while (tab[i].gen == gen) { if (tab[i].g == g) return &tab[i]; i = (i + 1) & m; }
    if (!create) return nullptr;
    if (used * 2 > tab.size()) {
        std::vector<Cell> old(tab.size() * 4); old.swap(tab);
        uint32_t og = gen; gen = 1; for (auto &c : tab) c.gen = 0; used = 0;
        for (auto &c : old) if (c.gen == og) { Cell *d = find(c.g, true); uintptr_t k = d->g; uint32_t gg = d->gen; *d = c; d->g = k; d->gen = gg; }
        return find(g, true);
    }
    ++used; tab[i].g = g; tab[i].gen = gen; tab[i].n = 0; return &tab[i];
}
static void reset() { if (++gen == 0) { for (auto &c : tab) c.gen = 0; gen = 1; } used = 0; locks.clear(); }
void begin(int T) { reset(); memset(vc, 0, sizeof vc); for (int t = 0; t < MAXT; ++t) vc[t].c[t] = 1; active = T > 1; sections += active; }
void end() { active = false; reset(); }
void acquire(const void *o, int t) { if (!active) return; auto it = locks.find(o); if (it == locks.end()) return; for (int i = 0; i < MAXT; ++i) vc[t].c[i] = std::max(vc[t].c[i], it->second.c[i]); }
void release(const void *o, int t) { if (!active) return; VC &l = locks[o]; for (int i = 0; i < MAXT; ++i) l.c[i] = std::max(vc[t].c[i], l.c[i]); ++vc[t].c[t]; }
void spawn(int p, int ch) { uint32_t own = std::max(vc[ch].c[ch], vc[p].c[ch]) + 1; vc[ch] = vc[p]; vc[ch].c[ch] = own; ++vc[p].c[p]; }
void joined(int p, int ch) { for (int i = 0; i < MAXT; ++i) vc[p].c[i] = std::max(vc[p].c[i], vc[ch].c[i]); }
void ignore(const void *p, size_t n) { if (nign < 16) ign[nign++] = {(uintptr_t) p, (uintptr_t) p + n}; }
static bool ignored(uintptr_t a) {
    if (mc::g_tlsSize && a >= (uintptr_t) mc::g_tls && a < (uintptr_t) mc::g_tls + mc::g_tlsSize) return true;
    for (int i = 0; i < nign; ++i) if (a >= ign[i].a && a < ign[i].b) return true;
    return false;
}
void clearRange(const void *p, size_t n) {
    if (!active || !n || !p) return;
    uintptr_t a = (uintptr_t) p >> 3, b = ((uintptr_t) p + n + 7) >> 3;
    if (b - a > tab.size()) { for (auto &c : tab) if (c.gen == gen && c.g >= a && c.g < b) c.n = 0; }
    else for (; a < b; ++a) if (Cell *c = find(a, false)) c->n = 0;
}
static const char *kindName[] = {"read", "write", "atomic read", "atomic write"};
std::string text(const Race &r) {
    std::string s = "unordered accesses:";
    for (int i = 0; i < 2; ++i) s += std::string(i ? " and" : "") + " thread " + std::to_string(r.tid[i]) + " " + kindName[r.kind[i]] + " at " + where(r.pc[i]);
    return s;
}
static void one(uintptr_t g, uint8_t mask, int kind, const void *pc) {
    Cell *c = find(g, true);
    int me = mc::g_cur; VC &v = vc[me];
    for (int i = 0; i < c->n; ++i) {
        Acc &a = c->a[i];
        if (a.tid == me || !(a.mask & mask) || !((a.kind | kind) & 1) || ((a.kind & 2) && (kind & 2)) || a.clk <= v.c[a.tid]) continue;
        inside = true;
        if (onRace) onRace({{me, a.tid}, {kind, a.kind}, {pc, a.pc}});
        inside = false;
        a.clk = 0;            // once
    }
    // forget what this access covers
    int k = 0;
    for (int i = 0; i < c->n; ++i) {
        Acc &a = c->a[i];
        bool before = a.clk <= v.c[a.tid];
        bool drop = before && !(a.mask & ~mask) && (a.kind == kind || (kind == WR) || (a.kind == RD && kind == RD));
        if (!drop) c->a[k++] = a;
    }
    c->n = k;
    if (c->n == 10) { for (int i = 1; i < 10; ++i) c->a[i - 1] = c->a[i]; c->n = 9; }
    c->a[c->n++] = {(uint8_t) me, mask, (uint8_t) kind, v.c[me], pc};
}
static inline void access(const void *p, size_t n, int kind, const void *pc) {
    if (!active || inside || !n || muted[mc::g_cur]) return;
    uintptr_t a = (uintptr_t) p;
    if (ignored(a)) return;
    ++accesses;
    uintptr_t g = a >> 3, last = (a + n - 1) >> 3;
    if (g == last) { one(g, (uint8_t) (((1u << n) - 1) << (a & 7)), kind, pc); return; }
    for (; g <= last; ++g) {
        uintptr_t lo = std::max(a, g << 3), hi = std::min(a + n, (g + 1) << 3);
        one(g, (uint8_t) (((1u << (hi - lo)) - 1) << (lo & 7)), kind, pc);
    }
}
}
using namespace hb;
namespace mc {
void hbFork(int T) { hb::begin(T); }
void hbJoin(int) { hb::end(); }
void hbBarrier(int T) { hb::begin(T); }
void hbAcquire(const void *l, int t) { hb::acquire(l, t); }
void hbRelease(const void *l, int t) { hb::release(l, t); }
}
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void *p) { access(p, N, RD, RA); } void __tsan_write##N(void *p) { access(p, N, WR, RA); } \
void __tsan_unaligned_read##N(void *p) { access(p, N, RD, RA); } void __tsan_unaligned_write##N(void *p) { access(p, N, WR, RA); } \
void __tsan_volatile_read##N(void *p) { access(p, N, RD, RA); } void __tsan_volatile_write##N(void *p) { access(p, N, WR, RA); } \
void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, RD, RA); } void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, WR, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, RD, RA); }
void __tsan_write_range(void *p, size_t n) { access(p, n, WR, RA); }
void __tsan_vptr_update(void *p, void *) { access(p, 8, WR, RA); }
void __tsan_vptr_read(void *p) { access(p, 8, RD, RA); }
void *mc_memcpy(void *d, const void *s, size_t n) { access(s, n, RD, RA); access(d, n, WR, RA); return memcpy(d, s, n); }
void *mc_memmove(void *d, const void *s, size_t n) { access(s, n, RD, RA); access(d, n, WR, RA); return memmove(d, s, n); }
void *mc_memset(void *d, int c, size_t n) { access(d, n, WR, RA); return memset(d, c, n); }
void *mc_malloc(size_t n) { void *p = malloc(n); clearRange(p, n); return p; }
void *mc_calloc(size_t a, size_t b) { void *p = calloc(a, b); clearRange(p, a * b); return p; }
void *mc_realloc(void *q, size_t n) { void *p = realloc(q, n); if (p != q) clearRange(p, n); return p; }
void *mc_aligned_alloc(size_t a, size_t n) { void *p = aligned_alloc(a, n); clearRange(p, n); return p; }
int mc_posix_memalign(void **q, size_t a, size_t n) { int r = posix_memalign(q, a, n); if (!r) clearRange(*q, n); return r; }
}
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); clearRange(p, n); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { void *p = malloc(n ? n : 1); clearRange(p, n); return p; }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
// ---------------------------------------------------------------- atomics (memory order: __ATOMIC_*)
static inline void pre(const volatile void *p, int n, bool wr, int mo, const void *pc) {
    if (!active || inside || muted[mc::g_cur] || ignored((uintptr_t) p)) return;
    if (atomicsYield) mc::yieldPoint();
    access((const void *) p, n, wr ? AWR : ARD, pc);
    mo &= 0xff;
    if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) acquire((const void *) p, mc::g_cur);
}
static inline void post(const volatile void *p, int mo) {
    if (!active || inside || muted[mc::g_cur] || ignored((uintptr_t) p)) return;
    mo &= 0xff;
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) release((const void *) p, mc::g_cur);
}
#define AT(B, T) extern "C" { \
T __tsan_atomic##B##_load(const volatile T *p, int mo) { pre(p, sizeof(T), false, mo, RA); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { pre(p, sizeof(T), true, __ATOMIC_RELAXED, RA); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); post(p, mo); } \
T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) { pre(p, sizeof(T), true, mo, RA); T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); post(p, mo); return r; } \
T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) { pre(p, sizeof(T), true, mo, RA); T r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); post(p, mo); return r; } \
T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) { pre(p, sizeof(T), true, mo, RA); T r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); post(p, mo); return r; } \
T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) { pre(p, sizeof(T), true, mo, RA); T r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); post(p, mo); return r; } \
T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) { pre(p, sizeof(T), true, mo, RA); T r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); post(p, mo); return r; } \
T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo) { pre(p, sizeof(T), true, mo, RA); T r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); post(p, mo); return r; } \
T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int mo) { pre(p, sizeof(T), true, mo, RA); T r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); post(p, mo); return r; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { pre(p, sizeof(T), true, mo, RA); bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r) post(p, mo); return r; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { pre(p, sizeof(T), true, mo, RA); bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r) post(p, mo); return r; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { pre(p, sizeof(T), true, mo, RA); bool r = __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r) post(p, mo); return e; } }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}
