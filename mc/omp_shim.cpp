#include "shim.h"
#include <pthread.h>
#include <unistd.h>
#include <sys/mman.h>
#include <link.h>
#include <time.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>

namespace mc {
OmpOpts omp;
SchedStats sched;
std::function<void(const std::string &)> onFatal;

void schedFatal(const std::string &msg) {
    if (onFatal) onFatal(msg);
    fprintf(stderr, "SCHED-FATAL: %s\n", msg.c_str());
    fflush(stderr);
    abort();
}

// ---------------------------------------------------------------- explorer
struct Point { int n, chosen, cost; uint32_t epoch; };
static bool g_exploring = false;
static std::vector<int> g_prefix;
static std::vector<Point> g_points;
// Epoch: the part of an execution between two barriers (or region start / end).  With reduceIndependent, the choices of an
// epoch in which the threads did not interact (no lock, atomic, single, dynamic chunk) are not varied: the race detector has
// shown that the threads' accesses commute.
bool reduceIndependent = false;
static uint32_t g_epoch = 0;
static std::vector<char> g_interacts;
static void nextEpoch() { if (g_exploring) { ++g_epoch; g_interacts.push_back(0); } }
static void interact() { if (g_exploring) g_interacts[g_epoch] = 1; }

bool exploring() { return g_exploring; }

int choose(int n, int cost) {
    if (n <= 1) return 0;
    if (!g_exploring) return 0;
    size_t i = g_points.size();
    int c = 0;
    if (i < g_prefix.size()) {
        c = g_prefix[i];
        if (c >= n) schedFatal("replay divergence: choice out of range");
    }
    g_points.push_back({n, c, cost, g_epoch});
    return c;
}

std::string currentSchedule() {
    std::string s;
    for (auto &p : g_points) { s += std::to_string(p.chosen); s += p.cost ? "!" : "."; }
    return s;
}

ExploreResult explore(int bound, uint64_t cap, const std::function<void()> &body) {
    ExploreResult r;
    g_prefix.clear();
    while (true) {
        g_points.clear();
        g_epoch = 0; g_interacts.assign(1, 1);
        g_exploring = true;
        body();
        g_exploring = false;
        if (g_points.size() < g_prefix.size()) schedFatal("replay divergence: execution ended inside the prefix");
        ++r.executions;
        r.choicePoints += g_points.size();
        if (g_points.size() > r.maxDepth) r.maxDepth = g_points.size();
        // backtrack
        int total = 0;
        std::vector<int> before(g_points.size());
        for (size_t i = 0; i < g_points.size(); ++i) { before[i] = total; if (g_points[i].chosen) total += g_points[i].cost; }
        long i = (long) g_points.size() - 1;
        for (; i >= 0; --i) {
            auto &p = g_points[i];
            if (reduceIndependent && !g_interacts[p.epoch]) continue;
            if (p.chosen + 1 < p.n && before[i] + p.cost <= bound) break;
        }
        if (i < 0) break;
        std::vector<int> np;
        for (long k = 0; k < i; ++k) np.push_back(g_points[k].chosen);
        np.push_back(g_points[i].chosen + 1);
        g_prefix.swap(np);
        if (r.executions >= cap) { r.capped = true; break; }
    }
    g_prefix.clear();
    return r;
}

// ---------------------------------------------------------------- team
struct WorkShare {            // dynamic loop, single or sections construct
    bool init = false;
    unsigned long long start = 0, incr = 0, n = 0, next = 0, chunk = 1;
    int guided = 0;
    int claimed = -1;         // single
    void *copy = nullptr;     // copyprivate
};
enum State { RUN, BARRIER, LOCK, DONE };
struct Team;
struct Lock { int owner = -1; int depth = 0; };
struct Ctx {
    Team *team = nullptr;
    int tid = 0;
    long seq = 0;             // work-share constructs met so far
    WorkShare *ws = nullptr;
    int level = 0;
};
struct Team {
    int T = 1;
    State st[128];
    Lock *waiting[128];
    int arrived = 0;
    int done = 0;
    void (*fn)(void *) = nullptr;
    void *data = nullptr;
    std::map<long, WorkShare> ws;
    WorkShare *preset = nullptr;
};
static Team g_serial;         // context outside any region
static Ctx g_ctx[128];        // one per fiber
int g_cur = 0;         // the fiber that runs
static Ctx &ctx() { Ctx &c = g_ctx[g_cur]; if (!c.team) c.team = &g_serial; return c; }

int curTid() { return ctx().tid; }
int curTeam() { return ctx().team->T; }
bool inTeam() { return ctx().team != &g_serial; }

// weak no-op detector hooks
__attribute__((weak)) void hbFork(int) {}
__attribute__((weak)) void hbJoin(int) {}
__attribute__((weak)) void hbBarrier(int) {}
__attribute__((weak)) void hbAcquire(const void *, int) {}
__attribute__((weak)) void hbRelease(const void *, int) {}
__attribute__((weak)) void hbThreadStart(int) {}

// ---------------------------------------------------------------- fibers
// Every thread of a team is a fiber with its own stack and its own copy of the executable's thread-local
// storage; control changes hands only in handOver().
extern "C" void mc_switch(void **save, void *load);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");
} // namespace mc
extern "C" {
__attribute__((weak)) void __sanitizer_start_switch_fiber(void **, const void *, size_t);
__attribute__((weak)) void __sanitizer_finish_switch_fiber(void *, const void **, size_t *);
}
namespace mc {
struct Fiber { void *sp = nullptr; char *bottom = nullptr; size_t size = 0; void *fake = nullptr; std::vector<char> tls; };
static Fiber fib[128];
char *g_tls = nullptr; size_t g_tlsSize = 0; static const char *g_tlsInit = nullptr; static size_t g_tlsInitSize = 0;
static Team *g_active = nullptr;      // the running multi-threaded team
static int g_workers = 0;

static void runWorker(int id);
static void arrived(int id) {
    if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(fib[id].fake, nullptr, nullptr);
}
static void fiberMain() {
    int id = g_cur;
    arrived(id);
    while (true) runWorker(id);
}
static int tlsCallback(dl_phdr_info *info, size_t, void *) {
    for (int i = 0; i < info->dlpi_phnum; ++i)
        if (info->dlpi_phdr[i].p_type == PT_TLS) {
            g_tls = (char *) info->dlpi_tls_data; g_tlsSize = info->dlpi_phdr[i].p_memsz;
            g_tlsInit = (const char *) (info->dlpi_addr + info->dlpi_phdr[i].p_vaddr); g_tlsInitSize = info->dlpi_phdr[i].p_filesz;
        }
    return 1;                         // the executable is the first object
}
static void ensureWorkers(int T) {
    if (!fib[0].bottom) {
        pthread_attr_t a; void *b; size_t n;
        pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &b, &n); pthread_attr_destroy(&a);
        fib[0].bottom = (char *) b; fib[0].size = n;
        dl_iterate_phdr(tlsCallback, nullptr);
        fib[0].tls.resize(g_tlsSize);
    }
    while (g_workers < T - 1) {
        int id = ++g_workers;
        Fiber &f = fib[id];
        f.size = 1 << 20;
        char *m = (char *) mmap(nullptr, f.size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
        mprotect(m, 4096, PROT_NONE);
        f.bottom = m + 4096;
        void **sp = (void **) (f.bottom + f.size);
        *--sp = nullptr;              // alignment: rsp % 16 == 8 on entry of fiberMain
        *--sp = (void *) fiberMain;
        for (int i = 0; i < 6; ++i) *--sp = nullptr;
        f.sp = sp;
        f.tls.assign(g_tlsSize, 0);
        if (g_tlsSize) memcpy(f.tls.data(), g_tlsInit, g_tlsInitSize);
    }
}
// give control to thread `to`; the caller continues when it is given back
static void handOver(int from, int to) {
    if (from == to) return;
    ++sched.switches;
    if (g_tlsSize) { memcpy(fib[from].tls.data(), g_tls, g_tlsSize); memcpy(g_tls, fib[to].tls.data(), g_tlsSize); }
    g_cur = to;
    if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&fib[from].fake, fib[to].bottom, fib[to].size);
    mc_switch(&fib[from].sp, fib[to].sp);
    arrived(from);
}
// pick the next thread; cur is the calling thread (enabled or not)
static int pick(Team *tm, int cur) {
    int en[128], n = 0;
    bool curEn = tm->st[cur] == RUN;
    if (curEn) en[n++] = cur;
    if (omp.policy == 0 || g_exploring) { for (int i = 0; i < tm->T; ++i) if (i != cur && tm->st[i] == RUN) en[n++] = i; }
    else { for (int i = tm->T - 1; i >= 0; --i) if (i != cur && tm->st[i] == RUN) en[n++] = i; }
    if (n == 0) schedFatal("deadlock: no runnable thread in a team of " + std::to_string(tm->T));
    ++sched.points;
    return en[choose(n, curEn ? 1 : 0)];
}
static void schedulePoint(Team *tm, int cur) {
    int to = pick(tm, cur);
    handOver(cur, to);
}
void (*yieldHook)() = nullptr;
void (*workerHook)(int) = nullptr;
void fiberEnsure(int n) { ensureWorkers(n + 1); }
void fiberSwitch(int to) { handOver(g_cur, to); }
void yieldPoint() {
    if (!g_exploring) return;
    interact();
    if (yieldHook) { yieldHook(); return; }
    Ctx &c = ctx();
    if (c.team->T > 1) schedulePoint(c.team, c.tid);
}

static void body(Team *tm, int id) {
    Ctx &c = ctx();
    Ctx saved = c;
    c.team = tm; c.tid = id; c.seq = 0; c.ws = tm->preset; c.level = saved.level + 1;
    tm->fn(tm->data);
    c = saved;
}
static void runWorker(int id) {
    if (workerHook) { workerHook(id); return; }
    Team *tm = g_active;
    hbThreadStart(id);
    body(tm, id);
    tm->st[id] = DONE;
    if (++tm->done == tm->T) { handOver(id, 0); return; }
    int to = pick(tm, id);
    handOver(id, to);
}

static void parallelRun(void (*fn)(void *), void *data, unsigned nt, WorkShare *preset) {
    Ctx &c = ctx();
    int T = nt ? (int) nt : omp.maxThreads;
    if (T > 64) T = 64;
    if (T < 1) T = 1;
    if (omp.deliver > 0 && T > omp.deliver) T = omp.deliver;
    if (c.team != &g_serial) T = 1;          // nested parallelism is off, as by default
    ++sched.regions;
    if ((uint64_t) T > sched.maxTeam) sched.maxTeam = T;
    Team tm;
    tm.T = T; tm.fn = fn; tm.data = data; tm.preset = preset;
    if (T == 1) { tm.st[0] = RUN; body(&tm, 0); return; }
    ensureWorkers(T);
    for (int i = 0; i < T; ++i) { tm.st[i] = RUN; tm.waiting[i] = nullptr; }
    g_active = &tm;
    hbFork(T); nextEpoch();
    // the first thread to run
    int first;
    if (g_exploring) first = choose(T, 0);
    else first = omp.policy == 0 ? 0 : T - 1;
    handOver(0, first);
    body(&tm, 0);
    tm.st[0] = DONE;
    if (++tm.done != tm.T) {
        int to = pick(&tm, 0);
        handOver(0, to);                     // resumed by the last finisher
    }
    if (tm.done != tm.T) schedFatal("internal: master woken early");
    hbJoin(T); nextEpoch(); interact();
    g_active = nullptr;
}

static void barrier() {
    Ctx &c = ctx();
    Team *tm = c.team;
    if (tm->T == 1) return;
    ++sched.barriers;
    tm->st[c.tid] = BARRIER;
    if (++tm->arrived == tm->T) {
        tm->arrived = 0;
        hbBarrier(tm->T); nextEpoch();
        for (int i = 0; i < tm->T; ++i) tm->st[i] = RUN;
        // all threads are released: the order in which they continue is not a preemption
        if (g_exploring) { int to = choose(tm->T, 0); ++sched.points; handOver(c.tid, to); }
        else { int to = omp.policy == 0 ? 0 : tm->T - 1; handOver(c.tid, to); }
        return;
    }
    schedulePoint(tm, c.tid);
}
static void acquire(Lock &l) {
    Ctx &c = ctx();
    Team *tm = c.team;
    ++sched.locks; interact();
    if (tm->T > 1) {
        yieldPoint();
        while (l.owner >= 0) { tm->st[c.tid] = LOCK; tm->waiting[c.tid] = &l; schedulePoint(tm, c.tid); }
    }
    l.owner = c.tid;
    hbAcquire(&l, c.tid);
}
static void release(Lock &l) {
    Ctx &c = ctx();
    Team *tm = c.team;
    hbRelease(&l, c.tid);
    l.owner = -1;
    if (tm->T > 1) for (int i = 0; i < tm->T; ++i) if (tm->st[i] == LOCK && tm->waiting[i] == &l) { tm->st[i] = RUN; tm->waiting[i] = nullptr; }
}
static WorkShare &nextWs() {
    Ctx &c = ctx();
    interact();
    return c.team->ws[c.seq++];
}
static bool wsNext(WorkShare &w, unsigned long long &a, unsigned long long &b) {
    Ctx &c = ctx();
    yieldPoint();
    if (w.next >= w.n) return false;
    unsigned long long ch = w.chunk ? w.chunk : 1, rem = w.n - w.next;
    if (w.guided) { unsigned long long g = (rem + c.team->T - 1) / c.team->T; if (g > ch) ch = g; }
    if (ch > rem) ch = rem;
    a = w.start + w.next * w.incr;
    w.next += ch;
    b = w.start + w.next * w.incr;
    return true;
}
static void wsInit(WorkShare &w, bool up, unsigned long long s, unsigned long long e, unsigned long long inc,
                   unsigned long long chunk, int guided, bool isSigned) {
    if (w.init) return;
    w.init = true;
    w.start = s; w.incr = inc; w.chunk = chunk; w.guided = guided; w.next = 0;
    if (up) {
        bool empty = isSigned ? (long) s >= (long) e : s >= e;
        w.n = empty ? 0 : (e - s + inc - 1) / inc;
    } else {
        unsigned long long dec = 0ull - inc;
        bool empty = isSigned ? (long) s <= (long) e : s <= e;
        w.n = empty ? 0 : (s - e + dec - 1) / dec;
    }
}
static Lock g_crit, g_atom;
static std::map<void *, std::unique_ptr<Lock>> g_named;
static Lock &named(void *p) { auto &u = g_named[p]; if (!u) u.reset(new Lock); return *u; }
static int g_dynamic = 0, g_nested = 0;
} // namespace mc

using namespace mc;
typedef unsigned long long ull;
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { parallelRun(fn, data, nt, nullptr); }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
void GOMP_critical_start() { acquire(g_crit); }
void GOMP_critical_end() { release(g_crit); }
void GOMP_critical_name_start(void **p) { acquire(named(p)); }
void GOMP_critical_name_end(void **p) { release(named(p)); }
void GOMP_atomic_start() { acquire(g_atom); }
void GOMP_atomic_end() { release(g_atom); }
bool GOMP_single_start() {
    WorkShare &w = nextWs(); Ctx &c = ctx(); yieldPoint();
    if (w.claimed >= 0) return false;
    w.claimed = c.tid; return true;
}
void *GOMP_single_copy_start() {
    Ctx &c = ctx(); WorkShare &w = nextWs(); c.ws = &w; yieldPoint();
    if (w.claimed < 0) { w.claimed = c.tid; return nullptr; }
    barrier();
    return w.copy;
}
void GOMP_single_copy_end(void *p) { ctx().ws->copy = p; barrier(); }

#define LOOPS(NAME, GUIDED) \
bool GOMP_loop_##NAME##_start(long s, long e, long inc, long ch, long *a, long *b) { \
    Ctx &c = ctx(); WorkShare &w = nextWs(); c.ws = &w; wsInit(w, inc > 0, s, e, inc, ch, GUIDED, true); \
    ull x, y; if (!wsNext(w, x, y)) return false; *a = (long) x; *b = (long) y; return true; } \
bool GOMP_loop_##NAME##_next(long *a, long *b) { \
    ull x, y; if (!wsNext(*ctx().ws, x, y)) return false; *a = (long) x; *b = (long) y; return true; } \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull inc, ull ch, ull *a, ull *b) { \
    Ctx &c = ctx(); WorkShare &w = nextWs(); c.ws = &w; wsInit(w, up, s, e, inc, ch, GUIDED, false); \
    return wsNext(w, *a, *b); } \
bool GOMP_loop_ull_##NAME##_next(ull *a, ull *b) { return wsNext(*ctx().ws, *a, *b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long s, long e, long inc, long ch, unsigned) { \
    WorkShare w; wsInit(w, inc > 0, s, e, inc, ch, GUIDED, true); parallelRun(fn, d, nt, &w); }
LOOPS(static, 0)
LOOPS(dynamic, 0)
LOOPS(nonmonotonic_dynamic, 0)
LOOPS(guided, 1)
LOOPS(nonmonotonic_guided, 1)
LOOPS(ordered_static, 0)
LOOPS(ordered_dynamic, 0)
LOOPS(ordered_guided, 1)
#define RLOOPS(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long inc, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, inc, 1, a, b); } \
bool GOMP_loop_##NAME##_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); } \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull inc, ull *a, ull *b) { return GOMP_loop_ull_dynamic_start(up, s, e, inc, 1, a, b); } \
bool GOMP_loop_ull_##NAME##_next(ull *a, ull *b) { return GOMP_loop_ull_dynamic_next(a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long s, long e, long inc, unsigned f) { \
    GOMP_parallel_loop_dynamic(fn, d, nt, s, e, inc, 1, f); }
RLOOPS(runtime)
RLOOPS(nonmonotonic_runtime)
RLOOPS(maybe_nonmonotonic_runtime)
RLOOPS(ordered_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(); return false; }
static Lock g_ordered;
void GOMP_ordered_start() { acquire(g_ordered); }
void GOMP_ordered_end() { release(g_ordered); }
unsigned GOMP_sections_start(unsigned n) {
    Ctx &c = ctx(); WorkShare &w = nextWs(); c.ws = &w; wsInit(w, true, 1, (ull) n + 1, 1, 1, 0, false);
    ull a, b; return wsNext(w, a, b) ? (unsigned) a : 0;
}
unsigned GOMP_sections_next() { ull a, b; return wsNext(*ctx().ws, a, b) ? (unsigned) a : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
bool GOMP_sections_end_cancel() { barrier(); return false; }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned n, unsigned) {
    WorkShare w; wsInit(w, true, 1, (ull) n + 1, 1, 1, 0, false); parallelRun(fn, d, nt, &w);
}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
    // tasks run undeferred, a schedule OpenMP allows
    if (sz <= 0) { fn(data); return; }
    char *buf = (char *) malloc(sz + al);
    char *arg = (char *) (((uintptr_t) buf + al - 1) / al * al);
    if (cpy) cpy(arg, data); else memcpy(arg, data, sz);
    fn(arg);
    free(buf);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

int omp_get_thread_num() { return ctx().tid; }
int omp_get_num_threads() { return ctx().team->T; }
int omp_get_max_threads() { return omp.maxThreads; }
void omp_set_num_threads(int n) { if (n > 0) omp.maxThreads = n; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return ctx().team->T > 1; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_set_dynamic(int d) { g_dynamic = d; }
int omp_get_dynamic() { return g_dynamic; }
void omp_set_nested(int n) { g_nested = n; }
int omp_get_nested() { return g_nested; }
int omp_get_level() { return ctx().level; }
int omp_get_active_level() { return ctx().team->T > 1; }
int omp_get_ancestor_thread_num(int l) { return l == ctx().level ? ctx().tid : 0; }
int omp_get_team_size(int l) { return l == ctx().level ? ctx().team->T : 1; }
int omp_get_thread_limit() { return 64; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_cancellation() { return 0; }
int omp_get_num_teams() { return 1; }
int omp_get_team_num() { return 0; }
int omp_is_initial_device() { return 1; }
int omp_get_num_devices() { return 0; }
int omp_get_proc_bind() { return 0; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int *k, int *c) { *k = 2; *c = 1; }
void omp_init_lock(void *p) { named(p).owner = -1; }
void omp_destroy_lock(void *p) { g_named.erase(p); }
void omp_set_lock(void *p) { acquire(named(p)); }
void omp_unset_lock(void *p) { release(named(p)); }
int omp_test_lock(void *p) { Lock &l = named(p); yieldPoint(); if (l.owner >= 0) return 0; l.owner = ctx().tid; hbAcquire(&l, l.owner); return 1; }
void omp_init_nest_lock(void *p) { named(p).owner = -1; }
void omp_destroy_nest_lock(void *p) { g_named.erase(p); }
void omp_set_nest_lock(void *p) { Lock &l = named(p); if (l.owner == ctx().tid && l.depth) { ++l.depth; return; } acquire(l); l.depth = 1; }
void omp_unset_nest_lock(void *p) { Lock &l = named(p); if (--l.depth == 0) release(l); }
int omp_test_nest_lock(void *p) { Lock &l = named(p); if (l.owner == ctx().tid && l.depth) return ++l.depth; if (!omp_test_lock(p)) return 0; return l.depth = 1; }
}
