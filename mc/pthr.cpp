// Runtime behind pstd.h: threads are fibers of omp_shim.cpp, scheduled by its explorer.
#include "shim.h"
#include <sys/single_threaded.h>
#include "pstd.h"
#undef rand
#undef mutex
#undef condition_variable
#undef thread
#undef srand
#undef time
namespace hb {
__attribute__((weak)) void begin(int); __attribute__((weak)) void end(); __attribute__((weak)) void spawn(int, int); __attribute__((weak)) void joined(int, int);
extern __attribute__((weak)) bool muted[128];
__attribute__((weak)) void acquire(const void *, int); __attribute__((weak)) void release(const void *, int);
}
namespace mcp {
Th th[32]; int nth = 1; unsigned hardware = 3;
int openAnswers = 0; uint64_t seqState = 1;
static bool running = false;
int freeCost = 0;
static const char *stName[] = {"free", "running", "waiting for a lock", "waiting for a notification", "waiting for a thread", "ended", "waiting for the others"};
static std::string stateText() { std::string s; for (int i = 0; i < nth; ++i) if (th[i].st != FREE) s += " thread " + std::to_string(i) + " " + stName[th[i].st] + ";"; return s; }
void misuse(const char *w) { mc::schedFatal(w); }
void hbAcq(const void *o) { if (hb::acquire) hb::acquire(o, mc::g_cur); }
void hbRel(const void *o) { if (hb::release) hb::release(o, mc::g_cur); }
static void schedule() {
    int en[32], n = 0, cur = mc::g_cur; bool curEn = th[cur].st == RUN;
    if (curEn) en[n++] = cur;
    for (int i = 0; i < nth; ++i) if (i != cur && th[i].st == RUN) en[n++] = i;
    if (!n) for (int i = 0; i < nth && !n; ++i) if (th[i].st == QUIET) { th[i].st = RUN; en[n++] = i; }
    if (!n) mc::schedFatal("deadlock:" + stateText());
    ++mc::sched.points;
    int to = en[mc::choose(n, curEn ? 1 : freeCost)];
    if (to != cur) mc::fiberSwitch(to);
}
void point() { if (running) schedule(); }
void block(State s, const void *on) { Th &t = th[mc::g_cur]; t.st = s; t.on = on; if (!running) mc::schedFatal("waiting forever outside of any concurrency"); schedule(); }
void wakeAll(State s, const void *on) { for (int i = 0; i < nth; ++i) if (th[i].st == s && th[i].on == on) th[i].st = RUN; }
void mutex::lock() { point(); if (owner == mc::g_cur) misuse("a thread locks a mutex it holds"); while (owner >= 0) block(LOCK, this); owner = mc::g_cur; hbAcq(this); }
bool mutex::try_lock() { point(); if (owner >= 0) return false; owner = mc::g_cur; hbAcq(this); return true; }
void mutex::unlock() { if (owner != mc::g_cur) misuse("a thread unlocks a mutex it does not hold"); hbRel(this); owner = -1; wakeAll(LOCK, this); }
void condition_variable::notify_one() noexcept {
    point();
    int w[32], n = 0; for (int i = 0; i < nth; ++i) if (th[i].st == WAIT && th[i].on == this) w[n++] = i;
    if (n) th[w[mc::choose(n, freeCost)]].st = RUN;
}
void quiesce() { point(); th[mc::g_cur].st = QUIET; schedule(); }
static void worker(int id) {
    auto f = std::move(th[id].fn); th[id].fn = nullptr;
    f(); f = nullptr;
    hbRel(&th[id]);
    th[id].st = th[id].detached ? FREE : DONE;
    wakeAll(JOIN, &th[id]);
    schedule();
}
int spawn(std::function<void()> f) {
    if (!running) misuse("a thread is started outside of an execution");
    int id = 1; while (id < nth && th[id].st != FREE) ++id;
    if (id >= 32) misuse("too many threads for the harness");
    if (id == nth) ++nth;
    mc::fiberEnsure(id);
    th[id].fn = std::move(f); th[id].detached = false; th[id].st = RUN;
    if (hb::spawn) { hb::spawn(mc::g_cur, id); hb::muted[id] = hb::muted[mc::g_cur]; }
    schedule();
    return id;
}
void join(int t) {
    schedule();
    while (th[t].st != DONE) block(JOIN, &th[t]);
    th[t].st = FREE;
    if (hb::joined) hb::joined(mc::g_cur, t);
}
void run(const std::function<void()> &body) {
    __libc_single_threaded = 0;      // reference counts are updated atomically
    mc::yieldHook = [] { schedule(); }; mc::workerHook = worker;
    for (auto &t : th) t.st = FREE;
    th[0].st = RUN; nth = 1; running = true; mc::fiberEnsure(1);
    if (hb::begin) hb::begin(2);
    body();
    running = false;
    if (hb::end) hb::end();
    for (int i = 1; i < nth; ++i) if (th[i].st != FREE) mc::schedFatal("threads are left behind:" + stateText());
}
uint64_t answer() {
    uint64_t r;
    if (openAnswers > 0) { --openAnswers; r = mc::choose(2, 0) ? 0x7fffffff : 0; }
    else { seqState = seqState * 6364136223846793005ull + 1442695040888963407ull; r = seqState >> 33; }
    return r << 33 | (seqState >> 31 & 0x1ffffffff);
}
}
static int randMode = 0;
void mcp_setRand(int m) { randMode = m; }
// rand() modes: 0 middle, 1 smallest, 2 largest, 3 alternating
int mcp_rand() { static int k; return randMode == 0 ? 0x3fffffff : randMode == 1 ? 0 : randMode == 2 ? 0x7fffffff : (++k & 1) ? 0x7fffffff : 0; }
void mcp_srand(unsigned) {}
long mcp_time(long *p) { if (p) *p = 1700000000; return 1700000000; }
namespace std { int mcp_rand() { return ::mcp_rand(); } void mcp_srand(unsigned s) { ::mcp_srand(s); } long mcp_time(long *p) { return ::mcp_time(p); } }
