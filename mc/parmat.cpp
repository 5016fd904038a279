// Q21: PaRMAT's concurrent generation.  The real sources are compiled with the standard library's threads, locks,
// condition variables and random engine replaced by controlled ones (pstd.h).
#include "pstd.h"
void mcp_setRand(int m);
#define main parmat_main
#include "PaRMAT/src/Edge.cpp"
#include "PaRMAT/src/Square.cpp"
#include "PaRMAT/src/utils.cpp"
#include "PaRMAT/src/GraphGen_notSorted.cpp"
#include "PaRMAT/src/GraphGen_sorted.cpp"
#include "PaRMAT/src/PaRMAT.cpp"
#undef main
#include "PaRMAT/src/threadsafe_queue.hpp"
#include "PaRMAT/src/capacity_controller.hpp"
#undef time
#undef rand
#undef srand
#undef thread
#undef mutex
#undef condition_variable
#undef async
#undef future
#undef launch
#include "mc.h"
#include <sys/syscall.h>
using namespace mcx;
typedef uint64_t u64;
// the detector looks at the code under test only
struct Watch {
#ifdef MCX_HB
    Watch() { hb::muted[mc::g_cur] = false; } ~Watch() { hb::muted[mc::g_cur] = true; }
#else
    Watch() {} ~Watch() {}
#endif
};
static std::string what;
static uint64_t defaultCap = 20000;

// every schedule (and every answer of the open choices) within the bound
static void explored(int bound, u64 cap, const std::function<void()> &body) {
    if (cap == 1) { describe = [] { return what; }; mcp::run(body); tick(); ++cnt.traces; ++cnt.transitions; describe = nullptr; return; }
    describe = [] { return what + "\nchoices " + mc::currentSchedule(); };
    auto r = mc::explore(bound, cap, [&] { mcp::run(body); tick(); ++cnt.traces; });
    cnt.schedules += r.executions; cnt.choicePoints += r.choicePoints; cnt.transitions += r.choicePoints; cnt.capped += r.capped; if (r.capped) outcomes["capped: " + curFam]++;
    describe = nullptr;
}
// ---------------------------------------------------------------- threadsafe_queue
struct Item {               // counts its live instances, so that lost and duplicated elements show
    static long live;
    int v;
    Item(int x = -1) : v(x) { ++live; } Item(const Item &o) : v(o.v) { ++live; } Item(Item &&o) noexcept : v(o.v) { o.v = -2; ++live; }
    Item &operator=(const Item &o) { v = o.v; return *this; } Item &operator=(Item &&o) noexcept { v = o.v; o.v = -2; return *this; }
    ~Item() { --live; }
};
long Item::live = 0;
struct Ev { char op; int val; int begin, end; };      // val: pushed / popped value, -1 = nothing there; E: 1 = empty
static int clockNow;
static bool linear(std::vector<Ev> &h, unsigned done, std::vector<int> &q, size_t head) {
    if (done == (1u << h.size()) - 1) return true;
    int firstEnd = 1 << 30;
    for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) firstEnd = std::min(firstEnd, h[i].end);
    for (size_t i = 0; i < h.size(); ++i) {
        if (done >> i & 1 || h[i].begin > firstEnd) continue;
        Ev &e = h[i];
        bool empty = head == q.size();
        if (e.op == 'P') { q.push_back(e.val); bool ok = linear(h, done | 1u << i, q, head); q.pop_back(); if (ok) return true; }
        else if (e.op == 'E') { if (e.val == (int) empty && linear(h, done | 1u << i, q, head)) return true; }
        else if (e.val == -1) { if (empty && linear(h, done | 1u << i, q, head)) return true; }
        else if (!empty && q[head] == e.val && linear(h, done | 1u << i, q, head + 1)) return true;
    }
    return false;
}
template <class Q, class = void> struct HasEmpty : std::false_type {};
template <class Q> struct HasEmpty<Q, std::enable_if_t<std::is_same<decltype(std::declval<Q &>().empty()), bool>::value>> : std::true_type {};
template <class Q> static int isEmpty(Q &q) { if constexpr (HasEmpty<Q>::value) return q.empty(); else { q.empty(); return -1; } }
static std::vector<Ev> hist;
static void queueProgram(const std::vector<std::string> &prog, int prefill, int bound, u64 cap) {
    what = fmt("threadsafe_queue, %d elements beforehand", prefill); for (auto &p : prog) what += ", thread: " + p;
    what += " (P push, T try_pop(value), t try_pop(), W wait_and_pop(value), w wait_and_pop(), E empty())";
    ++cnt.states; curOp = "threadsafe_queue";
    explored(bound, cap, [&] {
        hist.clear(); clockNow = 0; long before = Item::live;
        {
            threadsafe_queue<Item> q; int next = 0;
            for (int i = 0; i < prefill; ++i) { int b = clockNow++; { Watch w_; q.push(Item(next)); } hist.push_back({'P', next++, b, clockNow++}); }
            auto exec = [&](char op, int val) {
                int b = clockNow++, r = val;
                { Watch w_;
                if (op == 'P') q.push(Item(val));
                else if (op == 'T') { Item x; r = q.try_pop(x) ? x.v : -1; }
                else if (op == 't') { auto p = q.try_pop(); r = p ? p->v : -1; }
                else if (op == 'W') { Item x; q.wait_and_pop(x); r = x.v; }
                else if (op == 'w') { auto p = q.wait_and_pop(); r = p ? p->v : -3; }
                else r = isEmpty(q); }
                if (op != 'E' || r >= 0) hist.push_back({op, r, b, clockNow++});
            };
            std::vector<mcp::thread> ts; int base = next;
            for (auto &p : prog) { int b = base; for (char c : p) if (c == 'P') ++base; ts.emplace_back([&exec, &p, b]() mutable { for (char c : p) exec(c, c == 'P' ? b++ : 0); }); }
            for (auto &t : ts) t.join();
            int left = prefill; for (auto &e : hist) { if (e.op == 'P' && e.val >= prefill) ++left; if (e.op != 'P' && e.op != 'E' && e.val != -1) --left; }
            exec('E', 0);
            for (int i = 0; i < left - (int) (prog.size() & 1); ++i) exec(i & 1 ? 'W' : 't', 0);     // an element may stay for the destructor
            if (!(prog.size() & 1)) exec('T', 0);
            std::vector<int> st;
            if (hist.size() < 32 && !linear(hist, 0, st, 0)) {
                std::string s; for (auto &e : hist) s += fmt(" %c%d[%d,%d]", e.op, e.val, e.begin, e.end);
                fail("queue/history", "the history is not that of a FIFO queue:" + s);
            }
        }
        if (Item::live != before) fail("queue/live", fmt("%ld elements left alive", Item::live - before));
    });
}
// all programs of n threads with up to m operations over the alphabet, whose waits are all served
static void addQueue(Harness &h, int n, int m, std::string ops, int prefillMax, int bound, u64 cap) {
    std::vector<std::string> all; std::function<void(std::string)> gen = [&](std::string s) { if (!s.empty()) all.push_back(s); if ((int) s.size() < m) for (char c : ops) gen(s + c); }; gen("");
    std::vector<std::pair<std::vector<std::string>, int>> progs;
    std::function<void(size_t, std::vector<std::string>)> rec = [&](size_t from, std::vector<std::string> p) {
        if ((int) p.size() == n) {
            for (int pre = 0; pre <= prefillMax; ++pre) {
                int push = pre, wait = 0, tryp = 0; for (auto &s : p) for (char c : s) { push += c == 'P'; wait += c == 'W' || c == 'w'; tryp += c == 'T' || c == 't'; }
                // a waiter is served if the remaining pushes suffice whatever the tries take, and its own pushes do not come too late
                if (wait && push < wait + tryp) continue;
                if (!wait && !tryp) continue;
                bool late = false; for (auto &s : p) { size_t w = s.find_first_of("Ww"); if (w != std::string::npos && s.find('P', w) != std::string::npos) late = true; }
                if (late) continue;
                progs.push_back({p, pre});
            }
            return;
        }
        for (size_t i = from; i < all.size(); ++i) { auto q = p; q.push_back(all[i]); rec(i, q); }
    };
    rec(0, {});
    h.add(fmt("queue: %d threads, up to %d operations of %s, %d preemptions", n, m, ops.c_str(), bound), progs.size(), [=](u64 i) { queueProgram(progs[i].first, progs[i].second, bound, cap); });
}
// ---------------------------------------------------------------- capacity_controller
static void capacityProgram(const std::vector<std::vector<int>> &prog, int max, int init, bool consumer, int bound, u64 cap) {
    what = fmt("capacity_controller(%d, %d)%s", max, init, consumer ? ", one thread gives everything back" : ", every thread gives back what it took");
    for (auto &p : prog) { what += ", thread:"; for (int k : p) what += fmt(" %d", k); }
    ++cnt.states; curOp = "capacity_controller";
    explored(bound, cap, [&] {
        capacity_controller<long long> g(max, init);
        long long used = init, total = 0; std::deque<int> taken; mcp::mutex m; mcp::condition_variable cv;
        std::vector<mcp::thread> ts; size_t n = 0; for (auto &p : prog) n += p.size();
        auto took = [&](int k) { used += k; if (used > max) fail("capacity/exceeded", fmt("%lld in use, the limit is %d", used, max)); };
        for (auto &p : prog) ts.emplace_back([&] {
            for (int k : p) {
                { Watch w_; g.accumulate(k); } took(k);
                if (!consumer) { mcp::point(); used -= k; { Watch w_; g.dissipate(k); } }
                else { m.lock(); taken.push_back(k); m.unlock(); cv.notify_one(); }
            }
        });
        if (init) { used -= init; g.dissipate(init); }
        if (consumer) for (size_t i = 0; i < n; ++i) {
            std::unique_lock<mcp::mutex> l(m); cv.wait(l, [&] { return !taken.empty(); });
            int k = taken.front(); taken.pop_front(); l.unlock();
            used -= k; { Watch w_; g.dissipate(k); }
        }
        for (auto &t : ts) t.join();
        // the whole capacity is available again
        g.accumulate(max); g.dissipate(max); (void) total;
    });
}
static void addCapacity(Harness &h, int n, int m, int max, int bound, u64 cap) {
    std::vector<std::vector<int>> all; std::function<void(std::vector<int>)> gen = [&](std::vector<int> s) { if (!s.empty()) all.push_back(s); if ((int) s.size() < m) for (int k = 0; k <= max; ++k) { auto t = s; t.push_back(k); gen(t); } }; gen({});
    std::vector<std::vector<std::vector<int>>> progs; std::function<void(size_t, std::vector<std::vector<int>>)> rec = [&](size_t from, std::vector<std::vector<int>> p) { if ((int) p.size() == n) { progs.push_back(p); return; } for (size_t i = from; i < all.size(); ++i) { auto q = p; q.push_back(all[i]); rec(i, q); } };
    rec(0, {});
    h.add(fmt("capacity: %d threads, up to %d requests, limit %d, %d preemptions", n, m, max, bound), progs.size() * 3, [=](u64 i) { capacityProgram(progs[i / 3], max, i % 3 == 2 ? max : 0, i % 3, bound, cap); });
}
// requests wait for a capacity that is given back in parts: whenever nothing moves any more, no waiting request fits
static void capacityParts(const std::vector<int> &req, const std::vector<int> &parts, int max, int bound, u64 cap) {
    what = fmt("capacity_controller(%d, %d), requests:", max, max); for (int k : req) what += fmt(" %d", k); what += ", given back:"; for (int k : parts) what += fmt(" %d", k);
    ++cnt.states; curOp = "capacity_controller";
    explored(bound, cap, [&] {
        capacity_controller<long long> g(max, max);
        long long used = max; std::vector<char> got(req.size(), 0), back(req.size(), 0); std::vector<mcp::thread> ts;
        for (size_t i = 0; i < req.size(); ++i) ts.emplace_back([&, i] { { Watch w_; g.accumulate(req[i]); } used += req[i]; got[i] = 1; if (used > max) fail("capacity/exceeded", fmt("%lld in use, the limit is %d", used, max)); });
        auto settle = [&] { mcp::quiesce(); for (size_t i = 0; i < req.size(); ++i) if (!got[i] && used + req[i] <= max) fail("capacity/waits", fmt("nothing moves, %lld of %d are in use and the request of %d is not granted", used, max, req[i])); };
        settle();
        for (int d : parts) { used -= d; { Watch w_; g.dissipate(d); } settle(); }
        for (size_t n = 0; n < req.size(); ++n) for (size_t i = 0; i < req.size(); ++i) if (got[i] && !back[i]) { back[i] = 1; used -= req[i]; { Watch w_; g.dissipate(req[i]); } settle(); }
        for (auto &t : ts) t.join();
    });
}
static void addCapacityParts(Harness &h, int n, int max, int bound, u64 cap) {
    std::vector<std::vector<int>> reqs, parts;
    std::function<void(std::vector<int>)> r = [&](std::vector<int> s) { if ((int) s.size() == n) { reqs.push_back(s); return; } for (int k = s.empty() ? 0 : s.back(); k <= max; ++k) { auto t = s; t.push_back(k); r(t); } }; r({});
    std::function<void(std::vector<int>, int)> q = [&](std::vector<int> s, int left) { if (!left) { parts.push_back(s); return; } for (int k = 1; k <= left; ++k) { auto t = s; t.push_back(k); q(t, left - k); } }; q({}, max);
    h.add(fmt("capacity given back in parts: %d requests, limit %d, %d deviations", n, max, bound), reqs.size() * parts.size(), [=](u64 i) { capacityParts(reqs[i % reqs.size()], parts[i / reqs.size()], max, bound, cap); });
}
// ---------------------------------------------------------------- graphs
enum { SORTED, UNSORTED, VECTOR, CLI };
static const char *apiName[] = {"sorted", "not sorted", "vector", "program"};
struct Gen { int api; unsigned long long e, v; double a, b, c; unsigned threads; unsigned long long cap; bool self, dup, dir; int rnd; bool cliSorted = false;
    std::string str() const { return fmt("%s%s: %llu edges, vertices 0..%llu, a=%g b=%g c=%g, %u threads, capacity %llu%s%s%s, rand() mode %d", apiName[api], cliSorted ? " -sorted" : "", e, v, a, b, c, threads, cap, self ? "" : ", no self edges", dup ? "" : ", no duplicates", dir ? "" : ", undirected", rnd); } };
static int outFd = -1; static std::string outPath;
static void openOut() {
    if (outFd >= 0) return;
    outFd = memfd_create("mc", 0); outPath = fmt("/proc/self/fd/%d", outFd);
    FILE *t = outFd >= 0 ? fopen(outPath.c_str(), "w") : nullptr;
    if (t) fclose(t); else { char b[] = "/tmp/mcparmat-XXXXXX"; outFd = mkstemp(b); outPath = b; }
}
typedef std::vector<std::pair<long long, long long>> EdgeList;
static EdgeList parse(bool &bad) {
    off_t n = lseek(outFd, 0, SEEK_END); std::string s(n, 0); bad = false;
    if (pread(outFd, &s[0], n, 0) != n) { bad = true; return {}; }
    EdgeList r; size_t i = 0;
    auto num = [&](long long &x) { size_t st = i; x = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9') x = x * 10 + (s[i++] - '0'); if (i == st) bad = true; };
    while (i < s.size() && !bad) { long long x, y; num(x); if (bad || i >= s.size() || (s[i] != '\t' && s[i] != ' ')) { bad = true; break; } ++i; num(y); if (bad || i >= s.size() || s[i] != '\n') { bad = true; break; } ++i; r.push_back({x, y}); }
    return r;
}
static std::streambuf *coutBuf;
static std::set<std::pair<long long, long long>> *seenEdges;
static void generate(const Gen &g) {
    EdgeList r; bool bad = false;
    if (g.api == VECTOR) { std::vector<std::pair<int64_t, int64_t>> v; { Watch w_; v = GraphGen_notSorted::GenerateGraph(g.e, g.v, g.a, g.b, g.c, g.threads, g.cap, g.self, g.dup, g.dir); } for (auto &x : v) r.push_back(x); }
    else {
        openOut();
        if (ftruncate(outFd, 0)) {}
        if (g.api == CLI) {
            std::vector<std::string> args = {"PaRMAT", "-nEdges", std::to_string(g.e), "-nVertices", std::to_string(g.v + 1), "-output", outPath, "-a", fmt("%g", g.a), "-b", fmt("%g", g.b), "-c", fmt("%g", g.c)};
            if (g.threads) { args.push_back("-threads"); args.push_back(std::to_string(g.threads)); }
            if (g.cliSorted) args.push_back("-sorted");
            if (!g.self) args.push_back("-noEdgeToSelf");
            if (!g.dup) args.push_back("-noDuplicateEdges");
            if (!g.dir) args.push_back("-undirected");
            std::vector<char *> av; for (auto &a : args) av.push_back(&a[0]); av.push_back(nullptr);
            int rc = parmat_main((int) args.size(), av.data());
            if (rc) { fail("graph/status", fmt("returns %d", rc)); return; }
        } else {
            std::ofstream f(outPath);
            bool rc; { Watch w_; rc = g.api == SORTED ? GraphGen_sorted::GenerateGraph(g.e, g.v, g.a, g.b, g.c, g.threads, f, g.cap, g.self, g.dup, g.dir) : GraphGen_notSorted::GenerateGraph(g.e, g.v, g.a, g.b, g.c, g.threads, f, g.cap, g.self, g.dup, g.dir); }
            if (rc != EXIT_SUCCESS) fail("graph/status", "reports failure");
            f.close();
        }
        r = parse(bad);
        if (bad) { fail("graph/file", "the output file is not a list of edges"); return; }
    }
    if (r.size() != g.e) fail("graph/count", fmt("%zu edges instead of %llu", r.size(), g.e));
    bool sorted = g.api == SORTED || (g.api == CLI && g.cliSorted);
    for (size_t i = 0; i < r.size(); ++i) {
        auto x = r[i];
        if (x.first < 0 || x.second < 0 || x.first > (long long) g.v || x.second > (long long) g.v) fail("graph/range", fmt("edge %lld %lld is out of range", x.first, x.second));
        if (!g.self && x.first == x.second) fail("graph/self", fmt("edge %lld %lld", x.first, x.second));
        if (!g.dir && x.first > x.second) fail("graph/triangle", fmt("undirected graph has edge %lld %lld", x.first, x.second));
        if (sorted && i && r[i - 1].first > x.first) fail("graph/order", fmt("source %lld follows %lld", x.first, r[i - 1].first));
        if (seenEdges) seenEdges->insert(x);
    }
    if (!g.dup) { std::sort(r.begin(), r.end()); for (size_t i = 1; i < r.size(); ++i) if (r[i] == r[i - 1]) fail("graph/duplicate", fmt("edge %lld %lld occurs twice", r[i].first, r[i].second)); }
}
static void graphCase(const Gen &g, int open, int bound, u64 cap, u64 seed) {
    what = g.str(); curOp = "GenerateGraph"; ++cnt.states;
    explored(bound, cap, [&] { mcp::openAnswers = open; mcp::seqState = seed; mcp_setRand(g.rnd); generate(g); });
}
static const double abc[][3] = {{0.45, 0.22, 0.22}, {0.25, 0.25, 0.25}, {0.57, 0.19, 0.19}, {0.1, 0.2, 0.3}};
// small graphs: every sequence of the first `open` random answers
static void addAnswers(Harness &h, int maxV, int maxE, int open) {
    u64 n = 3ull * 8 * maxV * maxE * 2;
    h.add(fmt("graphs with up to %d vertices and %d edges, all sequences of %d random answers", maxV, maxE, open), n, [=](u64 i) {
        Gen g; g.api = i % 3; i /= 3; int fl = i % 8; i /= 8; g.v = i % maxV; i /= maxV; g.e = 1 + i % maxE; i /= maxE; g.rnd = i;
        g.self = fl & 1; g.dup = fl & 2; g.dir = fl & 4; g.threads = 1; g.cap = 1000; g.a = 0.45; g.b = g.c = 0.22;
        u64 n = g.v + 1, room = g.dir ? n * n : n * (n + 1) / 2; if (!g.self) room -= n;
        if (g.dup ? room < 1 : room < g.e) { outcomes["infeasible requests skipped"]++; return; }
        if (g.rnd == 1) { g.rnd = 2; }
        std::set<std::pair<long long, long long>> seen; seenEdges = &seen;
        graphCase(g, open, 0, 1u << (open + 1), 42);
        seenEdges = nullptr;
        // with every answer possible every permitted edge occurs
        int need = 0; while ((1ull << need) < n) ++need;
        if (2 * need + 2 <= open && seen.size() != room) { what = g.str(); describe = [] { return what; }; fail("graph/unreachable", fmt("only %zu of the %zu possible edges ever occur", seen.size(), (size_t) room)); describe = nullptr; }
    });
}
static bool feasible(const Gen &g) {
    // what the generator documents ("avoiding very small regions"): squares must stay sparse.  Follow the square that
    // gets the largest share (and what rounding leaves over) down to the capacity and to enough parts for the threads.
    double n = g.v + 1, e = g.e, share = g.dir ? std::max({g.a, g.b, g.c, 1 - g.a - g.b - g.c}) : std::max({g.a, g.b + g.c, 1 - g.a - g.b - g.c});
    share += 0.03; int levels = g.threads > 1 ? 3 : 0;
    for (int l = 0; e > g.cap || l < levels; ++l) { if (l > 40) return false; e = std::min(e, e * share + 3); n = std::floor(n / 2); if (n < 4) return false; }
    if (g.api == SORTED) {       // here the capacity bounds whole columns of squares, each of which leaves something over
        double ce = g.e, cs = std::max(g.a + g.c, 1 - g.a - g.c) + 0.03, k = 1, m = g.v + 1;
        while (ce > g.cap) { ce = std::min(ce, ce * cs + 3 * k); k *= 2; m = std::floor(m / 2); if (m < 4) return false; }
    }
    if (g.self && g.dup) return n >= 1;
    return 3 * e <= (g.dir ? n * n - n : n * (n - 1) / 2);
}
// capacity and thread count force several squares: schedules
static void addThreads(Harness &h, int bound, u64 cap, int nsz) {
    struct Sz { unsigned long long v, e; }; static const Sz sz[] = {{100, 7}, {31, 20}, {255, 60}, {1023, 200}, {63, 1}, {999, 37}};
    h.add(fmt("graphs from several threads, %d sizes, %d delays", nsz, bound), 3ull * 8 * nsz * 4 * 3 * 2, [=](u64 i) {
        Gen g; g.api = i % 3; i /= 3; int fl = i % 8; i /= 8; auto z = sz[i % nsz]; i /= nsz; g.v = z.v; g.e = z.e; auto &p = abc[(i + fl) % 4]; g.rnd = i % 4; i /= 4; int t = i % 3; i /= 3; g.threads = 2 + t;
        g.a = p[0]; g.b = p[1]; g.c = p[2]; g.self = fl & 1; g.dup = fl & 2; g.dir = fl & 4;
        g.cap = i ? z.e / 2 + 2 : z.e;
        if (!feasible(g)) { outcomes["infeasible requests skipped"]++; return; }
        mcp::freeCost = 1; graphCase(g, 0, bound, cap, 7 + fl); mcp::freeCost = 0;
    });
}
// sizes without exploration of the schedules
static void addSizes(Harness &h, std::vector<unsigned long long> vs, std::vector<unsigned long long> es, std::vector<unsigned> ts) {
    u64 n = 3ull * 8 * vs.size() * es.size() * ts.size() * 3;
    h.add("graphs of many sizes", n, [=](u64 i) {
        Gen g; g.api = i % 3; i /= 3; int fl = i % 8; i /= 8; g.v = vs[i % vs.size()]; i /= vs.size(); g.e = es[i % es.size()]; i /= es.size(); g.threads = ts[i % ts.size()]; i /= ts.size();
        g.self = fl & 1; g.dup = fl & 2; g.dir = fl & 4; auto &p = abc[(g.v + g.e) % 4]; g.a = p[0]; g.b = p[1]; g.c = p[2]; g.rnd = (g.v * 3 + g.e + i) % 4;
        g.cap = i == 0 ? g.e : i == 1 ? g.e / 3 + 1 : g.e / 8 + 4;
        if (!feasible(g)) { outcomes["infeasible requests skipped"]++; return; }
        graphCase(g, 0, 0, 1, 99 + fl);
    });
}
static void addCli(Harness &h) {
    struct Sz { unsigned long long v, e; }; static const Sz sz[] = {{149, 10000}, {199, 10007}, {1999, 12000}, {49, 300}, {5, 4}, {0, 1}};
    h.add("the program", 6 * 16 * 4, [=](u64 i) {
        Gen g; g.api = CLI; int fl = i % 16; i /= 16; auto z = sz[i % 6]; i /= 6; g.v = z.v; g.e = z.e; g.threads = i; g.self = fl & 1; g.dup = fl & 2; g.dir = fl & 4; g.cliSorted = fl & 8; g.rnd = (fl + i) % 4; g.cap = 1u << 30;
        g.a = 0.45; g.b = g.c = 0.22;
        if (g.e >= (g.v + 1) * (g.v + 1)) {
            // documented: a request that cannot be met is refused
            openOut(); what = g.str(); describe = [] { return what; }; ++cnt.states; ++cnt.traces; curOp = "main";
            std::string v = std::to_string(g.v + 1), e = std::to_string(g.e); const char *av[] = {"PaRMAT", "-nEdges", e.c_str(), "-nVertices", v.c_str(), "-output", outPath.c_str(), nullptr};
            if (parmat_main(7, (char **) av) != EXIT_FAILURE) fail("graph/refuse", "a request for too many edges is accepted");
            describe = nullptr; return;
        }
        if (!feasible(g)) { outcomes["infeasible requests skipped"]++; return; }
        graphCase(g, 0, 0, 1, 5 + fl);
    });
}
int mcx::setup(Harness &h) {
    static struct Null : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } } nul;
    if (!std::getenv("MCX_STDOUT")) { std::cout.rdbuf(&nul); std::cerr.rdbuf(&nul); }
    mc::onFatal = [](const std::string &s) { fail(std::string(curOp) + "/sched", std::string(curOp) + ": " + s); printCounters(); _exit(1); };
    const bool T = thorough; const u64 cap = T ? 2000000 : 30000;
#ifdef MCX_HB
    for (auto &m : hb::muted) m = true;
    hb::ignore(&Item::live, sizeof Item::live);
    addQueue(h, 2, T ? 3 : 2, "PTWE", 1, 2, cap);
    addQueue(h, 3, 1, "PTtWwE", 1, T ? 2 : 1, cap);
    addCapacity(h, 2, 1, 3, 2, cap);
    addThreads(h, T ? 2 : 1, cap, 4);
#else
    addQueue(h, 2, 2, "PTtWwE", 1, T ? 8 : 4, cap);
    addQueue(h, 2, 3, "PTW", 1, T ? 5 : 2, cap);
    addQueue(h, 3, 1, "PTtWwE", 1, T ? 4 : 2, cap);
    addQueue(h, 3, 2, "PTW", 0, T ? 3 : 1, cap);
    addCapacity(h, 2, 2, 3, T ? 4 : 2, T ? cap : 300000);
    addCapacity(h, 3, 1, 3, T ? 3 : 1, cap);
    if (T) addCapacity(h, 3, 2, 2, 2, cap);
    addCapacityParts(h, 2, 3, T ? 5 : 2, cap); addCapacityParts(h, 2, 5, T ? 3 : 1, cap); addCapacityParts(h, 3, 3, T ? 2 : 1, T ? cap : 200000); if (T) addCapacityParts(h, 4, 3, 1, cap);
    addAnswers(h, T ? 9 : 6, T ? 5 : 3, T ? 12 : 8);
    addThreads(h, 1, cap, T ? 6 : 4);
    addThreads(h, 2, cap, T ? 6 : 1);
    addSizes(h, T ? std::vector<unsigned long long>{7, 8, 15, 16, 30, 31, 32, 63, 64, 100, 255, 256, 499, 1000, 4095} : std::vector<unsigned long long>{7, 16, 31, 64, 99, 256, 1000}, T ? std::vector<unsigned long long>{1, 2, 3, 5, 8, 13, 40, 100, 333, 1000, 5000} : std::vector<unsigned long long>{1, 2, 5, 33, 100, 1000}, T ? std::vector<unsigned>{1, 2, 3, 4, 5, 6, 8} : std::vector<unsigned>{1, 2, 3, 5});
    addCli(h);
#endif
    return 0;
}
int main(int argc, char **argv) { return mcx::mainLoop(argc, argv); }
