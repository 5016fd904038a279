// G20: the benchmark drivers themselves (their main function, on Matrix Market files) against brute force, on every
// small labelled graph.  Real OpenMP runtime and real GraphBLAS; rand() is replaced so that runs are reproducible and
// so that "all random values equal" is one of the cases.
#include <cassert>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <numeric>
#include <cmath>
#include <set>
#include <omp.h>
#include <sys/wait.h>
#include <fcntl.h>
extern "C" {
#include "GraphBLAS.h"
}
#define MCX_TRICNT 1
#define MCX_TRICNTGRB 2
#define MCX_KTRUSS 3
#define MCX_BC 4
// one GraphBLAS session for the whole run
static int grbInits, grbFinals;
static GrB_Info grbInit(int) { ++grbInits; return GrB_SUCCESS; }
static GrB_Info grbFinalize() { ++grbFinals; return GrB_SUCCESS; }
#define GrB_init(x) grbInit(x)
#define GrB_finalize() grbFinalize()
#if MCX_DRIVER == MCX_TRICNTGRB
#define GrB_Matrix_wait(x) GrB_Matrix_wait(*(x), GrB_COMPLETE)       // written for GraphBLAS 5
#endif
#define main driver_main
#if MCX_DRIVER == MCX_TRICNT
#include "benchmarks/TriCntAll.cpp"
#elif MCX_DRIVER == MCX_TRICNTGRB
#include "benchmarks/TriCntAllGrb.cpp"
#elif MCX_DRIVER == MCX_KTRUSS
#include "benchmarks/KTrussAllGrb.cpp"
#else
#include "benchmarks/BCAllGrb.cpp"
#endif
#undef main
#undef GrB_init
#undef GrB_finalize
#include "mc.h"
using namespace mcx;
typedef uint64_t u64;
typedef std::vector<std::pair<int, int>> Edges;      // 0-based, in file order

static int randMode; static unsigned long randState;
extern "C" int rand(void) noexcept { if (randMode == 0) return 4; randState = randState * 6364136223846793005ull + 1442695040888963407ull; return (int) (randState >> 33 & 0x7fffffff); }

static std::string filePath; static int fileFd = -1;
static void writeFile(const std::string &s) {
    if (fileFd < 0) {
        fileFd = memfd_create("mc", 0);
        filePath = fmt("/proc/self/fd/%d", fileFd);
        FILE *t = fileFd >= 0 ? fopen(filePath.c_str(), "r") : nullptr;
        if (t) fclose(t);
        else { char b[] = "/tmp/mcdrv-XXXXXX"; fileFd = mkstemp(b); filePath = b; }
    }
    if (ftruncate(fileFd, 0) || pwrite(fileFd, s.data(), s.size(), 0) != (ssize_t) s.size()) { perror("scratch file"); _exit(3); }
}
static std::string fileOf(int n, const Edges &e, bool sym) {
    std::string s = std::string("%%MatrixMarket matrix coordinate pattern ") + (sym ? "symmetric\n" : "general\n") + fmt("%d %d %zu\n", n, n, e.size());
    for (auto &x : e) s += fmt("%d %d\n", x.first + 1, x.second + 1);
    return s;
}
struct Line { std::string alg; std::vector<std::string> f; };
static std::string what;
static std::vector<Line> runDriver(const char *mode, std::vector<std::string> args) {
    setenv("MODE", mode, 1); curOp = mode;
    std::ostringstream out;
    auto *old = std::cout.rdbuf(out.rdbuf());
    args.insert(args.begin(), {"driver", filePath});
    std::vector<char *> av; for (auto &a : args) av.push_back((char *) a.c_str()); av.push_back(nullptr);
    int rc = driver_main((int) args.size(), av.data());
    std::cout.rdbuf(old);
    if (rc != 0) fail(std::string(mode) + "/status", fmt("returns %d", rc));
    std::vector<Line> r; std::istringstream in(out.str()); std::string l;
    while (std::getline(in, l)) {
        size_t p = l.find_first_not_of(' ');
        if (p == std::string::npos || l.compare(p, 3, "LOG") || (l[p + 3] != ';' && l[p + 3] != ',')) continue;
        char sep = l[p + 3]; Line x; std::string w;
        // the algorithm's name may contain the separator
        std::vector<std::string> f; std::istringstream ls(l); while (std::getline(ls, w, sep)) { size_t a = w.find_first_not_of(" "), b = w.find_last_not_of(" "); f.push_back(a == std::string::npos ? "" : w.substr(a, b - a + 1)); }
        x.f = f; r.push_back(x); ++cnt.traces;
    }
    return r;
}
// fields counted from the end of the line (the name may contain separators)
static std::string tail(const Line &l, size_t k) { return l.f.size() > k ? l.f[l.f.size() - 1 - k] : ""; }
static std::string nameOf(const Line &l) { std::string s; for (size_t i = 2; i < l.f.size() && i < 5; ++i) s += (i > 2 ? "," : "") + l.f[i]; return s; }
struct Graph { int n; std::vector<std::vector<char>> a; Graph(int n_) : n(n_), a(n_, std::vector<char>(n_, 0)) {} };
static Graph und(int n, const Edges &e) { Graph g(n); for (auto &x : e) if (x.first != x.second) g.a[x.first][x.second] = g.a[x.second][x.first] = 1; return g; }
static long triangles(const Graph &g) { long t = 0; for (int i = 0; i < g.n; ++i) for (int j = 0; j < i; ++j) for (int k = 0; k < j; ++k) t += g.a[i][j] && g.a[j][k] && g.a[i][k]; return t; }
static long trussEdges(Graph g, int k) {
    for (;;) {
        bool ch = false; Graph h = g;
        for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) if (g.a[i][j]) { int s = 0; for (int v = 0; v < g.n; ++v) s += g.a[i][v] && g.a[v][j]; if (s < k - 2) { h.a[i][j] = h.a[j][i] = 0; ch = true; } }
        g = h; if (!ch) break;
    }
    long c = 0; for (auto &r : g.a) for (char x : r) c += x; return c;
}
// sum over the vertices of the dependencies of source s (directed graph g)
static double bcFrom(const Graph &g, int s) {
    int n = g.n; std::vector<int> d(n, -1), order; std::vector<double> sig(n, 0), del(n, 0); d[s] = 0; sig[s] = 1; order.push_back(s);
    for (size_t q = 0; q < order.size(); ++q) { int v = order[q]; for (int w = 0; w < n; ++w) if (g.a[v][w]) { if (d[w] < 0) { d[w] = d[v] + 1; order.push_back(w); } if (d[w] == d[v] + 1) sig[w] += sig[v]; } }
    double sum = 0;
    for (size_t q = order.size(); q-- > 0;) { int w = order[q]; for (int v = 0; v < n; ++v) if (g.a[v][w] && d[v] == d[w] - 1) del[v] += sig[v] / sig[w] * (1 + del[w]); if (w != s) sum += del[w]; }
    return sum;
}
static bool child = false;
static void judge(int n, const Edges &e, bool sym, u64 variant, const std::vector<const char *> &modes) {
    randMode = (variant & 1) ? 0 : 1; randState = 88172645463325252ull + variant;
    writeFile(fileOf(n, e, sym));
    ++cnt.states;
    std::vector<std::string> threads;
#if MCX_DRIVER == MCX_TRICNT
    threads = {std::to_string(1 + variant % 3)};
#else
    threads = {std::to_string(1 + variant % 3), std::to_string(1 + (variant + 1 + variant / 3 % 2) % 3)};
#endif
    std::vector<int> extra = {0};
#if MCX_DRIVER == MCX_KTRUSS
    extra = thorough ? std::vector<int>{3, 4, 5} : variant % 4 == 0 ? std::vector<int>{3, 5} : variant % 4 == 1 ? std::vector<int>{4} : std::vector<int>{3};
#elif MCX_DRIVER == MCX_BC
    extra = {n}; if (n > 1) extra.push_back(1 + (int) (variant % (n - 1)));
#endif
    for (int x : extra) for (auto mode : modes) {
        std::vector<std::string> args = threads;
        if (x) args.insert(args.begin(), std::to_string(x));
        what = fmt("%s, mode %s%s, threads %s, rand %d\n", sym ? "symmetric" : "general", mode, x ? fmt(", argument %d", x).c_str() : "", threads[0].c_str(), randMode) + fileOf(n, e, sym);
        describe = [] { return what; }; tick();
#if MCX_DRIVER == MCX_TRICNT
        if (!child && std::none_of(e.begin(), e.end(), [](const std::pair<int, int> &y) { return y.first != y.second; })) {
            // the driver may crash here (recorded defect), so in a process of its own
            pid_t p = fork();
            if (!p) {
                int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); dup2(nul, 1);
                setenv("MCX_CHILD", fmt("%d %d %llu %s", n, (int) sym, (unsigned long long) variant, mode).c_str(), 1);
                std::string es; for (auto &y : e) es += fmt("%d ", y.first);
                setenv("MCX_CHILD_E", es.c_str(), 1);
                execl("/proc/self/exe", "drivers", (char *) nullptr); _exit(9);
            }
            int st = 0; waitpid(p, &st, 0); ++cnt.traces; ++cnt.transitions;
            if (st) fail("tricnt-edgeless", fmt("the driver crashes or reports a wrong count (status %x)", st));
            continue;
        }
#endif
        auto lines = runDriver(mode, args);
        if (lines.empty()) { fail(std::string(mode) + "/no-result", "no result line"); continue; }
        for (auto &l : lines) {
            ++cnt.transitions;
            std::string key = std::string(mode) + "/" + l.f[2];
            auto bad = [&](const std::string &m) { fail(key, nameOf(l) + ": " + m); };
#if MCX_DRIVER == MCX_TRICNT
            long t = triangles(und(n, e));                               // ..., nnz, sum, checksum
            Graph ug = und(n, e); long ends = 0; for (auto &r : ug.a) for (char c : r) ends += c;
            // recorded defects of the driver file (benchmarks/ is out of reach for a repair): known_findings.txt
            if (!ends) key = "tricnt-edgeless";
            else if (l.f[2].rfind("HashIntersect", 0) == 0 && t > 0 && tail(l, 1) == tail(l, 2)) key = "tricnt-hashintersect";
            if (tail(l, 1) != std::to_string(t)) bad(fmt("reports %s triangles, the graph has %ld", tail(l, 1).c_str(), t));
            if (tail(l, 2) != tail(lines[0], 2)) bad("reports " + tail(l, 2) + " nonzeros, the first algorithm " + tail(lines[0], 2));
            if (atol(tail(l, 2).c_str()) > t) bad("more nonzeros than triangles");
#elif MCX_DRIVER == MCX_TRICNTGRB
            long t = triangles(und(n, e));
            if (tail(l, 0) != std::to_string(t)) bad(fmt("reports %s triangles, the graph has %ld", tail(l, 0).c_str(), t));
            if (tail(l, 1) != tail(lines[0], 1)) bad("reports " + tail(l, 1) + " nonzeros, the first algorithm " + tail(lines[0], 1));
#elif MCX_DRIVER == MCX_KTRUSS
            long t = trussEdges(und(n, e), x);
            if (tail(l, 1) != std::to_string(t)) bad(fmt("reports %s entries in the %d-truss, there are %ld", tail(l, 1).c_str(), x, t));
#else
            Graph g(n); for (auto &y : e) if (y.first != y.second) { g.a[y.first][y.second] = 1; if (sym) g.a[y.second][y.first] = 1; }
            double v = atof(tail(l, 0).c_str()); bool ok = false; std::string cand; std::set<double> cs;
            for (u64 sub = 0; sub < (1ull << n); ++sub) if (__builtin_popcountll(sub) == x) { double t = 0; for (int s = 0; s < n; ++s) if (sub >> s & 1) t += bcFrom(g, s); cs.insert(t); }
            for (double t : cs) { cand += fmt(" %.4f", t); if (std::fabs(v - t) <= 1e-3 * (1 + std::fabs(t))) ok = true; }
            if (!ok) bad(fmt("reports %s, true values:", tail(l, 0).c_str()) + cand);
            double v0 = atof(tail(lines[0], 0).c_str()); if (std::fabs(v - v0) > 1e-3 * (1 + std::fabs(v0))) bad("reports " + tail(l, 0) + ", the first algorithm " + tail(lines[0], 0));
#endif
        }
    }
    describe = nullptr;
}
#if MCX_DRIVER == MCX_TRICNT
static const std::vector<const char *> allModes = {"all", "all1p", "all2p"};
#elif MCX_DRIVER == MCX_BC
static const std::vector<const char *> allModes = {"all", "benchmark"};
#else
static const std::vector<const char *> allModes = {"all", "all1p", "all2p", "benchmark"};
#endif
static std::vector<const char *> modesFor(u64 v) {
#if MCX_DRIVER == MCX_BC
    return {v % 4 == 3 ? "benchmark" : "all"};
#else
    if (v % 5 == 0) return allModes;
    return {allModes[v % allModes.size()]};
#endif
}
// all undirected graphs on n labelled vertices
static void addUndirected(Harness &h, int n, bool everyMode) {
    h.add(fmt("undirected graphs on %d vertices", n), 1ull << (n * (n - 1) / 2), [=](u64 bits) {
        Edges e; u64 b = bits; for (int j = 0; j < n; ++j) for (int i = j + 1; i < n; ++i, b >>= 1) if (b & 1) e.push_back({i, j});
        u64 mix = bits * 0x9e3779b97f4a7c15ull >> 40;
        judge(n, e, true, mix, everyMode ? allModes : modesFor(mix));
    });
}
// all directed graphs on n vertices, with loops; entries in column order, row order or reversed
static void addDirected(Harness &h, int n, bool loops) {
    int m = loops ? n * n : n * (n - 1);
    h.add(fmt("general files on %d vertices%s", n, loops ? " with loops" : ""), 1ull << m, [=](u64 bits) {
        Edges e; u64 b = bits; for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { if (!loops && i == j) continue; if (b & 1) e.push_back({i, j}); b >>= 1; }
        u64 mix = bits * 0x9e3779b97f4a7c15ull >> 40;
        if (mix % 3 == 1) std::sort(e.begin(), e.end());
        if (mix % 3 == 2) std::reverse(e.begin(), e.end());
        judge(n, e, false, mix / 3, modesFor(mix / 3));
    });
}
// structured larger graphs: cliques, cliques in a row, wheels, cycles, bipartite, Turan-like, complements of matchings
static void addStructured(Harness &h, int maxN) {
    for (int fam = 0; fam < 8; ++fam) h.add(fmt("structured graphs %d", fam), maxN - 5, [=](u64 x) {
        int n = 6 + (int) x; Edges e;
        for (int j = 0; j < n; ++j) for (int i = j + 1; i < n; ++i) {
            bool c = fam == 0 ? true : fam == 1 ? (i / 4 == j / 4 || i == j + 1) : fam == 2 ? (j == 0 || i == j + 1 || (j == 1 && i == n - 1)) : fam == 3 ? (i == j + 1 || (j == 0 && i == n - 1)) :
                     fam == 4 ? (i % 2 != j % 2) : fam == 5 ? (i % 3 != j % 3) : fam == 6 ? !(i == j + 1 && j % 2 == 0) : (((i * 7 + j * 13) ^ (i * j)) % 5 < 2);
            if (c) e.push_back({i, j});
        }
        judge(n, e, true, x * 5 + fam, allModes);
    });
}
int mcx::setup(Harness &h) {
    GrB_init(GrB_BLOCKING);
    if (!std::getenv("MCX_STDERR")) std::cerr.rdbuf(nullptr);
    if (!std::getenv("MCX_STDOUT")) stdout = fopen("/dev/null", "w");
    const bool T = thorough;
    for (int n = 1; n <= 4; ++n) addUndirected(h, n, true);
    addUndirected(h, 5, T);
    addDirected(h, 1, true); addDirected(h, 2, true);
#if MCX_DRIVER == MCX_BC
    addDirected(h, 3, true); addDirected(h, 4, false);
#else
    addDirected(h, 3, true);
    if (T) addDirected(h, 4, false);
#endif
    if (T) addUndirected(h, 6, false);
    addStructured(h, T ? 40 : 14);
    return 0;
}
int main(int argc, char **argv) {
    if (!getenv("OMP_WAIT_POLICY")) { setenv("OMP_WAIT_POLICY", "passive", 1); setenv("OMP_DYNAMIC", "false", 1); execv("/proc/self/exe", argv); }
    if (const char *c = getenv("MCX_CHILD")) {
        int n, sym; unsigned long long v; char mode[32]; if (sscanf(c, "%d %d %llu %31s", &n, &sym, &v, mode) != 4) return 8;
        child = true; Harness h; mcx::setup(h); Edges e; std::istringstream in(getenv("MCX_CHILD_E")); int x; while (in >> x) e.push_back({x, x});
        judge(n, e, sym, v, {mode});
        _exit(failKeys.empty() ? 0 : 1);
    }
    return mcx::mainLoop(argc, argv);
}
