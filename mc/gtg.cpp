// T22: the GTgraph generators (GTgraph/R-MAT, random, SSCA2), one executable per generator.  The C sources are
// compiled as they are; the random streams, the heap, files and exit() are controlled replacements, so that
// every short sequence of random answers can be enumerated.
#include "mc.h"
#include <algorithm>
#include <cmath>
#include <csetjmp>
#include <numeric>
#include <tuple>
#include <array>
#include <sys/mman.h>
using namespace mcx;
extern "C" {
#if MCX_GTG == 1
#include "GTgraph/R-MAT/graph.h"
#include "GTgraph/R-MAT/init.h"
#include "GTgraph/R-MAT/utils.h"
#elif MCX_GTG == 2
#include "GTgraph/random/graph.h"
#include "GTgraph/random/init.h"
#include "GTgraph/random/utils.h"
#else
#include "GTgraph/SSCA2/graph.h"
#include "GTgraph/SSCA2/init.h"
#include "GTgraph/SSCA2/utils.h"
#endif
int gt_main(int, char **);
FILE *gt_err = nullptr;
}
typedef long L;
typedef std::tuple<L, L, L> E;             // start, end, weight (0-based)

// ---------------------------------------------------------------- controlled environment
static std::map<void *, size_t> live;
static std::set<FILE *> files;
static jmp_buf out;
static bool inside = false;
enum { DONE = 0, EXITED = 1, STOPPED = 2 };
static void stop(const char *key, const std::string &msg) {
    fail(std::string(curOp) + "/" + key, msg);
    if (inside) longjmp(out, STOPPED);
    _exit(1);
}
// files live in memory: nothing the generators write reaches the file system
static std::map<std::string, int> vfs;
static FILE *openFile(const std::string &p, const char *m) {
    if (p == "/dev/null") return fopen("/dev/null", m);
    if (m[0] == 'r' && !vfs.count(p)) return nullptr;
    if (!vfs.count(p)) vfs[p] = memfd_create("gtg", 0);
    return fopen(fmt("/proc/self/fd/%d", vfs[p]).c_str(), m);
}
static void removeFile(const std::string &p) { auto i = vfs.find(p); if (i != vfs.end()) { close(i->second); vfs.erase(i); } }
static bool exists(const std::string &p) { return vfs.count(p); }
extern "C" {
void gt_exit(int) { if (inside) longjmp(out, EXITED); _exit(3); }
FILE *gt_fopen(const char *p, const char *m) { FILE *f = openFile(p, m); if (f) files.insert(f); return f; }
int gt_fclose(FILE *f) { files.erase(f); return fclose(f); }
void *gt_malloc(size_t n) {
    if (n > (1ul << 32)) stop("alloc", fmt("asks for %zu bytes of memory", n));
    char *p = (char *) malloc(n);
    if (p && n <= 4096) memset(p, 0xA7, n);
    live[p] = n; return p;
}
void *gt_calloc(size_t a, size_t b) { void *p = gt_malloc(a * b); memset(p, 0, a * b); return p; }
void *gt_realloc(void *o, size_t n) {
    if (n > (1ul << 32)) stop("alloc", fmt("asks for %zu bytes of memory", n));
    live.erase(o); void *p = realloc(o, n ? n : 1); live[p] = n; return p;
}
void gt_free(void *p) { if (p) live.erase(p); free(p); }
}
// ---- random streams: answers by stream; behind the script a rule goes on
static const int NROLE = 4;
static std::vector<double> script[NROLE];
static std::function<double(int, uint64_t)> rest;      // role, draw number
static uint64_t drawn[NROLE], drawCap = 3000000;
static int streamsOpen = 0;
static int roleOf(int seed) {
#if MCX_GTG == 1
    return seed == 12619830 ? 0 : seed == 31219885 ? 1 : seed == 72824922 ? 2 : seed == 81984016 ? 3 : 0;
#elif MCX_GTG == 2
    return seed == 3121988 ? 1 : 0;
#else
    return 0;
#endif
}
static double answer(int *s) {
    int r = *s;
    uint64_t k = drawn[r]++;
    if (k > drawCap) stop("endless", "draws far more random numbers than the graph asked for needs");
    return k < script[r].size() ? script[r][k] : rest(r, k);
}
extern "C" {
int *init_rng(int, int, int, int seed, int) { int *p = (int *) gt_malloc(sizeof(int)); *p = roleOf(seed); return p; }
double get_rn_dbl(int *s) { return answer(s); }
float get_rn_flt(int *s) { return (float) answer(s); }
int get_rn_int(int *s) { return (int) answer(s); }
int free_rng(int *s) { gt_free(s); return 0; }
}
static void resetDraws() { for (auto &d : drawn) d = 0; }

static int guarded(const std::function<void()> &f) {
    inside = true;
    int r = setjmp(out);
    if (r == 0) f();
    inside = false;
    return r;
}
// after a run: nothing may stay behind
static void quiet(const char *what, bool exited = false) {
    if (!files.empty()) {
        if (!exited) fail(std::string(curOp) + "/file-open", std::string(what) + " leaves a file open");
        for (FILE *f : files) fclose(f);
        files.clear();
    }
    size_t n = 0;
    for (auto &p : live) n += p.second;
    if (n && !exited) fail(std::string(curOp) + "/leak", fmt("%s leaves %zu bytes allocated", what, n));
    for (auto &p : live) free(p.first);
    live.clear();
}

// ---------------------------------------------------------------- results
struct G { bool ok = false; L n = -1, m = -1; std::vector<E> e; };
static std::string show(const std::vector<E> &e) {
    std::string s;
    for (size_t i = 0; i < e.size() && i < 24; ++i) s += fmt("%ld->%ld:%ld ", std::get<0>(e[i]), std::get<1>(e[i]), std::get<2>(e[i]));
    if (e.size() > 24) s += fmt("... (%zu)", e.size());
    return s;
}
// one call of graphGen; fileToo: then writeToFile
static G gen(const char *op, bool fileToo = false) {
    curOp = op;
    G g; graph h; memset(&h, 0, sizeof h); h.m = -7;
    resetDraws(); ++cnt.transitions;
    int r = guarded([&] { graphGen(&h); if (fileToo) writeToFile(&h); });
    if (r == EXITED) fail(std::string(op) + "/exit", "the generator gives up");
    if (r == DONE && h.m != -7) {
        g.ok = true; g.n = h.n; g.m = h.m;
        for (L i = 0; i < h.m; ++i) g.e.push_back(E(h.start[i], h.end[i], h.w[i]));
        gt_free(h.start); gt_free(h.end); gt_free(h.w);
    } else if (r == DONE) g.ok = true;
    quiet("graphGen", r != DONE);
    return g;
}
// the DIMACS file
static G parse(const char *path, const char *op) {
    curOp = op;
    G g;
    FILE *f = openFile(path, "r");
    if (!f) { fail(std::string(op) + "/no-file", std::string("no file ") + path); return g; }
    char line[512]; int np = 0; L cn = -1, cm = -1; bool bad = false;
    while (fgets(line, sizeof line, f)) {
        L a, b, c;
        if (sscanf(line, "c No. of vertices : %ld", &a) == 1) cn = a;
        else if (sscanf(line, "c No. of directed edges : %ld", &a) == 1 || sscanf(line, "c No. of edges : %ld", &a) == 1) cm = a;
        else if (line[0] == 'c') ;
        else if (line[0] == 'p') { np += 1; if (sscanf(line, "p sp %ld %ld", &g.n, &g.m) != 2) bad = true; if (!g.e.empty()) bad = true; }
        else if (line[0] == 'a') {
            if (sscanf(line, "a %ld %ld %ld", &a, &b, &c) != 3) bad = true;
            else g.e.push_back(E(a - 1, b - 1, c));
        } else if (strspn(line, " \t\r\n") != strlen(line)) bad = true;
    }
    fclose(f);
    g.ok = true;
    if (bad || np != 1) fail(std::string(op) + "/format", "the file written is not in the DIMACS format it announces");
    else {
        if (cn >= 0 && cn != g.n) fail(std::string(op) + "/header", fmt("the comment says %ld vertices, the p line %ld", cn, g.n));
        if (cm >= 0 && cm != g.m) fail(std::string(op) + "/header", fmt("the comment says %ld edges, the p line %ld", cm, g.m));
        if (g.m != (L) g.e.size()) fail(std::string(op) + "/header", fmt("the p line says %ld edges, %zu follow", g.m, g.e.size()));
    }
    return g;
}
static std::vector<E> sorted(std::vector<E> v) { std::sort(v.begin(), v.end()); return v; }
static bool byStart(const std::vector<E> &v) { for (size_t i = 1; i < v.size(); ++i) if (std::get<0>(v[i - 1]) > std::get<0>(v[i])) return false; return true; }
static void same(const char *op, const G &g, L en, const std::vector<E> &want, bool order = true) {
    if (!g.ok) return;
    if (g.n != en) fail(std::string(op) + "/n", fmt("%ld vertices instead of %ld", g.n, en));
    if (g.m != (L) g.e.size()) return;
    if ((order ? g.e : sorted(g.e)) != (order ? want : sorted(want))) fail(std::string(op) + "/edges", "edges " + show(g.e) + " instead of " + show(want));
}
static void sortedSame(const char *op, const G &g, L en, const std::vector<E> &want) {
    same(op, g, en, want, false);
    if (g.ok && !byStart(g.e)) fail(std::string(op) + "/order", "not sorted by start vertex: " + show(g.e));
}
static L weightOf(L lo, L hi, double x) { return lo + (L) std::floor((hi - lo) * x); }
static void base() { live.clear(); for (auto &s : script) s.clear(); rest = [](int, uint64_t) { return 0.5; }; drawCap = 3000000; }
static const double WX[4] = {0.0, 0.26, 0.51, 0.99999};
static const L KEYS[7] = {0, 1, 2047, 2048, (1L << 22) - 1, 1L << 22, (1L << 31) - 2};
// words of key indices by rule, for sorts of longer lists
static std::vector<int> ruleWord(int rule, int len, int alpha) {
    std::vector<int> w(len);
    uint64_t x = 88172645463325252ull + rule;
    for (int i = 0; i < len; ++i) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        w[i] = rule == 0 ? i * alpha / len : rule == 1 ? (len - 1 - i) * alpha / len : rule == 2 ? std::min(i, len - 1 - i) * 2 * alpha / (len + 1) : rule == 3 ? i % alpha : rule == 4 ? alpha - 1 : rule == 5 ? (i == len / 2 ? 0 : alpha - 1) : (int) (x % alpha);
        w[i] = std::max(0, std::min(alpha - 1, w[i]));
    }
    return w;
}
static const int RULES = 8;

// ---------------------------------------------------------------- command lines
static std::vector<std::string> *curArgs = nullptr;
static std::string configText;
static std::string describeCli() { std::string s = "command line:"; if (curArgs) for (auto &a : *curArgs) s += " " + a; if (!configText.empty()) s += "\nconfig file:\n" + configText; return s; }
static void putConfig(const std::string &t, const std::string &cfgName = "cfg") { configText = t; FILE *f = openFile(cfgName, "w"); fputs(t.c_str(), f); fclose(f); }
// whole: gt_main; otherwise the parser only
static int cli(const char *op, std::vector<std::string> a, bool whole) {
    curOp = op; a.insert(a.begin(), "GTgraph"); static std::vector<std::string> keep; keep = a; curArgs = &keep; describe = describeCli;
    std::vector<char *> v; for (auto &s : keep) v.push_back((char *) s.c_str()); v.push_back(nullptr);
    optind = 0; opterr = 0; resetDraws(); ++cnt.transitions; ++cnt.states;
    int r = guarded([&] { if (whole) gt_main((int) keep.size(), v.data()); else parseUserInput((int) keep.size(), v.data()); });
    quiet("the program", r != DONE);
    return r;
}
// globals that a run must not inherit from the one before
static void wipe() { memset(OUTFILE, 0, sizeof OUTFILE); strcpy(OUTFILE, "never"); strcpy(LOGFILE, "log"); for (auto &f : vfs) close(f.second); vfs.clear(); }
template <class T> static void param(const char *op, const char *name, T got, T want) {
    if (!(got == want)) fail(std::string(op) + "/" + name, fmt("%s is %.17g instead of %.17g", name, (double) got, (double) want));
}

#if MCX_GTG == 1
// ================================================================ R-MAT
static void params(L nn, L mm, double aa, double bb, double cc, double dd, L lo, L hi, int loops, int store, int sort, int type) {
    n = nn; m = mm; a = aa; b = bb; c = cc; d = dd; MIN_WEIGHT = lo; MAX_WEIGHT = hi; SELF_LOOPS = loops; STORE_IN_MEMORY = store; SORT_EDGELISTS = sort; SORT_TYPE = type; WRITE_TO_FILE = 1;
}
static const double MID[4] = {.125, .375, .625, .875};
struct Cfg { L n, m, lo, hi; int loops, attempts; };
static Cfg cf;
static std::vector<int> quad;            // quadrant answers
static std::string descRmat() {
    std::string s = fmt("R-MAT n=%ld m=%ld weights [%ld,%ld) SELF_LOOPS=%d; quadrants chosen:", cf.n, cf.m, cf.lo, cf.hi, cf.loops);
    for (int q : quad) s += fmt(" %c", 'a' + q);
    return s + " then b";
}
// the reference: descend the levels
static std::vector<E> expectRmat(const std::vector<double> &wx) {
    std::vector<E> e; size_t q = 0, wi = 0;
    while ((L) e.size() < cf.m) {
        L u = 0, v = 0;
        for (L s = cf.n / 2; s >= 1; s /= 2) { int c = q < quad.size() ? quad[q] : 1; ++q; if (c & 1) v += s; if (c & 2) u += s; }
        if (!cf.loops && u == v) continue;
        double x = wi < wx.size() ? wx[wi] : .5; ++wi;
        e.push_back(E(u, v, weightOf(cf.lo, cf.hi, x)));
    }
    return e;
}
static void allModes(const std::vector<double> &wx, bool files_, L sortCap = 1L << 40) {
    describe = descRmat; ++cnt.states;
    std::vector<E> want = expectRmat(wx);
    for (auto &x : want) if (std::get<0>(x) >= cf.n || std::get<1>(x) >= cf.n) { stop("reference", "harness"); }
    script[0].clear(); for (int q : quad) script[0].push_back(MID[q]);
    script[1] = wx; rest = [](int r, uint64_t) { return r == 0 ? .375 : .5; };
    auto P = [&](int store, int sort, int type) { params(cf.n, cf.m, .25, .25, .25, .25, cf.lo, cf.hi, cf.loops, store, sort, type); strcpy(OUTFILE, "out.gr"); };
    P(1, 0, 0); same("R-MAT/memory", gen("R-MAT/memory", files_), cf.n, want);
    if (files_) { same("R-MAT/writeToFile", parse("out.gr", "R-MAT/writeToFile"), cf.n, want); removeFile("out.gr"); }
    if (cf.n <= (1L << 32)) { P(1, 1, 0); sortedSame("R-MAT/countingSort", gen("R-MAT/countingSort"), cf.n, want); }
    P(1, 1, 1); sortedSame("R-MAT/heapSort", gen("R-MAT/heapSort"), cf.n, want);
    if (files_) { P(0, 0, 0); gen("R-MAT/on-the-fly"); same("R-MAT/on-the-fly", parse("out.gr", "R-MAT/on-the-fly"), cf.n, want); removeFile("out.gr"); }
    ++cnt.traces;
}
static int levels(L nn) { int l = 0; for (L s = nn / 2; s >= 1; s /= 2) ++l; return l; }
static void addPaths(Harness &h, L nn, L mm, int attempts, int loops) {
    int ql = attempts * levels(nn);
    if (nn / 2 < 1 && !loops && mm) return;      // one vertex has no edge that is not a loop
    h.add(fmt("R-MAT n=%ld m=%ld loops=%d attempts=%d", nn, mm, loops, attempts), 1ull << (2 * ql), [=](uint64_t i) {
        base(); cf = {nn, mm, 0, 7, loops, attempts}; quad.clear();
        for (int k = 0; k < ql; ++k) quad.push_back((i >> (2 * k)) & 3);
        std::vector<double> wx; for (L k = 0; k < mm; ++k) wx.push_back(WX[k % 4]);
        allModes(wx, ql <= 6 || i % 16 == 0);
    });
}
static void pushKey(L nn, L key, L other) { for (L s = nn / 2; s >= 1; s /= 2) { int c = 0; if (key & s) c |= 2; if (other & s) c |= 1; quad.push_back(c); } }
static void word(L nn, const std::vector<L> &keys) {
    base(); cf = {nn, (L) keys.size(), 0, (L) keys.size() * 2, 1, 0}; quad.clear();
    std::vector<double> wx; L mm = keys.size(), k = 0;
    for (L x : keys) { pushKey(nn, x, k % nn); wx.push_back((k + .5) / mm); ++k; }
    drawCap = 100000000;
    allModes(wx, mm <= 3);
}
static double pdraw; static std::string descThr0;
static std::string descThr() { return descThr0; }
// the quadrant a number falls into
static int quadrant(double x, double a0, double b0, double c0) { return x < a0 ? 0 : x < a0 + b0 ? 1 : x < a0 + b0 + c0 ? 2 : 3; }
static void addThresholds(Harness &h) {
    static const double PS[][4] = {{.45, .15, .15, .25}, {.57, .19, .19, .05}, {.25, .25, .25, .25}, {1, 0, 0, 0}, {0, 0, 0, 1}, {.5, .5, 0, 0}, {.1, .2, .3, .4}};
    // first-level answers on both sides of every threshold, after any amount of variation in the edges before
    h.add("R-MAT thresholds", 7 * 16 * 3, [](uint64_t i) {
        const double *p = PS[i % 7]; int sg = i / 7 % 16; double mag = std::array<double, 3>{0.01, .5, .999}[i / 112];
        base();
        double cum[3] = {p[0], p[0] + p[1], p[0] + p[1] + p[2]};
        std::vector<double> xs;
        for (double t : cum) for (double e : {-1e-6, 1e-6}) if (t + e > 0 && t + e < 1) xs.push_back(t + e);
        xs.push_back(1e-7); xs.push_back(1 - 1e-7);
        for (double x : xs) for (L nn : {2L, 64L}) {
            descThr0 = fmt("R-MAT n=%ld a=%g b=%g c=%g d=%g, first-level answer %.9g, variation signs %d magnitude %g", nn, p[0], p[1], p[2], p[3], x, sg, mag); describe = descThr;
            ++cnt.states;
            int lv = levels(nn);
            rest = [&](int r, uint64_t k) { return r == 0 ? (k % lv == 0 ? x : .3) : r == 3 ? ((sg >> (k % 4)) & 1 ? .8 : .2) : r == 2 ? mag : .5; };
            params(nn, 4, p[0], p[1], p[2], p[3], 0, 10, 1, 1, 0, 0);
            int q = quadrant(x, p[0], p[1], p[2]);
            L top = nn / 2;
            for (int call = 0; call < 2; ++call) {          // the second call sees the parameters as the first left them
                const char *op = call ? "R-MAT/second-call" : "R-MAT/quadrants";
                G g = gen(op);
                for (auto &e : g.e) {
                    int got = (std::get<0>(e) >= top ? 2 : 0) | (std::get<1>(e) >= top ? 1 : 0);
                    if (got != q) { fail(std::string(op) + "/quadrant", fmt("quadrant %c instead of %c", 'a' + got, 'a' + q)); break; }
                    if (std::get<0>(e) < 0 || std::get<0>(e) >= nn || std::get<1>(e) < 0 || std::get<1>(e) >= nn) { fail(std::string(op) + "/range", "vertex out of range"); break; }
                }
            }
        }
        ++cnt.traces;
    });
    // all four parameters varied by the same factor in the same direction: nothing changes at any level
    h.add("R-MAT equal variation", 7 * 2 * 3, [](uint64_t i) {
        const double *p = PS[i % 7]; bool up = i / 7 % 2; double mag = std::array<double, 3>{0.01, .5, .999}[i / 14];
        base();
        double cum[3] = {p[0], p[0] + p[1], p[0] + p[1] + p[2]};
        std::vector<double> xs;
        for (double t : cum) for (double e : {-1e-6, 1e-6}) if (t + e > 0 && t + e < 1) xs.push_back(t + e);
        for (double x : xs) {
            L nn = 256;
            descThr0 = fmt("R-MAT n=%ld a=%g b=%g c=%g d=%g, every answer %.9g, all parameters varied %s by %g", nn, p[0], p[1], p[2], p[3], x, up ? "up" : "down", mag); describe = descThr;
            ++cnt.states;
            rest = [&](int r, uint64_t) { return r == 0 ? x : r == 3 ? (up ? .8 : .2) : r == 2 ? mag : .5; };
            params(nn, 1, p[0], p[1], p[2], p[3], 0, 10, 1, 1, 0, 0);
            int q = quadrant(x, p[0], p[1], p[2]);
            G g = gen("R-MAT/variation");
            if (g.ok && g.e.size() == 1) {
                L u = q & 2 ? nn - 1 : 0, v = q & 1 ? nn - 1 : 0;
                if (std::get<0>(g.e[0]) != u || std::get<1>(g.e[0]) != v) fail("R-MAT/variation/levels", fmt("edge %ld->%ld instead of %ld->%ld", std::get<0>(g.e[0]), std::get<1>(g.e[0]), u, v));
            }
        }
        ++cnt.traces;
    });
    // a quadrant answer well inside its interval stays there whatever the variation of up to 5 % per level did
    h.add("R-MAT variation bound", 256 * 2, [](uint64_t i) {
        base(); L nn = 16; double mag = i & 1 ? .999 : .5; i >>= 1;
        for (int q = 0; q < 4; ++q) {
            // four levels; signs of the variation after each of the first two levels from the index, the rest down/up
            descThr0 = fmt("R-MAT n=16 quadrant %c at every level, variation signs %lx magnitude %g", 'a' + q, i, mag); describe = descThr; ++cnt.states;
            rest = [&](int r, uint64_t k) { return r == 0 ? MID[q] : r == 3 ? ((i >> (k % 8)) & 1 ? .8 : .2) : r == 2 ? mag : .5; };
            params(nn, 2, .25, .25, .25, .25, 0, 10, 1, 1, 0, 0);
            G g = gen("R-MAT/variation");
            L u = q & 2 ? nn - 1 : 0, v = q & 1 ? nn - 1 : 0;
            for (auto &e : g.e) if (std::get<0>(e) != u || std::get<1>(e) != v) { fail("R-MAT/variation/bound", fmt("edge %ld->%ld instead of %ld->%ld", std::get<0>(e), std::get<1>(e), u, v)); break; }
        }
        ++cnt.traces;
    });
}
static void cliFile(const char *op, L en, L em, const char *path = "out.gr") {
    if (!exists(path)) { fail(std::string(op) + "/no-output", fmt("%s was asked for and not written", path)); return; }
    G g = parse(path, op);
    if (g.n != en || g.m != em) fail(std::string(op) + "/size", fmt("the file has n=%ld m=%ld instead of n=%ld m=%ld", g.n, g.m, en, em));
}
static void addCli(Harness &h) {
    h.add("R-MAT command line", 6 + 2 + 1, [](uint64_t i) {
        base(); wipe(); rest = [](int r, uint64_t) { return r == 0 ? .55 : .5; }; configText = "";
        const char *op = "R-MAT/options";
        if (i < 6) {
            std::vector<std::array<std::string, 2>> o = {{"-n", "8"}, {"-m", "3"}, {"-o", "out.gr"}};
            std::sort(o.begin(), o.end());
            for (uint64_t k = 0; k < i; ++k) std::next_permutation(o.begin(), o.end());
            std::vector<std::string> v; for (auto &x : o) { v.push_back(x[0]); v.push_back(x[1]); }
            if (cli(op, v, true) == DONE) cliFile(op, 8, 3);
            param(op, "n", n, 8L); param(op, "m", m, 3L);
        } else if (i < 8) {
            std::vector<std::string> v = i == 6 ? std::vector<std::string>{"-n", "8", "-m", "3"} : std::vector<std::string>{"-m", "3", "-n", "8"};
            cli(op, v, false); param(op, "n", n, 8L); param(op, "m", m, 3L); param(op, "STORE_IN_MEMORY", STORE_IN_MEMORY, 1);
            if (exists("out.gr")) fail("R-MAT/options/output", "a file nobody asked for");
        } else {
            cli(op, {}, false); param(op, "n", n, 10000000L); param(op, "m", m, 100000000L);
        }
        ++cnt.traces;
    });
    h.add("R-MAT long names", 4, [](uint64_t i) {
        base(); wipe(); configText = ""; rest = [](int r, uint64_t) { return r == 0 ? .55 : .5; };
        std::string nm(std::array<int, 4>{29, 30, 64, 200}[i], 'x');
        const char *op = "R-MAT/long-name";
        if (cli(op, {"-n", "8", "-m", "3", "-o", nm}, true) == DONE) cliFile(op, 8, 3, nm.c_str());
        removeFile(nm);
        putConfig("n 8\nm 3\n", nm);
        if (cli(op, {"-c", nm}, false) == DONE) { param(op, "n", n, 8L); param(op, "m", m, 3L); }
        removeFile(nm); ++cnt.traces;
    });
    // every parameter of the config file, alone and all together, alone or with -o on either side
    h.add("R-MAT config", 13 * 3 + 3, [](uint64_t i) {
        base(); wipe(); rest = [](int r, uint64_t) { return r == 0 ? .55 : .5; };
        static const char *K[13] = {"n", "m", "a", "b", "c", "d", "MAX_WEIGHT", "MIN_WEIGHT", "STORE_IN_MEMORY", "SELF_LOOPS", "SORT_EDGELISTS", "SORT_TYPE", "WRITE_TO_FILE"};
        double val[13] = {10000000, 100000000, .45, .15, .15, .25, 100, 0, 1, 0, 1, 0, 0};
        static const double alt[13] = {8, 3, .25, .25, .25, .25, 40, 20, 1, 1, 0, 1, 1};
        const char *op = "R-MAT/config";
        int where = i % 3; i /= 3; std::string t = "# comment n 77\n";
        for (int k = 0; k < 13; ++k) if (i == 13 || (int) i == k) { t += fmt("%s %g\n\n", K[k], alt[k]); val[k] = alt[k]; }
        putConfig(t);
        std::vector<std::string> v = where == 0 ? std::vector<std::string>{"-c", "cfg"} : where == 1 ? std::vector<std::string>{"-c", "cfg", "-o", "out.gr"} : std::vector<std::string>{"-o", "out.gr", "-c", "cfg"};
        if (where == 2 && i == 12) val[12] = 1; else if (where) val[12] = 1;
        int r = cli(op, v, i == 13);
        if (r == DONE) {
            double got[13] = {(double) n, (double) m, a, b, c, d, (double) MAX_WEIGHT, (double) MIN_WEIGHT, (double) STORE_IN_MEMORY, (double) SELF_LOOPS, (double) SORT_EDGELISTS, (double) SORT_TYPE, (double) WRITE_TO_FILE};
            for (int k = 0; k < 13; ++k) param(op, K[k], got[k], val[k]);
            if (i == 13) cliFile(op, 8, 3, where ? "out.gr" : "sample.gr");
        } else fail("R-MAT/config/exit", "the configuration is refused");
        ++cnt.traces;
    });
    h.add("R-MAT setGTgraphParams", 31 * 3, [](uint64_t i) {
        base(); int sc = i % 31, ef = std::array<int, 3>{1, 8, 16}[i / 31]; curOp = "R-MAT/setGTgraphParams"; ++cnt.states; ++cnt.transitions;
        descThr0 = fmt("setGTgraphParams(%d,%d,.1,.2,.3,.4)", sc, ef); describe = descThr;
        getParams(); setGTgraphParams(sc, ef, .1, .2, .3, .4);
        const char *op = "R-MAT/setGTgraphParams";
        param(op, "n", n, 1L << sc); param(op, "m", m, (1L << sc) * ef); param(op, "a", a, .1); param(op, "b", b, .2); param(op, "c", c, .3); param(op, "d", d, .4);
    });
}
static void families(Harness &h) {
    for (L mm = 0; mm <= 3; ++mm) { addPaths(h, 1, mm, 0, 1); }
    struct { L n, m; int att; } Q[] = {{2, 0, 1}, {2, 1, 3}, {2, 3, 6}, {3, 2, 4}, {4, 1, 3}, {4, 2, 3}, {5, 2, 3}, {6, 2, 3}, {7, 2, 3}, {8, 1, 2}, {8, 2, 2}, {9, 2, 2}, {12, 2, 2}, {16, 1, 1}, {16, 2, 1}, {31, 1, 1}, {32, 2, 1}},
      T[] = {{2, 5, 9}, {3, 4, 9}, {4, 4, 4}, {4, 3, 5}, {8, 3, 3}, {16, 2, 2}, {64, 2, 1}, {100, 2, 1}};
    for (auto &q : Q) for (int l : {0, 1}) addPaths(h, q.n, q.m, q.att, l);
    if (thorough) for (auto &q : T) for (int l : {0, 1}) addPaths(h, q.n, q.m, q.att, l);
    // weights
    h.add("R-MAT weights", 64 * 8, [](uint64_t i) {
        static const L W[8][2] = {{0, 100}, {0, 1}, {5, 6}, {3, 3}, {-5, -1}, {-2, 3}, {0, 1L << 40}, {-100, 0}};
        base(); cf = {2, 3, W[i / 64][0], W[i / 64][1], 1, 0}; quad = {1, 2, 0}; i %= 64;
        allModes({WX[i & 3], WX[(i >> 2) & 3], WX[(i >> 4) & 3]}, true);
    });
    // sorting: words over the digits' boundary values, short words over a small alphabet, long ones by rule
    for (int len = 1, mx = thorough ? 6 : 4; len <= mx; ++len) {
        uint64_t c = 1; for (int k = 0; k < len; ++k) c *= 7;
        h.add(fmt("R-MAT sort wide keys len=%d", len), c, [len](uint64_t i) { std::vector<L> w; for (int k = 0; k < len; ++k, i /= 7) w.push_back(KEYS[i % 7]); word(1L << 31, w); });
    }
    for (int len = 0, mx = thorough ? 10 : 8; len <= mx; ++len) {
        uint64_t c = 1; for (int k = 0; k < len; ++k) c *= 3;
        h.add(fmt("R-MAT sort len=%d", len), c, [len](uint64_t i) { std::vector<L> w; for (int k = 0; k < len; ++k, i /= 3) w.push_back(i % 3 + 1); word(4, w); });
    }
    for (int len : {5, 6, 7}) {
        uint64_t c = 1; for (int k = 2; k <= len; ++k) c *= k;
        h.add(fmt("R-MAT sort permutations len=%d", len), c, [len](uint64_t i) { std::vector<L> s, w; for (int k = 0; k < len; ++k) s.push_back(k); for (int k = len; k >= 1; --k) { w.push_back(s[i % k]); s.erase(s.begin() + i % k); i /= k; } word(8, w); });
    }
    h.add("R-MAT sort rules", RULES * 4, [](uint64_t i) {
        int len = std::array<int, 4>{15, 16, 100, 3001}[i / RULES]; auto r = ruleWord(i % RULES, len, 4096); std::vector<L> w(r.begin(), r.end()); word(4096, w);
    });
    h.add("R-MAT huge n", 4 * 6 * 8, [](uint64_t i) {
        L nn = std::array<L, 4>{(1L << 31) + 2, 1L << 32, 1L << 40, (1L << 62)}[i % 4]; i /= 4;
        base(); cf = {nn, 4, 0, 9, (int) (i & 1), 0}; i /= 2; quad.clear();
        int lv = levels(nn);
        for (int e = 0; e < 4; ++e) for (int k = 0; k < lv; ++k) { uint64_t z = (k + 1) * 0x9E3779B97F4A7C15ull + e * 77 + i; z ^= z >> 31; quad.push_back(i < 4 ? (int) i : i < 8 ? (k + e + i) % 3 + 1 : i < 16 ? (k == (int) (i - 8) * 4 % lv ? 3 - e % 3 : e ? 0 : 1) : (int) (z % 4)); }
        allModes({.1, .3, .6, .9}, true);
    });
    addThresholds(h); addCli(h);
}
#elif MCX_GTG == 2
// ================================================================ random
static void params(int model, L nn, double pp, L mm, L lo, L hi, int loops, int store, int sort, int type) {
    GRAPH_MODEL = model; n = nn; p = pp; m = mm; MIN_WEIGHT = lo; MAX_WEIGHT = hi; SELF_LOOPS = loops; STORE_IN_MEMORY = store; SORT_EDGELISTS = sort; SORT_TYPE = type; WRITE_TO_FILE = 1; strcpy(OUTFILE, "out.gr");
}
static std::string desc0;
static std::string desc() { return desc0; }
struct Cfg { int model; L n, m; double p; L lo, hi; int loops; };
static void allModes(const Cfg &c, const std::vector<E> &want, bool files_) {
    describe = desc; ++cnt.states;
    auto P = [&](int store, int sort, int type) { params(c.model, c.n, c.p, c.m, c.lo, c.hi, c.loops, store, sort, type); };
    const char *k = c.model ? "gnm" : "gnp"; static std::map<std::string, std::string> names;
    auto nm = [&](const char *x) { auto &s = names[std::string(k) + x]; if (s.empty()) s = std::string("random/") + k + "/" + x; return s.c_str(); };
    P(1, 0, 0); same(nm("memory"), gen(nm("memory"), files_), c.n, want);
    if (files_) { same(nm("writeToFile"), parse("out.gr", nm("writeToFile")), c.n, want); removeFile("out.gr"); }
    P(1, 1, 0); sortedSame(nm("countingSort"), gen(nm("countingSort")), c.n, want);
    P(1, 1, 1); sortedSame(nm("heapSort"), gen(nm("heapSort")), c.n, want);
    if (files_) { P(0, 0, 0); gen(nm("on-the-fly")); same(nm("on-the-fly"), parse("out.gr", nm("on-the-fly")), c.n, want); removeFile("out.gr"); }
    ++cnt.traces;
}
static void addGnp(Harness &h, L nn, int loops, double pp) {
    L pairs = loops ? nn * nn : nn * (nn - 1);
    h.add(fmt("G(n,p) n=%ld loops=%d p=%g", nn, loops, pp), 1ull << pairs, [=](uint64_t i) {
        base(); std::vector<E> want; L k = 0;
        desc0 = fmt("random G(n,p) n=%ld p=%g SELF_LOOPS=%d, pairs chosen (row by row) %lx", nn, pp, loops, i);
        for (L u = 0; u < nn; ++u) for (L v = 0; v < nn; ++v) {
            if (u == v && !loops) continue;
            bool yes = (i >> k) & 1;
            if (pp <= 0) yes = false;
            if (pp >= 1) yes = true;
            // an answer equal to p is no edge: answers are in [0,1), the edge has probability exactly p
            script[0].push_back(pp <= 0 || pp >= 1 ? WX[(i + k) % 4] : yes ? (k % 2 ? pp / 2 : 0.0) : k % 3 == 0 ? pp : k % 3 == 1 ? (1 + pp) / 2 : .999999);
            if (yes) { double x = WX[k % 4]; want.push_back(E(u, v, weightOf(1, 9, x))); script[1].push_back(x); }
            ++k;
        }
        allModes({0, nn, 77, pp, 1, 9, loops}, want, pairs <= 6 || i % 16 == 5);
    });
}
static void gnm(L nn, const std::vector<L> &ans, L mm, int loops, L lo, L hi, const std::vector<double> &wx, bool files_) {
    // answers in pairs; behind the script: (0,1)
    base(); for (L x : ans) script[0].push_back((double) x);
    script[1] = wx; rest = [](int r, uint64_t k) { return r == 0 ? (double) (k % 2) : .5; };
    desc0 = fmt("random G(n,m) n=%ld m=%ld SELF_LOOPS=%d weights [%ld,%ld), integer answers:", nn, mm, loops, lo, hi); for (size_t k = 0; k < ans.size() && k < 40; ++k) desc0 += fmt(" %ld", ans[k]);
    std::vector<E> want; size_t q = 0;
    while ((L) want.size() < mm) {
        L u = (q < ans.size() ? ans[q] : q % 2) % nn; ++q; L v = (q < ans.size() ? ans[q] : q % 2) % nn; ++q;
        if (u == v && !loops) continue;
        size_t wi = want.size();
        want.push_back(E(u, v, weightOf(lo, hi, wi < wx.size() ? wx[wi] : .5)));
    }
    drawCap = 100000000;
    allModes({1, nn, mm, .3, lo, hi, loops}, want, files_);
}
static void addGnm(Harness &h, L nn, L mm, int att, int loops) {
    if (nn == 1 && !loops && mm) return;
    uint64_t c = 1; for (int k = 0; k < 2 * att; ++k) c *= nn + 1;
    h.add(fmt("G(n,m) n=%ld m=%ld loops=%d attempts=%d", nn, mm, loops, att), c, [=](uint64_t i) {
        std::vector<L> a; uint64_t j = i; for (int k = 0; k < 2 * att; ++k, j /= nn + 1) { L x = j % (nn + 1); a.push_back(x == nn ? 2147483647L : x + (k % 3) * nn); }
        std::vector<double> wx; for (L k = 0; k < mm; ++k) wx.push_back(WX[k % 4]);
        gnm(nn, a, mm, loops, 0, 7, wx, i % 8 == 0);
    });
}
static void word(L nn, const std::vector<L> &keys) {
    std::vector<L> a; std::vector<double> wx; L mm = keys.size(), k = 0;
    for (L x : keys) { a.push_back(x); a.push_back(k % nn); wx.push_back((k + .5) / mm); ++k; }
    gnm(nn, a, mm, 1, 0, 2 * mm, wx, mm <= 3);
}
static void cliFile(const char *op, L en, L em, const char *path = "out.gr") {
    if (!exists(path)) { fail(std::string(op) + "/no-output", fmt("%s was asked for and not written", path)); return; }
    G g = parse(path, op);
    if (g.n != en || (em >= 0 && g.m != em)) fail(std::string(op) + "/size", fmt("the file has n=%ld m=%ld instead of n=%ld m=%ld", g.n, g.m, en, em));
}
static void addCli(Harness &h) {
    auto common = [] { base(); wipe(); configText = ""; rest = [](int r, uint64_t k) { return r ? .5 : GRAPH_MODEL ? (double) (k % 2) : .3; }; };
    // -t before -n -m -p (the program insists), -o anywhere
    h.add("random command line", 2 * 2 * 4, [common](uint64_t i) {
        common(); const char *op = "random/options"; int model = i & 1, sw = (i >> 1) & 1, at = i >> 2;
        std::vector<std::array<std::string, 2>> o = {{"-n", "4"}, model ? std::array<std::string, 2>{"-m", "3"} : std::array<std::string, 2>{"-p", "0.4"}};
        if (sw) std::swap(o[0], o[1]);
        o.insert(o.begin(), {"-t", model ? "1" : "0"}); o.insert(o.begin() + at, {"-o", "out.gr"});
        std::vector<std::string> v; for (auto &x : o) { v.push_back(x[0]); v.push_back(x[1]); }
        if (cli(op, v, true) == DONE) cliFile(op, 4, model ? 3 : 12);
        else fail("random/options/exit", "the options are refused");
        param(op, "n", n, 4L); param(op, "GRAPH_MODEL", GRAPH_MODEL, model);
        ++cnt.traces;
    });
    h.add("random defaults", 1, [common](uint64_t) { common(); const char *op = "random/options"; cli(op, {}, false); param(op, "n", n, 10000000L); param(op, "m", m, 100000000L); param(op, "GRAPH_MODEL", GRAPH_MODEL, 1); });
    h.add("random long names", 4, [common](uint64_t i) {
        common(); std::string nm(std::array<int, 4>{29, 30, 64, 200}[i], 'x'); const char *op = "random/long-name";
        if (cli(op, {"-t", "1", "-n", "4", "-m", "3", "-o", nm}, true) == DONE) cliFile(op, 4, 3, nm.c_str());
        removeFile(nm);
        putConfig("n 8\nm 3\n", nm);
        if (cli(op, {"-c", nm}, false) == DONE) { param(op, "n", n, 8L); param(op, "m", m, 3L); }
        removeFile(nm); ++cnt.traces;
    });
    h.add("random config", 11 * 3 + 3, [common](uint64_t i) {
        common();
        static const char *K[11] = {"GRAPH_MODEL", "n", "m", "p", "MAX_WEIGHT", "MIN_WEIGHT", "STORE_IN_MEMORY", "SELF_LOOPS", "SORT_EDGELISTS", "SORT_TYPE", "WRITE_TO_FILE"};
        double val[11] = {1, 10000000, 100000000, .000001, 100, 0, 1, 0, 1, 0, 1};
        static const double alt[11] = {0, 5, 3, .4, 40, 20, 0, 1, 0, 1, 0};
        const char *op = "random/config";
        int where = i % 3; i /= 3; std::string t = "# comment n 77\n";
        for (int k = 0; k < 11; ++k) if (i == 11 || (int) i == k) { t += fmt("%s %g\n\n", K[k], alt[k]); val[k] = alt[k]; }
        putConfig(t);
        std::vector<std::string> v = where == 0 ? std::vector<std::string>{"-c", "cfg"} : where == 1 ? std::vector<std::string>{"-c", "cfg", "-o", "out.gr"} : std::vector<std::string>{"-o", "out.gr", "-c", "cfg"};
        if (where == 1) val[10] = 1;                       // -o after the file asks for output again
        int r = cli(op, v, i == 11);
        if (r == DONE) {
            double got[11] = {(double) GRAPH_MODEL, (double) n, (double) m, p, (double) MAX_WEIGHT, (double) MIN_WEIGHT, (double) STORE_IN_MEMORY, (double) SELF_LOOPS, (double) SORT_EDGELISTS, (double) SORT_TYPE, (double) WRITE_TO_FILE};
            for (int k = 0; k < 11; ++k) { if (i == 11 && k == 2) continue; param(op, K[k], got[k], val[k]); }
            if (i == 11) cliFile(op, 5, 25, where ? "out.gr" : "sample.gr");
        } else fail("random/config/exit", "the configuration is refused");
        ++cnt.traces;
    });
}
static void families(Harness &h) {
    for (L nn = 1; nn <= 3; ++nn) for (int l : {0, 1}) for (double pp : {.5, .1, .9, 1e-6}) addGnp(h, nn, l, pp);
    for (L nn = 1; nn <= 3; ++nn) for (int l : {0, 1}) for (double pp : {0., 1.}) addGnp(h, nn, l, pp);
    for (double pp : {.5, .1}) addGnp(h, 4, 0, pp);
    h.add("G(n,p) rules", 5 * 8 * 4 * 2, [](uint64_t i) {
        L nn = std::array<L, 5>{5, 8, 13, 40, 101}[i % 5]; i /= 5; int rule = i % 8; i /= 8; double pp = std::array<double, 4>{.5, .01, 1e-6, .95}[i % 4]; int loops = i / 4;
        base(); std::vector<E> want; L k = 0;
        desc0 = fmt("random G(n,p) n=%ld p=%g SELF_LOOPS=%d, pairs by rule %d", nn, pp, loops, rule);
        for (L u = 0; u < nn; ++u) for (L v = 0; v < nn; ++v) {
            if (u == v && !loops) continue;
            bool yes = rule == 0 ? true : rule == 1 ? k % 3 == 0 : rule == 2 ? u == nn - 1 : rule == 3 ? u == 0 : rule == 4 ? v == (u + 1) % nn : rule == 5 ? u > v : rule == 6 ? v == nn - 1 : (k * 2654435761ul >> 13) % 5 == 1;
            script[0].push_back(yes ? pp * .99 : pp);
            if (yes) { double x = WX[k % 4]; want.push_back(E(u, v, weightOf(1, 9, x))); script[1].push_back(x); }
            ++k;
        }
        allModes({0, nn, 77, pp, 1, 9, loops}, want, true);
    });
    if (thorough) { addGnp(h, 4, 1, .1); addGnp(h, 4, 1, .5); addGnp(h, 4, 0, .9); }
    struct { L n, m; int att; } Q[] = {{1, 0, 1}, {1, 2, 1}, {2, 0, 1}, {2, 2, 3}, {2, 3, 4}, {3, 1, 2}, {3, 2, 3}, {4, 2, 3}, {5, 2, 2}}, T[] = {{2, 4, 6}, {3, 3, 4}, {4, 3, 4}, {6, 3, 3}, {7, 2, 3}};
    for (auto &q : Q) for (int l : {0, 1}) addGnm(h, q.n, q.m, q.att, l);
    if (thorough) for (auto &q : T) for (int l : {0, 1}) addGnm(h, q.n, q.m, q.att, l);
    h.add("random weights", 64 * 8, [](uint64_t i) {
        static const L W[8][2] = {{0, 100}, {0, 1}, {5, 6}, {3, 3}, {-5, -1}, {-2, 3}, {0, 1L << 40}, {-100, 0}};
        gnm(3, {0, 1, 1, 2, 2, 0}, 3, 1, W[i / 64][0], W[i / 64][1], {WX[i & 3], WX[(i >> 2) & 3], WX[(i >> 4) & 3]}, true);
    });
    for (int len = 1, mx = thorough ? 6 : 5; len <= mx; ++len) {
        uint64_t c = 1; for (int k = 0; k < len; ++k) c *= 7;
        h.add(fmt("random sort wide keys len=%d", len), c, [len](uint64_t i) { std::vector<L> w; for (int k = 0; k < len; ++k, i /= 7) w.push_back(KEYS[i % 7]); word((1L << 31) - 1, w); });
    }
    for (int len = 0, mx = thorough ? 10 : 8; len <= mx; ++len) {
        uint64_t c = 1; for (int k = 0; k < len; ++k) c *= 3;
        h.add(fmt("random sort len=%d", len), c, [len](uint64_t i) { std::vector<L> w; for (int k = 0; k < len; ++k, i /= 3) w.push_back(i % 3 + 1); word(4, w); });
    }
    for (int len : {5, 6, 7}) {
        uint64_t c = 1; for (int k = 2; k <= len; ++k) c *= k;
        h.add(fmt("random sort permutations len=%d", len), c, [len](uint64_t i) { std::vector<L> s, w; for (int k = 0; k < len; ++k) s.push_back(k); for (int k = len; k >= 1; --k) { w.push_back(s[i % k]); s.erase(s.begin() + i % k); i /= k; } word(8, w); });
    }
    h.add("random sort rules", RULES * 4, [](uint64_t i) {
        int len = std::array<int, 4>{15, 16, 100, 3001}[i / RULES]; auto r = ruleWord(i % RULES, len, 4096); std::vector<L> w(r.begin(), r.end()); word(4096, w);
    });
    addCli(h);
}
#else
// ================================================================ SSCA2
struct Cfg { L T, maxc, mp; double pu, pi; L lo, hi; };
static Cfg cf;
static std::string descTail;
static std::string desc() {
    std::string s = fmt("SSCA2 TotVertices=%ld MaxCliqueSize=%ld MaxParallelEdges=%ld ProbUnidirectional=%g ProbIntercliqueEdges=%g weights [%ld,%ld); answers:", cf.T, cf.maxc, cf.mp, cf.pu, cf.pi, cf.lo, cf.hi);
    for (size_t k = 0; k < script[0].size() && k < 40; ++k) s += fmt(" %g", script[0][k]);
    return s + " then " + descTail;
}
static void params(double pi, int sort, int type) {
    SCALE = 1; TotVertices = cf.T; MaxCliqueSize = cf.maxc; MaxParallelEdges = cf.mp; ProbUnidirectional = cf.pu; ProbIntercliqueEdges = pi; MinWeight = cf.lo; MaxWeight = cf.hi;
    SORT_EDGELISTS = sort; SORT_TYPE = type; WRITE_TO_FILE = 1; strcpy(OUTFILE, "out.gr"); strcpy(LOGFILE, "/dev/null");
}
// the rule that answers behind the script
static const int TAILS = 7;
static const char *TNAME[TAILS] = {"0", "0.99999", "0.5", "0 and 0.99999 in turn", "0.34", "0.67", "a fixed irregular sequence"};
static double tailAnswer(int t, uint64_t k) {
    switch (t) { case 0: return 0; case 1: return .99999; case 2: return .5; case 3: return k % 2 ? .99999 : 0; case 4: return .34; case 5: return .67; }
    uint64_t x = (k + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
    return (double) (x >> 11) / 9007199254740992.0;
}
static std::vector<L> comp;
static L findc(L x) { while (comp[x] != x) x = comp[x] = comp[comp[x]]; return x; }
// with no edges between cliques: the components are cliques of the allowed size
static bool cliques(const char *op, const G &g) {
    comp.resize(cf.T); std::iota(comp.begin(), comp.end(), 0);
    std::map<std::pair<L, L>, L> mult;
    for (auto &e : g.e) {
        L u = std::get<0>(e), v = std::get<1>(e), w = std::get<2>(e);
        if (u < 0 || u >= cf.T || v < 0 || v >= cf.T) { fail(std::string(op) + "/range", "vertex out of range: " + show(g.e)); return false; }
        if (u == v) { fail(std::string(op) + "/self-edge", "self edge: " + show(g.e)); return false; }
        if (w < cf.lo || (w >= cf.hi && w != cf.lo)) { fail(std::string(op) + "/weight", fmt("weight %ld outside [%ld,%ld)", w, cf.lo, cf.hi)); return false; }
        comp[findc(u)] = findc(v); ++mult[{u, v}];
    }
    std::map<L, std::vector<L>> cl; for (L v = 0; v < cf.T; ++v) cl[findc(v)].push_back(v);
    for (auto &c : cl) {
        if ((L) c.second.size() > cf.maxc) { fail(std::string(op) + "/clique-size", fmt("a clique of %zu vertices", c.second.size())); return false; }
        for (L u : c.second) for (L v : c.second) if (u < v) {
            auto i = mult.find({u, v}), j = mult.find({v, u}); L a = i == mult.end() ? 0 : i->second, b = j == mult.end() ? 0 : j->second;
            if (a + b == 0) { fail(std::string(op) + "/clique", fmt("%ld and %ld of one clique are not connected", u, v)); return false; }
            if (a > cf.mp || b > cf.mp) { fail(std::string(op) + "/parallel", fmt("%ld/%ld parallel edges between %ld and %ld", a, b, u, v)); return false; }
            if (cf.pu == 0 && (!a || !b)) { fail(std::string(op) + "/unidirectional", fmt("%ld and %ld connected in one direction only", u, v)); return false; }
            if (cf.pu >= 1 && a && b) { fail(std::string(op) + "/unidirectional", fmt("%ld and %ld connected in both directions", u, v)); return false; }
        }
    }
    return true;
}
static void one(bool files_) {
    describe = desc; ++cnt.states;
    params(0, 0, 0); G g0 = gen("SSCA2/cliques");
    if (!g0.ok || nfail) return;
    if (g0.n != cf.T) fail("SSCA2/cliques/n", fmt("%ld vertices", g0.n));
    uint64_t total0 = drawn[0];
    if (!cliques("SSCA2/cliques", g0)) return;
    // the weights are the last draws
    auto weights = [&](const char *op, const G &g, uint64_t total) {
        for (size_t i = 0; i < g.e.size(); ++i) {
            uint64_t k = total - g.e.size() + i; double x = k < script[0].size() ? script[0][k] : rest(0, k);
            if (std::get<2>(g.e[i]) != weightOf(cf.lo, cf.hi, x)) { fail(std::string(op) + "/weights", fmt("edge %zu has weight %ld instead of %ld", i, std::get<2>(g.e[i]), weightOf(cf.lo, cf.hi, x))); return; }
        }
    };
    weights("SSCA2/cliques", g0, total0);
    // between the cliques: the same graph plus edges that join different cliques
    params(cf.pi, 0, 0); G g = gen("SSCA2/between", files_);
    if (!g.ok || nfail) return;
    uint64_t total = drawn[0];
    std::vector<L> cc(cf.T); for (L v = 0; v < cf.T; ++v) cc[v] = findc(v);
    if (g.n != cf.T) fail("SSCA2/between/n", fmt("%ld vertices", g.n));
    if (g.e.size() < g0.e.size()) { fail("SSCA2/between/lost", "edges inside the cliques are missing"); return; }
    std::map<std::pair<L, L>, L> mult;
    for (size_t i = 0; i < g.e.size(); ++i) {
        L u = std::get<0>(g.e[i]), v = std::get<1>(g.e[i]);
        if (i < g0.e.size()) { if (u != std::get<0>(g0.e[i]) || v != std::get<1>(g0.e[i])) { fail("SSCA2/between/lost", "edges inside the cliques differ"); return; } continue; }
        if (u < 0 || u >= cf.T || v < 0 || v >= cf.T) { fail("SSCA2/between/range", "vertex out of range: " + show(g.e)); return; }
        if (cc[u] == cc[v]) { fail("SSCA2/between/inside", fmt("an edge between cliques joins %ld and %ld of one clique", u, v)); return; }
        if (++mult[{u, v}] > cf.mp) { fail("SSCA2/between/parallel", fmt("more than %ld parallel edges %ld->%ld", cf.mp, u, v)); return; }
    }
    weights("SSCA2/between", g, total);
    if (files_) { same("SSCA2/writeToFile", parse("out.gr", "SSCA2/writeToFile"), cf.T, g.e); removeFile("out.gr"); }
    params(cf.pi, 1, 0); sortedSame("SSCA2/countingSort", gen("SSCA2/countingSort"), cf.T, g.e);
    params(cf.pi, 1, 1); sortedSame("SSCA2/heapSort", gen("SSCA2/heapSort"), cf.T, g.e);
    ++cnt.traces;
}
static void addTree(Harness &h, L T, L maxc, L mp, double pu, double pi, int K, int alpha) {
    uint64_t c = TAILS; for (int k = 0; k < K; ++k) c *= alpha;
    h.add(fmt("SSCA2 T=%ld clique=%ld parallel=%ld uni=%g between=%g first %d answers of %d", T, maxc, mp, pu, pi, K, alpha), c, [=](uint64_t i) {
        base(); cf = {T, maxc, mp, pu, pi, 2, 9};
        static const double A2[2] = {.1, .99999}, A3[3] = {0, .5001, .99999};
        int t = i % TAILS; uint64_t j = i / TAILS; descTail = TNAME[t];
        for (int k = 0; k < K; ++k, j /= alpha) script[0].push_back(alpha == 2 ? A2[j % 2] : A3[j % 3]);
        rest = [t](int, uint64_t k) { return tailAnswer(t, k); };
        one(i % 32 == 0);
    });
}
static void cliFile(const char *op, L en, const char *path) {
    if (!exists(path)) { fail(std::string(op) + "/no-output", fmt("%s was asked for and not written", path)); return; }
    G g = parse(path, op);
    if (g.n != en) fail(std::string(op) + "/size", fmt("the file has n=%ld instead of %ld", g.n, en));
}
static void addCli(Harness &h) {
    auto common = [] { base(); wipe(); configText = ""; rest = [](int, uint64_t k) { return tailAnswer(6, k); }; };
    h.add("SSCA2 command line", 8 * 3, [common](uint64_t i) {
        common(); const char *op = "SSCA2/options"; L s = i / 3; std::string sc = std::to_string(s);
        std::vector<std::string> v = i % 3 == 0 ? std::vector<std::string>{"-s", sc} : i % 3 == 1 ? std::vector<std::string>{"-s", sc, "-o", "out.gr"} : std::vector<std::string>{"-o", "out.gr", "-s", sc};
        if (cli(op, v, true) == DONE) cliFile(op, 1L << s, i % 3 ? "out.gr" : "sample.gr"); else fail("SSCA2/options/exit", "the options are refused");
        ++cnt.traces;
    });
    h.add("SSCA2 scale", 41 * 2, [common](uint64_t i) {
        common(); const char *op = "SSCA2/scale"; L s = i % 41;
        if (i < 41) cli(op, {"-s", std::to_string(s)}, false); else { putConfig(fmt("SCALE %ld\n", s)); cli(op, {"-c", "cfg"}, false); }
        L cube = 1; while ((cube + 1) * (cube + 1) * (cube + 1) <= (1L << s)) ++cube;        // floor of the cube root
        param(op, "TotVertices", TotVertices, 1L << s); param(op, "MaxWeight", MaxWeight, 1L << s); param(op, "MaxCliqueSize", MaxCliqueSize, cube); param(op, "MinWeight", MinWeight, 0L);
    });
    h.add("SSCA2 long names", 4, [common](uint64_t i) {
        common(); std::string nm(std::array<int, 4>{29, 30, 64, 200}[i], 'x'); const char *op = "SSCA2/long-name";
        if (cli(op, {"-s", "4", "-o", nm}, true) == DONE) cliFile(op, 16, nm.c_str());
        removeFile(nm);
        putConfig("SCALE 5\n", nm);
        if (cli(op, {"-c", nm}, false) == DONE) param(op, "TotVertices", TotVertices, 32L);
        removeFile(nm); ++cnt.traces;
    });
    h.add("SSCA2 config", 11 * 3 + 3, [common](uint64_t i) {
        common();
        static const char *K[11] = {"TotVertices", "MaxCliqueSize", "MaxWeight", "MinWeight", "ProbUnidirectional", "ProbIntercliqueEdges", "MaxParallelEdges", "SORT_EDGELISTS", "SORT_TYPE", "WRITE_TO_FILE", "SCALE"};
        double val[11] = {1 << 20, 101, 1 << 20, 0, .2, .5, 3, 1, 0, 1, 20};
        static const double alt[11] = {12, 5, 40, 20, .4, .25, 2, 0, 1, 0, 4};
        const char *op = "SSCA2/config";
        int where = i % 3; i /= 3; std::string t = "# comment SCALE 7\n";
        for (int q = 0; q < 11; ++q) { int k = (q + 10) % 11; if (i == 11 || (int) i == k) { t += fmt("%s %g\n\n", K[k], alt[k]); val[k] = alt[k]; if (k == 10) { val[0] = 16; val[1] = 2; val[2] = 16; } } }
        putConfig(t);
        std::vector<std::string> v = where == 0 ? std::vector<std::string>{"-c", "cfg"} : where == 1 ? std::vector<std::string>{"-c", "cfg", "-o", "out.gr"} : std::vector<std::string>{"-o", "out.gr", "-c", "cfg"};
        if (where == 1) val[9] = 1;
        int r = cli(op, v, i == 11 && where == 1);
        if (r == DONE) {
            double got[11] = {(double) TotVertices, (double) MaxCliqueSize, (double) MaxWeight, (double) MinWeight, ProbUnidirectional, ProbIntercliqueEdges, (double) MaxParallelEdges, (double) SORT_EDGELISTS, (double) SORT_TYPE, (double) WRITE_TO_FILE, (double) SCALE};
            for (int k = 0; k < 11; ++k) param(op, K[k], got[k], val[k]);
            if (i == 11 && where == 1) cliFile(op, 12, "out.gr");
        } else fail("SSCA2/config/exit", "the configuration is refused");
        ++cnt.traces;
    });
}
static void families(Harness &h) {
    double PU[3] = {0, .2, 1};
    for (L T = 1; T <= 5; ++T) for (L mc = 1; mc <= T; ++mc) for (L mp : {1L, 2L, 3L}) for (double pu : PU) for (double pi : {.5, 1.}) {
        if (pi == 1 && pu == .2 && !thorough) continue;
        int K = T <= 2 ? 6 : T == 3 ? 7 : 6;
        if (T == 5 && !thorough && mp == 2) continue;
        addTree(h, T, mc, mp, pu, pi, thorough ? K + 3 : K, T <= 3 ? 3 : 2);
    }
    for (L T : {8L, 9L, 16L}) for (L mc : {2L, 3L, 4L}) addTree(h, T, mc, 3, .2, .5, thorough ? 12 : 8, 2);
    // every order of the vertices can come out, each from as many answers as any other
    for (L T = 2; T <= (thorough ? 7 : 6); ++T) h.add(fmt("SSCA2 shuffle T=%ld", T), 1, [T](uint64_t) {
        cf = {T, T, 1, 0, 0, 0, 100}; base(); descTail = "shuffle answers enumerated"; describe = desc;
        // the draws before the shuffle: one clique of all vertices
        rest = [](int, uint64_t) { return .99999; }; params(0, 0, 0);
        G g0 = gen("SSCA2/shuffle"); if (!g0.ok || nfail) return;
        uint64_t before = drawn[0] - g0.e.size() - T;
        rest = [=](int, uint64_t k) { return k < before ? .99999 : 0.; }; G ident = gen("SSCA2/shuffle");
        if (ident.e.size() != (size_t) (T * (T - 1))) { fail("SSCA2/shuffle/clique", "not a clique of all vertices"); return; }
        uint64_t c = 1; for (L k = 2; k <= T; ++k) c *= k;
        std::set<std::vector<L>> seen;
        for (uint64_t i = 0; i < c; ++i) {
            uint64_t j = i; std::vector<double> a; for (L k = T; k >= 1; --k) { a.push_back((j % k + .5) / k); j /= k; }
            rest = [&](int, uint64_t k) { return k < before ? .99999 : k - before < a.size() ? a[k - before] : .5; };
            G g = gen("SSCA2/shuffle"); ++cnt.states;
            if (g.e.size() != ident.e.size()) { fail("SSCA2/shuffle/size", "the shuffle changes the number of edges"); return; }
            std::vector<L> pm(T, -1), inv(T, -1);
            for (size_t e = 0; e < g.e.size(); ++e) for (int s = 0; s < 2; ++s) {
                L x = s ? std::get<1>(ident.e[e]) : std::get<0>(ident.e[e]), y = s ? std::get<1>(g.e[e]) : std::get<0>(g.e[e]);
                if (y < 0 || y >= T || (pm[x] >= 0 && pm[x] != y) || (inv[y] >= 0 && inv[y] != x)) { fail("SSCA2/shuffle/relabel", "the shuffle is not a renaming of the vertices"); return; }
                pm[x] = y; inv[y] = x;
            }
            seen.insert(pm);
        }
        if (seen.size() != c) fail("SSCA2/shuffle/reach", fmt("%zu of %lu orders reached", seen.size(), c));
        ++cnt.traces;
    });
    // one and the same answer throughout: the graph is determined (up to the direction of single edges)
    static const double CX[6] = {0, .20013, .30013, .50013, .70013, .99999};
    h.add("SSCA2 constant answers", 6 * 42 * 3 * 3 * 3 * 4, [](uint64_t i) {
        double x = CX[i % 6]; i /= 6; L T = i % 42 + 1; i /= 42; if (T > 40) T = T == 41 ? 64 : 100;
        L mc = std::array<L, 3>{2, 3, 7}[i % 3]; i /= 3; L mp = i % 3 + 1; i /= 3; double pu = std::array<double, 3>{0, .4, 1}[i % 3], pi = std::array<double, 4>{.25, .5, .9, 1}[i / 3];
        base(); cf = {T, mc, mp, pu, pi, 0, 50}; descTail = fmt("%g throughout", x); rest = [x](int, uint64_t) { return x; };
        describe = desc; ++cnt.states;
        L size = 1 + (L) (x * mc);
        auto cl = [&](L v) { return v / size; };
        std::map<std::pair<L, L>, L> want, got, single;          // single: unordered pairs joined in one direction
        auto copies = [&] { L k = 0; while (k < 1 + (mp - 1) * x) ++k; return k; }();
        for (L u = 0; u < T; ++u) for (L v = 0; v < u; ++v) if (cl(u) == cl(v)) {
            if (x >= pu) { want[{u, v}] += copies; want[{v, u}] += copies; } else single[{v, u}] += copies;
        }
        L dsize = 0; while ((2L << dsize) <= T) ++dsize;          // floor(log2 T)
        for (L u = 0; u < T; ++u) { double p = pi; for (L t = 1; t < dsize; ++t, p /= 2) { L v = (u + (1L << t) + (L) (x * ((1L << t) - (1L << (t - 1))))) % T; if (cl(u) != cl(v) && p > x) want[{u, v}] += copies; } }
        std::vector<L> perm(T), inv(T); std::iota(perm.begin(), perm.end(), 0);
        for (L u = 0; u < T; ++u) { L v = u + (L) (x * (T - u)); std::swap(perm[u], perm[v]); }
        for (L u = 0; u < T; ++u) inv[perm[u]] = u;
        params(pi, 0, 0); G g = gen("SSCA2/constant"); if (!g.ok) return;
        for (auto &e : g.e) {
            L u = std::get<0>(e), v = std::get<1>(e);
            if (u < 0 || u >= T || v < 0 || v >= T) { fail("SSCA2/constant/range", "vertex out of range"); return; }
            u = inv[u]; v = inv[v];
            if (single.count({std::min(u, v), std::max(u, v)})) { --single[{std::min(u, v), std::max(u, v)}]; if (got.count({v, u})) single[{std::min(u, v), std::max(u, v)}] = -99; got[{u, v}] = 0; }
            else ++got[{u, v}];
        }
        for (auto &q : single) { if (q.second) { fail("SSCA2/constant/single", fmt("%ld and %ld are joined in both directions or by another number of edges", q.first.first, q.first.second)); return; } got.erase(q.first); got.erase({q.first.second, q.first.first}); }
        if (got != want) { std::string d; for (auto &q : want) if (got[q.first] != q.second) d += fmt(" %ld->%ld: %ld instead of %ld", q.first.first, q.first.second, got[q.first], q.second); for (auto &q : got) if (q.second && !want.count(q.first)) d += fmt(" %ld->%ld: %ld instead of 0", q.first.first, q.first.second, q.second); fail("SSCA2/constant/edges", "before the renaming:" + d); }
        ++cnt.traces;
    });
    h.add("SSCA2 weights", TAILS * 8, [](uint64_t i) {
        static const L W[8][2] = {{0, 100}, {0, 1}, {5, 6}, {3, 3}, {-5, -1}, {-2, 3}, {0, 1L << 40}, {-100, 0}};
        base(); cf = {4, 3, 2, .2, .5, W[i / TAILS][0], W[i / TAILS][1]}; int t = i % TAILS; descTail = TNAME[t]; rest = [t](int, uint64_t k) { return tailAnswer(t, k); };
        one(true);
    });
    h.add("SSCA2 rules", TAILS * 4 * 2, [](uint64_t i) {
        int t = i % TAILS; i /= TAILS; L T = std::array<L, 4>{33, 100, 1000, 5000}[i % 4];
        base(); drawCap = 100000000; cf = {T, i / 4 ? 1 : T == 5000 ? 6 : 10, 3, .2, .5, 0, T}; descTail = TNAME[t]; rest = [t](int, uint64_t k) { return tailAnswer(t, k); };
        one(true);
    });
    addCli(h);
}
#endif

int mcx::setup(Harness &h) {
    gt_err = fopen("/dev/null", "w");
    families(h);
    return 0;
}
MCX_MAIN
