// F12 (conversions), F13 (ownership histories), F14 (utilities), I15 (readers): exhaustive enumeration on the real
// classes.  No GraphBLAS object is created here (see grb.cpp).
#include <cassert>
#include <numeric>
#include <sstream>
#include <tuple>
#include <typeinfo>
#include <cmath>
#include <sys/stat.h>
#include <sys/mman.h>
#include "CSR.h"
#include "CSC.h"
#include "IO.h"
#include "util/transpose.h"
#include "util/triple-util.h"
#include "spgemm-blocks/masked-spgemm.h"
#include <malloc.h>
#include "mat.h"
// new/delete go through the wrapped malloc as well, so that mcx::liveBig counts every non-empty block
#ifndef MCX_HB
void *operator new(size_t n) { void *p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
using namespace mcx;
typedef MCX_IT IT;
typedef MCX_NT NT;

static std::string what;
static void env(int threads, int policy) { mc::omp.policy = policy; mc::omp.deliver = 0; mc::omp.maxThreads = threads; }
struct Ent { i64 r, c; NT v; bool operator<(const Ent &o) const { return std::tie(r, c, v) < std::tie(o.r, o.c, o.v); } bool operator==(const Ent &o) const { return r == o.r && c == o.c && v == o.v; } };
typedef std::vector<Ent> Ents;
static std::string show(const Ents &e) { std::string s; if (e.size() > 400) return fmt("%zu entries: ", e.size()) + show(Ents(e.begin(), e.begin() + 40)) + "... "; for (auto &x : e) s += fmt("(%ld,%ld)=%s ", (long) x.r, (long) x.c, vstr(x.v).c_str()); return s; }
enum Order { ANY, NONDEC, STRICT };
static void ck(bool ok, const char *kind, const std::string &msg) { if (!ok) fail(std::string(curOp) + "/" + kind, std::string(curOp) + ": " + msg); }

// the arrays of a compressed matrix against the entries it should hold; major: rows (CSR) or columns (CSC)
static bool checkArrays(const IT *ptr, const IT *ids, const NT *vals, i64 major, i64 minor, i64 nnz, bool csr, Ents want, Order ord) {
    ++cnt.traces; cnt.transitions += major;
    if (major > 0) {
        if (!ptr) { ck(false, "pointers", "no pointer array"); return false; }
        if (ptr[0] != 0) { ck(false, "pointers", fmt("first pointer is %ld", (long) ptr[0])); return false; }
        for (i64 i = 0; i < major; ++i) if ((i64) ptr[i + 1] < (i64) ptr[i] || (i64) ptr[i + 1] > nnz) { ck(false, "pointers", fmt("pointer %ld is %ld (nnz %ld)", (long) i + 1, (long) ptr[i + 1], (long) nnz)); return false; }
        if ((i64) ptr[major] != nnz) { ck(false, "nnz", fmt("nnz is %ld, the last pointer %ld", (long) nnz, (long) ptr[major])); return false; }
    } else if (nnz) { ck(false, "nnz", "entries in an empty matrix"); return false; }
    Ents got;
    for (i64 i = 0; i < major; ++i) for (i64 k = ptr[i]; k < (i64) ptr[i + 1]; ++k) {
        i64 j = ids[k];
        if (j < 0 || j >= minor) { ck(false, "range", fmt("index %ld of %ld", (long) j, (long) minor)); return false; }
        if (k > (i64) ptr[i]) { i64 p = ids[k - 1]; if ((ord == STRICT && j <= p) || (ord == NONDEC && j < p)) { ck(false, "order", fmt("index %ld follows %ld in line %ld", (long) j, (long) p, (long) i)); return false; } }
        got.push_back(csr ? Ent{i, j, vals[k]} : Ent{j, i, vals[k]});
    }
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    if (!(got == want)) { ck(false, "content", "holds " + show(got) + "expected " + show(want)); return false; }
    return true;
}
static bool check(const CSR<IT, NT> &X, i64 r, i64 c, const Ents &want, Order ord) {
    if ((i64) X.rows != r || (i64) X.cols != c) { ck(false, "dims", fmt("%ldx%ld, expected %ldx%ld", (long) X.rows, (long) X.cols, (long) r, (long) c)); return false; }
    if (!X.zerobased) { ck(false, "base", "not zero-based"); return false; }
    return checkArrays(X.rowptr, X.colids, X.values, r, c, X.nnz, true, want, ord);
}
static bool check(const CSC<IT, NT> &X, i64 r, i64 c, const Ents &want, Order ord) {
    if ((i64) X.rows != r || (i64) X.cols != c) { ck(false, "dims", fmt("%ldx%ld, expected %ldx%ld", (long) X.rows, (long) X.cols, (long) r, (long) c)); return false; }
    return checkArrays(X.colptr, X.rowids, X.values, c, r, X.nnz, false, want, ord);
}
// objects made by the code under test: release also what make_empty leaves for 0-entry matrices
template<class X> struct Own { X *x; explicit Own(X *x_) : x(x_) {} ~Own() { if (x->nnz == 0) drop(*x); delete x; } X &operator*() { return *x; } X *operator->() { return x; } };

static NT val(size_t k) { return (NT) (std::is_integral<NT>::value ? (1ll << k) : 0) + (NT) (std::is_integral<NT>::value ? 0 : 0.25 * (double) (1ll << k)); }

// ------------------------------------------------------------------------------------------------ F12
static Ents merged(const Ents &e, int op) {          // duplicates combined
    std::map<std::pair<i64, i64>, NT> m;
    for (auto &x : e) { auto it = m.find({x.r, x.c}); if (it == m.end()) m[{x.r, x.c}] = x.v; else it->second = op == 0 ? it->second + x.v : std::max(it->second, x.v); }
    Ents r; for (auto &x : m) r.push_back({x.first.first, x.first.second, x.second}); return r;
}
struct MaxOp { NT operator()(NT a, NT b) const { return std::max(a, b); } };
static void fromTriples(i64 r, i64 c, const Ents &e) {
    size_t n = e.size();
    Order ord = NONDEC; { auto m = merged(e, 0); if (m.size() == n) ord = STRICT; }
    {
        curOp = "CSC(Triple*)";
        auto *t = new Triple<IT, NT>[n]; for (size_t i = 0; i < n; ++i) t[i] = Triple<IT, NT>((IT) e[i].r, (IT) e[i].c, e[i].v);
        { Own<CSC<IT, NT>> X(new CSC<IT, NT>(t, (IT) n, (IT) r, (IT) c)); check(*X, r, c, e, ord);
          for (size_t i = 0; i < n; ++i) ck((i64) t[i].row == e[i].r && (i64) t[i].col == e[i].c && t[i].val == e[i].v, "source", "the triples were changed");
          for (int op = 0; op < 2; ++op) {
              curOp = "MergeDuplicates";
              Own<CSC<IT, NT>> Y(new CSC<IT, NT>(t, (IT) n, (IT) r, (IT) c));
              if (op == 0) Y->MergeDuplicates(std::plus<NT>()); else Y->MergeDuplicates(MaxOp());
              check(*Y, r, c, merged(e, op), STRICT);
          } }
        curOp = "removeDuplicates";
        IT m = removeDuplicates((IT) n, t);
        auto want = merged(e, 0); auto sorted = e; std::sort(sorted.begin(), sorted.end());
        ck((size_t) m == want.size(), "count", fmt("returns %ld for %zu distinct positions", (long) m, want.size()));
        if ((size_t) m == want.size()) for (size_t i = 0; i < want.size(); ++i) {      // row-major order, one of the values
            bool known = std::binary_search(sorted.begin(), sorted.end(), Ent{(i64) t[i].row, (i64) t[i].col, t[i].val});
            ck((i64) t[i].row == want[i].r && (i64) t[i].col == want[i].c && known, "content", fmt("position %zu is wrong", i));
        }
        delete[] t;
    }
    for (int op = 0; op < 2; ++op) {
        curOp = "CSC(tuples, addop)";
        std::vector<std::tuple<IT, IT, NT>> t; for (auto &x : e) t.push_back(std::make_tuple((IT) x.r, (IT) x.c, x.v));
        auto t0 = t;
        Own<CSC<IT, NT>> X(op == 0 ? new CSC<IT, NT>(t, (IT) r, (IT) c, std::plus<NT>()) : new CSC<IT, NT>(t, (IT) r, (IT) c, MaxOp()));
        check(*X, r, c, merged(e, op), STRICT);
        ck(t == t0, "source", "the tuples were changed");
    }
    if (n) {
        curOp = "CSC(arrays)";
        IT *ri = new IT[n], *ci = new IT[n]; NT *v = new NT[n]; for (size_t i = 0; i < n; ++i) { ri[i] = (IT) e[i].r; ci[i] = (IT) e[i].c; v[i] = e[i].v; }
        { Own<CSC<IT, NT>> X(new CSC<IT, NT>(ri, ci, v, (IT) n, (IT) r, (IT) c)); check(*X, r, c, e, ord); }
        for (size_t i = 0; i < n; ++i) ck((i64) ri[i] == e[i].r && (i64) ci[i] == e[i].c && v[i] == e[i].v, "source", "the arrays were changed");
        delete[] ri; delete[] ci; delete[] v;
    }
    {
        curOp = "CSC(edge list)";
        std::vector<std::pair<int64_t, int64_t>> p; Ents one; for (auto &x : e) { p.push_back({x.r, x.c}); one.push_back({x.r, x.c, (NT) 1}); }
        Own<CSC<IT, NT>> X(new CSC<IT, NT>(p, (IT) n, (IT) r, (IT) c)); check(*X, r, c, one, ord);
    }
    if (r == c) {
        // GTgraph edge list, sorted by start vertex; parallel edges are summed
        auto s = e; std::stable_sort(s.begin(), s.end(), [](const Ent &a, const Ent &b) { return a.r < b.r; });
        graph G; memset(&G, 0, sizeof G); G.m = (LONG_T) n; G.n = (LONG_T) r;
        G.start = new LONG_T[n]; G.end = new LONG_T[n]; G.w = new WEIGHT_T[n];
        Ents we; for (size_t i = 0; i < n; ++i) { G.start[i] = s[i].r; G.end[i] = s[i].c; G.w[i] = 1 + (long) i * 3; we.push_back({s[i].r, s[i].c, (NT) G.w[i]}); }
        we = merged(we, 0);
        { curOp = "CSR(graph)"; Own<CSR<IT, NT>> X(new CSR<IT, NT>(G)); check(*X, r, c, we, STRICT); }
        { curOp = "CSC(graph)"; Own<CSC<IT, NT>> X(new CSC<IT, NT>(G)); check(*X, r, c, we, STRICT); }
        for (size_t i = 0; i < n; ++i) ck(G.start[i] == s[i].r && G.end[i] == s[i].c && G.w[i] == 1 + (long) i * 3, "source", "the graph was changed");
        delete[] G.start; delete[] G.end; delete[] G.w;
    }
}
static void rawCSC(CSC<IT, NT> &X, i64 r, i64 c, Ents e) {
    std::sort(e.begin(), e.end(), [](const Ent &a, const Ent &b) { return std::tie(a.c, a.r) < std::tie(b.c, b.r); });
    X.rows = (IT) r; X.cols = (IT) c; X.nnz = (IT) e.size();
    X.colptr = my_malloc<IT>(c + 1, false); X.rowids = my_malloc<IT>(e.size(), false); X.values = my_malloc<NT>(e.size(), false);
    size_t k = 0; for (i64 j = 0; j <= c; ++j) { X.colptr[j] = (IT) k; while (k < e.size() && e[k].c == j) { X.rowids[k] = (IT) e[k].r; X.values[k] = e[k].v; ++k; } }
}
static void rawCSR(CSR<IT, NT> &X, i64 r, i64 c, Ents e, bool sortIt = true) {
    if (sortIt) std::sort(e.begin(), e.end());
    X.rows = (IT) r; X.cols = (IT) c; X.nnz = (IT) e.size(); X.zerobased = true;
    X.rowptr = my_malloc<IT>(r + 1, false); X.colids = my_malloc<IT>(e.size(), false); X.values = my_malloc<NT>(e.size(), false);
    size_t k = 0; for (i64 i = 0; i <= r; ++i) { X.rowptr[i] = (IT) k; while (k < e.size() && e[k].r == i) { X.colids[k] = (IT) e[k].c; X.values[k] = e[k].v; ++k; } }
}
static Ents entsOf(i64 r, i64 c, u64 bits) {
    Ents e; for (i64 p = 0; p < r * c; ++p) if (bits >> p & 1) e.push_back({p / c, p % c, val((size_t) p)});
    return e;
}
static Ents flip(const Ents &e) { Ents f; for (auto &x : e) f.push_back({x.c, x.r, x.v}); return f; }
static void atomicTranspose(const CSR<IT, NT> &A, i64 r, i64 c, const Ents &e) {
    curOp = "csr2csc_atomic_nosort";
    IT *ptr = (IT *) malloc(sizeof(IT) * (c + 1)), *ids = (IT *) malloc(sizeof(IT) * e.size()); NT *v = (NT *) malloc(sizeof(NT) * e.size());
    memset(ptr, 0x5a, sizeof(IT) * (c + 1));
    csr2csc_atomic_nosort((IT) r, (IT) c, (IT) e.size(), A.rowptr, A.colids, A.values, ptr, ids, v);
    checkArrays(ptr, ids, v, c, r, (i64) e.size(), false, e, ANY);
    free(ptr); free(ids); free(v);
}
static void convertAll(i64 r, i64 c, const Ents &e) {
    {
        CSC<IT, NT> X; rawCSC(X, r, c, e);
        Snapshot<IT, NT> s(X);
        { curOp = "CSR(CSC)"; Own<CSR<IT, NT>> Y(new CSR<IT, NT>(X)); check(*Y, r, c, e, STRICT); }
        { curOp = "CSR(CSC,false)"; Own<CSR<IT, NT>> Y(new CSR<IT, NT>(X, false)); check(*Y, r, c, e, STRICT); }
        { curOp = "CSR(CSC,transpose)"; Own<CSR<IT, NT>> Y(new CSR<IT, NT>(X, true)); check(*Y, c, r, flip(e), STRICT); }
        { curOp = "CSR = CSR(CSC)"; CSR<IT, NT> Y; { Own<CSR<IT, NT>> T(new CSR<IT, NT>(X)); Y = *T; } check(Y, r, c, e, STRICT); }
        { curOp = "CSC copy"; CSC<IT, NT> Y(X); check(Y, r, c, e, STRICT); }
        auto d = s.diff(X); curOp = "CSR(CSC)"; ck(d.empty(), "source", "the source: " + d);
        drop(X);
    }
    CSR<IT, NT> A; rawCSR(A, r, c, e);
    Snapshot<IT, NT> s(A);
    atomicTranspose(A, r, c, e);
    { curOp = "CSR copy"; CSR<IT, NT> Y(A); check(Y, r, c, e, STRICT); }
    auto d = s.diff(A); ck(d.empty(), "source", "the source: " + d);
    drop(A);
}
static void addConversions(Harness &h, i64 r, i64 c, int chunk) {
    u64 n = 1ull << (r * c);
    h.add(fmt("all %ldx%ld patterns", (long) r, (long) c), (n + chunk - 1) / chunk, [=](u64 idx) {
        for (u64 bits = idx * chunk; bits < (idx + 1) * chunk && bits < n; ++bits) {
            auto e = entsOf(r, c, bits);
            what = fmt("%ldx%ld ", (long) r, (long) c) + show(e); describe = [] { return what; };
            ++cnt.states; tick();
            for (int t = 1; t <= 3; ++t) { env(t, t & 1); convertAll(r, c, e); }
            if (e.size() <= 8 || bits % 7 == 0) for (int o = 0; o < 3; ++o) {
                Ents q = e;
                if (o == 1) std::reverse(q.begin(), q.end());
                if (o == 2) { q.clear(); for (size_t i = 0; i < e.size(); ++i) if (i & 1) q.push_back(e[i]); for (size_t i = e.size(); i-- > 0;) if (!(i & 1)) q.push_back(e[i]); }
                env(1 + o, o & 1);
                what = fmt("%ldx%ld ", (long) r, (long) c) + show(q);
                fromTriples(r, c, q);
            }
        }
        describe = nullptr;
    });
}
static void addSequences(Harness &h, i64 r, i64 c, int len) {
    u64 P = r * c, n = 1; for (int i = 0; i < len; ++i) n *= P;
    const u64 chunk = 64;
    h.add(fmt("all sequences of %d triples in %ldx%ld", len, (long) r, (long) c), (n + chunk - 1) / chunk, [=](u64 idx) {
        for (u64 w = idx * chunk; w < (idx + 1) * chunk && w < n; ++w) {
            Ents e; u64 x = w;
            for (int i = 0; i < len; ++i) { e.push_back({(i64) (x % P) / c, (i64) (x % P) % c, val((size_t) (i * 5 + 3) % 7)}); x /= P; }
            what = fmt("%ldx%ld ", (long) r, (long) c) + show(e); describe = [] { return what; };
            ++cnt.states; env(1 + w % 3, w & 1);
            fromTriples(r, c, e);
        }
        describe = nullptr;
    });
}
// taller, wider and longer lines (sort thresholds), built by rule
static void addStructured(Harness &h, int maxDim) {
    static const int D[] = {1, 2, 3, 5, 8, 16, 17, 33, 40};
    int nd = 0; for (int d : D) if (d <= maxDim) ++nd;
    h.add("structured patterns", (u64) nd * nd * 12, [=](u64 idx) {
        int kind = idx % 12; i64 c = D[idx / 12 % nd], r = D[idx / 12 / nd];
        Ents e; size_t k = 0;
        for (i64 i = 0; i < r; ++i) for (i64 j = 0; j < c; ++j) {
            bool in = false;
            switch (kind) { case 0: in = true; break; case 1: in = i == j; break; case 2: in = j == c - 1; break; case 3: in = i == r - 1; break; case 4: in = j == 0; break; case 5: in = i == 0; break;
                case 6: in = (i + j) % 3 == 0; break; case 7: in = i == r / 2; break; case 8: in = j == c / 2; break; case 9: in = j > i; break; case 10: in = j < i; break; case 11: in = (i * 7 + j * 3) % 5 == 0 && i % 2; break; }
            if (in) { e.push_back({i, j, (NT) (i64) (++k % 251)}); }
        }
        what = fmt("%ldx%ld rule %d, %zu entries", (long) r, (long) c, kind, e.size()); describe = [] { return what; };
        ++cnt.states;
        for (int t = 1; t <= 3; ++t) { env(t, t & 1); convertAll(r, c, e); }
        for (int o = 0; o < 3; ++o) {
            Ents q = e;
            if (o == 1) std::reverse(q.begin(), q.end());
            if (o == 2) { size_t n = e.size(); for (size_t i = 0; i < n; ++i) q[i] = e[n ? (i * 7919 + 13) % n : 0]; Ents u = q; std::sort(u.begin(), u.end()); if (std::adjacent_find(u.begin(), u.end()) != u.end()) q = e; }
            env(1 + o, o & 1);
            fromTriples(r, c, q);
        }
        describe = nullptr;
    });
}
// lines longer than narrow counters count, built by rule
static void addTall(Harness &h) {
    static const i64 N[] = {127, 128, 255, 256, 257, 300, 511, 513, 1024, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131073};
#ifdef MCX_HB
    const int NN = 4;
#else
    const int NN = (int) (sizeof N / sizeof *N) - (thorough ? 0 : 1);
#endif
    h.add("long lines by rule", NN * 7, [=](u64 idx) {
        i64 n = N[idx % NN]; int kind = (int) (idx / NN); Ents e; i64 r = n, c = 2;
        auto v = [](i64 k) { return (NT) (k % 113 + 1); };
        switch (kind) {
            case 0: for (i64 i = 0; i < n; ++i) e.push_back({i, 0, v(i)}); e.push_back({n / 2, 1, v(7)}); break;      // one full column
            case 1: r = 3; c = n; for (i64 j = 0; j < n; ++j) e.push_back({1, j, v(j)}); e.push_back({2, n - 1, v(9)}); break;    // one full row
            case 2: c = n; for (i64 i = 0; i < n; ++i) e.push_back({i, i, v(i)}); break;
            case 3: c = 3; for (i64 i = 0; i < n; ++i) e.push_back({i, i % 3, v(i)}); break;
            case 4: c = n; for (i64 i = 0; i < n; ++i) e.push_back({i, n - 1 - i, v(i)}); break;
            case 5: r = 2; c = n; for (i64 j = n - 1; j >= 0; --j) if (j % 2) e.push_back({j / 2 % 2, j, v(j)}); break;
            case 6: r = 2; c = 2; for (i64 i = 0; i < n; ++i) e.push_back({i % 3 / 2, i % 3 % 2, v(i % 5)}); break;   // many duplicates
        }
        what = fmt("%ldx%ld rule %d, %zu entries", (long) r, (long) c, kind, e.size()); describe = [] { return what; };
        ++cnt.states; tick();
        if (kind != 6) for (int t = 1; t <= 3; ++t) { env(t, t & 1); convertAll(r, c, e); tick(); }
        env(2, 0); fromTriples(r, c, e); tick();
        std::reverse(e.begin(), e.end()); env(3, 1); fromTriples(r, c, e);
        describe = nullptr;
    });
}
// the only schedule-dependent conversion: every order in which threads take the dynamic chunks
static void addTransposeSchedules(Harness &h, i64 r, i64 c) {
    h.add(fmt("csr2csc_atomic_nosort schedules %ldx%ld", (long) r, (long) c), 1ull << (r * c), [=](u64 bits) {
        auto e = entsOf(r, c, bits);
        CSR<IT, NT> A; rawCSR(A, r, c, e);
        what = fmt("%ldx%ld ", (long) r, (long) c) + show(e); describe = [] { return what + " schedule " + mc::currentSchedule(); };
        ++cnt.states;
        for (int t = 2; t <= 3; ++t) {
            env(t, 0);
            auto res = mc::explore(thorough ? 4 : 2, 200000, [&] { tick(); atomicTranspose(A, r, c, e); });
            cnt.schedules += res.executions; cnt.choicePoints += res.choicePoints; if (res.capped) ++cnt.capped;
        }
        describe = nullptr;
        drop(A);
    });
}
static void addRandomTriples(Harness &h) {
    h.add("generateRandomTriples", 7 * 7 * 40, [](u64 idx) {
        IT r = 1 + idx % 7, c = 1 + idx / 7 % 7, n = 1 + idx / 49;
        what = fmt("%ldx%ld, %ld values", (long) r, (long) c, (long) n); describe = [] { return what; };
        curOp = "generateRandomTriples"; ++cnt.states; ++cnt.traces;
        Triple<IT, NT> *t = nullptr;
        IT m = generateRandomTriples(r, c, n, t);
        ck(m >= 1 && m <= n, "count", fmt("returns %ld", (long) m));
        for (IT i = 0; i < m; ++i) {
            ck(t[i].row >= 0 && t[i].row < r && t[i].col >= 0 && t[i].col < c && t[i].val == (NT) 1, "content", "triple out of range");
            if (i) ck(t[i - 1].row < t[i].row || (t[i - 1].row == t[i].row && t[i - 1].col < t[i].col), "duplicate", "not strictly increasing");
        }
        delete[] t;
        describe = nullptr;
    });
}

// ------------------------------------------------------------------------------------------------ F13
// Every history of a given length over a few slots; the model of a slot is its dimensions and entries.
struct Model { i64 r = 0, c = 0; Ents e; };
struct Shape13 { i64 r, c; u64 bits; const char *n; };
static const Shape13 SH[] = {{2, 3, 0x12, "2x3/2"}, {3, 2, 0x3f, "3x2/6"}, {2, 2, 0, "2x2/0"}, {3, 1, 2, "3x1/1"}, {2, 2, 0xf, "2x2/4"}, {2, 0, 0, "2x0"}};
static const int NSH = 6;
static Ents shapeEnts(int k, int seq) { auto e = entsOf(SH[k].r, std::max<i64>(SH[k].c, 1), SH[k].bits); for (auto &x : e) x.v += (NT) (seq * 512); return e; }
static struct Hist {          // no heap blocks of its own: the histories count those
    char b[1024]; size_t n = 0;
    void clear() { n = 0; b[0] = 0; }
    void push_back(const char *f, ...) { va_list a; va_start(a, f); n += vsnprintf(b + n, sizeof b - n, f, a); va_end(a); n += snprintf(b + n, sizeof b - n, "; "); }
} hist;
static std::string showHist() { return hist.b; }
static CSR<IT, NT> *newCSR(int k, const Ents &e) {
    auto *p = new CSR<IT, NT>((IT) e.size(), (IT) SH[k].r, (IT) SH[k].c);
    size_t n = 0; for (i64 i = 0; i <= SH[k].r; ++i) { p->rowptr[i] = (IT) n; while (n < e.size() && e[n].r == i) { p->colids[n] = (IT) e[n].c; p->values[n] = e[n].v; ++n; } }
    return p;
}
static CSC<IT, NT> *newCSC(int k, const Ents &e) {
    std::vector<Triple<IT, NT>> t; for (auto &x : e) t.push_back(Triple<IT, NT>((IT) x.r, (IT) x.c, x.v));
    return new CSC<IT, NT>(t.data(), (IT) e.size(), (IT) SH[k].r, (IT) SH[k].c);
}
static bool conform(const Model &a, const Model &b) { return a.c == b.r && a.r > 0 && a.c > 0 && b.c > 0; }
static void checkSlot(const char *nm, const CSR<IT, NT> &x, const Model &m) {
    if (!check(x, m.r, m.c, m.e, ANY)) return; (void) nm;
}
struct State13 {
    CSR<IT, NT> *s[2]; Model m[2]; CSC<IT, NT> *x; Model mx; int seq = 0;
    State13() { for (auto &p : s) p = new CSR<IT, NT>(); x = new CSC<IT, NT>(); }
    ~State13() { for (auto p : s) delete p; delete x; }
};
enum { OPS_SLOT = NSH + 8, OPS13 = 2 * OPS_SLOT + 5 };
// 0..NSH-1 rebuild with shape; then: default, assign other, self assign, copy-construct from other, make_empty, mutate, from CSC, product
static bool apply13(State13 &st, int op) {
    if (op >= 2 * OPS_SLOT) {            // the CSC slot
        int k = op - 2 * OPS_SLOT; ++st.seq;
        curOp = "CSC history";
        if (k < 3) { static const int which[3] = {0, 2, 4}; int q = which[k]; auto e = shapeEnts(q, st.seq); delete st.x; st.x = newCSC(q, e); st.mx = {SH[q].r, SH[q].c, e}; hist.push_back("X=%s", SH[q].n); }
        else if (k == 3) { st.x->make_empty(); st.mx = Model(); hist.push_back("X.make_empty"); }
        else { if (st.mx.e.empty()) return false; st.x->values[0] += (NT) 64; i64 c0 = -1; for (i64 j = 0; j < st.mx.c && c0 < 0; ++j) if (st.x->colptr[j + 1] > st.x->colptr[j]) c0 = j;
            for (auto &q : st.mx.e) if (q.c == c0 && q.r == (i64) st.x->rowids[0]) q.v += (NT) 64; hist.push_back("X.values[0]+=64"); }
        return true;
    }
    int i = op / OPS_SLOT, k = op % OPS_SLOT, o = 1 - i; char nm = 'A' + i, on = 'A' + o;
    auto *&p = st.s[i]; auto &m = st.m[i]; ++st.seq;
    curOp = "CSR history";
    if (k < NSH) { auto e = shapeEnts(k, st.seq); delete p; p = newCSR(k, e); m = {SH[k].r, SH[k].c, e}; hist.push_back("%c=%s", nm, SH[k].n); return true; }
    switch (k - NSH) {
        case 0: delete p; p = new CSR<IT, NT>(); m = Model(); hist.push_back("%c=()", nm); break;
        case 1: *p = *st.s[o]; m = st.m[o]; hist.push_back("%c=%c", nm, on); break;
        case 2: { auto &r = *p; *p = r; hist.push_back("%c=%c", nm, nm); break; }
        case 3: delete p; p = new CSR<IT, NT>(*st.s[o]); m = st.m[o]; hist.push_back("%c(%c)", nm, on); break;
        case 4: p->make_empty(); m = Model(); hist.push_back("%c.make_empty", nm); break;
        case 5: if (m.e.empty()) return false;
            std::sort(m.e.begin(), m.e.end()); p->values[0] += (NT) 64;
            for (auto &q : m.e) if (q.r == m.e[0].r && q.c == (i64) p->colids[0]) q.v += (NT) 64;
            hist.push_back("%c.values[0]+=64", nm); break;
        case 6: if (st.mx.c == 0) return false;
            *p = CSR<IT, NT>(*st.x); m = st.mx; hist.push_back("%c=CSR(X)", nm); break;
        case 7: {      // product written over whatever the slot holds; the other slot is left and right operand and mask
            if (st.m[o].r == 0 || st.m[o].r != st.m[o].c) return false;
            auto &q = *st.s[o];
            MaskedSpGEMM1p<MSA1A<false, false>::template Impl>(q, q, *p, q, std::multiplies<NT>(), std::plus<NT>(), 2u);
            Model n; n.r = n.c = st.m[o].r; std::map<std::pair<i64, i64>, NT> acc;
            for (auto &a : st.m[o].e) for (auto &b : st.m[o].e) if (a.c == b.r) { bool in = false; for (auto &z : st.m[o].e) if (z.r == a.r && z.c == b.c) in = true; if (in) acc[{a.r, b.c}] += a.v * b.v; }
            for (auto &z : acc) n.e.push_back({z.first.first, z.first.second, z.second});
            m = n; hist.push_back("%c=%c*%c", nm, on, on); break;
        }
    }
    return true;
}
static void checkAll13(State13 &st) {
    for (int i = 0; i < 2; ++i) { curOp = "CSR history"; check(*st.s[i], st.m[i].r, st.m[i].c, st.m[i].e, ANY); }
    curOp = "CSC history"; check(*st.x, st.mx.r, st.mx.c, st.mx.e, ANY);
    if (st.m[0].r && st.m[1].r && st.m[0].c && st.m[1].c) {
        curOp = "CSR history"; bool same = st.m[0].r == st.m[1].r && st.m[0].c == st.m[1].c && st.m[0].e.size() == st.m[1].e.size();
        if (same) { for (size_t k = 0; k < st.m[0].e.size(); ++k) { auto &a = st.m[0].e[k], &b = st.m[1].e[k]; if (a.r != b.r || a.c != b.c || !(a.v == b.v)) same = false; } if (same) ck(*st.s[0] == *st.s[1], "equal", "a copy does not equal its source"); }
    }
}
// blocks of the code under test (malloc/new), tracked by the allocator wrapper: only blocks with content count
static void addHistories(Harness &h, int len) {
    u64 n = 1; for (int i = 0; i < len; ++i) n *= OPS13;
    const u64 chunk = 512;
    h.add(fmt("all histories of %d operations on 2 CSR + 1 CSC", len), (n + chunk - 1) / chunk, [=](u64 idx) {
        tick();
        for (u64 w = idx * chunk; w < (idx + 1) * chunk && w < n; ++w) {
            int ops[8]; u64 x = w; for (int i = 0; i < len; ++i) { ops[i] = (int) (x % OPS13); x /= OPS13; }
            hist.clear(); describe = showHist; env(2, 0);
            long big0 = mcx::liveBig; int nf = nfail;
            bool ok = true;
            {
                State13 st;
                for (int i = 0; i < len; ++i) { if (!apply13(st, ops[i])) { ok = false; break; } checkAll13(st); }
                curOp = "history end";
            }
            if (ok) ++cnt.states;
            if (mcx::liveBig != big0 && nfail == nf) { ck(false, "leak", fmt("%ld non-empty blocks left", mcx::liveBig - big0)); mcx::liveBig = big0; }
        }
        describe = nullptr;
    });
}
// two CSC slots
enum { OPS_CSC = 5 + 6, OPSCC = 2 * OPS_CSC };
static bool applyCSC(CSC<IT, NT> *s[2], Model m[2], int op, int seq) {
    int i = op / OPS_CSC, k = op % OPS_CSC, o = 1 - i; char nm = 'X' + i, on = 'X' + o;
    curOp = "CSC history";
    if (k < 5) { auto e = shapeEnts(k, seq); delete s[i]; s[i] = newCSC(k, e); m[i] = {SH[k].r, SH[k].c, e}; hist.push_back("%c=%s", nm, SH[k].n); return true; }
    switch (k - 5) {
        case 0: delete s[i]; s[i] = new CSC<IT, NT>(); m[i] = Model(); hist.push_back("%c=()", nm); break;
        case 1: *s[i] = *s[o]; m[i] = m[o]; hist.push_back("%c=%c", nm, on); break;
        case 2: { auto &r = *s[i]; *s[i] = r; hist.push_back("%c=%c", nm, nm); break; }
        case 3: delete s[i]; s[i] = new CSC<IT, NT>(*s[o]); m[i] = m[o]; hist.push_back("%c(%c)", nm, on); break;
        case 4: s[i]->make_empty(); m[i] = Model(); hist.push_back("%c.make_empty", nm); break;
        case 5: if (m[i].e.empty()) return false; {
            s[i]->values[0] += (NT) 64; i64 c0 = 0; while (s[i]->colptr[c0 + 1] == 0) ++c0;
            for (auto &q : m[i].e) if (q.c == c0 && q.r == (i64) s[i]->rowids[0]) q.v += (NT) 64; hist.push_back("%c.values[0]+=64", nm); }
    }
    return true;
}
static void addCSCHistories(Harness &h, int len) {
    u64 n = 1; for (int i = 0; i < len; ++i) n *= OPSCC;
    const u64 chunk = 512;
    h.add(fmt("all histories of %d operations on 2 CSC", len), (n + chunk - 1) / chunk, [=](u64 idx) {
        tick();
        for (u64 w = idx * chunk; w < (idx + 1) * chunk && w < n; ++w) {
            u64 x = w; hist.clear(); describe = showHist; env(2, 0);
            long big0 = mcx::liveBig; int nf = nfail; bool ok = true;
            {
                CSC<IT, NT> *s[2] = {new CSC<IT, NT>(), new CSC<IT, NT>()}; Model m[2];
                for (int i = 0; i < len && ok; ++i) {
                    if (!applyCSC(s, m, (int) (x % OPSCC), i + 1)) { ok = false; break; } x /= OPSCC;
                    for (int q = 0; q < 2; ++q) check(*s[q], m[q].r, m[q].c, m[q].e, ANY);
                }
                curOp = "history end"; delete s[0]; delete s[1];
            }
            if (ok) ++cnt.states;
            if (mcx::liveBig != big0 && nfail == nf) { ck(false, "leak", fmt("%ld non-empty blocks left", mcx::liveBig - big0)); mcx::liveBig = big0; }
        }
        describe = nullptr;
    });
}

// ------------------------------------------------------------------------------------------------ F14
static Ents entsB(i64 r, i64 c, u64 bits) { auto e = entsOf(r, c, bits); for (auto &x : e) x.v = x.v * (NT) 3 + (NT) 1; return e; }
struct Sub { NT operator()(NT a, NT b) const { return a * (NT) 5 + b; } };
static void addIntersect(Harness &h, i64 r, i64 c) {
    u64 n = 1ull << (r * c);
    h.add(fmt("Intersect %ldx%ld", (long) r, (long) c), n, [=](u64 ba) {
        tick();
        auto ea = entsOf(r, c, ba);
        CSR<IT, NT> A; rawCSR(A, r, c, ea); Snapshot<IT, NT> sa(A);
        for (u64 bb = 0; bb < n; ++bb) {
            auto eb = entsB(r, c, bb);
            what = fmt("%ldx%ld A=", (long) r, (long) c) + show(ea) + " B=" + show(eb); describe = [] { return what; };
            CSR<IT, NT> B; rawCSR(B, r, c, eb); Snapshot<IT, NT> sb(B);
            ++cnt.states; env(1 + (ba + bb) % 3, bb & 1); curOp = "Intersect";
            Ents want; for (auto &x : ea) for (auto &y : eb) if (x.r == y.r && x.c == y.c) want.push_back({x.r, x.c, Sub()(x.v, y.v)});
            CSR<IT, NT> C = Intersect(A, B, Sub());
            check(C, r, c, want, STRICT);
            auto d = sb.diff(B); ck(d.empty(), "source", "B: " + d);
            if (C.nnz == 0) drop(C);
            drop(B);
        }
        auto d = sa.diff(A); ck(d.empty(), "source", "A: " + d);
        drop(A); describe = nullptr;
    });
}
// long rows: every kind of row with a position against a few row shapes, both ways
static std::vector<i64> rowKind(int k, i64 p, i64 W) {
    std::vector<i64> s;
    for (i64 j = 0; j < W; ++j) {
        bool in = false;
        switch (k) { case 0: in = j == p; break; case 1: in = j == p || j == p + 1; break; case 2: in = j <= p; break; case 3: in = j >= p; break; case 4: in = j != p; break; case 5: in = j == p || j == W - 1; break; case 6: in = j == 0 || j == p; break; case 7: in = (j >= p && j < p + 17) || j == W - 1; break;
            case 8: in = true; break; case 9: in = j % 2 == 0; break; case 10: in = j % 2; break; case 11: in = j % 3 == 0; break; case 12: in = j / 4 % 2; break; case 13: in = j * j % 7 == 2; break; case 14: in = j >= W / 2; break; case 15: in = j == W - 1; break; case 16: break; case 17: in = j % 16 == 15; break; }
        if (in) s.push_back(j);
    }
    return s;
}
static void addIntersectKinds(Harness &h, i64 W) {
    h.add(fmt("Intersect of rows of %ld columns by rule", (long) W), 8 * W, [=](u64 idx) {
        tick();
        int k = (int) (idx / W); i64 p = (i64) (idx % W);
        auto make = [&](const std::vector<std::vector<i64>> &rows, int f) { Ents e; for (size_t i = 0; i < rows.size(); ++i) for (i64 j : rows[i]) e.push_back({(i64) i, j, (NT) ((j * f + (i64) i) % 19 + 1)}); return e; };
        std::vector<std::vector<i64>> x, y; for (int q = 8; q < 18; ++q) { x.push_back(rowKind(k, p, W)); y.push_back(rowKind(q, 0, W)); }
        for (int q = 0; q < 8; ++q) { x.push_back(rowKind(k, p, W)); y.push_back(rowKind(q, (p * 5 + 3) % W, W)); }
        for (int sw = 0; sw < 2; ++sw) {
            auto ea = make(sw ? y : x, 3), eb = make(sw ? x : y, 5);
            what = fmt("rows of %ld columns, kind %d at %ld%s", (long) W, k, (long) p, sw ? ", swapped" : ""); describe = [] { return what; };
            CSR<IT, NT> A, B; rawCSR(A, (i64) x.size(), W, ea); rawCSR(B, (i64) x.size(), W, eb); Snapshot<IT, NT> sa(A), sb(B);
            ++cnt.states; env(1 + idx % 3, 0); curOp = "Intersect";
            std::map<std::pair<i64, i64>, NT> mb; for (auto &z : eb) mb[{z.r, z.c}] = z.v;
            Ents want; for (auto &z : ea) { auto it = mb.find({z.r, z.c}); if (it != mb.end()) want.push_back({z.r, z.c, Sub()(z.v, it->second)}); }
            CSR<IT, NT> C = Intersect(A, B, Sub());
            check(C, (i64) x.size(), W, want, STRICT);
            auto d = sa.diff(A) + sb.diff(B); ck(d.empty(), "source", d);
            curOp = "CSR =="; ck((A == B) == (ea == eb), "wrong", "long rows"); ck(A == A, "wrong", "not equal to itself");
            if (C.nnz == 0) drop(C);
            drop(A); drop(B);
        }
        describe = nullptr;
    });
}
static void addIntersectDims(Harness &h) {
    h.add("Intersect with different dimensions", 16, [](u64 idx) {
        i64 r = 1 + idx % 2, c = 1 + idx / 2 % 2, r2 = 1 + idx / 4 % 2, c2 = 1 + idx / 8;
        CSR<IT, NT> A, B; rawCSR(A, r, c, entsOf(r, c, ~0ull)); rawCSR(B, r2, c2, entsOf(r2, c2, ~0ull));
        curOp = "Intersect"; what = fmt("%ldx%ld with %ldx%ld", (long) r, (long) c, (long) r2, (long) c2); describe = [] { return what; };
        CSR<IT, NT> C = Intersect(A, B, Sub()); ++cnt.states;
        if (r != r2 || c != c2) check(C, 0, 0, {}, ANY);
        describe = nullptr;
    });
}
// operator==: same dimensions, structure and values within the tolerance
static void addEquality(Harness &h, i64 r, i64 c) {
    u64 n = 1ull << (r * c);
    h.add(fmt("operator== %ldx%ld", (long) r, (long) c), n, [=](u64 ba) {
        auto ea = entsOf(r, c, ba); auto T = [](auto &x) { return &x; }; (void) T;
        CSR<IT, NT> A; rawCSR(A, r, c, ea); CSC<IT, NT> Ac; rawCSC(Ac, r, c, ea);
        auto cmp = [&](i64 r2, i64 c2, const Ents &eb, bool want, const char *k) {
            CSR<IT, NT> B; rawCSR(B, r2, c2, eb); CSC<IT, NT> Bc; rawCSC(Bc, r2, c2, eb);
            what = fmt("%ldx%ld ", (long) r, (long) c) + show(ea) + fmt(" against %ldx%ld ", (long) r2, (long) c2) + show(eb) + k; describe = [] { return what; };
            curOp = "CSR =="; ck((A == B) == want, "wrong", fmt("says %d", !want)); ck((B == A) == want, "wrong", fmt("says %d (swapped)", !want));
            curOp = "CSC =="; ck((Ac == Bc) == want, "wrong", fmt("says %d", !want)); ck((Bc == Ac) == want, "wrong", fmt("says %d (swapped)", !want));
            ++cnt.states; ++cnt.traces;
            if (r2 == r && c2 == c) {      // across index bases
                curOp = "CSR == (one-based)";
                ck(B.ConvertOneBased() && !B.zerobased, "convert", "ConvertOneBased did nothing");
                bool off = false; for (i64 i = 0; i <= r; ++i) if (B.rowptr[i] < 1) off = true; for (size_t i = 0; i < eb.size(); ++i) if (B.colids[i] < 1) off = true;
                ck(!off && !B.ConvertOneBased(), "convert", "ConvertOneBased is wrong");
                ck((A == B) == want, "wrong", fmt("says %d", !want)); ck((B == A) == want, "wrong", fmt("says %d (swapped)", !want));
                B.ConvertZeroBased(); check(B, r, c, eb, STRICT);
            }
            drop(B); drop(Bc);
        };
        for (u64 bb = 0; bb < n; ++bb) cmp(r, c, entsOf(r, c, bb), ba == bb, "");
        for (size_t k = 0; k < ea.size(); ++k) {
            auto e = ea; e[k].v = e[k].v + (NT) 7; cmp(r, c, e, false, " (value changed)");
            e = ea; e[k].v = e[k].v * (NT) 2 + (NT) 40; cmp(r, c, e, false, " (value changed)");
            if (!std::is_integral<NT>::value) { e = ea; e[k].v = (NT) (e[k].v * 1.0005); cmp(r, c, e, true, " (within tolerance)"); e[k].v = (NT) (ea[k].v * 1.01); cmp(r, c, e, false, " (beyond tolerance)"); }
        }
        // same entries, other dimensions (where they fit)
        cmp(r + 1, c, ea, false, " (one more row)"); cmp(r, c + 1, ea, false, " (one more column)");
        // moving an entry to the neighbouring row/column
        for (size_t k = 0; k < ea.size(); ++k) for (int d = 0; d < 2; ++d) {
            auto e = ea; if (d) e[k].r = (e[k].r + 1) % r; else e[k].c = (e[k].c + 1) % c;
            bool clash = e[k].r == ea[k].r && e[k].c == ea[k].c; for (size_t q = 0; q < ea.size(); ++q) if (q != k && ea[q].r == e[k].r && ea[q].c == e[k].c) clash = true;
            if (!clash) cmp(r, c, e, false, " (entry moved)");
        }
        drop(A); drop(Ac); describe = nullptr;
    });
}
static void emptyEquality(Harness &h) {
    h.add("operator== of emptied matrices", 9, [](u64 idx) {
        // 0: default, 1: make_empty after content, 2: copy of a default one
        curOp = "CSR == (0x0)"; describe = [=] { return fmt("kinds %d and %d", (int) (idx % 3), (int) (idx / 3)); };
        auto mk = [](int k) { auto *p = new CSR<IT, NT>(); if (k == 1) { rawCSR(*p, 2, 2, entsOf(2, 2, 9)); p->make_empty(); } if (k == 2) { auto *q = new CSR<IT, NT>(*p); delete p; p = q; } return p; };
        auto mkc = [](int k) { auto *p = new CSC<IT, NT>(); if (k == 1) { rawCSC(*p, 2, 2, entsOf(2, 2, 9)); p->make_empty(); } if (k == 2) { auto *q = new CSC<IT, NT>(*p); delete p; p = q; } return p; };
        auto *a = mk(idx % 3), *b = mk(idx / 3); ck(*a == *b && a->isEmpty(), "wrong", "two empty matrices differ"); ck(a->sumall() == (NT) 0, "sum", "sum of nothing"); delete a; delete b;
        curOp = "CSC == (0x0)";
        auto *x = mkc(idx % 3), *y = mkc(idx / 3); ck(*x == *y && x->isEmpty(), "wrong", "two empty matrices differ"); delete x; delete y;
        ++cnt.states; ++cnt.traces; describe = nullptr;
    });
}
static void addSums(Harness &h, i64 r, i64 c) {
    h.add(fmt("sumall %ldx%ld", (long) r, (long) c), 1ull << (r * c), [=](u64 bits) {
        auto e = entsOf(r, c, bits);
        for (int k = 0; k < 3; ++k) {
            if (k == 1) for (auto &x : e) x.v = x.v * (NT) 3;
            if (k == 2) for (size_t i = 0; i < e.size(); ++i) e[i].v = (NT) (std::is_signed<NT>::value ? (i & 1 ? -1.0 : 1.0) * (double) (i + 1) : (double) i * 1e9);
            if (k == 2 && std::is_same<NT, int>::value) for (auto &x : e) x.v = (NT) 5;
            CSR<IT, NT> A; rawCSR(A, r, c, e);
            what = fmt("%ldx%ld ", (long) r, (long) c) + show(e); describe = [] { return what; }; curOp = "sumall";
            NT s = 0; for (auto &x : e) s += x.v;
            for (int t = 1; t <= 4; ++t) for (int p = 0; p < 2; ++p) { env(t, p); NT g = A.sumall(); ck(g == s, "value", "sum is " + vstr(g) + ", expected " + vstr(s)); ++cnt.traces; }
            ck(A.isEmpty() == e.empty(), "isEmpty", "isEmpty is wrong");
            ++cnt.states;
            drop(A); describe = nullptr;
        }
    });
}
static std::string coutOf(std::function<void()> f) { std::ostringstream o; auto *b = std::cout.rdbuf(o.rdbuf()); f(); std::cout.rdbuf(b); return o.str(); }
// one or two rows whose ids come in every order (permutation index p over n entries)
static std::vector<int> perm(int n, u64 p) { std::vector<int> pool, r; for (int i = 0; i < n; ++i) pool.push_back(i); for (int i = n; i > 0; --i) { r.push_back(pool[p % i]); pool.erase(pool.begin() + p % i); p /= i; } return r; }
static void lineOps(i64 lines, i64 width, const std::vector<std::vector<int>> &ids) {
    Ents e; size_t k = 0; bool sorted = true;
    for (i64 i = 0; i < lines; ++i) { for (int j : ids[i]) e.push_back({i, j, (NT) (i64) (++k * 3 % 120)}); if (!std::is_sorted(ids[i].begin(), ids[i].end())) sorted = false; }
    what = fmt("%ldx%ld ", (long) lines, (long) width) + show(e); describe = [] { return what; }; ++cnt.states;
    for (int t = 1; t <= 2; ++t) {
        env(t, 0);
        { CSR<IT, NT> A; rawCSR(A, lines, width, e, false); curOp = "CSR::Sorted";
          auto o = coutOf([&] { A.Sorted(); }); ck(o.find(sorted ? ": 1" : ": 0") != std::string::npos, "wrong", "printed \"" + o + "\"");
          curOp = "sortIds"; A.sortIds(); check(A, lines, width, e, STRICT); drop(A); }
        { CSR<IT, NT> A; rawCSR(A, lines, width, e, false); curOp = "CSR::shuffleIds"; A.shuffleIds(); check(A, lines, width, e, ANY);
          for (i64 i = 0; i < lines; ++i) ck((size_t) (A.rowptr[i + 1] - A.rowptr[i]) == ids[i].size(), "rows", "an entry changed rows");
          curOp = "sortIds"; A.sortIds(); check(A, lines, width, e, STRICT); drop(A); }
        { CSC<IT, NT> X; auto f = flip(e); X.rows = (IT) width; X.cols = (IT) lines; X.nnz = (IT) e.size(); X.colptr = my_malloc<IT>(lines + 1); X.rowids = my_malloc<IT>(e.size()); X.values = my_malloc<NT>(e.size());
          size_t q = 0; for (i64 j = 0; j <= lines; ++j) { X.colptr[j] = (IT) q; while (q < f.size() && f[q].c == j) { X.rowids[q] = (IT) f[q].r; X.values[q] = f[q].v; ++q; } }
          curOp = "CSC::Sorted"; auto o = coutOf([&] { X.Sorted(); }); ck(o.find(sorted ? ": 1" : ": 0") != std::string::npos, "wrong", "printed \"" + o + "\"");
          curOp = "CSC::shuffleIds"; X.shuffleIds(); check(X, width, lines, f, ANY); drop(X); }
    }
    describe = nullptr;
}
static void addLines(Harness &h, int maxPerm) {
    for (int n = 0; n <= maxPerm; ++n) {
        u64 f = 1; for (int i = 2; i <= n; ++i) f *= i;
        h.add(fmt("all orders of a line with %d entries", n), f, [=](u64 p) {
            auto a = perm(n, p); for (auto &x : a) x = x * 2 + 1;
            lineOps(1, 2 * n + 1, {a});
            lineOps(3, 2 * n + 1, {{}, a, {}});
        });
    }
    h.add("orders in two lines", 24 * 24, [=](u64 p) { lineOps(3, 5, {perm(4, p % 24), {}, perm(4, p / 24)}); });
    h.add("longer lines", 80, [=](u64 idx) {
        int n = 5 + (int) idx; std::vector<int> a, b, c, d;
        for (int i = 0; i < n; ++i) { a.push_back(n - 1 - i); b.push_back(i); c.push_back(i & 1 ? i / 2 : n - 1 - i / 2); }
        for (int i = 0; i < n; i += 3) d.push_back((i * 5) % n); std::sort(d.begin(), d.end()); d.erase(std::unique(d.begin(), d.end()), d.end()); std::reverse(d.begin(), d.end());
        lineOps(4, n, {a, b, c, d});
    });
}
static std::vector<std::vector<IT>> lists(i64 n, int maxLen, bool rep) {      // increasing lists over 0..n-1
    std::vector<std::vector<IT>> v = {{}}; size_t from = 0;
    for (int l = 1; l <= maxLen; ++l) { size_t to = v.size(); for (size_t i = from; i < to; ++i) for (i64 x = v[i].empty() ? 0 : (i64) v[i].back() + (rep ? 0 : 1); x < n; ++x) { auto w = v[i]; w.push_back((IT) x); v.push_back(w); } from = to; }
    return v;
}
static void addSpRef(Harness &h, i64 r, i64 c, int maxLen) {
    auto R = std::make_shared<std::vector<std::vector<IT>>>(lists(r, maxLen, true)), C = std::make_shared<std::vector<std::vector<IT>>>(lists(c, maxLen, true));
    h.add(fmt("SpRef %ldx%ld, lists up to %d", (long) r, (long) c, maxLen), 1ull << (r * c), [=](u64 bits) {
        tick();
        auto e = entsOf(r, c, bits);
        CSC<IT, NT> A; rawCSC(A, r, c, e); Snapshot<IT, NT> s(A);
        for (auto &ri : *R) for (auto &ci : *C) {
            std::string l; for (IT x : ri) l += fmt("%ld,", (long) x); l += " x "; for (IT x : ci) l += fmt("%ld,", (long) x);
            what = fmt("%ldx%ld ", (long) r, (long) c) + show(e) + l; describe = [] { return what; };
            Ents want; bool rep = false; for (size_t i = 1; i < ri.size(); ++i) if (ri[i] == ri[i - 1]) rep = true;
            for (size_t i = 0; i < ri.size(); ++i) for (size_t j = 0; j < ci.size(); ++j) for (auto &x : e) if (x.r == (i64) ri[i] && x.c == (i64) ci[j]) want.push_back({(i64) i, (i64) j, x.v});
            ++cnt.states; env(2, 0);
            { curOp = "SpRef"; CSC<IT, NT> B = A.SpRef(ri, ci); check(B, ri.size(), ci.size(), want, STRICT); }
            { curOp = "SpRef1"; CSC<IT, NT> B = A.SpRef1(ri, ci); check(B, ri.size(), ci.size(), want, STRICT); }
            if (!rep) { curOp = "SpRef2"; CSC<IT, NT> B = A.SpRef2(ri.data(), (IT) ri.size(), ci.data(), (IT) ci.size()); check(B, ri.size(), ci.size(), want, STRICT); }
        }
        auto d = s.diff(A); ck(d.empty(), "source", "the source: " + d);
        drop(A); describe = nullptr;
    });
}
static void addSmallUtils(Harness &h) {
    h.add("small helpers", 400, [](u64 n) {
        describe = [=] { return fmt("n=%lu", n); }; ++cnt.states; ++cnt.traces;
        for (unsigned d = 1; d <= 512; d *= 2) {
            curOp = "getModulo"; ck(getModulo((unsigned) n, d) == n % d, "value", fmt("%lu mod %u", n, d));
            curOp = "getDivident"; ck(getDivident((unsigned) n, d) == n / d, "value", fmt("%lu div %u", n, d));
        }
        curOp = "absdiff"; ck(absdiff<double>()(3.5, (double) n) == std::fabs(3.5 - (double) n) && absdiff<int>()((int) n, 7) == std::abs((int) n - 7), "value", "wrong");
        curOp = "my_is_sorted";
        std::vector<int> v; for (int i = 0; i < 5; ++i) v.push_back((n >> i) & 3);
        for (size_t l = 0; l <= v.size(); ++l) ck(my_is_sorted(v.begin(), v.begin() + l, std::less<int>()) == std::is_sorted(v.begin(), v.begin() + l), "value", "wrong");
        describe = nullptr;
    });
}

// ------------------------------------------------------------------------------------------------ I15
static std::string filePath; static int fileFd = -1;
static void writeFile(const std::string &s) {
    if (fileFd < 0) {
        fileFd = memfd_create("mc", 0);
        filePath = fmt("/proc/self/fd/%d", fileFd);
        FILE *t = fileFd >= 0 ? fopen(filePath.c_str(), "r") : nullptr;
        if (t) fclose(t);
        else { char b[] = "/tmp/mcmats-XXXXXX"; fileFd = mkstemp(b); filePath = b; }
    }
    if (ftruncate(fileFd, 0) || pwrite(fileFd, s.data(), s.size(), 0) != (ssize_t) s.size()) { perror("scratch file"); _exit(3); }
}
struct FileSpec { std::string text; i64 r, c; Ents e; bool sym; };     // e: the matrix the file describes, both triangles
static const char *commentSets[] = {"", "%\n", "% a comment\n%another: 3 3 9\n", "% symmetric looking, general purpose, integer\n", "% LONG\n%\n", "% general remarks about symmetric matrices\n"};
static std::string longLine(int n) { return "%" + std::string(n, 'x') + "\n"; }
static void readersOn(const FileSpec &f, bool colOrder) {
    writeFile(f.text);
    what = f.text; describe = [] { return what; }; ++cnt.states;
    size_t z = (size_t) mcx::liveBig;
    {
        curOp = "CSR(file)";
        Own<CSR<IT, NT>> X(new CSR<IT, NT>(filePath)); check(*X, f.r, f.c, f.e, colOrder ? STRICT : ANY);
    }
    ck((size_t) mcx::liveBig == z, "leak", fmt("%ld blocks left", mcx::liveBig - (long) z)); mcx::liveBig = (long) z;
    {
        curOp = "ReadASCII"; CSC<IT, NT> X; int rc = ReadASCII<IT, NT>(filePath, X); ck(rc == 1, "status", "fails"); check(X, f.r, f.c, f.e, STRICT);
    }
    ck((size_t) mcx::liveBig == z, "leak", fmt("%ld blocks left", mcx::liveBig - (long) z)); mcx::liveBig = (long) z;
    for (int diag = 0; diag < 2; ++diag) {
        curOp = diag ? "ReadASCII_Triples(no loops)" : "ReadASCII_Triples";
        IT nr, nc, nv, *ri = nullptr, *ci = nullptr; NT *v = nullptr;
        int rc = ReadASCII_Triples<IT, NT>(filePath, nr, nc, nv, ri, ci, v, diag == 1);
        Ents got, want; for (auto &x : f.e) if (!diag || x.r != x.c) want.push_back(x);
        ck(rc == 1 && (i64) nr == f.r && (i64) nc == f.c, "dims", "wrong dimensions");
        ck((size_t) nv == want.size(), "count", fmt("%ld entries, expected %zu", (long) nv, want.size()));
        if ((size_t) nv == want.size()) { for (size_t i = 0; i < want.size(); ++i) got.push_back({(i64) ri[i], (i64) ci[i], v[i]}); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); ck(got == want, "content", "read " + show(got) + "expected " + show(want)); }
        delete[] ri; delete[] ci; delete[] v; ++cnt.traces;
    }
    ck((size_t) mcx::liveBig == z, "leak", fmt("%ld blocks left", mcx::liveBig - (long) z)); mcx::liveBig = (long) z;
    describe = nullptr;
}
// spelling of the value of entry k: text and value
static const std::pair<const char *, double> realSpell[] = {{"1.5", 1.5}, {"-0.25", -0.25}, {"2e1", 20}, {"3", 3}, {"1.25E+2", 125}, {".5", .5}, {"-7", -7}, {"0.0", 0}, {"1e-2", 0.015625}};
static const std::pair<const char *, double> intSpell[] = {{"3", 3}, {"1", 1}, {"12", 12}, {"7", 7}, {"100", 100}, {"0", 0}, {"2147483647", 2147483647}, {"5", 5}};
enum Field { REAL, INTEGER, PATTERN };
static FileSpec makeFile(i64 r, i64 c, bool sym, Field fld, const std::vector<std::pair<i64, i64>> &order, int com, int style, bool lastNewline, int voff) {
    FileSpec f; f.r = r; f.c = c; f.sym = sym;
    f.text = std::string("%%MatrixMarket matrix coordinate ") + (fld == REAL ? "real" : fld == INTEGER ? "integer" : "pattern") + (sym ? " symmetric" : " general") + "\n";
    std::string cs = commentSets[com]; if (com == 4) cs = longLine(200) + longLine(254) + longLine(255) + longLine(256) + longLine(700);
    f.text += cs + fmt("%ld %ld %zu\n", (long) r, (long) c, order.size());
    const char *sep = style == 1 ? "  " : style == 2 ? "\t" : " ", *lead = style == 1 ? " " : "";
    for (size_t i = 0; i < order.size(); ++i) {
        f.text += fmt("%s%ld%s%ld", lead, (long) order[i].first + 1, sep, (long) order[i].second + 1);
        double v = 1;
        if (fld == REAL) { auto &s = realSpell[(i + voff) % 8]; v = s.second; f.text += std::string(sep) + s.first; }
        if (fld == INTEGER) { auto &s = intSpell[(i + voff) % 8]; v = s.second; f.text += std::string(sep) + s.first; }
        if (style == 1) f.text += " ";
        if (lastNewline || i + 1 < order.size()) f.text += "\n";
        f.e.push_back({order[i].first, order[i].second, (NT) v});
        if (sym && order[i].first != order[i].second) f.e.push_back({order[i].second, order[i].first, (NT) v});
    }
    if (style == 1 && lastNewline) f.text += "\n";
    return f;
}
static void addFiles(Harness &h, i64 r, i64 c, bool sym) {
    auto pos = std::make_shared<std::vector<std::pair<i64, i64>>>();
    for (i64 j = 0; j < c; ++j) for (i64 i = sym ? j : 0; i < r; ++i) pos->push_back({i, j});
    h.add(fmt("%s files %ldx%ld", sym ? "symmetric" : "general", (long) r, (long) c), 1ull << pos->size(), [=](u64 bits) {
        tick(); env(2, 0);
        std::vector<std::pair<i64, i64>> o; for (size_t i = 0; i < pos->size(); ++i) if (bits >> i & 1) o.push_back((*pos)[i]);
        for (int fld = 0; fld < 3; ++fld) {
            if (fld == REAL && std::is_integral<NT>::value) continue;
            readersOn(makeFile(r, c, sym, (Field) fld, o, bits % 4, 0, true, bits % 8), true);
            readersOn(makeFile(r, c, sym, (Field) fld, o, bits % 2, 0, false, bits % 8), true);
        }
        auto fl = std::is_integral<NT>::value ? INTEGER : REAL;
        // other orders of the entries
        auto q = o; std::reverse(q.begin(), q.end()); readersOn(makeFile(r, c, sym, fl, q, 0, 0, true, 0), false);
        if (o.size() <= 4) { q = o; std::sort(q.begin(), q.end()); do readersOn(makeFile(r, c, sym, fl, q, 0, 0, true, 1), false); while (std::next_permutation(q.begin(), q.end())); }
        else { for (size_t k = 1; k < o.size(); ++k) { q = o; std::rotate(q.begin(), q.begin() + k, q.end()); readersOn(makeFile(r, c, sym, fl, q, 0, 0, true, 1), false); } }
    });
}
static void addHeaders(Harness &h) {
    h.add("headers and spacing", 6 * 3 * 3 * 2 * 2 * 16, [](u64 x) {
        env(2, 0);
        int com = x % 6; x /= 6; int style = x % 3; x /= 3; int fld = x % 3; x /= 3; bool sym = x % 2; x /= 2; bool nl = x % 2; x /= 2; u64 bits = x;
        if (fld == REAL && std::is_integral<NT>::value) return;
        std::vector<std::pair<i64, i64>> o; i64 n = 0;
        for (i64 j = 0; j < 3; ++j) for (i64 i = j; i < 3; ++i, ++n) if ((bits | (bits << 3)) >> n & 1) o.push_back({i, j});
        readersOn(makeFile(3, 3, sym, (Field) fld, o, com, style, nl, 2), true);
    });
    h.add("larger dimensions and many entries", 24, [](u64 x) {
        env(2, 0); i64 n = (x % 3 == 0 ? 12 : x % 3 == 1 ? 300 : 70000); bool sym = x / 3 % 2; int step = 1 + x / 6 % 4;
        std::vector<std::pair<i64, i64>> o; for (i64 j = 0; j < n; j += (n > 100 ? n / 7 : 1)) for (i64 i = j; i < n; i += step * (n > 100 ? n / 11 : 1)) o.push_back({i, j});
        readersOn(makeFile(n, n, sym, INTEGER, o, 0, 0, true, 0), true);
    });
    h.add("random values are in range", 64, [](u64 bits) {
        std::vector<std::pair<i64, i64>> o; for (int i = 0; i < 6; ++i) if (bits >> i & 1) o.push_back({i % 2, i / 2});
        auto f = makeFile(2, 3, false, PATTERN, o, 0, 0, true, 0); writeFile(f.text); what = f.text; describe = [] { return what; };
        curOp = "ReadASCII_Triples(random)"; IT nr, nc, nv, *ri, *ci; NT *v; ReadASCII_Triples<IT, NT>(filePath, nr, nc, nv, ri, ci, v, false, true);
        ck((size_t) nv == o.size(), "count", "wrong count"); for (size_t i = 0; i < o.size() && (size_t) nv == o.size(); ++i) ck((i64) ri[i] == o[i].first && (i64) ci[i] == o[i].second && v[i] >= (NT) 7 && v[i] <= (NT) 16, "content", "wrong entry");
        delete[] ri; delete[] ci; delete[] v; ++cnt.states; ++cnt.traces; describe = nullptr;
    });
}
static void addBinary(Harness &h, i64 r, i64 c) {
    h.add(fmt("binary files %ldx%ld", (long) r, (long) c), 1ull << (r * c), [=](u64 bits) {
        tick(); env(2, 0);
        auto e = entsOf(r, c, bits);
        for (int o = 0; o < 3; ++o) for (int cut = 0; cut < 2; ++cut) {
            auto q = e; if (o == 1) std::reverse(q.begin(), q.end()); if (o == 2) std::sort(q.begin(), q.end(), [](const Ent &a, const Ent &b) { return std::tie(a.c, a.r) < std::tie(b.c, b.r); });
            std::string s; auto put = [&](const void *p, size_t n) { s.append((const char *) p, n); };
            IT d[3] = {(IT) r, (IT) c, (IT) q.size()}; put(d, sizeof d);
            for (auto &x : q) { IT i = (IT) x.r; put(&i, sizeof i); } for (auto &x : q) { IT j = (IT) x.c; put(&j, sizeof j); } for (auto &x : q) put(&x.v, sizeof(NT));
            if (cut) { if (q.empty()) continue; s.resize(s.size() - 1); }
            writeFile(s); what = fmt("binary %ldx%ld ", (long) r, (long) c) + show(q) + (cut ? " truncated" : ""); describe = [] { return what; }; ++cnt.states;
            curOp = "ReadBinary"; long z = mcx::liveBig;
            { CSC<IT, NT> X; int rc = ReadBinary<IT, NT>(filePath, X);
              if (cut || q.empty()) ck(rc == -1 && X.nnz == 0, "status", "accepts a truncated or empty file");
              else { ck(rc == 1, "status", "fails"); check(X, r, c, e, STRICT); } }
            ck(mcx::liveBig == z, "leak", fmt("%ld blocks left", mcx::liveBig - z)); mcx::liveBig = z;
        }
        describe = nullptr;
    });
}

int mcx::setup(Harness &h) {
    std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr);
    if (!std::getenv("MCX_STDOUT")) stdout = fopen("/dev/null", "w");
    const bool T = thorough;
    if (prop == "F12") {
        for (i64 r = 1; r <= 4; ++r) for (i64 c = 1; c <= 4; ++c) if (r * c <= 12) addConversions(h, r, c, 16);
        for (auto d : std::vector<std::pair<i64, i64>>{{1, 6}, {6, 1}, {5, 1}, {1, 5}, {1, 9}, {9, 1}, {2, 5}, {5, 2}}) addConversions(h, d.first, d.second, 16);
        if (T) addConversions(h, 4, 4, 16);
        for (int l = 0; l <= (T ? 7 : 6); ++l) addSequences(h, 2, 2, l);
        for (int l = 2; l <= (T ? 6 : 5); ++l) { addSequences(h, 2, 3, l); addSequences(h, 3, 2, l); if (l < (T ? 6 : 5)) addSequences(h, 3, 3, l); }
        addStructured(h, T ? 70 : 40);
        addTransposeSchedules(h, 2, 2); addTransposeSchedules(h, 3, 2); addTransposeSchedules(h, 3, 1); if (T) addTransposeSchedules(h, 4, 2);
        addRandomTriples(h); addTall(h);
    } else if (prop == "F13") {
        for (int l = 1; l <= (T ? 5 : 4); ++l) { addHistories(h, l); addCSCHistories(h, l); }
        addCSCHistories(h, T ? 6 : 5);
    } else if (prop == "F14") {
        for (i64 r = 1; r <= 3; ++r) for (i64 c = 1; c <= 3; ++c) { addIntersect(h, r, c); addEquality(h, r, c); }
        if (T) { addIntersect(h, 2, 5); addIntersect(h, 5, 2); addIntersect(h, 1, 10); }
        addEquality(h, 1, 7); addEquality(h, 7, 1);
        addIntersect(h, 1, 7); addIntersect(h, 4, 1); addIntersectDims(h); emptyEquality(h);
        for (i64 w : {12, 20, 40, 70, 130, 300}) addIntersectKinds(h, w);
        if (T) for (i64 w : {16, 33, 257, 1030}) addIntersectKinds(h, w);
        addSums(h, 3, 3); addSums(h, 1, 10); addSums(h, 5, 2);
        addLines(h, T ? 9 : 7);
        for (i64 r = 1; r <= 3; ++r) for (i64 c = 1; c <= 3; ++c) addSpRef(h, r, c, 3);
        addSpRef(h, 4, 2, 3); addSpRef(h, 2, 4, 2); addSpRef(h, 5, 2, 4); if (T) addSpRef(h, 3, 4, 4);
        addSmallUtils(h);
    } else if (prop == "I15") {
        for (i64 r = 1; r <= 3; ++r) for (i64 c = 1; c <= 3; ++c) addFiles(h, r, c, false);
        if (T) { addFiles(h, 3, 4, false); addFiles(h, 4, 3, false); }
        for (i64 n = 1; n <= 4; ++n) addFiles(h, n, n, true);
        if (T) addFiles(h, 5, 5, true);
        addFiles(h, 1, 5, false); addFiles(h, 5, 1, false);
        addHeaders(h);
        addBinary(h, 2, 3); addBinary(h, 3, 2); addBinary(h, 1, 4); addBinary(h, 4, 1); addBinary(h, 3, 3); if (T) { addBinary(h, 3, 4); addBinary(h, 4, 3); }
    }
    return 0;
}
MCX_MAIN
