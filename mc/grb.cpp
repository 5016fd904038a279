// F12 / G20: conversions to and from GraphBLAS and the GraphBLAS preprocessing of the drivers, on every small matrix.
// Real GraphBLAS, real OpenMP runtime (one or two threads).
#include <cassert>
#include <algorithm>
#include <iostream>
#include <numeric>
#include <tuple>
#include <omp.h>
#include "CSR.h"
#include "CSC.h"
#include "grb_util.h"
#include "mc.h"
using namespace mcx;
typedef GrB_Index IT;
typedef uint64_t u64;
typedef int64_t i64;
static std::string what;
static void ck(bool ok, const char *kind, const std::string &msg) { if (!ok) fail(std::string(curOp) + "/" + kind, std::string(curOp) + ": " + msg); }
template<class NT> struct TName {};
template<> struct TName<int64_t> { static const char *s() { return "int64"; } static GrB_Info put(GrB_Matrix A, int64_t v, IT i, IT j) { return GrB_Matrix_setElement_INT64(A, v, i, j); } static GrB_Semiring sr() { return GrB_PLUS_TIMES_SEMIRING_INT64; } };
template<> struct TName<uint64_t> { static const char *s() { return "uint64"; } static GrB_Info put(GrB_Matrix A, uint64_t v, IT i, IT j) { return GrB_Matrix_setElement_UINT64(A, v, i, j); } static GrB_Semiring sr() { return GrB_PLUS_TIMES_SEMIRING_UINT64; } };
template<> struct TName<int32_t> { static const char *s() { return "int32"; } static GrB_Info put(GrB_Matrix A, int32_t v, IT i, IT j) { return GrB_Matrix_setElement_INT32(A, v, i, j); } static GrB_Semiring sr() { return GrB_PLUS_TIMES_SEMIRING_INT32; } };
template<> struct TName<uint32_t> { static const char *s() { return "uint32"; } static GrB_Info put(GrB_Matrix A, uint32_t v, IT i, IT j) { return GrB_Matrix_setElement_UINT32(A, v, i, j); } static GrB_Semiring sr() { return GrB_PLUS_TIMES_SEMIRING_UINT32; } };
template<> struct TName<float> { static const char *s() { return "float"; } static GrB_Info put(GrB_Matrix A, float v, IT i, IT j) { return GrB_Matrix_setElement_FP32(A, v, i, j); } static GrB_Semiring sr() { return GrB_PLUS_TIMES_SEMIRING_FP32; } };
template<> struct TName<double> { static const char *s() { return "double"; } static GrB_Info put(GrB_Matrix A, double v, IT i, IT j) { return GrB_Matrix_setElement_FP64(A, v, i, j); } static GrB_Semiring sr() { return GrB_PLUS_TIMES_SEMIRING_FP64; } };

template<class NT> struct Ent { IT r, c; NT v; bool operator<(const Ent &o) const { return std::tie(r, c, v) < std::tie(o.r, o.c, o.v); } bool operator==(const Ent &o) const { return r == o.r && c == o.c && v == o.v; } };
template<class NT> using Ents = std::vector<Ent<NT>>;
template<class NT> std::string show(const Ents<NT> &e) { std::string s; for (auto &x : e) s += fmt("(%ld,%ld)=%g ", (long) x.r, (long) x.c, (double) x.v); return s; }

// the same matrix in several internal states of the library
enum Build { BUILD, SETELEM, BYCOL, JUMBLED, NBUILD };
static const char *buildName[] = {"built", "element by element", "by column", "unsorted rows"};
template<class NT> GrB_Matrix make(IT r, IT c, const Ents<NT> &e, int how) {
    GrB_Matrix A = nullptr; GrbAlgObj<NT> g;
    GrB_Matrix_new(&A, g.get_type(), r, c);
    if (how == BYCOL) GxB_Matrix_Option_set(A, GxB_FORMAT, GxB_BY_COL);
    if (how == JUMBLED) {                  // A = E * P, P reversing the columns
        GrB_Matrix E = nullptr, P = nullptr; GrB_Matrix_new(&E, g.get_type(), r, c); GrB_Matrix_new(&P, g.get_type(), c, c);
        for (auto &x : e) TName<NT>::put(E, x.v, x.r, c - 1 - x.c);
        for (IT j = 0; j < c; ++j) TName<NT>::put(P, (NT) 1, c - 1 - j, j);
        GrB_Matrix_wait(E, GrB_MATERIALIZE); GrB_Matrix_wait(P, GrB_MATERIALIZE);
        GrB_mxm(A, nullptr, nullptr, TName<NT>::sr(), E, P, nullptr);
        GrB_Matrix_free(&E); GrB_Matrix_free(&P);
    } else if (how == BUILD) {
        GrB_Matrix_free(&A);
        std::vector<IT> ri, ci; std::vector<NT> v; for (auto &x : e) { ri.push_back(x.r); ci.push_back(x.c); v.push_back(x.v); }
        ri.push_back(0); ci.push_back(0); v.push_back(0);
        GrbMatrixBuild<NT>()(&A, ri.data(), ci.data(), v.data(), r, c, e.size());
    } else for (size_t i = e.size(); i-- > 0;) TName<NT>::put(A, e[i].v, e[i].r, e[i].c);
    return A;
}
template<class NT> Ents<NT> read(GrB_Matrix A) {
    IT n = 0; GrB_Matrix_nvals(&n, A); std::vector<IT> ri(n + 1), ci(n + 1); std::vector<NT> v(n + 1); Ents<NT> e;
    IT n2 = n + 1; GrbMatrixExtractTuples<NT>()(ri.data(), ci.data(), v.data(), &n2, A);
    for (IT i = 0; i < n; ++i) e.push_back({ri[i], ci[i], v[i]});
    std::sort(e.begin(), e.end()); return e;
}
template<class NT> void sameGrb(GrB_Matrix A, IT r, IT c, Ents<NT> want) {
    ++cnt.traces; cnt.transitions += want.size() + 1;
    if (!A) { ck(false, "matrix", "no GraphBLAS matrix"); return; }
    IT nr = 0, nc = 0; GrB_Matrix_nrows(&nr, A); GrB_Matrix_ncols(&nc, A);
    if (GxB_Matrix_fprint(A, "A", GxB_SILENT, nullptr) != GrB_SUCCESS) { ck(false, "matrix", "an invalid GraphBLAS matrix"); return; }
    if (nr != r || nc != c) { ck(false, "dims", fmt("GraphBLAS matrix is %ldx%ld", (long) nr, (long) nc)); return; }
    auto e = read<NT>(A); std::sort(want.begin(), want.end());
    if (!(e == want)) ck(false, "content", "GraphBLAS matrix holds " + show(e) + "expected " + show(want));
}
template<class NT> void sameArrays(const IT *ptr, const IT *ids, const NT *vals, IT rows, IT cols, IT nnz, bool csr, IT r, IT c, Ents<NT> want) {
    ++cnt.traces; cnt.transitions += want.size() + 1;
    if (rows != r || cols != c) { ck(false, "dims", fmt("%ldx%ld", (long) rows, (long) cols)); return; }
    if (nnz != want.size()) { ck(false, "nnz", fmt("nnz is %ld, expected %zu", (long) nnz, want.size())); return; }
    IT major = csr ? r : c, minor = csr ? c : r;
    if (!ptr) { ck(false, "pointers", "no pointers"); return; }
    if (ptr[0] != 0 || ptr[major] != nnz) { ck(false, "pointers", fmt("pointers from %ld to %ld", (long) ptr[0], (long) ptr[major])); return; }
    Ents<NT> got;
    for (IT i = 0; i < major; ++i) {
        if (ptr[i + 1] < ptr[i] || ptr[i + 1] > nnz) { ck(false, "pointers", "decreasing pointers"); return; }
        for (IT k = ptr[i]; k < ptr[i + 1]; ++k) {
            if (ids[k] >= minor) { ck(false, "range", fmt("index %ld", (long) ids[k])); return; }
            if (k > ptr[i] && ids[k] <= ids[k - 1]) { ck(false, "order", fmt("index %ld follows %ld", (long) ids[k], (long) ids[k - 1])); return; }
            got.push_back(csr ? Ent<NT>{i, ids[k], vals[k]} : Ent<NT>{ids[k], i, vals[k]});
        }
    }
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    if (!(got == want)) ck(false, "content", "holds " + show(got) + "expected " + show(want));
}
template<class NT> void same(const CSR<IT, NT> &X, IT r, IT c, const Ents<NT> &e) { ck(X.zerobased, "base", "not zero-based"); sameArrays<NT>(X.rowptr, X.colids, X.values, X.rows, X.cols, X.nnz, true, r, c, e); }
template<class NT> void same(const CSC<IT, NT> &X, IT r, IT c, const Ents<NT> &e) { sameArrays<NT>(X.colptr, X.rowids, X.values, X.rows, X.cols, X.nnz, false, r, c, e); }
template<class NT> CSR<IT, NT> *csrOf(IT r, IT c, Ents<NT> e) {
    std::sort(e.begin(), e.end());
    auto *X = new CSR<IT, NT>(); X->rows = r; X->cols = c; X->nnz = e.size(); X->zerobased = true;
    X->rowptr = my_malloc<IT>(r + 1); X->colids = my_malloc<IT>(e.size()); X->values = my_malloc<NT>(e.size());
    size_t k = 0; for (IT i = 0; i <= r; ++i) { X->rowptr[i] = k; while (k < e.size() && e[k].r == i) { X->colids[k] = e[k].c; X->values[k] = e[k].v; ++k; } }
    return X;
}
static void forget(IT *&a, IT *&b) { free(a); free(b); a = b = nullptr; }
template<class X> void freeX(X *x, bool csr) { if (x->nnz == 0) { } delete x; }
// releases the arrays of a matrix whatever its state, then the object (the destructor must find nothing)
template<class NT> void destroy(CSR<IT, NT> *x) { free(x->rowptr); free(x->colids); free(x->values); x->rowptr = x->colids = nullptr; x->values = nullptr; x->nnz = 0; x->rows = 0; delete x; }
template<class NT> void destroy(CSC<IT, NT> *x) { free(x->colptr); free(x->rowids); free(x->values); x->colptr = x->rowids = nullptr; x->values = nullptr; x->nnz = 0; x->cols = 0; delete x; }

template<class F> void noLeak(F f) {
    f();
    size_t a = __sanitizer_get_current_allocated_bytes(); f(); size_t b = __sanitizer_get_current_allocated_bytes();
    if (a != b) { a = b; f(); b = __sanitizer_get_current_allocated_bytes(); }          // caches of the library
    ck(a == b, "leak", fmt("%ld bytes left", (long) (b - a)));
}
template<class NT> void roundTrips(IT r, IT c, const Ents<NT> &e) {
    for (int how = 0; how < NBUILD; ++how) {
        what = fmt("%ldx%ld %s, %s: ", (long) r, (long) c, TName<NT>::s(), buildName[how]) + show(e); describe = [] { return what; };
        curOp = "CSR(GrB_Matrix)";
        noLeak([&] {
            curOp = "CSR(GrB_Matrix)"; GrB_Matrix A = make(r, c, e, how); auto *X = new CSR<IT, NT>(A); same(*X, r, c, e);
            sameGrb<NT>(A, r, c, {});
            curOp = "CSR::get_grb_mat(GrB_Matrix)"; X->get_grb_mat(A); sameGrb(A, r, c, e); ck(!X->rowptr && !X->colids && !X->values, "source", "the arrays are still held");
            destroy(X); GrB_Matrix_free(&A);
        });
        curOp = "CSC(GrB_Matrix)";
        noLeak([&] {
            curOp = "CSC(GrB_Matrix)"; GrB_Matrix A = make(r, c, e, how); auto *X = new CSC<IT, NT>(A); same(*X, r, c, e);
            sameGrb<NT>(A, r, c, {});
            curOp = "CSC::get_grb_mat(GrB_Matrix)"; X->get_grb_mat(A); sameGrb(A, r, c, e); ck(!X->colptr && !X->rowids && !X->values, "source", "the arrays are still held");
            destroy(X); GrB_Matrix_free(&A);
        });
        curOp = "CSR(GrB_Matrix*, dup)";
        noLeak([&] {
            curOp = "CSR(GrB_Matrix*, dup)"; GrB_Matrix A = make(r, c, e, how); auto *X = new CSR<IT, NT>(&A, true); same(*X, r, c, e);
            sameGrb<NT>(A, r, c, e); destroy(X); GrB_Matrix_free(&A);
        });
        curOp = "CSR(GrB_Matrix*)";
        noLeak([&] { curOp = "CSR(GrB_Matrix*)"; GrB_Matrix A = make(r, c, e, how); auto *X = new CSR<IT, NT>(&A, false); same(*X, r, c, e); destroy(X); });
        ++cnt.states;
    }
    what = fmt("%ldx%ld %s: ", (long) r, (long) c, TName<NT>::s()) + show(e); describe = [] { return what; };
    curOp = "CSR::get_grb_mat(GrB_Matrix*)";
    noLeak([&] {
        curOp = "CSR::get_grb_mat(GrB_Matrix*)"; auto *X = csrOf(r, c, e); GrB_Matrix A = nullptr; X->get_grb_mat(&A); sameGrb(A, r, c, e); same(*X, r, c, e);
        X->get_grb_mat(&A); sameGrb(A, r, c, e);                       // over an existing matrix
        X->ConvertOneBased(); X->get_grb_mat(&A); sameGrb(A, r, c, e);  // one-based indices
        GrB_Matrix_free(&A); destroy(X);
    });
    curOp = "CSR::get_grb_mat_ptr";
    noLeak([&] { curOp = "CSR::get_grb_mat_ptr"; auto *X = csrOf(r, c, e); GrB_Matrix A = nullptr; X->get_grb_mat_ptr(&A); sameGrb(A, r, c, e); ck(!X->rowptr && !X->colids && !X->values, "source", "the arrays are still held"); GrB_Matrix_free(&A); destroy(X); });
}
template<class NT> Ents<NT> entsOf(IT r, IT c, u64 bits, bool equal) {
    Ents<NT> e; for (IT p = 0; p < r * c; ++p) if (bits >> p & 1) e.push_back({p / c, p % c, equal ? (NT) 3 : (NT) (1 + p * 5)});
    return e;
}
template<class NT> void addTrips(Harness &h, IT r, IT c) {
    h.add(fmt("%s %ldx%ld", TName<NT>::s(), (long) r, (long) c), 1ull << (r * c), [=](u64 bits) {
        GxB_Global_Option_set(GxB_GLOBAL_NTHREADS, 1 + (int) (bits & 1)); tick();
        roundTrips(r, c, entsOf<NT>(r, c, bits, false)); roundTrips(r, c, entsOf<NT>(r, c, bits, true)); describe = nullptr;
    });
}
// ---------------------------------------------------------------------------------------- preprocessing (G20)
static std::string filePath; static int fileFd = -1;
static void writeFile(const std::string &s) {
    if (fileFd < 0) {
        fileFd = memfd_create("mc", 0); filePath = fmt("/proc/self/fd/%d", fileFd);
        FILE *t = fileFd >= 0 ? fopen(filePath.c_str(), "r") : nullptr;
        if (t) fclose(t); else { char b[] = "/tmp/mcgrb-XXXXXX"; fileFd = mkstemp(b); filePath = b; }
    }
    if (ftruncate(fileFd, 0) || pwrite(fileFd, s.data(), s.size(), 0) != (ssize_t) s.size()) { perror("scratch file"); _exit(3); }
}
static int randMode; static unsigned long randState;
extern "C" int rand(void) noexcept { if (randMode == 0) return 4; randState = randState * 6364136223846793005ull + 1442695040888963407ull; return (int) (randState >> 33 & 0x7fffffff); }
template<class NT> void preprocess(IT n, const Ents<NT> &e, u64 x) {
    what = fmt("%ldx%ld %s: ", (long) n, (long) n, TName<NT>::s()) + show(e); describe = [] { return what; }; ++cnt.states;
    curOp = "get_lowtri";
    noLeak([&] {
        curOp = "get_lowtri"; GrB_Matrix A = make(n, n, e, (int) (x % NBUILD)), L = nullptr; get_lowtri<NT>(A, &L);
        Ents<NT> w; for (auto &y : e) if (y.c < y.r) w.push_back(y); sameGrb(L, n, n, w); sameGrb(A, n, n, e);
        GrB_Matrix_free(&A); GrB_Matrix_free(&L);
    });
    curOp = "convert_to_csc";
    noLeak([&] {
        curOp = "convert_to_csc"; GrB_Matrix A = make(n, n, e, (int) (x % NBUILD)), C = nullptr; convert_to_csc<NT>(A, &C);
        GxB_Format_Value f, g; GxB_Matrix_Option_get(C, GxB_FORMAT, &f); GxB_Global_Option_get(GxB_FORMAT, &g);
        ck(f == GxB_BY_COL, "format", "not held by column"); ck(g == GxB_BY_ROW, "format", "the global format is changed");
        sameGrb(C, n, n, e); sameGrb(A, n, n, e); GrB_Matrix_free(&A); GrB_Matrix_free(&C);
    });
    curOp = "sort_by_degree";
    noLeak([&] {
        curOp = "sort_by_degree"; GrB_Matrix A = make(n, n, e, (int) (x % NBUILD)); sort_by_degree<NT>(&A); auto got = read<NT>(A);
        std::vector<IT> p(n); std::iota(p.begin(), p.end(), 0); bool iso = false;
        do { Ents<NT> q; for (auto &y : e) q.push_back({p[y.r], p[y.c], y.v}); std::sort(q.begin(), q.end()); if (q == got) iso = true; } while (!iso && std::next_permutation(p.begin(), p.end()));
        ck(iso, "content", "is no relabelling: " + show(got));
        std::vector<long> d(n, 0); for (auto &y : got) if (y.r < n) ++d[y.r]; for (IT i = 1; i < n; ++i) ck(d[i] <= d[i - 1], "order", "rows are not in the order of their degrees");
        ++cnt.traces; GrB_Matrix_free(&A);
    });
    for (IT i = 0; i < n; ++i) {
        curOp = "avoid_iso"; GrB_Matrix A = make(n, n, e, (int) (x % NBUILD)); IT j = (i + x) % n; avoid_iso<NT>(A, (NT) 3, i, j);
        Ents<NT> w; for (auto &y : e) if (y.r != i || y.c != j) w.push_back(y); w.push_back({i, j, (NT) 3}); sameGrb(A, n, n, w);
        GrB_Matrix_free(&A);
    }
    // reading, with every combination of the options
    for (int o = 0; o < 8; ++o) for (int sym = 0; sym < 2; ++sym) {
        bool nodiag = o & 1, symm = o & 2, rnd = o & 4; if (symm && std::is_same<NT, uint32_t>::value) continue;
        std::string s = std::string("%%MatrixMarket matrix coordinate integer ") + (sym ? "symmetric\n" : "general\n"); Ents<NT> in, w; size_t k = 0; std::string body;
        randMode = x & 1; randState = x + 77;
        for (auto &y : e) { if (sym && y.r < y.c) continue; ++k; body += fmt("%ld %ld %ld\n", (long) y.r + 1, (long) y.c + 1, (long) y.v);
            NT v = y.v; if (rnd) v = (NT) -1;
            if (nodiag && y.r == y.c) continue;
            in.push_back({y.r, y.c, v}); if (sym && y.r != y.c) in.push_back({y.c, y.r, v}); }
        for (auto &y : in) { NT v = y.v; bool mate = false; for (auto &z : in) if (z.r == y.c && z.c == y.r) { mate = true; if (symm) v += z.v; } w.push_back({y.r, y.c, v}); if (symm && !mate) w.push_back({y.c, y.r, y.v}); }
        writeFile(s + fmt("%ld %ld %zu\n", (long) n, (long) n, k) + body);
        what = fmt("read_grb_mtx(no loops %d, symmetric %d, random %d): ", nodiag, symm, rnd) + s + fmt("%ld %ld %zu\n", (long) n, (long) n, k) + body; describe = [] { return what; };
        curOp = "read_grb_mtx";
        noLeak([&] {
            curOp = "read_grb_mtx"; GrB_Matrix A = nullptr; read_grb_mtx<NT>(&A, (char *) filePath.c_str(), nodiag, symm, rnd);
            if (!rnd) sameGrb(A, n, n, w);
            else { auto got = read<NT>(A); Ents<NT> a, b = w; for (auto y : got) { ck(y.v >= (NT) 7 && y.v <= (NT) 32, "content", fmt("random value %g", (double) y.v)); y.v = 0; a.push_back(y); } for (auto &y : b) y.v = 0; std::sort(b.begin(), b.end()); ck(a == b, "content", "holds " + show(got)); ++cnt.traces; }
            GrB_Matrix_free(&A);
        });
    }
    describe = nullptr;
}
template<class NT> void addPre(Harness &h, IT n, bool und) {
    h.add(fmt("%s %s on %ld vertices", TName<NT>::s(), und ? "undirected graphs" : "matrices", (long) n), 1ull << (und ? n * (n - 1) / 2 : n * n), [=](u64 bits) {
        tick(); Ents<NT> e;
        if (und) { u64 b = bits; for (IT i = 0; i < n; ++i) for (IT j = i + 1; j < n; ++j, b >>= 1) if (b & 1) { e.push_back({i, j, (NT) (1 + i * 3)}); e.push_back({j, i, (NT) (2 + j * 5)}); } }
        else e = entsOf<NT>(n, n, bits, bits % 3 == 0);
        preprocess(n, e, bits * 0x9e3779b97f4a7c15ull >> 44);
    });
}
int mcx::setup(Harness &h) {
    GrB_init(GrB_BLOCKING);
    GxB_Global_Option_set(GxB_FORMAT, GxB_BY_ROW);
    int64_t none[64] = {0}; GxB_Global_Option_set(GxB_MEMORY_POOL, none);
    std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr);
    if (!std::getenv("MCX_STDOUT")) stdout = fopen("/dev/null", "w");
    const bool T = thorough;
    if (prop == "F12") {
        for (IT r = 1; r <= 4; ++r) for (IT c = 1; c <= 4; ++c) {
            if (r * c <= (T ? 12 : 9)) { addTrips<double>(h, r, c); addTrips<int64_t>(h, r, c); }
            if (r * c <= (T ? 9 : 6)) { addTrips<float>(h, r, c); addTrips<uint64_t>(h, r, c); addTrips<int32_t>(h, r, c); addTrips<uint32_t>(h, r, c); }
        }
        addTrips<float>(h, 1, 8); addTrips<float>(h, 8, 1); addTrips<double>(h, 2, 5); addTrips<double>(h, 5, 2);
    } else if (prop == "G20") {
        for (IT n = 1; n <= 3; ++n) { addPre<int64_t>(h, n, false); addPre<float>(h, n, false); addPre<double>(h, n, false); addPre<uint64_t>(h, n, false); }
        addPre<int64_t>(h, 4, true); addPre<float>(h, 4, true);
        if (T) { addPre<int64_t>(h, 5, true); addPre<double>(h, 5, true); }
    }
    return 0;
}
int main(int argc, char **argv) {
    if (!getenv("OMP_WAIT_POLICY")) { setenv("OMP_WAIT_POLICY", "passive", 1); setenv("OMP_DYNAMIC", "false", 1); execv("/proc/self/exe", argv); }
    return mcx::mainLoop(argc, argv);
}
