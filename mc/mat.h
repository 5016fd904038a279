// Patterns, reference products and conversion to the repository's matrix types.
// Include after the repository headers (CSR.h, CSC.h).
#pragma once
#include "mc.h"
#include "shim.h"
#include <limits>
#include <malloc.h>
#include <memory>
#include <algorithm>

// ---------------------------------------------------------------- allocation environment
// malloc/free of the code under test are wrapped (-Wl,--wrap): fresh memory gets a chosen content, and the
// number of live blocks is known.
extern "C" void *__real_malloc(size_t);
extern "C" void *__real_calloc(size_t, size_t);
extern "C" void *__real_realloc(void *, size_t);
extern "C" void __real_free(void *);
namespace mcx {
inline int fillByte = 0xCD;               // content of fresh memory; -1: random-looking pattern per word
inline long liveBlocks = 0;               // wrapped blocks alive
inline long liveBig = 0;                  // of these, blocks with content (malloc(0) yields one usable byte)
inline uint64_t fillSeq = 0;
inline size_t fillCap = 1 << 22;
}
#ifdef MC_WRAP_MALLOC
static inline void mc_fill(void *p, size_t n) {
    if (!p) return;
    if (n > mcx::fillCap) n = mcx::fillCap;
    if (mcx::fillByte >= 0) memset(p, mcx::fillByte, n);
    else { unsigned char *c = (unsigned char *) p; for (size_t i = 0; i < n; ++i) c[i] = (unsigned char) ((i * 37 + 11 + mcx::fillSeq) >> 1); ++mcx::fillSeq; }
}
extern "C" {
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); mc_fill(p, n); if (malloc_usable_size(p) > 1) __atomic_add_fetch(&mcx::liveBig, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&mcx::liveBlocks, 1, __ATOMIC_RELAXED); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (malloc_usable_size(p) > 1) __atomic_add_fetch(&mcx::liveBig, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&mcx::liveBlocks, 1, __ATOMIC_RELAXED); return p; }
void *__wrap_realloc(void *q, size_t n) {
    if (!q) __atomic_add_fetch(&mcx::liveBlocks, 1, __ATOMIC_RELAXED);
    if (q && malloc_usable_size(q) > 1) __atomic_sub_fetch(&mcx::liveBig, 1, __ATOMIC_RELAXED);
    void *p = __real_realloc(q, n); if (p && malloc_usable_size(p) > 1) __atomic_add_fetch(&mcx::liveBig, 1, __ATOMIC_RELAXED);
    return p;
}
void __wrap_free(void *p) { if (p && malloc_usable_size(p) > 1) __atomic_sub_fetch(&mcx::liveBig, 1, __ATOMIC_RELAXED); if (p) __atomic_sub_fetch(&mcx::liveBlocks, 1, __ATOMIC_RELAXED); __real_free(p); }
}
#endif

namespace mcx {
typedef uint64_t u64;
typedef int64_t i64;

struct Pat {
    i64 r = 0, c = 0;
    std::vector<std::vector<i64>> rows;
    Pat() {}
    Pat(i64 r_, i64 c_) : r(r_), c(c_), rows(r_) {}
    size_t nnz() const { size_t s = 0; for (auto &x : rows) s += x.size(); return s; }
    std::string str() const {
        std::string s = fmt("%ldx%ld{", (long) r, (long) c);
        for (i64 i = 0; i < r; ++i) {
            if (i) s += ";";
            size_t n = rows[i].size();
            for (size_t k = 0; k < n; ++k) {
                if (n > 40 && k == 20) { s += fmt("...(%zu entries)...", n); k = n - 5; }
                s += fmt(k ? ",%ld" : "%ld", (long) rows[i][k]);
            }
            if (s.size() > 1500) { s += "..."; break; }
        }
        return s + "}";
    }
    bool operator==(const Pat &o) const { return r == o.r && c == o.c && rows == o.rows; }
};
inline Pat fromBits(i64 r, i64 c, u64 bits) {
    Pat p(r, c);
    for (i64 i = 0; i < r; ++i) for (i64 j = 0; j < c; ++j) if (bits >> (i * c + j) & 1) p.rows[i].push_back(j);
    return p;
}
inline Pat transpose(const Pat &p) {
    Pat t(p.c, p.r);
    for (i64 i = 0; i < p.r; ++i) for (i64 j : p.rows[i]) t.rows[j].push_back(i);
    return t;
}
inline u64 mix64(u64 x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }

// ---------------------------------------------------------------- values and semirings
// NT = uint64_t: entries carry their position (kind, i, j); the free multop checks that it was given an entry
// of A and an entry of B with the same inner index and returns a hash of (i,k,j), so that a sum of products
// identifies the multiset of products it was built from.
enum Semi { FREE = 0, SHIFT = 1, MINPLUS = 2, MAXSECOND = 3, FIRSTMIN = 4, PAIR = 5, ZERO = 6, PLUSTIMES = 7, NSEMI = 8, RAW = 8 };
static const char *semiName[] = {"free(+)", "free(x+y+1)", "min-plus", "max-second", "min-first", "plus-pair", "zero", "plus-times", "raw"};
inline u64 badOperand = 0;          // multop was called with something that is not (A(i,k),B(k,j))
inline u64 mulCalls = 0, addCalls = 0;
inline std::vector<u64> *mulLog = nullptr;   // encoded (i,k,j) of every call

inline u64 tag(int kind, i64 i, i64 j) { return ((u64) kind << 62) | ((u64) (i & 0x3fffffff) << 32) | (u64) (j & 0xffffffff); }
// values for the other element types: small integers, all sums exact
inline i64 smallA(i64 i, i64 j) { return 1 + ((i * 5 + j * 3) % 7); }
inline i64 smallB(i64 i, i64 j) { return 1 + ((i * 3 + j * 11 + 2) % 9); }

template<class NT> struct Val {
    static NT a(i64 i, i64 j) { return (NT) smallA(i, j); }
    static NT b(i64 i, i64 j) { return (NT) smallB(i, j); }
    static NT m(i64 i, i64 j) { return (NT) ((i + j) % 3 == 0 ? 0 : -7 - (i + j) % 5); }
};
template<> struct Val<u64> {
    static u64 a(i64 i, i64 j) { return tag(1, i, j); }
    static u64 b(i64 i, i64 j) { return tag(2, i, j); }
    static u64 m(i64 i, i64 j) { return (i + j) % 3 == 0 ? 0 : tag(3, i, j); }
};
enum Who { WA, WB, WM };
template<class NT> NT valOf(int w, i64 i, i64 j) { return w == WA ? Val<NT>::a(i, j) : w == WB ? Val<NT>::b(i, j) : Val<NT>::m(i, j); }
inline u64 mulTag(int mode, u64 a, u64 b) {
    __atomic_add_fetch(&mulCalls, 1, __ATOMIC_RELAXED);
    if (mode == RAW) return mix64(mix64(a) + b);      // no position check: operands may be the same object
    u64 i = (a >> 32) & 0x3fffffff, k = a & 0xffffffff, k2 = (b >> 32) & 0x3fffffff, j = b & 0xffffffff;
    if ((a >> 62) != 1 || (b >> 62) != 2 || (k & 0x3fffffff) != k2) __atomic_add_fetch(&badOperand, 1, __ATOMIC_RELAXED);
    if (mulLog) mulLog->push_back(i << 40 | k << 20 | j);
    switch (mode) {
        case FREE: case SHIFT: return mix64(mix64(mix64(i) ^ k) ^ j);
        case MINPLUS: case FIRSTMIN: return mode == MINPLUS ? (i * 31 + k * 17) % 97 + (k * 13 + j * 29) % 89 : (i * 31 + k * 17) % 97;
        case MAXSECOND: return (k * 13 + j * 29) % 89;
        case PAIR: return 1;
        case ZERO: return 0;
        default: return ((i + 2 * k) % 5) * ((k + 3 * j) % 7);
    }
}
inline u64 addTag(int mode, u64 x, u64 y) {
    __atomic_add_fetch(&addCalls, 1, __ATOMIC_RELAXED);
    switch (mode) {
        case SHIFT: return x + y + 1;
        case MINPLUS: case FIRSTMIN: return x < y ? x : y;
        case MAXSECOND: return x > y ? x : y;
        default: return x + y;
    }
}
template<class NT> struct Mul {
    int mode = FREE;
    NT operator()(const NT &a, const NT &b) const {
        if constexpr (std::is_same<NT, u64>::value) return mulTag(mode, a, b);
        else { __atomic_add_fetch(&mulCalls, 1, __ATOMIC_RELAXED); return a * b; }
    }
};
template<class NT> struct Add {
    int mode = FREE;
    NT operator()(const NT &x, const NT &y) const {
        if constexpr (std::is_same<NT, u64>::value) return addTag(mode, x, y);
        else { if (mode == MINPLUS) return x < y ? x : y; return x + y; }
    }
};

// ---------------------------------------------------------------- reference
// result rows: sorted (column, value)
template<class NT> struct Ref {
    i64 r, c;
    std::vector<std::vector<std::pair<i64, NT>>> rows;
    size_t nnz() const { size_t s = 0; for (auto &x : rows) s += x.size(); return s; }
};
enum MaskMode { PLAIN, COMPL, NOMASK };
// definition of the (masked) product, dense accumulation row by row
template<class NT> Ref<NT> refProduct(const Pat &A, const Pat &B, const Pat *M, MaskMode mm, int semi, int whoA = 0, int whoB = 1) {
    Ref<NT> R; R.r = A.r; R.c = B.c; R.rows.resize(A.r);
    static std::vector<NT> acc; static std::vector<char> st; static std::vector<i64> touched;
    bool sparse = B.c > (1 << 16);
    static std::map<i64, NT> macc;
    Mul<NT> mul{semi}; Add<NT> add{semi};
    auto sm = mulCalls; auto sa = addCalls; auto *lg = mulLog; mulLog = nullptr;
    if (!sparse && (i64) acc.size() < B.c) { acc.resize(B.c); st.resize(B.c, 0); }
    for (i64 i = 0; i < A.r; ++i) {
        std::set<i64> mset;
        auto inMask = [&](i64 j) { return M && std::binary_search(M->rows[i].begin(), M->rows[i].end(), j); };
        if (!sparse) {
            touched.clear();
            for (i64 k : A.rows[i]) for (i64 j : B.rows[k]) {
                NT v = mul(valOf<NT>(whoA, i, k), valOf<NT>(whoB, k, j));
                if (!st[j]) { st[j] = 1; acc[j] = v; touched.push_back(j); } else acc[j] = add(acc[j], v);
            }
            std::sort(touched.begin(), touched.end());
            for (i64 j : touched) { st[j] = 0; bool in = inMask(j); if (mm == NOMASK || in == (mm == PLAIN)) R.rows[i].push_back({j, acc[j]}); }
        } else {
            macc.clear();
            for (i64 k : A.rows[i]) for (i64 j : B.rows[k]) {
                NT v = mul(valOf<NT>(whoA, i, k), valOf<NT>(whoB, k, j));
                auto it = macc.find(j);
                if (it == macc.end()) macc[j] = v; else it->second = add(it->second, v);
            }
            for (auto &e : macc) { bool in = inMask(e.first); if (mm == NOMASK || in == (mm == PLAIN)) R.rows[i].push_back({e.first, e.second}); }
        }
    }
    mulCalls = sm; addCalls = sa; mulLog = lg;
    return R;
}

// ---------------------------------------------------------------- repository matrices

template<class IT, class NT> void fillCSR(CSR<IT, NT> &X, const Pat &p, int w) {
    X.rows = (IT) p.r; X.cols = (IT) p.c; X.nnz = (IT) p.nnz(); X.zerobased = true;
    X.rowptr = my_malloc<IT>(p.r + 1, false);
    X.colids = my_malloc<IT>(p.nnz(), false);
    X.values = my_malloc<NT>(p.nnz(), false);
    size_t n = 0;
    for (i64 i = 0; i < p.r; ++i) { X.rowptr[i] = (IT) n; for (i64 j : p.rows[i]) { X.colids[n] = (IT) j; X.values[n] = valOf<NT>(w, i, j); ++n; } }
    X.rowptr[p.r] = (IT) n;
}
template<class IT, class NT> void fillCSC(CSC<IT, NT> &X, const Pat &p, int w) {
    Pat t = transpose(p);
    X.rows = (IT) p.r; X.cols = (IT) p.c; X.nnz = (IT) p.nnz();
    X.colptr = my_malloc<IT>(p.c + 1, false);
    X.rowids = my_malloc<IT>(p.nnz(), false);
    X.values = my_malloc<NT>(p.nnz(), false);
    size_t n = 0;
    for (i64 j = 0; j < p.c; ++j) { X.colptr[j] = (IT) n; for (i64 i : t.rows[j]) { X.rowids[n] = (IT) i; X.values[n] = valOf<NT>(w, i, j); ++n; } }
    X.colptr[p.c] = (IT) n;
}
// release everything, also what make_empty leaves for degenerate shapes (the harness allocated it itself)
template<class IT, class NT> void drop(CSR<IT, NT> &X) {
    my_free<IT>(X.rowptr); my_free<IT>(X.colids); my_free<NT>(X.values);
    X.rowptr = nullptr; X.colids = nullptr; X.values = nullptr; X.nnz = 0; X.rows = 0; X.cols = 0;
}
template<class IT, class NT> void drop(CSC<IT, NT> &X) {
    my_free<IT>(X.colptr); my_free<IT>(X.rowids); my_free<NT>(X.values);
    X.colptr = nullptr; X.rowids = nullptr; X.values = nullptr; X.nnz = 0; X.rows = 0; X.cols = 0;
}
template<class IT, class NT> bool zbOf(const CSR<IT, NT> &x) { return x.zerobased; }
template<class IT, class NT> bool zbOf(const CSC<IT, NT> &) { return true; }
template<class IT, class NT> struct Snapshot {
    IT rows, cols, nnz; bool zb; const void *p, *c, *v;
    std::vector<IT> ptr, ids; std::vector<NT> vals;
    template<class X> void take(const X &x, const IT *pp, IT np, const IT *cc) {
        rows = x.rows; cols = x.cols; nnz = x.nnz; zb = zbOf(x); p = pp; c = cc; v = x.values;
        ptr.assign(pp, pp + np + 1); ids.assign(cc, cc + nnz); vals.assign(x.values, x.values + nnz);
    }
    explicit Snapshot(const CSR<IT, NT> &x) { take(x, x.rowptr, x.rows, x.colids); }
    explicit Snapshot(const CSC<IT, NT> &x) { take(x, x.colptr, x.cols, x.rowids); }
    template<class X> std::string diff(const X &x, const IT *pp, IT np, const IT *cc) const {
        if (x.rows != rows || x.cols != cols || x.nnz != nnz || zbOf(x) != zb) return "a field changed";
        if (pp != p || cc != c || (const void *) x.values != v) return "an array was replaced";
        if (!std::equal(ptr.begin(), ptr.end(), pp)) return "the pointer array changed";
        if (!std::equal(ids.begin(), ids.end(), cc)) return "the index array changed";
        if (nnz && memcmp(vals.data(), x.values, sizeof(NT) * vals.size())) return "the values changed";
        (void) np; return "";
    }
    std::string diff(const CSR<IT, NT> &x) const { return diff(x, x.rowptr, x.rows, x.colids); }
    std::string diff(const CSC<IT, NT> &x) const { return diff(x, x.colptr, x.cols, x.rowids); }
};

struct Verdict { bool ok = true; std::string kind, msg; };
inline Verdict bad(const std::string &k, const std::string &m) { Verdict v; v.ok = false; v.kind = k; v.msg = m; return v; }

// structure only (M06)
template<class IT, class NT> Verdict wellFormed(const CSR<IT, NT> &C, i64 r, i64 c, bool sorted) {
    if ((i64) C.rows != r || (i64) C.cols != c) return bad("dims", fmt("result is %ldx%ld, expected %ldx%ld", (long) C.rows, (long) C.cols, (long) r, (long) c));
    if (!C.rowptr) return bad("rowptr", "rowptr is null");
    if (C.rowptr[0] != 0) return bad("rowptr", fmt("rowptr[0] = %ld", (long) C.rowptr[0]));
    for (i64 i = 0; i < r; ++i)
        if ((i64) C.rowptr[i + 1] < (i64) C.rowptr[i] || (i64) C.rowptr[i + 1] > (i64) C.nnz) return bad("rowptr", fmt("rowptr[%ld] = %ld after %ld (nnz %ld)", (long) i + 1, (long) C.rowptr[i + 1], (long) C.rowptr[i], (long) C.nnz));
    if ((i64) C.rowptr[r] != (i64) C.nnz) return bad("nnz", fmt("nnz = %ld but rowptr[rows] = %ld", (long) C.nnz, (long) C.rowptr[r]));
    for (i64 i = 0; i < r; ++i) {
        i64 prev = -1; bool inc = true;
        for (i64 k = C.rowptr[i]; k < (i64) C.rowptr[i + 1]; ++k) {
            i64 j = C.colids[k];
            if (j < 0 || j >= c) return bad("colrange", fmt("row %ld has column %ld of %ld", (long) i, (long) j, (long) c));
            if (j <= prev) inc = false;
            prev = j;
        }
        if (!inc) {
            std::vector<i64> v; for (i64 k = C.rowptr[i]; k < (i64) C.rowptr[i + 1]; ++k) v.push_back(C.colids[k]);
            std::sort(v.begin(), v.end());
            if (std::adjacent_find(v.begin(), v.end()) != v.end()) return bad("dup", fmt("row %ld has duplicate columns", (long) i));
            if (sorted) return bad("unsorted", fmt("row %ld is not sorted", (long) i));
        }
    }
    return Verdict();
}
template<class NT> std::string vstr(NT v) { if constexpr (std::is_integral<NT>::value) return std::to_string(v); else return fmt("%.17g", (double) v); }
// content, for any column order
template<class IT, class NT> Verdict sameContent(const CSR<IT, NT> &C, const Ref<NT> &R) {
    static std::vector<std::pair<i64, NT>> row;
    for (i64 i = 0; i < R.r; ++i) {
        row.clear();
        bool inc = true;
        for (i64 k = C.rowptr[i]; k < (i64) C.rowptr[i + 1]; ++k) { if (!row.empty() && row.back().first >= (i64) C.colids[k]) inc = false; row.push_back({(i64) C.colids[k], C.values[k]}); }
        if (!inc) std::sort(row.begin(), row.end(), [](const std::pair<i64, NT> &x, const std::pair<i64, NT> &y) { return x.first < y.first; });
        const auto &e = R.rows[i];
        size_t a = 0, b = 0;
        while (a < row.size() || b < e.size()) {
            if (b == e.size() || (a < row.size() && row[a].first < e[b].first)) return bad("extra", fmt("entry (%ld,%ld) should not be there", (long) i, (long) row[a].first));
            if (a == row.size() || row[a].first > e[b].first) return bad("missing", fmt("entry (%ld,%ld) is missing", (long) i, (long) e[b].first));
            if (!(row[a].second == e[b].second)) return bad("value", fmt("entry (%ld,%ld) has value %s, expected %s", (long) i, (long) e[b].first, vstr(row[a].second).c_str(), vstr(e[b].second).c_str()));
            ++a; ++b;
        }
    }
    return Verdict();
}
} // namespace mcx
