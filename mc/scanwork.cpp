// U16 (scans) and U17 (work estimates, work splits, BIN): exhaustive enumeration on the real functions.
#include <cassert>
#include <numeric>
#include <tuple>
#include <typeinfo>
#include "CSR.h"
#include "CSC.h"
#include "BIN.h"
#include "multiply.h"
#include "spgemm-blocks/scan.h"
#include "spgemm-blocks/common.h"
#include "mat.h"
#include "spaces.h"
using namespace mcx;

static std::string what;
static void env(int policy, int deliver, int maxT) { mc::omp.policy = policy; mc::omp.deliver = deliver; mc::omp.maxThreads = maxT; }
template<class T> std::string show(const std::vector<T> &v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 24; ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + (v.size() > 24 ? fmt(",... %zu]", v.size()) : std::string("]")); }

// ------------------------------------------------------------------------------------------------ U16
// exact-size heap blocks, so that any access outside [0,n) hits a redzone; dst starts with garbage
template<class T> struct Buf { T *p; size_t n; Buf(size_t n_) : p((T *) malloc(n_ * sizeof(T))), n(n_) { memset((void *) p, 0xA5, n * sizeof(T)); } ~Buf() { free(p); } };
static const size_t PAR = 1 << 17;
template<class T, class S> void checkDst(const char *op, const std::vector<T> &in, const S *dst, size_t n, bool incl) {
    S s = 0;
    for (size_t i = 0; i < n; ++i) {
        if (incl) s += in[i];
        if (!(dst[i] == s)) { fail(std::string(op) + "/value", fmt("%s: element %zu of %zu is %s, expected %s", op, i, n, std::to_string(dst[i]).c_str(), std::to_string(s).c_str())); return; }
        if (!incl) s += in[i];
    }
}
enum { INCL, EXCL, SCAN, SEQ, CUM, INCL_TEAM, EXCL_TEAM, NOPS };
static const char *opName[] = {"inclusiveScan", "exclusiveScan", "scan", "seq_scan", "CumulativeSum", "inclusiveScan(team)", "exclusiveScan(team)"};
// one call; `in` has exactly the elements the function may read
template<class T, class S = T> void one(int op, const std::vector<T> &in, int threads) {
    constexpr bool same = std::is_same<T, S>::value;
    curOp = opName[op];
    size_t n = in.size();
    Buf<T> src(n); if (n) std::copy(in.begin(), in.end(), src.p);
    ++cnt.traces; cnt.transitions += n;
    if constexpr (std::is_integral<T>::value) if (op == CUM) {
        T r = CumulativeSum(src.p, (T) n);
        T s = 0; for (T x : in) s += x;
        if (!(r == s)) fail("CumulativeSum/total", fmt("CumulativeSum returns %s for a sum of %s", std::to_string(r).c_str(), std::to_string(s).c_str()));
        checkDst(curOp, in, src.p, n, false);
        return;
    }
    // scan/seq_scan: N outputs from N-1 inputs, as all their callers use them
    size_t dn = op == SCAN || op == SEQ ? n + 1 : n;
    Buf<S> dst(dn);
    switch (op) {
        case INCL: if constexpr (same) inclusiveScan(src.p, n, dst.p, threads); break;
        case EXCL: exclusiveScan(src.p, n, dst.p, threads); break;
        case SCAN: if constexpr (std::is_integral<T>::value) scan(src.p, dst.p, (T) dn); break;
        case SEQ: if constexpr (std::is_integral<T>::value) seq_scan(src.p, dst.p, (T) dn); break;
        case INCL_TEAM: case EXCL_TEAM: {
            Buf<S> part(threads);
            #pragma omp parallel num_threads(threads)
            { if (op == INCL_TEAM) { if constexpr (same) inclusiveScan(src.p, n, dst.p, threads, part.p); } else exclusiveScan(src.p, n, dst.p, threads, part.p); }
        }
    }
    if constexpr (std::is_integral<T>::value) if (n == 0 && (op == SCAN || op == SEQ)) {        // an empty scan writes nothing
        Buf<S> none(0);
        if (op == SCAN) scan(src.p, none.p, (T) 0); else seq_scan(src.p, none.p, (T) 0);
    }
    if (!std::equal(in.begin(), in.end(), src.p)) fail(std::string(curOp) + "/src", std::string(curOp) + ": the input was modified");
    if (op == SCAN || op == SEQ) { std::vector<T> x(in); x.push_back(0); checkDst(curOp, x, dst.p, dn, false); }
    else checkDst(curOp, in, dst.p, dn, op == INCL || op == INCL_TEAM);
}
template<class T, class S = T> void ops(const char *tn, const std::vector<T> &in, const std::vector<int> &threads, const std::vector<int> &delivers, bool integral) {
    ++cnt.states;
    for (int op = 0; op < NOPS; ++op) {
        if (!std::is_same<T, S>::value && (op == INCL || op == INCL_TEAM || op == CUM)) continue;     // input and output of one type
        if (!integral && (op == SCAN || op == SEQ || op == CUM)) continue;         // these index with the element type
        for (int t : threads) for (int d : delivers) for (int pol : {0, 1}) {
            if (d && (op == INCL_TEAM || op == EXCL_TEAM)) continue;              // the caller states the real team size
            what = fmt("%s<%s> n=%zu %s threads=%d delivered=%d order=%d", opName[op], tn, in.size(), show(in).c_str(), t, d, pol);
            env(pol, d, t);
            one<T, S>(op, in, t);
            if (op == SEQ || op == CUM) goto next;
        }
        next:;
    }
}
template<class T> std::vector<T> digits(u64 idx, int len, const std::vector<int> &alpha) { std::vector<T> v; for (int i = 0; i < len; ++i) { v.push_back(alpha[idx % alpha.size()]); idx /= alpha.size(); } return v; }

static void setupScan(Harness &h) {
    bool T = thorough;
    std::vector<int> threads; for (int t = 1; t <= (T ? 9 : 6); ++t) threads.push_back(t);
    for (int len = 0; len <= (T ? 8 : 6); ++len) {
        u64 c = 1; for (int i = 0; i < len; ++i) c *= 3;
        h.add(fmt("all sequences of length %d", len), c, [=](u64 i) {
            describe = [] { return what; };
            ops<int>("int", digits<int>(i, len, {0, 1, 5}), threads, {0, 1, 2}, true);
            ops<uint64_t>("uint64_t", digits<uint64_t>(i, len, {0, 1, 5}), {1, 3}, {0}, true);
            if (len <= 5) ops<double>("double", digits<double>(i, len, {0, 1, 5}), {1, 2, 3}, {0}, false);
        });
    }
    h.add("every length", T ? 600 : 200, [=](u64 n) {
        describe = [] { return what; };
        std::vector<int> a(n); std::vector<uint64_t> b(n); std::vector<double> d(n); std::vector<long> l(n); std::vector<unsigned> u(n);
        for (u64 i = 0; i < n; ++i) { a[i] = (i * 7 + 1) % 11; b[i] = mix64(i); d[i] = (double) ((i * 5 + 2) % 13) - 6; l[i] = (long) ((i * 3) % 17) - 8; u[i] = mix64(i); }
        std::vector<int> th; for (int t : {1, 2, 3, 4, 7, 8, 16, 17, 33, 64}) th.push_back(t);
        ops<int>("int", a, th, {0}, true);
        ops<double>("double", d, {2, 5}, {0}, false);
        ops<uint64_t>("uint64_t", b, {2, 5}, {0}, true);
        ops<unsigned>("unsigned", u, {2, 5}, {0}, true);
        ops<long>("long", l, {2, 5}, {0}, true);
    });
    // around the sizes where the parallel versions start
    std::vector<size_t> big; for (long d = -3; d <= (T ? 12 : 3); ++d) big.push_back(PAR + d);
    if (T) for (long d : {-1, 0, 1}) { big.push_back(2 * PAR + d); big.push_back(3 * PAR + d); }
    std::vector<int> bt = T ? std::vector<int>{1, 2, 3, 4, 5, 7, 8, 16, 61} : std::vector<int>{1, 2, 3, 7};
    h.add("around the parallel threshold", big.size() * bt.size(), [=](u64 i) {
        describe = [] { return what; };
        size_t n = big[i % big.size()]; int t = bt[i / big.size()];
        std::vector<int> a(n); std::vector<uint64_t> b(n);
        for (size_t k = 0; k < n; ++k) { a[k] = mix64(k) % 3; b[k] = mix64(k); }
        ops<int>("int", a, {t}, {0, 2}, true);
        if (t <= 3) ops<uint64_t>("uint64_t", b, {t}, {0}, true);
    });
    // sums that only the (wider) output type holds
    h.add("wide sums of narrow counts", 40 + 3 * bt.size(), [=](u64 i) {
        describe = [] { return what; };
        const bool longOne = i >= 40; size_t n = longOne ? PAR + (i - 40) % 3 - 1 : i; int t = longOne ? bt[(i - 40) / 3] : 1 + (int) (i % 6);
        std::vector<int> a(n); std::vector<unsigned> u(n);
        for (size_t k = 0; k < n; ++k) { a[k] = 0x7fffffff - (int) (mix64(k) % 1000); u[k] = 0xfffffff0u - (unsigned) (mix64(k) % 100); }
        ops<int, long long>("int,long long", a, {t}, {0, 2}, true);
        ops<int, size_t>("int,size_t", a, {t}, {0}, true);
        ops<int, double>("int,double", a, {t}, {0}, true);
        ops<unsigned, size_t>("unsigned,size_t", u, {t}, {0}, true);
    });
    // all interleavings at synchronisation points (parallel forms, small inputs) within a preemption bound
    h.add("interleavings", 4 * 6 * (T ? 4 : 2), [=](u64 i) {
        describe = [] { return what + " schedule " + mc::currentSchedule(); };
        int op = i % 4, n = i / 4 % 6, t = 2 + i / 24;
        std::vector<int> a; for (int k = 0; k < n; ++k) a.push_back(1 << k);
        env(0, 0, t);
        what = fmt("%s n=%d threads=%d", opName[op < 2 ? op : op + 3], n, t);
        auto r = mc::explore(T ? 4 : 2, 2000000, [&] { one<int>(op < 2 ? op : op + 3, a, t); });
        ++cnt.states; cnt.schedules += r.executions; cnt.choicePoints += r.choicePoints; cnt.capped += r.capped;
    });
}

// ------------------------------------------------------------------------------------------------ U17
template<class IT> void splitCheck(const std::vector<u64> &w, int T) {
    curOp = "distributeWork";
    size_t n = w.size();
    u64 total = 0;
    Buf<size_t> a(n); for (size_t i = 0; i < n; ++i) { a.p[i] = total; total += w[i]; }
    IT prev = 0;
    for (int t = 0; t < T; ++t) {
        auto r = distributeWork<IT>(total, a.p, (IT) n, T, t);
        IT b = std::get<0>(r), e = std::get<1>(r);
        ++cnt.transitions;
        if (!(b == prev) || e < b || (u64) e > n) { fail("distributeWork/range", fmt("thread %d of %d gets rows [%ld,%ld) after [..,%ld)", t, T, (long) b, (long) e, (long) prev)); return; }
        prev = e;
    }
    if ((u64) prev != n) fail("distributeWork/cover", fmt("the last of %d threads ends at row %ld of %zu", T, (long) prev, n));
    ++cnt.traces;
}
static const std::vector<u64> splitAlpha = {0, 1, 2, 7, 3000000000ull};

template<class IT> void binCheck(const Pat &pa, const Pat &pb, int T, int pol) {
    typedef double NT;
    curOp = "BIN";
    env(pol, 0, T);
    CSR<IT, NT> A, B; fillCSR(A, pa, WA); fillCSR(B, pb, WB);
    {
        BIN<IT, NT> bin(A.rows, 8, T);
        bin.set_max_bin(A.rowptr, A.colids, B.rowptr, A.rows, B.cols);
        u64 tot = 0;
        for (i64 i = 0; i < pa.r; ++i) {
            u64 w = 0; for (i64 k : pa.rows[i]) w += pb.rows[k].size();
            tot += w;
            if ((u64) bin.row_nz[i] != w) fail("BIN/row", fmt("row %ld: %ld products, expected %lu", (long) i, (long) bin.row_nz[i], w));
        }
        if ((u64) bin.total_intprod != tot) fail("BIN/total", fmt("total %ld, expected %lu", (long) bin.total_intprod, tot));
        if (bin.rows_offset[0] != 0) fail("BIN/offset", "rows_offset[0] is not 0");
        for (int t = 0; t < T; ++t) if (bin.rows_offset[t + 1] < bin.rows_offset[t]) fail("BIN/offset", fmt("rows_offset[%d] decreases", t + 1));
        if ((i64) bin.rows_offset[T] != pa.r) fail("BIN/offset", fmt("rows_offset[%d] = %ld, expected %ld", T, (long) bin.rows_offset[T], (long) pa.r));
        curOp = "BIN::create_local_hash_table";
        bin.create_local_hash_table(B.cols);
        curOp = "~BIN";
    }
    ++cnt.traces; cnt.transitions += pa.r;
    drop(A); drop(B);
}
template<class IT> void workCheck(const Pat &pa, const Pat &pb, const Pat &pm, const std::vector<int> &threads) {
    typedef double NT;
    CSR<IT, NT> A, B, M; fillCSR(A, pa, WA); fillCSR(B, pb, WB); fillCSR(M, pm, WM);
    CSC<IT, NT> Ac, Bc; fillCSC(Ac, pa, WA); fillCSC(Bc, pb, WB);
    i64 m = pa.r;
    std::vector<u64> f(m), fm(m), w(m); u64 F = 0, FM = 0, W = 0;
    Pat tb = transpose(pb);
    for (i64 i = 0; i < m; ++i) {
        for (i64 k : pa.rows[i]) f[i] += pb.rows[k].size();
        fm[i] = pm.rows[i].empty() ? 0 : f[i];
        for (i64 j : pm.rows[i]) if (!pa.rows[i].empty() && !tb.rows[j].empty()) w[i] += pa.rows[i].size() + tb.rows[j].size();
        F += f[i]; FM += fm[i]; W += w[i];
    }
    ++cnt.states;
    auto total = [&](const char *n, u64 got, u64 exp) { if (got != exp) fail(std::string(n) + "/total", fmt("%s returns %lu, expected %lu", n, got, exp)); ++cnt.traces; };
    auto rows = [&](const char *n, auto *p, const std::vector<u64> &e) { for (i64 i = 0; i < m; ++i) { ++cnt.transitions; if ((u64) p[i] != e[i]) { fail(std::string(n) + "/row", fmt("%s: row %ld has %lu, expected %lu", n, (long) i, (u64) p[i], e[i])); return; } } };
    for (int t : threads) for (int d : {0, 1}) {
        env(t & 1, d, t ? t : 3);
        what = fmt("A=%s B=%s M=%s threads=%d delivered=%d", pa.str().c_str(), pb.str().c_str(), pm.str().c_str(), t, d);
        curOp = "calculateMultOps"; total(curOp, calculateMultOps(A, B, t), F);
        curOp = "get_flop(CSR,CSR)"; total(curOp, get_flop(A, B), 2 * F);
        curOp = "get_flop(CSC,CSR)"; total(curOp, get_flop(Ac, B), 2 * F);
        if (!t) continue;
        Buf<IT> b(m);
        curOp = "calculateFlops"; total(curOp, calculateFlops(A, B, b.p, t), F); rows(curOp, b.p, f);
        curOp = "calculateFlops(mask)"; total(curOp, calculateFlops(A, B, M, b.p, t), FM); rows(curOp, b.p, fm);
        Buf<size_t> z(m);
        curOp = "calculateWork"; total(curOp, calculateWork(A, Bc, M, z.p, t), W); rows(curOp, z.p, w);
    }
    drop(A); drop(B); drop(M); drop(Ac); drop(Bc);
}
static void setupWork(Harness &h) {
    bool T = thorough;
    for (Shape s : T ? std::vector<Shape>{{0, 0, 0}, {0, 2, 2}, {2, 0, 2}, {2, 2, 0}, {1, 2, 2}, {2, 2, 2}, {1, 3, 2}, {3, 1, 2}, {3, 2, 2}, {2, 3, 2}, {1, 3, 3}, {2, 1, 3}, {4, 1, 2}, {2, 2, 3}} : std::vector<Shape>{{0, 0, 0}, {0, 2, 2}, {2, 0, 2}, {2, 2, 0}, {1, 2, 2}, {2, 2, 2}, {3, 1, 2}, {1, 3, 2}, {2, 1, 3}})
        h.add(fmt("work estimates %dx%dx%d", s.m, s.k, s.n), shapeCases(s), [s](u64 idx) {
            describe = [] { return what; };
            u64 ab = idx & ((1ull << (s.m * s.k)) - 1), bb = idx >> (s.m * s.k);
            Pat a = fromBits(s.m, s.k, ab), b = fromBits(s.k, s.n, bb);
            for (u64 mb = 0; mb < (1ull << (s.m * s.n)); ++mb) {
                workCheck<int>(a, b, fromBits(s.m, s.n, mb), {0, 1, 2, 3, 5});
                workCheck<uint64_t>(a, b, fromBits(s.m, s.n, mb), {2});
            }
        });
    h.add("work estimates, many rows", 40, [](u64 idx) {
        describe = [] { return what; };
        i64 R = 1 + idx * 3, W = 5 + idx % 7;
        auto K = rowKinds(W, false);
        Pat a(R, W), b(W, W), m(R, W);
        for (i64 i = 0; i < R; ++i) { a.rows[i] = K[(i + idx) % K.size()].cols; m.rows[i] = K[(i * 3 + idx) % K.size()].cols; }
        for (i64 i = 0; i < W; ++i) b.rows[i] = K[(i * 5 + idx) % K.size()].cols;
        workCheck<int>(a, b, m, {1, 2, 3, 4, 8, 16}); workCheck<long>(a, b, m, {1, 3}); workCheck<uint64_t>(a, b, m, {4});
    });
    for (int len = 0; len <= (T ? 8 : 6); ++len) {
        u64 c = 1; for (int i = 0; i < len; ++i) c *= splitAlpha.size();
        h.add(fmt("splits of %d rows", len), c, [=](u64 idx) {
            std::vector<u64> w; u64 x = idx; for (int i = 0; i < len; ++i) { w.push_back(splitAlpha[x % 5]); x /= 5; }
            ++cnt.states;
            for (int t = 1; t <= 10; ++t) {
                what = fmt("work %s threads=%d", show(w).c_str(), t); describe = [] { return what; };
                splitCheck<int>(w, t); splitCheck<uint64_t>(w, t);
                if (t <= 4) { splitCheck<long>(w, t); splitCheck<unsigned>(w, t); }
            }
        });
    }
    // counts that exceed 32-bit index types: only the pointer arrays of the operands are looked at
    h.add("large counts", 512, [](u64 idx) {
        describe = [] { return what; };
        typedef double NT;
        static const std::vector<std::vector<int>> sizes = {{1 << 30, 1 << 29, 1 << 28}, {65536, 1 << 30, 65536}, {0, 2147483647, 0}, {46341, 46341, 46341}, {1, 0, 2147483646}};
        Pat pa = fromBits(3, 3, idx);
        for (auto &sb : sizes) {
            CSR<int, NT> A, B, M; fillCSR(A, pa, WA); fillCSR(M, fromBits(3, 1, idx % 8), WM);
            B.rows = 3; B.cols = 2147483647; B.rowptr = (int *) malloc(4 * sizeof(int)); B.colids = (int *) malloc(0); B.values = (NT *) malloc(0);
            B.rowptr[0] = 0; for (int k = 0; k < 3; ++k) B.rowptr[k + 1] = B.rowptr[k] + sb[k];
            B.nnz = B.rowptr[3];
            u64 f[3], fm[3], F = 0, FM = 0;
            for (int i = 0; i < 3; ++i) { f[i] = 0; for (i64 k : pa.rows[i]) f[i] += sb[k]; fm[i] = idx % 8 >> i & 1 ? f[i] : 0; F += f[i]; FM += fm[i]; }
            ++cnt.states;
            auto total = [&](const char *n, u64 got, u64 exp) { ++cnt.traces; if (got != exp) fail(std::string(n) + "/total-large", fmt("%s returns %lu, expected %lu", n, got, exp)); };
            for (int t : {1, 2, 3, 4}) {
                env(t & 1, 0, t);
                what = fmt("A=%s rows of B have %d, %d, %d entries, mask rows %lu, threads=%d", pa.str().c_str(), sb[0], sb[1], sb[2], idx % 8, t);
                Buf<int> b(3); Buf<size_t> acc(3);
                auto splits = [&](u64 tot, const u64 *e) {
                    for (int i = 0; i < 3; ++i) if ((u64) b.p[i] != e[i]) fail(std::string(curOp) + "/row-large", fmt("%s: row %d has %d, expected %lu", curOp, i, b.p[i], e[i]));
                    exclusiveScan(b.p, 3, acc.p, t);
                    u64 s = 0; for (int i = 0; i < 3; ++i) { if (acc.p[i] != s) { fail("exclusiveScan/large", fmt("element %d is %zu, expected %lu", i, acc.p[i], s)); return; } s += e[i]; }
                    int prev = 0;
                    for (int k = 0; k < t; ++k) { auto r = distributeWork<int>(tot, acc.p, 3, t, k); if (std::get<0>(r) != prev || std::get<1>(r) < prev) fail("distributeWork/large", fmt("thread %d gets rows [%d,%d) after %d", k, std::get<0>(r), std::get<1>(r), prev)); prev = std::get<1>(r); }
                    if (prev != 3) fail("distributeWork/large", fmt("the last of %d threads ends at row %d of 3", t, prev));
                };
                curOp = "calculateFlops"; total(curOp, calculateFlops(A, B, b.p, t), F); splits(F, f);
                curOp = "calculateFlops(mask)"; total(curOp, calculateFlops(A, B, M, b.p, t), FM); splits(FM, fm);
                curOp = "calculateMultOps"; total(curOp, calculateMultOps(A, B, t), F);
                curOp = "get_flop(CSR,CSR)"; total(curOp, get_flop(A, B), 2 * F);
                curOp = "BIN";
                {
                    BIN<int, NT> bin(3, 8, t);
                    bin.set_intprod_num(A.rowptr, A.colids, B.rowptr, 3); bin.set_rows_offset(3);
                    if ((u64) bin.total_intprod != F) fail("BIN/total-large", fmt("total %ld, expected %lu", (long) bin.total_intprod, F));
                    for (int i = 0; i < 3; ++i) if ((u64) bin.row_nz[i] != f[i]) fail("BIN/row-large", fmt("row %d: %ld products, expected %lu", i, (long) bin.row_nz[i], f[i]));
                    if (bin.rows_offset[0] != 0 || bin.rows_offset[t] != 3) fail("BIN/offset-large", "the row ranges do not cover all rows");
                    for (int k = 0; k < t; ++k) { if (bin.rows_offset[k + 1] < bin.rows_offset[k]) fail("BIN/offset-large", fmt("rows_offset[%d] decreases", k + 1)); bin.local_hash_table_id[k] = (int *) malloc(8); bin.local_hash_table_val[k] = (NT *) malloc(8); }
                }
                // columns of A with many entries, and the inner-product estimate with long rows of A and long columns of B
                CSC<int, NT> Ac; Ac.rows = 2147483647; Ac.cols = 3; Ac.colptr = (int *) malloc(4 * sizeof(int)); Ac.rowids = (int *) malloc(0); Ac.values = (NT *) malloc(0);
                for (auto &sa : sizes) {
                    Ac.colptr[0] = 0; for (int k = 0; k < 3; ++k) Ac.colptr[k + 1] = Ac.colptr[k] + sa[k];
                    Ac.nnz = Ac.colptr[3];
                    u64 G = 0; for (int k = 0; k < 3; ++k) G += (u64) sa[k] * sb[k];
                    curOp = "get_flop(CSC,CSR)"; total(curOp, get_flop(Ac, B), 2 * G);
                    curOp = "calculateWork";
                    CSR<int, NT> N; fillCSR(N, pa, WM);           // the mask; B stands for the long rows of A, Ac for the long columns of B
                    Buf<size_t> z(3); u64 w[3], Wt = 0;
                    for (int i = 0; i < 3; ++i) { w[i] = 0; for (i64 j : pa.rows[i]) if (sb[i] && sa[j]) w[i] += (u64) sb[i] + sa[j]; Wt += w[i]; }
                    total(curOp, calculateWork(B, Ac, N, z.p, t), Wt);
                    for (int i = 0; i < 3; ++i) if (z.p[i] != w[i]) fail("calculateWork/row-large", fmt("row %d has %zu, expected %lu", i, z.p[i], w[i]));
                    drop(N);
                }
                drop(Ac);
            }
            drop(A); drop(B); drop(M);
        }
    });
    h.add("splits, thread counts", 260, [](u64 t) {
        describe = [] { return what; };
        for (int kind = 0; kind < 6; ++kind) for (int n : {0, 1, 2, 7, 64, 255, 256}) {
            std::vector<u64> w;
            for (int i = 0; i < n; ++i) w.push_back(kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? (i == 0) * 100000 : kind == 3 ? (i == n - 1) * 100000 : kind == 4 ? i : mix64(i) % 50);
            what = fmt("work kind %d of %d rows threads=%lu", kind, n, t + 1);
            ++cnt.states;
            splitCheck<int>(w, t + 1); splitCheck<uint64_t>(w, t + 1);
        }
    });
    // BIN: rows with chosen numbers of products
    for (int len = 1; len <= (T ? 7 : 5); ++len) {
        u64 c = 1; for (int i = 0; i < len; ++i) c *= 4;
        h.add(fmt("BIN, %d rows", len), c, [=](u64 idx) {
            describe = [] { return what; };
            Pat a(len, 4), b(4, 40); for (int j = 0; j < 40; ++j) b.rows[3].push_back(j); b.rows[1] = {3}; b.rows[2] = {0, 5, 9};
            u64 x = idx;
            for (int i = 0; i < len; ++i) { int k = x % 4; x /= 4; if (k == 1) a.rows[i] = {0, 1}; if (k == 2) a.rows[i] = {1, 2}; if (k == 3) a.rows[i] = {0, 1, 2, 3}; }
            ++cnt.states;
            for (int t : {1, 2, 3, 4, 5, 8}) for (int pol : {0, 1}) {
                what = fmt("A=%s B=%s threads=%d order=%d", a.str().c_str(), b.str().c_str(), t, pol);
                binCheck<int>(a, b, t, pol); if (t == 3) { binCheck<uint64_t>(a, b, t, pol); binCheck<long>(a, b, t, pol); }
            }
        });
    }
    h.add("BIN, rows at the parallel threshold", 8, [](u64 idx) {
        describe = [] { return what; };
        i64 R = (1 << 17) - 3 + idx % 4; int t = idx / 4 ? 5 : 2;
        Pat a(R, 3), b(3, 6); b.rows = {{0, 1, 2, 3, 4, 5}, {}, {2}};
        for (i64 i = 0; i < R; ++i) { u64 z = mix64(i) % 8; for (int k = 0; k < 3; ++k) if (z >> k & 1) a.rows[i].push_back(k); }
        what = fmt("%ld rows, threads=%d", (long) R, t);
        ++cnt.states;
        binCheck<int>(a, b, t, 0); binCheck<int>(a, b, t, 1);
    });
}
int mcx::setup(Harness &h) { if (prop == "U16") setupScan(h); else setupWork(h); return 0; }
MCX_MAIN
