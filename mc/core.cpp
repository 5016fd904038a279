// M01 M02 M03 M04 M06 M07 M08 M09 and the functional part of M05: exhaustive enumeration of operand patterns,
// row histories, semirings, aliasing, thread counts and fresh-memory contents on the real kernels.
#ifdef MCX_TOP
#include "top_algs.h"
#else
#include "core_algs.h"
#endif
#include "spaces.h"
using namespace mcx;
typedef MCX_IT IT;
typedef MCX_NT NT;
static const bool TAGGED = std::is_same<NT, u64>::value;

static std::vector<Alg<IT, NT>> A_;
struct Env { unsigned threads = 1; int fill = 0xCD; int policy = 0; int maxThreads = 3; int deliver = 0; int semi = FREE; int bound = -1; };
enum { CONTENT = 1, WF = 2, UNMOD = 4, CALLS = 8, LEAK = 16 };
static int checks = CONTENT;

// ---- the run under way, for reports
static const Pat *cA, *cB, *cM; static Env cE; static const char *cAlg = ""; static std::string cExtra;
static std::string describeRun() {
    std::string s = fmt("%s<%s,%s> ", cAlg, MCX_ITN, MCX_NTN);
    if (cA) s += "A=" + cA->str() + " ";
    if (cB) s += "B=" + cB->str() + " ";
    if (cM) s += "M=" + cM->str() + " ";
    s += fmt("threads=%u (default %d, delivered %d, order %d) fresh-memory=0x%x semiring=%s %s", cE.threads, cE.maxThreads, cE.deliver, cE.policy, cE.fill & 0xff, semiName[cE.semi], cExtra.c_str());
    return s;
}
static void setEnv(const Env &e) { cE = e; fillByte = e.fill; mc::omp.policy = e.policy; mc::omp.maxThreads = e.maxThreads; mc::omp.deliver = e.deliver; }

struct Ops { Pat pa, pb, pm; CSR<IT, NT> A, B, M; CSC<IT, NT> Bc; bool hasCsc = false, ok = false;
    void build(const Pat &a, const Pat &b, const Pat &m, bool csc, int wa = WA, int wb = WB, int wm = WM) {
        pa = a; pb = b; pm = m; fillCSR(A, pa, wa); fillCSR(B, pb, wb); fillCSR(M, pm, wm); if ((hasCsc = csc)) fillCSC(Bc, pb, wb); ok = true; }
    void setMask(const Pat &m) { drop(M); pm = m; fillCSR(M, pm, WM); }
    ~Ops() { if (ok) { drop(A); drop(B); drop(M); if (hasCsc) drop(Bc); } }
};
static void call(const Alg<IT, NT> &al, Ops &o, CSR<IT, NT> &A, CSR<IT, NT> &B, CSR<IT, NT> &C, CSR<IT, NT> &M, const Env &e) {
    curOp = al.name; cAlg = al.name; cA = &o.pa; cB = &o.pb; cM = &o.pm;
    badOperand = 0; mulCalls = 0; extra.ok = true;
    if (al.inner) al.fi(A, o.Bc, C, M, Mul<NT>{e.semi}, Add<NT>{e.semi}, e.threads);
    else al.f(A, B, C, M, Mul<NT>{e.semi}, Add<NT>{e.semi}, e.threads);
    cnt.transitions += o.pa.r; ++cnt.traces;
}
static void report(const Alg<IT, NT> &al, const Verdict &v) { fail(std::string(al.name) + "/" + v.kind, std::string(al.name) + ": " + v.msg); }
static void leakCheck(const Alg<IT, NT> &al, long before, size_t bytes, CSR<IT, NT> &C) {
    long extra = liveBlocks - before;
    if (extra != 3) report(al, bad("leak", fmt("%ld blocks live after the call besides the operands, C has 3 arrays", extra)));
    i64 rows = C.rows, nnz = C.nnz; bool noEntries = nnz == 0, noRows = rows == 0;
    C.make_empty();
    extra = liveBlocks - before;
    long degenerate = (noEntries ? 2 : 0) + (noRows ? 1 : 0);      // malloc(0) results / pointer array of 0 rows
    if (extra != 0 && extra == degenerate) fail("make_empty-degenerate", fmt("%s: make_empty() of a matrix with %ld rows and %ld entries leaves its %ld zero-length arrays allocated", al.name, (long) rows, (long) nnz, extra));
    else if (extra != 0) report(al, bad("leak-empty", fmt("%ld blocks live after C.make_empty()", extra)));
#ifdef MC_ASAN
    else if (__sanitizer_get_current_allocated_bytes() > bytes + 4096) report(al, bad("leak-new", fmt("%zu more bytes allocated than before the call", __sanitizer_get_current_allocated_bytes() - bytes)));
#endif
}
static bool hasNomask, hasMasked; static u64 maskNo;      // maskNo: number of masks already tried with the current (A, B)
static Verdict checkResult(const Alg<IT, NT> &al, const CSR<IT, NT> &C, const Ref<NT> &R) {
    if (!extra.ok) return extra;
    Verdict v = wellFormed(C, R.r, R.c, (checks & WF) && al.sortedOut);
    if (v.ok && (checks & CONTENT)) v = sameContent(C, R);
    return v;
}
static u64 exploreCap = 20000;
static void runOne(const Alg<IT, NT> &al, Ops &o, const Ref<NT> &R, const Env &e) {
    setEnv(e);
#ifdef MCX_HB
    // every schedule within the preemption bound; any unordered accesses are reported by the detector
    {
        int bound = e.bound;
        auto r = mc::explore(bound < 0 ? 0 : bound, bound < 0 ? 1 : exploreCap, [&] {
            cExtra = "";
            CSR<IT, NT> C; call(al, o, o.A, o.B, C, o.M, e);
            Verdict v = checkResult(al, C, R);
            if (!v.ok) { cExtra = "schedule " + mc::currentSchedule(); report(al, v); }
            drop(C); tick();
        });
        cnt.schedules += r.executions; cnt.choicePoints += r.choicePoints; cnt.capped += bound >= 0 && r.capped;
        cExtra = "";
        return;
    }
#endif
    long before = 0; size_t bytes = 0;
    if (checks & LEAK) {
        before = liveBlocks;
#ifdef MC_ASAN
        bytes = __sanitizer_get_current_allocated_bytes();
#endif
    }
    {
        CSR<IT, NT> C;
        std::vector<u64> log;
        if (checks & UNMOD) {
            Snapshot<IT, NT> sa(o.A), sb(o.B), sm(o.M);
            if (al.inner) {
                Snapshot<IT, NT> sc(o.Bc);
                call(al, o, o.A, o.B, C, o.M, e);
                std::string d = sc.diff(o.Bc);
                if (!d.empty()) report(al, bad("modB", "B: " + d));
            } else call(al, o, o.A, o.B, C, o.M, e);
            std::string d;
            if (!(d = sa.diff(o.A)).empty()) report(al, bad("modA", "A: " + d));
            if (!(d = sb.diff(o.B)).empty()) report(al, bad("modB", "B: " + d));
            if (!(d = sm.diff(o.M)).empty()) report(al, bad("modM", "M: " + d));
        } else {
            if (checks & CALLS) mulLog = &log;
            call(al, o, o.A, o.B, C, o.M, e);
            mulLog = nullptr;
            if (checks & LEAK) {           // a second run replaces the first result and must release it
                long stray = C.nnz == 0 ? 2 : 0; if (C.rows == 0) ++stray;
                long b = liveBlocks;
                call(al, o, o.A, o.B, C, o.M, e);
                if (liveBlocks != b && liveBlocks - b == stray) { fail("make_empty-degenerate", fmt("%s: replacing a result with %ld rows and %ld entries leaves its %ld zero-length arrays allocated", al.name, (long) C.rows, (long) C.nnz, stray)); before += stray; bytes += 4096; }
                else if (liveBlocks != b) report(al, bad("leak-old", fmt("%ld more blocks live after replacing an old result by the same one", liveBlocks - b)));
            }
        }
        Verdict v = checkResult(al, C, R);
        if (!v.ok) report(al, v);
        if ((checks & CALLS) && TAGGED) {
            if (badOperand) report(al, bad("operands", fmt("multop was called %lu times with something else than (A(i,k), B(k,j))", badOperand)));
            std::sort(log.begin(), log.end());
            // every pair that contributes to an entry of the result: exactly one call
            for (i64 i = 0; v.ok && i < o.pa.r; ++i) for (i64 k : o.pa.rows[i]) for (i64 j : o.pb.rows[k]) {
                bool in = std::binary_search(o.pm.rows[i].begin(), o.pm.rows[i].end(), j);
                if (!al.nomask && in == al.compl_) continue;
                u64 key = (u64) i << 40 | (u64) k << 20 | (u64) j;
                auto r = std::equal_range(log.begin(), log.end(), key);
                if (r.second - r.first != 1) { report(al, bad("calls", fmt("multop called %ld times for A(%ld,%ld)*B(%ld,%ld)", (long) (r.second - r.first), (long) i, (long) k, (long) k, (long) j))); v.ok = false; break; }
            }
        }
        if (checks & LEAK) {
            leakCheck(al, before, bytes, C);
        }
        else drop(C);
    }
}
static void runAll(Ops &o, const std::vector<Env> &envs, bool skipMsa = false) {
    describe = describeRun; cA = &o.pa; cB = &o.pb; cM = &o.pm;
    ++cnt.states;
    for (int sem = -1, ei = 0; ei < (int) envs.size(); ++ei) {
        static Ref<NT> RP, RC, RN;
        if (envs[ei].semi != sem) {
            sem = envs[ei].semi;
            RP = refProduct<NT>(o.pa, o.pb, &o.pm, PLAIN, sem); RC = refProduct<NT>(o.pa, o.pb, &o.pm, COMPL, sem);
            if (hasNomask) RN = refProduct<NT>(o.pa, o.pb, &o.pm, NOMASK, sem);
        }
        for (auto &al : A_) {
            if (skipMsa && al.wide()) continue;
            if (al.nomask && maskNo) continue;              // the mask does not matter: once per (A, B)
            if (al.top() && ((envs[ei].deliver && al.group != 64) || (!envs[ei].threads && al.group == 32))) continue;     // these need the threads they ask for
            if (al.squareA && o.pa.r != o.pa.c) continue;
            if (al.plusTimes && sem != FREE && sem != PLUSTIMES) continue;
            runOne(al, o, al.nomask ? RN : al.compl_ ? RC : RP, envs[ei]);
        }
        outcomes[fmt("result %s", RP.nnz() ? (RC.nnz() ? "both nonempty" : "plain nonempty") : (RC.nnz() ? "complement nonempty" : "empty"))]++;
    }
    if (cnt.states % 50021 == 7) sample(describeRun());
}
static bool anyInner() { for (auto &a : A_) if (a.inner) return true; return false; }

static std::vector<Env> envs1, envsRow;   // environments for multi-row / single-row families
// ---------------------------------------------------------------- S1: all pattern triples
static void addTriples(Harness &h, const std::vector<Shape> &shapes) {
    for (auto s : shapes) {
        h.add(fmt("triples %dx%dx%d", s.m, s.k, s.n), shapeCases(s), [s](u64 idx) {
            u64 ab = idx & ((1ull << (s.m * s.k)) - 1), bb = idx >> (s.m * s.k);
            Ops o; o.build(fromBits(s.m, s.k, ab), fromBits(s.k, s.n, bb), fromBits(s.m, s.n, 0), anyInner());
            for (u64 mb = 0; mb < (hasMasked ? 1ull << (s.m * s.n) : 1); ++mb) {
                if (mb) o.setMask(fromBits(s.m, s.n, mb));
                maskNo = mb;
                runAll(o, s.m > 1 ? envs1 : envsRow);
            }
            maskNo = 0;
        });
    }
}
// degenerate dimensions: every combination of 0..2 rows/inner/columns with at least one zero
static void addDegenerate(Harness &h) {
    static std::vector<Shape> z;
    for (int m = 0; m <= 2; ++m) for (int k = 0; k <= 2; ++k) for (int n = 0; n <= 2; ++n) if (!m || !k || !n) z.push_back({m, k, n});
    h.add("degenerate dimensions", z.size(), [](u64 idx) {
        Shape s = z[idx];
        for (u64 a = 0; a < (1ull << (s.m * s.k)); ++a) for (u64 b = 0; b < (1ull << (s.k * s.n)); ++b) for (u64 mm = 0; mm < (1ull << (s.m * s.n)); ++mm) {
            Ops o; o.build(fromBits(s.m, s.k, a), fromBits(s.k, s.n, b), fromBits(s.m, s.n, mm), anyInner());
            runAll(o, envs1);
        }
    });
}
// ---------------------------------------------------------------- S2: structured rows, table-size thresholds
static void addRowShapes(Harness &h, std::vector<i64> widths, int maxK) {
    for (i64 W : widths) {
        auto K = std::make_shared<std::vector<RowKind>>(rowKinds(W, true));
        u64 n = K->size();
        for (int k = 1; k <= maxK; ++k) {
            u64 c = 1; for (int i = 0; i < k; ++i) c *= n;
            h.add(fmt("row shapes width %ld, %d B rows", (long) W, k), c, [W, K, k, n](u64 idx) {
                Pat a(1, k), b(k, W);
                u64 x = idx;
                for (int i = 0; i < k; ++i) { a.rows[0].push_back(i); b.rows[i] = (*K)[x % n].cols; x /= n; }
                Ops o; o.build(a, b, oneRow(W, (*K)[0].cols), anyInner());
                for (u64 m = 0; m < (hasMasked ? n : 1); ++m) { o.setMask(oneRow(W, (*K)[m].cols)); maskNo = m; runAll(o, envsRow); } maskNo = 0;
            });
        }
    }
}
static void addLongA(Harness &h, std::vector<int> Ks, std::vector<i64> widths) {
    for (i64 W : widths) for (int k : Ks) {
        auto K = std::make_shared<std::vector<RowKind>>(rowKinds(W, true));
        u64 n = K->size();
        h.add(fmt("long A row %d, width %ld", k, (long) W), n * n, [W, K, k, n](u64 idx) {
            // even B rows of one kind, odd ones of another, shifted cyclically so that columns repeat irregularly
            Pat a(1, k), b(k, W);
            for (int i = 0; i < k; ++i) {
                a.rows[0].push_back(i);
                for (i64 c : (*K)[i % 2 ? idx / n : idx % n].cols) b.rows[i].push_back(i % 3 == 2 ? (c + i) % W : c);
                std::sort(b.rows[i].begin(), b.rows[i].end());
            }
            Ops o; o.build(a, b, oneRow(W, (*K)[0].cols), anyInner());
            for (u64 m = 0; m < (hasMasked ? n : 1); ++m) { o.setMask(oneRow(W, (*K)[m].cols)); maskNo = m; runAll(o, envsRow); } maskNo = 0;
        });
    }
}
// rows of A against columns of B: every kind of row (sets, single positions, all but one, prefixes, suffixes)
// meets every kind of column (the same, and all pairs) in one product
static void addInnerKinds(Harness &h, std::vector<int> Ks) {
    for (int K : Ks) {
        auto kinds = std::make_shared<std::vector<std::vector<i64>>>();
        for (auto &k : rowKinds(K, true)) kinds->push_back(k.cols);
        for (i64 p = 0; p < K; ++p) {
            std::vector<i64> one{p}, but, pre, suf;
            for (i64 q = 0; q < K; ++q) { if (q != p) but.push_back(q); (q <= p ? pre : suf).push_back(q); }
            kinds->push_back(one); kinds->push_back(but); kinds->push_back(pre); kinds->push_back(suf);
        }
        auto cols = std::make_shared<std::vector<std::vector<i64>>>(*kinds);
        for (i64 p = 0; p < K; ++p) for (i64 q = p + 1; q < K; ++q) cols->push_back({p, q});
        h.add(fmt("row and column kinds over %d inner indices", K), kinds->size(), [=](u64 idx) {
            i64 W = cols->size();
            Pat a(1, K), b(K, W), m(1, W);
            a.rows[0] = (*kinds)[idx];
            for (i64 j = 0; j < W; ++j) for (i64 k : (*cols)[j]) b.rows[k].push_back(j);
            Ops o; o.build(a, b, m, anyInner());
            for (int mk : {0, 1, 2}) {
                for (i64 j = 0; j < W; ++j) if (mk == 0 || (mk == 1 && j % 3 == (i64) idx % 3)) m.rows[0].push_back(j);
                o.setMask(m); maskNo = mk; runAll(o, envsRow);
                m.rows[0].clear();
                if (!hasMasked) break;
            }
            maskNo = 0;
        });
    }
}
// rows with tens of thousands of entries: counters and ids of every narrow width wrap
static void addWide(Harness &h, std::vector<i64> widths) {
    for (i64 W : widths) {
        auto K = std::make_shared<std::vector<RowKind>>(rowKinds(W, true));
        u64 n = K->size();
        h.add(fmt("wide rows %ld", (long) W), n, [W, K, n](u64 idx) {
            // the long row stands between short ones; three B rows: of every kind, all columns, and the next kind
            Pat a(3, 4), b(4, W);
            a.rows = {{3}, {0, 1, 2, 3}, {0, 3}};
            b.rows = {(*K)[idx].cols, (*K)[1].cols, (*K)[(idx * 5 + 3) % n].cols, {0, W / 2, W - 1}};
            Pat m0(3, W); Ops o; o.build(a, b, m0, anyInner());
            for (u64 m = 0; m < (hasMasked ? n : 1); ++m) {
                if (m % 3 != idx % 3 && m > 1) continue;
                Pat q(3, W); q.rows = {{0, 1, W - 1}, (*K)[m].cols, {W / 2}}; o.setMask(q); maskNo = m;
                Env e; e.threads = 1 + (idx + m) % 3; runAll(o, {e});
            }
            maskNo = 0;
        });
    }
}
// the same for the inner index: long rows of A, long columns of B
static void addDeep(Harness &h, std::vector<i64> Ks) {
    for (i64 K_ : Ks) {
        auto K = std::make_shared<std::vector<RowKind>>(rowKinds(K_, true));
        u64 n = K->size();
        h.add(fmt("%ld inner indices", (long) K_), n, [K_, K, n](u64 idx) {
            Pat a(2, K_), b(K_, (i64) n), m(2, (i64) n);
            a.rows = {(*K)[idx].cols, (*K)[(idx * 7 + 1) % n].cols};
            for (u64 j = 0; j < n; ++j) { for (i64 k : (*K)[j].cols) b.rows[k].push_back(j); m.rows[0].push_back(j); if (j % 2) m.rows[1].push_back(j); }
            Ops o; o.build(a, b, m, anyInner());
            Env e; e.threads = 1 + idx % 3; maskNo = 0; runAll(o, {e});
        });
    }
}
// all sets of `k` columns out of an alphabet of special column ids, for the mask and two B rows
static void addHuge(Harness &h, i64 cols, std::vector<i64> ids) {
    bool some = false;
    for (auto &al : A_) some |= !al.wide();      // MSA tables have one element per column
    if (!some) return;
    auto I = std::make_shared<std::vector<i64>>(ids);
    u64 n = 1ull << ids.size();
    h.add(fmt("column ids up to %ld", (long) cols - 1), n * n, [cols, I, n](u64 idx) {
        auto sel = [&](u64 bits) { std::vector<i64> v; for (size_t i = 0; i < I->size(); ++i) if (bits >> i & 1) v.push_back((*I)[i]); return v; };
        Pat a(1, 2), b(2, cols); a.rows[0] = {0, 1}; b.rows[0] = sel(idx % n); b.rows[1] = sel(idx / n);
        Ops o; o.build(a, b, oneRow(cols, {}), false);
        for (u64 m = 0; m < (hasMasked ? n : 1); ++m) { o.setMask(oneRow(cols, sel(m))); maskNo = m; runAll(o, envsRow, true); } maskNo = 0;
    });
}
// ---------------------------------------------------------------- S3: row histories
struct HRow { std::vector<i64> a, m; };
static std::vector<HRow> historyAlphabet(i64 W, i64 K) {
    // B (K rows): 0 all, 1 evens, 2 clash(16), 3 first, 4 last, 5 empty, 6 high
    std::vector<i64> all, ev, cl; for (i64 i = 0; i < W; ++i) { all.push_back(i); if (i % 2 == 0) ev.push_back(i); if (i % 16 == 5) cl.push_back(i); }
    std::vector<i64> lo(all.begin(), all.begin() + std::min<i64>(3, W));
    (void) K;
    return {
        {{3}, lo},             // tiny mask, one product
        {{0, 1, 2, 6}, all},   // full mask, many products
        {{0, 1}, {}},          // no mask
        {{}, all},             // no A
        {{2, 4}, cl},          // colliding keys
        {{5}, ev},             // B row empty
        {{1, 6}, {1}},         // mask hit only by some
        {{0, 2, 3}, ev},       // half mask
        {{4}, {W - 1}},        // last column
    };
}
static Pat historyB(i64 W) {
    Pat b(7, W);
    for (i64 i = 0; i < W; ++i) { b.rows[0].push_back(i); if (i % 2 == 0) b.rows[1].push_back(i); if (i % 16 == 5) b.rows[2].push_back(i); if (i >= W / 2) b.rows[6].push_back(i); }
    b.rows[3] = {0}; b.rows[4] = {W - 1};
    return b;
}
static void addHistories(Harness &h, std::vector<i64> widths, int len, std::vector<Env> envs) {
    for (i64 W : widths) for (int L = 1; L <= len; ++L) {
        auto al = std::make_shared<std::vector<HRow>>(historyAlphabet(W, 7));
        u64 n = al->size(), c = 1; for (int i = 0; i < L; ++i) c *= n;
        h.add(fmt("row histories length %d, width %ld", L, (long) W), c, [=](u64 idx) {
            Pat a(L, 7), m(L, W);
            u64 x = idx;
            for (int i = 0; i < L; ++i) { a.rows[i] = (*al)[x % n].a; m.rows[i] = (*al)[x % n].m; x /= n; }
            Ops o; o.build(a, historyB(W), m, anyInner());
            runAll(o, envs);
        });
    }
}
// ---------------------------------------------------------------- S4: work splits over threads
static void addSplits(Harness &h, int maxRows, std::vector<unsigned> threads, std::vector<int> delivers) {
    for (int R = 0; R <= maxRows; ++R) {
        u64 c = 1; for (int i = 0; i < R; ++i) c *= 3;
        h.add(fmt("work splits of %d rows", R), c, [=](u64 idx) {
            Pat a(R, 4), b(4, 6), m(R, 6);
            b.rows[0] = {0, 1, 2, 3, 4, 5}; b.rows[1] = {1, 3}; b.rows[2] = {5}; b.rows[3] = {0, 2, 4};
            u64 x = idx;
            for (int i = 0; i < R; ++i) {
                int k = x % 3; x /= 3;
                if (k == 1) { a.rows[i] = {i % 3}; m.rows[i] = {1, 5}; }
                if (k == 2) { a.rows[i] = {0, 1, 2, 3}; m.rows[i] = {0, 1, 3, 5}; }
                if (k == 0) { if (i % 2) a.rows[i] = {0}; else m.rows[i] = {2}; }
            }
            Ops o; o.build(a, b, m, anyInner());
            std::vector<Env> es;
            for (unsigned t : threads) for (int d : delivers) for (int pol : {0, 1}) {
                Env e; e.threads = t; e.deliver = d; e.policy = pol; e.maxThreads = t ? 3 : 1 + (idx % 5); es.push_back(e);
            }
            runAll(o, es);
        });
    }
}
#ifdef MCX_HB
static void addExplored(Harness &h, int maxRows, std::vector<int> threads, int bound) {
    for (int R = 1; R <= maxRows; ++R) {
        u64 c = 1; for (int i = 0; i < R; ++i) c *= 2;
        h.add(fmt("all schedules with at most %d preemptions, %d rows", bound, R), c, [=](u64 idx) {
            Pat a(R, 3), b(3, 4), m(R, 4);
            b.rows[0] = {0, 1, 2, 3}; b.rows[1] = {1, 3}; b.rows[2] = {0, 2};
            for (int i = 0; i < R; ++i) { a.rows[i] = idx >> i & 1 ? std::vector<i64>{0, 1, 2} : std::vector<i64>{(i64) i % 3}; m.rows[i] = idx >> i & 1 ? std::vector<i64>{1, 2} : std::vector<i64>{0, 3}; }
            Ops o; o.build(a, b, m, anyInner());
            std::vector<Env> es; for (int t : threads) { Env e; e.threads = t; e.maxThreads = t; e.bound = bound; es.push_back(e); }
            runAll(o, es);
        });
    }
}
#endif
// many rows: the parallel branches of the scans
static void addManyRows(Harness &h, std::vector<i64> rows, std::vector<unsigned> threads) {
    h.add("many rows", rows.size() * threads.size(), [=](u64 idx) {
        i64 R = rows[idx % rows.size()]; unsigned t = threads[idx / rows.size()];
        Pat a(R, 5), b(5, 4), m(R, 4);
        b.rows = {{0, 1, 2, 3}, {1}, {}, {0, 3}, {2}};
        for (i64 i = 0; i < R; ++i) { u64 z = mix64(i); if (z & 1) a.rows[i].push_back(z >> 1 & 1); if (z & 4) a.rows[i].push_back(3); if (z & 8) m.rows[i].push_back(0); if (z & 16) m.rows[i].push_back(2); if (z & 32) m.rows[i].push_back(3); }
        Ops o; o.build(a, b, m, anyInner());
        Env e; e.threads = t; runAll(o, {e});
    });
}
// ---------------------------------------------------------------- more multiplications than a 32-bit count can hold
// (only for the kernels that leave a row as soon as its mask, or a dot product as soon as one side, is exhausted)
static void addManyProducts(Harness &h) {
    if (sizeof(IT) != 4) return;
    auto quick = [](const Alg<IT, NT> &al) { return al.inner ? al.group != 32 : strstr(al.name, "MaskedHeap<") || strstr(al.name, "MaskedHeap_v1") || strstr(al.name, "MaskedHeap_v2"); };
    bool some = false; for (auto &al : A_) some |= quick(al) && !al.compl_;
    if (!some) return;
    static const std::vector<i64> size = {60000, 82000, 88000, 91000};
    h.add("more than 2^31 multiplications", size.size() * 3, [quick](u64 idx) {
        i64 n = size[idx % size.size()]; unsigned t = idx / size.size() + 2;
        describe = describeRun; cExtra = fmt("(%ld, threads %u)", (long) n, t); cA = cB = cM = nullptr;
        for (auto &al : A_) {
            if (!quick(al) || al.compl_) continue;
            // rows x columns results, each the product of one pair
            i64 R = al.inner ? 40 : n, L = al.inner ? n / 2 : 1, W = al.inner ? 4000 : n;
            Pat a(R, L), b(L, W), m(R, W);
            for (i64 i = 0; i < R; ++i) { for (i64 k = 0; k < L; ++k) a.rows[i].push_back(k); m.rows[i] = {0}; if (al.inner) for (i64 j = 1; j < W; ++j) m.rows[i].push_back(j); }
            for (i64 j = 0; j < W; ++j) b.rows[0].push_back(j);
            Ops o; o.build(a, b, m, al.inner);
            cA = cB = cM = nullptr;
            Ref<NT> E; E.r = R; E.c = W; E.rows.resize(R);
            Mul<NT> mul{FREE};
            for (i64 i = 0; i < R; ++i) for (i64 j : m.rows[i]) E.rows[i].push_back({j, mul(valOf<NT>(WA, i, 0), valOf<NT>(WB, 0, j))});
            Env e; e.threads = t; e.maxThreads = t; setEnv(e);
            CSR<IT, NT> C;
            curOp = al.name; cAlg = al.name; badOperand = 0; mulCalls = 0; extra.ok = true;
            if (al.inner) al.fi(o.A, o.Bc, C, o.M, Mul<NT>{FREE}, Add<NT>{FREE}, t); else al.f(o.A, o.B, C, o.M, Mul<NT>{FREE}, Add<NT>{FREE}, t);
            ++cnt.traces; cnt.transitions += R; tick();
            Verdict v = wellFormed(C, R, W, al.sortedOut);
            if (v.ok) v = sameContent(C, E);
            if (!v.ok) report(al, bad("many-" + v.kind, v.msg));
            drop(C);
        }
        ++cnt.states; cExtra.clear();
    });
}
// ---------------------------------------------------------------- M06: reuse of C and chaining
static void addChains(Harness &h, int len) {
    // all sequences of `len` multiplications over a pool of three 2x2 or 3x3 objects; every step overwrites one
    // of them (possibly an operand) by a plain or complemented product, and the pool is compared with a
    // reference pool after every step
    u64 nal = A_.size();
    for (int L = 1; L <= len; ++L) {
        u64 steps = 27;          // (a, b, m) in pool^3; destination cycles through the pool and an extra object
        u64 c = 1; for (int i = 0; i < L; ++i) c *= steps * 2;
        h.add(fmt("chains of %d multiplications", L), c, [=](u64 idx) {
            for (u64 ai = 0; ai < nal; ++ai) {
                const auto &al = A_[ai];
                if (al.inner || al.plusTimes) continue;
                describe = describeRun; cExtra = fmt("chain %lu", idx);
                Env e; e.semi = RAW; e.threads = 1 + idx % 2; setEnv(e);
                typedef std::map<std::pair<i64, i64>, NT> Dense;
                Pat pp[3] = {fromBits(3, 3, 0x1B3), fromBits(3, 3, 0x0D6), fromBits(3, 3, 0x155)};
                Dense ref[4]; CSR<IT, NT> obj[4];
                for (int i = 0; i < 3; ++i) {
                    fillCSR(obj[i], pp[i], i);
                    for (i64 r = 0; r < 3; ++r) for (i64 j : pp[i].rows[r]) ref[i][{r, j}] = valOf<NT>(i, r, j);
                }
                bool have3 = false;
                u64 x = idx;
                for (int s = 0; s < L; ++s) {
                    int q = x % steps; x /= steps; int alias = x % 2; x /= 2;
                    int a = q % 3, b = q / 3 % 3, m = q / 9;
                    // destination: alias -> one of the operands, otherwise the extra object (keeps its previous result)
                    int d = alias ? (s % 3 == 0 ? a : s % 3 == 1 ? b : m) : 3;
                    if (alias && al.top()) d = 3;
                    Dense nr;
                    Mul<NT> mul{RAW}; Add<NT> add{RAW};
                    for (auto &ea : ref[a]) for (auto &eb : ref[b]) if (ea.first.second == eb.first.first) {
                        std::pair<i64, i64> pos{ea.first.first, eb.first.second};
                        if (!al.nomask && (ref[m].count(pos) != 0) == al.compl_) continue;
                        NT v = mul(ea.second, eb.second);
                        auto it = nr.find(pos);
                        if (it == nr.end()) nr[pos] = v; else it->second = add(it->second, v);
                    }
                    curOp = al.name; cAlg = al.name; cA = cB = cM = nullptr;
                    // unsorted complemented results may not be fed to algorithms that need sorted operands
                    al.f(obj[a], obj[b], obj[d], obj[m], mul, add, e.threads);
                    ++cnt.transitions;
                    if (d == 3) have3 = true;
                    ref[d] = nr;
                    if (!al.sortedOut) { curOp = "sortIds"; obj[d].sortIds(); curOp = al.name; }
                    Ref<NT> R; R.r = R.c = 3; R.rows.resize(3);
                    for (auto &en : nr) R.rows[en.first.first].push_back({en.first.second, en.second});
                    Verdict v = wellFormed(obj[d], 3, 3, true);
                    if (v.ok) v = sameContent(obj[d], R);
                    if (!v.ok) { cExtra = fmt("chain %lu step %d: obj%d = obj%d * obj%d mask obj%d", idx, s, d, a, b, m); report(al, v); break; }
                    if (d == 3 && s + 1 < L) { // feed the result back: it replaces object 0 for the next step
                        std::swap(obj[3].rowptr, obj[0].rowptr); std::swap(obj[3].colids, obj[0].colids); std::swap(obj[3].values, obj[0].values); std::swap(obj[3].nnz, obj[0].nnz);
                        std::swap(obj[3].rows, obj[0].rows); std::swap(obj[3].cols, obj[0].cols); std::swap(ref[3], ref[0]);
                    }
                }
                (void) have3;
                ++cnt.traces;
                for (auto &ob : obj) if (ob.rows > 0) drop(ob);
            }
            cExtra.clear();
            ++cnt.states;
        });
    }
}
// ---------------------------------------------------------------- M07: aliasing
// which roles share one object: bit 0: A, 1: B, 2: M (inner product: B is a CSC and cannot alias)
static void aliasCase(const Pat &pa, const Pat &pb, const Pat &pm, int roles, const std::vector<unsigned> &threads) {
    Pat shared = (roles & 1) ? pa : (roles & 2) ? pb : pm;
    if (((roles & 2) && !(pb == shared)) || ((roles & 4) && !(pm == shared))) return;
    int whoS = (roles & 1) ? WA : (roles & 2) ? WB : WM;
    int wa = (roles & 1) ? whoS : WA, wb = (roles & 2) ? whoS : WB;
    Ref<NT> R[2] = {refProduct<NT>(pa, pb, &pm, PLAIN, RAW, wa, wb), refProduct<NT>(pa, pb, &pm, COMPL, RAW, wa, wb)};
    describe = describeRun;
    ++cnt.states;
    for (auto &al : A_) {
        if ((al.inner && (roles & 2)) || al.top()) continue;
        for (unsigned t : threads) {
            Env e; e.threads = t; e.semi = RAW; setEnv(e);
            Ops o; o.build(pa, pb, pm, al.inner, wa, wb, WM);
            CSR<IT, NT> S; fillCSR(S, shared, whoS);
            Snapshot<IT, NT> sa(o.A), sb(o.B), sm(o.M);
            cExtra = fmt("C is the same object as%s%s%s", roles & 1 ? " A" : "", roles & 2 ? " B" : "", roles & 4 ? " M" : "");
            call(al, o, roles & 1 ? S : o.A, roles & 2 ? S : o.B, S, roles & 4 ? S : o.M, e);
            Verdict v = checkResult(al, S, R[al.compl_]);
            if (!v.ok) report(al, bad("alias-" + v.kind, v.msg));
            std::string d;
            if (!(d = sa.diff(o.A)).empty() || !(d = sb.diff(o.B)).empty() || !(d = sm.diff(o.M)).empty()) report(al, bad("alias-mod", "an operand that is not C changed: " + d));
            drop(S);
            cExtra.clear();
        }
    }
}
static void addAlias(Harness &h, bool deep) {
    // all pattern triples, one role
    for (Shape s : deep ? std::vector<Shape>{{2, 2, 2}, {1, 2, 2}, {2, 2, 1}, {1, 1, 3}, {2, 3, 3}, {3, 2, 2}} : std::vector<Shape>{{2, 2, 2}, {1, 2, 2}, {2, 1, 1}, {1, 1, 3}}) {
        u64 n = 1ull << (s.m * s.k + s.k * s.n);
        if (n * (1ull << (s.m * s.n)) > (1ull << 22)) continue;
        h.add(fmt("alias one operand %dx%dx%d", s.m, s.k, s.n), n, [s](u64 idx) {
            u64 ab = idx & ((1ull << (s.m * s.k)) - 1), bb = idx >> (s.m * s.k);
            Pat a = fromBits(s.m, s.k, ab), b = fromBits(s.k, s.n, bb);
            for (u64 mb = 0; mb < (1ull << (s.m * s.n)); ++mb) for (int role : {1, 2, 4}) aliasCase(a, b, fromBits(s.m, s.n, mb), role, {1, 2});
        });
    }
    // one object in several roles: all 3x3 patterns for the shared object x a few for the other
    h.add("alias several operands 3x3", 512, [](u64 idx) {
        Pat p = fromBits(3, 3, idx);
        for (u64 q : {0x1FFull, 0x0ull, 0x1B3ull, 0x0A5ull, 0x111ull, 0x124ull}) {
            Pat x = fromBits(3, 3, q);
            for (int roles : {3, 5, 6, 7}) aliasCase(roles & 1 ? p : x, roles & 2 ? p : x, roles & 4 ? p : x, roles, {1, 2, 3});
        }
    });
    if (deep) h.add("alias several operands, all pairs of 2x2", 256, [](u64 idx) {
        Pat p = fromBits(2, 2, idx & 15), x = fromBits(2, 2, idx >> 4);
        for (int roles : {3, 5, 6, 7}) aliasCase(roles & 1 ? p : x, roles & 2 ? p : x, roles & 4 ? p : x, roles, {1, 2, 3, 5});
    });
    // longer rows
    h.add("alias structured", 12 * 12, [](u64 idx) {
        i64 W = 40; auto K = rowKinds(W, true);
        Pat a(W, W), m(W, W);
        for (i64 i = 0; i < W; ++i) { a.rows[i] = K[(idx + i) % K.size()].cols; m.rows[i] = K[(idx / 12 + 2 * i) % K.size()].cols; }
        for (int roles : {1, 2, 4, 3, 5, 6, 7}) aliasCase(roles & 1 ? a : m, roles & 2 ? a : m, roles & 4 ? a : m, roles, {1, 3});
        for (int roles : {1, 2, 4}) aliasCase(a, a, m, roles, {2});
    });
}

int mcx::setup(Harness &h) {
    std::vector<Alg<IT, NT>> all = algs<IT, NT>(31);
    bool inner = prop == "M03";
    for (auto &a : all) {
        if (prop == "M01" && (a.compl_ || a.inner)) continue;
        if (prop == "M02" && !a.compl_) continue;
        if (prop == "M03" && !a.inner) continue;
        if (prop == "L10" && a.nomask) continue;
        if (prop == "L11" && !a.nomask) continue;
        A_.push_back(a);
    }
    if (A_.empty()) return 0;
    for (auto &a : A_) (a.nomask ? hasNomask : hasMasked) = true;
    Env e1; Env e2 = e1; e2.threads = 2; e2.fill = 0; Env e3 = e1; e3.threads = 3; e3.fill = 0xFF; e3.policy = 1;
    envs1 = {e1, e2}; envsRow = {e1};
    const bool T = thorough;
    const bool primary = MCX_PRIMARY;
    std::vector<i64> widths = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65};
    std::vector<i64> widthsBig = {127, 128, 129, 255, 256, 257, 300};
#ifdef MCX_HB
    if (true) {          // M05 and the schedules of L10 and L11
        checks = CONTENT; mc::reduceIndependent = true;
        hb::ignore(&mulCalls, sizeof mulCalls); hb::ignore(&addCalls, sizeof addCalls);
        mc::onFatal = [](const std::string &s) { fail(std::string(curOp) + "/sched", std::string(curOp) + ": " + s); };
        addSplits(h, T ? 6 : 4, {2, 3, 4}, {0});
        addSplits(h, T ? 4 : 3, {4}, {2, 3});
        { Env e; e.threads = 2; e.maxThreads = 2; Env f = e; f.threads = 3; f.maxThreads = 3; Env d = e; d.threads = 0; d.maxThreads = 4; d.policy = 1; envs1 = {e, f, d}; envsRow = {e}; }
        addTriples(h, {{2, 1, 2}, {2, 2, 1}, {3, 1, 1}, {2, 2, 2}, {2, 1, 3}});
        if (T) addTriples(h, {{3, 1, 2}, {2, 2, 3}, {2, 3, 2}});
        addSplits(h, 4, {0, 5, 8}, {0});
        addManyRows(h, {300, (1 << 17) + 5}, {4});
        exploreCap = 1000000;
        bool few = !strncmp(A_[0].name, "Outer", 5) && !T;        // many reductions
        addExplored(h, T ? 4 : 3, {2}, T ? 6 : few ? 2 : 4);
        addExplored(h, T ? 4 : few ? 2 : 3, {3}, few ? 1 : 2);
        if (!few) addExplored(h, T ? 4 : 2, {4}, T ? 2 : 1);
    } else
#endif
    if (prop == "M01" || prop == "M02" || prop == "M03") {
        checks = CONTENT;
        envs1 = {e1, e2, e3};
        addDegenerate(h);
        if (!primary) {
            addTriples(h, T ? std::vector<Shape>{{1, 1, 1}, {2, 2, 2}, {1, 2, 3}, {1, 3, 3}} : std::vector<Shape>{{1, 1, 1}, {2, 2, 2}});
            addRowShapes(h, {3, 17, 65}, T ? 2 : 1);
            addLongA(h, {5, 17}, {40});
            if (T && sizeof(IT) == 8 && !inner) addHuge(h, (i64) 1 << 40, {0, 1, 16, ((i64) 1 << 32), ((i64) 1 << 32) + 1, ((i64) 1 << 40) - 1});
            return 0;
        }
        addTriples(h, {{1, 1, 1}, {1, 2, 2}, {2, 1, 2}, {2, 2, 1}, {3, 1, 1}, {2, 2, 2}, {1, 2, 3}, {1, 3, 2}, {1, 3, 3}, {2, 1, 3}});
        addTriples(h, {{2, 2, 3}, {2, 3, 2}, {3, 2, 2}, {1, 2, 4}, {1, 4, 2}});
        if (T) addTriples(h, {{1, 3, 4}, {1, 4, 3}});
        addRowShapes(h, widths, 2);
        addRowShapes(h, widthsBig, T ? 2 : 1);
        addRowShapes(h, {5, 9, 33}, T ? 3 : 2);
        addRowShapes(h, {511, 512, 513, 1023, 1024, 1025}, 1);
        addLongA(h, T ? std::vector<int>{3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 33, 63, 64, 65, 129, 257, 520} : std::vector<int>{5, 8, 9, 16, 17, 33, 65, 130}, T ? std::vector<i64>{5, 17, 40, 70, 140} : std::vector<i64>{17, 70});
        addInnerKinds(h, inner ? T ? std::vector<int>{9, 20, 40, 70, 140} : std::vector<int>{9, 20, 40, 70} : T ? std::vector<int>{9, 20, 40} : std::vector<int>{9, 20});
        if (!anyInner()) addHuge(h, 2147483647, {0, 1, 15, 1 << 20, 1 << 24, 2147483646});
        addHistories(h, {20}, T ? 5 : 4, {e1});
        addHistories(h, {70}, T ? 4 : 3, {e1});
        addSplits(h, T ? 6 : 5, {1, 2, 3, 5}, {0});
        addManyRows(h, {(1 << 17) - 1, 1 << 17, (1 << 17) + 3}, {1, 4});
        addManyProducts(h);
        addWide(h, T ? std::vector<i64>{255, 256, 257, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 131075} : std::vector<i64>{257, 4097, 32769, 65537});
        addDeep(h, T ? std::vector<i64>{255, 256, 257, 4097, 32769, 65535, 65536, 65537} : std::vector<i64>{257, 4097, 65537});
    } else if (prop == "L10" || prop == "L11") {
        checks = CONTENT | WF;
        envs1 = {e1, e2, e3};
        addDegenerate(h);
        bool L11 = prop == "L11";
        if (!primary) {
            addTriples(h, {{1, 1, 1}, {2, 2, 2}, {1, 2, 3}});
            addRowShapes(h, {3, 17, 65}, T ? 2 : 1);
            addLongA(h, {5, 17}, {40});
            if (L11) addTriples(h, {{3, 3, 3}});
            if (T) addTriples(h, {{2, 2, 3}, {3, 2, 2}});
            addSplits(h, 4, {1, 2, 3}, {0});
            if (!hasMasked) addManyRows(h, {300}, {1, 3});
            if (!strncmp(A_[0].name, "Outer", 5)) {        // wide keys: many rows per block, many columns
                addManyRows(h, {5000, 70000}, {1, 3});
                addHuge(h, (1 << 21) + 5, {0, 1, 65535, 65536, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1 << 21});
            }
            return 0;
        }
        addTriples(h, {{1, 1, 1}, {1, 2, 2}, {2, 1, 2}, {2, 2, 1}, {3, 1, 1}, {2, 2, 2}, {1, 2, 3}, {1, 3, 2}, {1, 3, 3}, {2, 1, 3}, {3, 1, 2}});
        if (L11) addTriples(h, {{3, 2, 3}, {2, 3, 3}, {3, 3, 2}, {1, 4, 3}});
        addTriples(h, {{2, 2, 3}, {2, 3, 2}, {3, 2, 2}, {1, 2, 4}, {1, 4, 2}});
        if (T) addTriples(h, {{1, 3, 4}});
        addRowShapes(h, widths, 2);
        addRowShapes(h, widthsBig, T || L11 ? 2 : 1);
        if (L11) addRowShapes(h, {5, 9, 33}, 3);
        addLongA(h, T ? std::vector<int>{3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 33, 65, 130, 257} : std::vector<int>{5, 9, 17, 33, 65}, T ? std::vector<i64>{5, 17, 40, 70} : std::vector<i64>{17, 40});
        addInnerKinds(h, T ? std::vector<int>{9, 20, 40} : std::vector<int>{9, 20});
        addRowShapes(h, {511, 512, 513, 1023, 1024, 1025}, 1);
        addHistories(h, {20, 70}, T ? 4 : 3, {e1});
        addSplits(h, T ? 7 : 5, {1, 2, 3, 5, 8}, {0});
        addManyRows(h, {300, (1 << 17) - 1, 1 << 17, (1 << 17) + 3}, {1, 4});
        if (!L11) addManyProducts(h);
        addWide(h, T ? std::vector<i64>{255, 256, 257, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 131075} : std::vector<i64>{257, 4097, 32769, 65537});
        addDeep(h, T ? std::vector<i64>{255, 256, 257, 4097, 65537} : std::vector<i64>{257, 1025, 65537});
    } else if (prop == "M04") {
        checks = CONTENT;
        std::vector<Env> es;
        for (int f : {0x00, 0xFF, 0x5A, -1}) for (unsigned t : {1u, 2u}) { Env e; e.fill = f; e.threads = t; es.push_back(e); }
        { Env e; e.fill = 0x01; es.push_back(e); }
        addHistories(h, T ? std::vector<i64>{3, 20, 70, 130, 300} : std::vector<i64>{20, 70}, T ? 4 : 3, es);
        if (!T) { addHistories(h, {20}, 4, {es[0], es[2], es[4]}); addHistories(h, {300}, 2, es); }
        addHistories(h, T ? std::vector<i64>{4097, 65537} : std::vector<i64>{4097}, 2, {es[0], es[2], es[4]});
        if (T) addHistories(h, {40}, 5, {es[0], es[2], es[4]});
        // two rows, all patterns: the first row is the history of the second
        envs1 = es; envsRow = es;
        addTriples(h, {{2, 2, 2}, {3, 1, 2}, {2, 1, 3}});
        if (T) addTriples(h, {{2, 2, 3}, {3, 2, 2}});
    } else if (prop == "M05") {
        checks = CONTENT | WF;
        addSplits(h, T ? 8 : 5, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 64}, {0});
        addSplits(h, T ? 5 : 3, {2, 3, 4, 8}, {1, 2});
        addManyRows(h, {(1 << 17) - 1, 1 << 17, (1 << 17) + 5}, {1, 2, 7});
    } else if (prop == "M06") {
        checks = WF;
        addDegenerate(h);
        addTriples(h, {{2, 2, 2}, {1, 2, 3}, {1, 3, 3}, {2, 1, 3}, {2, 2, 3}});
        if (T) addTriples(h, {{3, 2, 2}, {1, 3, 4}});
        addRowShapes(h, widths, T ? 2 : 1);
        addRowShapes(h, widthsBig, 1);
        addLongA(h, {5, 17, 20, 65}, {40});
        addHistories(h, {20}, 3, {e1, e2});
        addSplits(h, 4, {1, 2, 3, 5}, {0});
        addWide(h, {257, 4097, 65537}); addDeep(h, {257, 1025});
        if (T) addManyRows(h, {1 << 17}, {3});
        addChains(h, 2);
        if (T) addChains(h, 3);
    } else if (prop == "M07") {
        checks = UNMOD | CONTENT;
        addDegenerate(h);
        addTriples(h, {{2, 2, 2}, {1, 2, 3}, {1, 3, 3}, {2, 1, 3}});
        if (T) addTriples(h, {{2, 2, 3}});
        addRowShapes(h, widths, T ? 2 : 1);
        addRowShapes(h, widthsBig, 1);
        addLongA(h, {5, 17, 65}, {40});
        addHistories(h, {20}, 3, {e1, e2});
        addSplits(h, 4, {1, 2, 3, 5}, {0});
        addAlias(h, T);
        addWide(h, {257, 65537}); addDeep(h, {257, 1025});
    } else if (prop == "M08") {
        checks = CALLS | CONTENT;
        std::vector<Env> es;
        for (int s = 0; s < NSEMI; ++s) { Env e; e.semi = s; e.fill = s & 1 ? 0xFF : 0; es.push_back(e); }
        envs1 = es; envsRow = es; envs1.push_back(e2);
        addTriples(h, {{1, 1, 1}, {2, 2, 2}, {1, 2, 3}, {2, 1, 2}, {1, 3, 2}});
        if (T) addTriples(h, {{1, 3, 3}, {2, 2, 3}, {2, 3, 2}});
        addRowShapes(h, widths, T ? 2 : 1);
        addRowShapes(h, {128, 257}, 1);
        addLongA(h, T ? std::vector<int>{3, 8, 17, 20, 65} : std::vector<int>{5, 17, 65}, {17, 40});
        addInnerKinds(h, T ? std::vector<int>{9, 20} : std::vector<int>{9});
        addHistories(h, {20}, T ? 3 : 2, es);
        addWide(h, {257}); addDeep(h, {257});
        addSplits(h, T ? 4 : 3, {1, 2, 3}, {0});
    } else if (prop == "M09") {
        checks = LEAK;
        addDegenerate(h);
        addTriples(h, {{2, 2, 2}, {1, 2, 3}, {2, 1, 2}, {1, 3, 3}});
        if (T) addTriples(h, {{2, 2, 3}, {3, 2, 2}, {1, 3, 4}});
        addRowShapes(h, widths, T ? 2 : 1);
        addRowShapes(h, widthsBig, 1);
        if (T) addRowShapes(h, {511, 512, 513, 1023, 1024, 1025}, 1);
        addLongA(h, T ? std::vector<int>{3, 4, 5, 7, 8, 9, 16, 17, 20, 33, 65, 130} : std::vector<int>{5, 17, 65}, {17, 40});
        // one array per column is not feasible: CSC operands
        if (!anyInner() && !strstr(A_[0].name, "CSC") && strncmp(A_[0].name, "Outer", 5)) addHuge(h, 2147483647, {0, 1, 15, 1 << 20, 2147483646});
        addInnerKinds(h, T ? std::vector<int>{9, 20} : std::vector<int>{20});
        addHistories(h, {20}, T ? 4 : 3, {e1, e2});
        addSplits(h, T ? 6 : 4, {0, 1, 2, 3, 9}, {0, 1});
        addWide(h, {257, 4097, 65537}); addDeep(h, {257, 1025});
    }
    return 0;
}
MCX_MAIN
