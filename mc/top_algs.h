// The top-level kernels (hash, SPA, heap, inner, outer, adaptive) behind the interface of alg.h.
// Several of the headers exclude each other, so MCX_GROUPS selects what one binary contains.
#pragma once
#include <typeinfo>
#include <numeric>
#include <cstring>
#if MCX_GROUPS & 1024
#include "CSR.h"
#include "CSC.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-poly.h"
#endif
#include "alg.h"
#if MCX_GROUPS & 32
#include "hash_mult_hw.h"
#include "inner_mult.h"
#include "mask_hash_mult.h"
#include "spa_mult.h"
#endif
#if MCX_GROUPS & 64
#include "HeapEntry.h"
#include "heap_mult_generic.h"
#endif
#if MCX_GROUPS & 128
#include "HeapEntry.h"
#include "heap_mult.h"
#endif
#if MCX_GROUPS & 256
#include "outer_mult.h"
#endif
#if MCX_GROUPS & 512
#include "outer_mult2.h"
#endif

namespace mcx {
#define MCX_SIG const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C, const CSR<IT, NT> &M, Mul<NT> mul, Add<NT> add, unsigned t
template<class IT, class NT> void toCSC(const CSR<IT, NT> &X, CSC<IT, NT> &Y) {
    Y.rows = X.rows; Y.cols = X.cols; Y.nnz = X.nnz;
    Y.colptr = my_malloc<IT>(X.cols + 1, false); Y.rowids = my_malloc<IT>(X.nnz, false); Y.values = my_malloc<NT>(X.nnz, false);
    std::vector<i64> n(X.cols + 1, 0);
    for (i64 k = 0; k < (i64) X.nnz; ++k) ++n[X.colids[k] + 1];
    for (i64 j = 0; j < (i64) X.cols; ++j) n[j + 1] += n[j];
    for (i64 j = 0; j <= (i64) X.cols; ++j) Y.colptr[j] = (IT) n[j];
    for (i64 i = 0; i < (i64) X.rows; ++i) for (i64 k = X.rowptr[i]; k < (i64) X.rowptr[i + 1]; ++k) { i64 d = n[X.colids[k]]++; Y.rowids[d] = (IT) i; Y.values[d] = X.values[k]; }
}
// CSC result: checked here, then handed over in the CSR object the caller knows
template<class IT, class NT> void fromCSC(const CSC<IT, NT> &X, CSR<IT, NT> &Y) {
    auto f = [&](const std::string &m) { if (extra.ok) extra = bad("csc", m); };
    bool good = true;
    if (X.colptr[0] != 0) { f("colptr[0] is not 0"); good = false; }
    for (i64 j = 0; good && j < (i64) X.cols; ++j) {
        if ((i64) X.colptr[j + 1] < (i64) X.colptr[j] || (i64) X.colptr[j + 1] > (i64) X.nnz) { f("colptr decreases"); good = false; break; }
        for (i64 k = X.colptr[j]; k < (i64) X.colptr[j + 1]; ++k) {
            if ((i64) X.rowids[k] < 0 || (i64) X.rowids[k] >= (i64) X.rows) { f("row index out of range"); good = false; }
            if (k > (i64) X.colptr[j] && (i64) X.rowids[k] <= (i64) X.rowids[k - 1]) { f("column not in increasing row order"); good = false; }
        }
    }
    if (good && (i64) X.colptr[X.cols] != (i64) X.nnz) { f("colptr[cols] is not nnz"); good = false; }
    i64 nz = good ? (i64) X.nnz : 0;
    Y.rows = X.rows; Y.cols = X.cols; Y.nnz = (IT) nz; Y.zerobased = true;
    Y.rowptr = my_malloc<IT>(X.rows + 1, false); Y.colids = my_malloc<IT>(nz, false); Y.values = my_malloc<NT>(nz, false);
    std::vector<i64> n(X.rows + 1, 0);
    for (i64 k = 0; k < nz; ++k) ++n[X.rowids[k] + 1];
    for (i64 i = 0; i < (i64) X.rows; ++i) n[i + 1] += n[i];
    for (i64 i = 0; i <= (i64) X.rows; ++i) Y.rowptr[i] = (IT) n[i];
    if (good) for (i64 j = 0; j < (i64) X.cols; ++j) for (i64 k = X.colptr[j]; k < (i64) X.colptr[j + 1]; ++k) { i64 d = n[X.rowids[k]]++; Y.colids[d] = (IT) j; Y.values[d] = X.values[k]; }
}
// kernels that take the thread count from the environment
struct DefaultThreads { int old; DefaultThreads(unsigned t) : old(mc::omp.maxThreads) { if (t) mc::omp.maxThreads = (int) t; } ~DefaultThreads() { mc::omp.maxThreads = old; } };

template<class IT, class NT> std::vector<Alg<IT, NT>> algs(int) {
    std::vector<Alg<IT, NT>> v;
#define MCX_T(NAME, SORTED, NOMASK, ...) { Alg<IT, NT> a{NAME, MCX_GROUPS, false, 0, SORTED, false, +[](MCX_SIG) { __VA_ARGS__ }, nullptr}; a.nomask = NOMASK; v.push_back(a); }
#if MCX_GROUPS & 32
    MCX_T("mxm_hash_mask", false, false, mxm_hash_mask(A, B, C, M, mul, add, t);)
    MCX_T("mxm_hash_mask_wobin", false, false, mxm_hash_mask_wobin(A, B, C, M, mul, add, t);)
    MCX_T("MaskedSPASpGEMM", false, false, MaskedSPASpGEMM(A, B, C, M, mul, add, t);)
    v.push_back({"innerSpGEMM_nohash", 32, false, 0, true, true, nullptr, +[](const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C, const CSR<IT, NT> &M, Mul<NT> mul, Add<NT> add, unsigned t) { innerSpGEMM_nohash<false, true>(A, B, C, M, mul, add, t); }});
    MCX_T("HashSpGEMM sorted", true, true, HashSpGEMM<true>(A, B, C, mul, add, t);)
    MCX_T("HashSpGEMM unsorted", false, true, HashSpGEMM<false>(A, B, C, mul, add, t);)
#endif
#if MCX_GROUPS & 64
    MCX_T("HeapSpGEMM MaskedHeap_v0", true, false, HeapSpGEMM<rowAlg::MaskedHeap_v0>(A, B, C, M, mul, add, t);)
    MCX_T("HeapSpGEMM MaskedHeap_v1", true, false, HeapSpGEMM<rowAlg::MaskedHeap_v1>(A, B, C, M, mul, add, t);)
    MCX_T("HeapSpGEMM MaskedHeap_v2", true, false, HeapSpGEMM<rowAlg::MaskedHeap_v2>(A, B, C, M, mul, add, t);)
    MCX_T("HeapSpGEMM MCA_v1", true, false, HeapSpGEMM<rowAlg::MCA_v1>(A, B, C, M, mul, add, t);)
    MCX_T("HeapSpGEMM MCA_v2", true, false, HeapSpGEMM<rowAlg::MCA_v2>(A, B, C, M, mul, add, t);)
    MCX_T("HeapSpGEMM MCA_v3", true, false, HeapSpGEMM<rowAlg::MCA_v3>(A, B, C, M, mul, add, t);)
    MCX_T("HeapSpGEMM BasicHeap", true, true, HeapSpGEMM<rowAlg::BasicHeap>(A, B, C, mul, add, t);)
    MCX_T("HeapSpGEMM HeapLinear<0>", true, true, HeapSpGEMM<rowAlg::HeapLinear<0>>(A, B, C, mul, add, t);)
    MCX_T("HeapSpGEMM HeapLinear<2>", true, true, HeapSpGEMM<rowAlg::HeapLinear<2>>(A, B, C, mul, add, t);)
    MCX_T("HeapSpGEMM HeapLinear<8>", true, true, HeapSpGEMM<rowAlg::HeapLinear<8>>(A, B, C, mul, add, t);)
#endif
#if MCX_GROUPS & 128
    MCX_T("HeapSpGEMM CSC", true, true, DefaultThreads d(t); CSC<IT, NT> a, b, c; toCSC(A, a); toCSC(B, b); Snapshot<IT, NT> sa(a), sb(b);
        HeapSpGEMM(a, b, c, mul, add); std::string df = sa.diff(a); if (df.empty()) df = sb.diff(b); if (!df.empty()) extra = bad("modAB", df);
        if (C.rows > 0) drop(C); fromCSC(c, C); drop(a); drop(b); drop(c);)
#endif
#if MCX_GROUPS & 256
    // few small blocks and many large ones; blocks of 1 entry are flushed after every product
#define MCX_O(NAME, NB, NC) MCX_T(NAME, true, true, DefaultThreads d(t); CSC<IT, NT> a; toCSC(A, a); Snapshot<IT, NT> sa(a); OuterSpGEMM(a, B, C, NB, NC, 1); std::string df = sa.diff(a); if (!df.empty()) extra = bad("modA", df); drop(a); (void) mul; (void) add; (void) M;) v.back().plusTimes = true;
    MCX_O("OuterSpGEMM 1 blocker of 1", 1, 1)
    MCX_O("OuterSpGEMM 2 blockers of 3", 2, 3)
    MCX_O("OuterSpGEMM 16 blockers of 32", 16, 32)
#endif
#if MCX_GROUPS & 512
#define MCX_O(NAME, NB, NC) MCX_T(NAME, true, true, DefaultThreads d(t); CSC<IT, NT> a; toCSC(A, a); Snapshot<IT, NT> sa(a); OuterSpGEMM(a, B, C, NB, NC); std::string df = sa.diff(a); if (!df.empty()) extra = bad("modA", df); drop(a); (void) mul; (void) add; (void) M;) v.back().plusTimes = true;
    MCX_O("OuterSpGEMM2 1 blocker of 1", 1, 1)
    MCX_O("OuterSpGEMM2 3 blockers of 2", 3, 2)
    MCX_O("OuterSpGEMM2 16 blockers of 32", 16, 32)
#endif
#if MCX_GROUPS & 1024
    v.push_back({"adaptive MaskedSpGEMM1p", 1024, false, 1, true, false, +[](MCX_SIG) { MaskedSpGEMM1p<IT, NT>(A, B, C, M, mul, add, t); }, nullptr});
#endif
    return v;
}
} // namespace mcx
