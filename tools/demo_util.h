// helpers of the demonstrations: matrices from row lists, dense reference
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <utility>
#include <vector>
#include <algorithm>
#include <functional>
#include "CSR.h"
#include "CSC.h"
typedef std::vector<std::vector<std::pair<int, long>>> Rows;
template<class IT, class NT> CSR<IT, NT> makeCSR(const Rows &r, int cols) {
    CSR<IT, NT> X; size_t n = 0; for (auto &x : r) n += x.size();
    X.rows = r.size(); X.cols = cols; X.nnz = n; X.zerobased = true;
    X.rowptr = my_malloc<IT>(r.size() + 1); X.colids = my_malloc<IT>(n); X.values = my_malloc<NT>(n);
    size_t k = 0;
    for (size_t i = 0; i < r.size(); ++i) { X.rowptr[i] = k; for (auto &e : r[i]) { X.colids[k] = e.first; X.values[k] = e.second; ++k; } }
    X.rowptr[r.size()] = k;
    return X;
}
template<class IT, class NT> CSC<IT, NT> toCSC(const CSR<IT, NT> &X) {
    std::vector<IT> ri, ci; std::vector<NT> v;
    for (IT i = 0; i < X.rows; ++i) for (IT k = X.rowptr[i]; k < X.rowptr[i + 1]; ++k) { ri.push_back(i); ci.push_back(X.colids[k]); v.push_back(X.values[k]); }
    return CSC<IT, NT>(ri.data(), ci.data(), v.data(), (IT) v.size(), X.rows, X.cols);
}
typedef std::map<std::pair<int, int>, long> Dense;
inline Dense product(const Rows &A, const Rows &B, const Rows &M, bool compl_) {
    Dense d;
    for (size_t i = 0; i < A.size(); ++i) for (auto &a : A[i]) for (auto &b : B[a.first]) {
        bool in = false; for (auto &m : M[i]) in |= m.first == b.first;
        if (in == compl_) continue;
        d[{(int) i, b.first}] += a.second * b.second;
    }
    return d;
}
template<class C> int compare(const C &X, const Dense &d, const char *what) {
    Dense g; long n = 0;
    for (long i = 0; i < (long) X.rows; ++i) for (long k = X.rowptr[i]; k < (long) X.rowptr[i + 1]; ++k) { g[{(int) i, (int) X.colids[k]}] = X.values[k]; ++n; }
    if (g == d && n == (long) d.size() && (long) X.nnz == n) return 0;
    printf("%s: WRONG result (%ld entries, expected %zu)\n", what, n, d.size());
    for (auto &e : g) if (!d.count(e.first) || d.at(e.first) != e.second) printf("  got (%d,%d)=%ld\n", e.first.first, e.first.second, e.second);
    for (auto &e : d) if (!g.count(e.first)) printf("  missing (%d,%d)=%ld\n", e.first.first, e.first.second, e.second);
    return 1;
}
