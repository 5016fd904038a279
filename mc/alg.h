// One multiplication algorithm behind a run-time interface.
#pragma once
#include "CSR.h"
#include "CSC.h"
#include "mat.h"
namespace mcx {
template<class IT, class NT> struct Alg {
    const char *name;
    int group;
    bool compl_;
    int phase;
    bool sortedOut;
    bool inner;
    void (*f)(const CSR<IT, NT> &, const CSR<IT, NT> &, CSR<IT, NT> &, const CSR<IT, NT> &, Mul<NT>, Add<NT>, unsigned);
    void (*fi)(const CSR<IT, NT> &, const CSC<IT, NT> &, CSR<IT, NT> &, const CSR<IT, NT> &, Mul<NT>, Add<NT>, unsigned);
    bool nomask = false;        // full product
    bool plusTimes = false;     // the semiring is fixed
    bool squareA = false;       // only defined for square A
    bool top() const { return group >= 32 && group < 1024; }
    // one table element per column
    bool wide() const { return !strncmp(name, "MSA", 3) || strstr(name, "SPA") || strstr(name, "adaptive"); }
};
inline Verdict extra;           // complaint of a wrapper about its own result
}
