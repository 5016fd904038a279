// S19: the bundled sorting libraries, run on every sequence of several finite, structurally complete spaces.
#include <array>
#include <cstdint>
#include <deque>
#include <list>
#include <vector>
#include <cassert>
#include <memory>
#include <set>
#include <string>
#include <cstddef>
#include <cstring>
#include "cpp-TimSort/include/gfx/timsort.hpp"
#include "timsort-cpp/include/tim/timsort.h"
#include "pdqsort/pdqsort.h"
#ifdef MCX_OLD_VERGESORT
#include "vergesort/vergesort.h"
#else
#include "vergesort/include/vergesort/vergesort.h"
#endif
#include "radix_sort/radix_sort.hpp"
#include "utility.h"
#include "mc.h"
using namespace mcx;
typedef uint64_t u64; typedef int64_t i64;

// ---------------------------------------------------------------- element types
namespace el {           // not the global namespace: vergesort calls its own pdqsort unqualified
struct KV { int key, idx; bool operator<(const KV &o) const { return key < o.key; } };      // trivially copyable
static u64 deadReads, liveObjs;
struct Obj {                                     // owns something: a moved-from or lost object is noticed
    int key, idx; int *own;
    Obj() : key(0), idx(-1), own(nullptr) { ++liveObjs; }
    Obj(int k, int i) : key(k), idx(i), own(new int(k ^ 0x5bd1)) { ++liveObjs; }
    Obj(Obj &&o) noexcept : key(o.key), idx(o.idx), own(o.own) { o.own = nullptr; ++liveObjs; }
    Obj(const Obj &o) : key(o.key), idx(o.idx), own(o.own ? new int(*o.own) : nullptr) { ++liveObjs; }
    Obj &operator=(Obj &&o) noexcept { if (this != &o) { delete own; key = o.key; idx = o.idx; own = o.own; o.own = nullptr; } return *this; }
    Obj &operator=(const Obj &o) { if (this != &o) { delete own; key = o.key; idx = o.idx; own = o.own ? new int(*o.own) : nullptr; } return *this; }
    ~Obj() { delete own; --liveObjs; }
    bool good() const { return own && *own == (key ^ 0x5bd1); }
    bool operator<(const Obj &o) const { if (!good() || !o.good()) ++deadReads; return key < o.key; }
};
struct Big { i64 pad[9]; int key, idx; bool operator<(const Big &o) const { return key < o.key; } };     // more than 8 pointers
} using namespace el;
template<class E> struct Mk;
template<> struct Mk<int> { static int mk(int k, int) { return k; } static int key(const int &x) { return x; } static int idx(const int &) { return -1; } };
template<> struct Mk<KV> { static KV mk(int k, int i) { return {k, i}; } static int key(const KV &x) { return x.key; } static int idx(const KV &x) { return x.idx; } };
template<> struct Mk<Obj> { static Obj mk(int k, int i) { return Obj(k, i); } static int key(const Obj &x) { return x.good() ? x.key : INT_MIN; } static int idx(const Obj &x) { return x.good() ? x.idx : -2; } };
template<> struct Mk<Big> { static Big mk(int k, int i) { Big b; memset(&b, 0, sizeof b); b.pad[3] = k * 3; b.key = k; b.idx = i; return b; } static int key(const Big &x) { return x.pad[3] == x.key * 3ll ? x.key : INT_MIN; } static int idx(const Big &x) { return x.idx; } };

static const std::vector<int> *curKeys;
static std::string showKeys() {
    std::string s = fmt("%zu keys: ", curKeys ? curKeys->size() : 0);
    if (curKeys) for (size_t i = 0; i < curKeys->size() && i < 700; ++i) s += fmt(i ? ",%d" : "%d", (*curKeys)[i]);
    return s;
}
static u64 calls;
namespace el {
struct Less { template<class T> bool operator()(const T &a, const T &b) const { ++calls; return a < b; } };
struct Greater { template<class T> bool operator()(const T &a, const T &b) const { ++calls; return b < a; } };
}

// the expectation for `keys`: stable order of indices
static std::vector<int> expect, expectKeys;
static void prepare(const std::vector<int> &keys, bool desc) {
    expect.resize(keys.size());
    for (size_t i = 0; i < keys.size(); ++i) expect[i] = (int) i;
    std::stable_sort(expect.begin(), expect.end(), [&](int a, int b) { return desc ? keys[b] < keys[a] : keys[a] < keys[b]; });
    expectKeys.resize(keys.size());
    for (size_t i = 0; i < keys.size(); ++i) expectKeys[i] = keys[expect[i]];
}
template<class E, class It> void judge(It it, size_t n, bool stable) {
    static std::vector<char> seen; seen.assign(n, 0);
    for (size_t i = 0; i < n; ++i, ++it) {
        int k = Mk<E>::key(*it), x = Mk<E>::idx(*it);
        if (k != expectKeys[i]) { fail(std::string(curOp) + "/order", fmt("%s: position %zu holds %d, sorted order has %d", curOp, i, k, expectKeys[i])); return; }
        if (x == -1) continue;
        if (x < 0 || (size_t) x >= n || seen[x]) { fail(std::string(curOp) + "/permutation", fmt("%s: element %d appears twice or is damaged", curOp, x)); return; }
        seen[x] = 1;
        if ((*curKeys)[x] != k) { fail(std::string(curOp) + "/pair", fmt("%s: element %d lost its key", curOp, x)); return; }
        if (stable && x != expect[i]) { fail(std::string(curOp) + "/stability", fmt("%s: equal keys were reordered at position %zu (element %d, expected %d)", curOp, i, x, expect[i])); return; }
    }
    if (deadReads) { fail(std::string(curOp) + "/moved-from", fmt("%s: compared a moved-from or destroyed element", curOp)); deadReads = 0; }
}
// sorts a sub-range in the middle of an exactly sized heap block; elements around it must stay
template<class E, class F> void onArray(const char *name, const std::vector<int> &keys, bool stable, bool desc, F f) {
    curOp = name; size_t n = keys.size(); const size_t G = 3;
    prepare(keys, desc);
    u64 live0 = liveObjs;
    {
        std::vector<E> v; v.reserve(n + 2 * G);
        for (size_t i = 0; i < G; ++i) v.push_back(Mk<E>::mk(i & 1 ? 1000000 : -1000000, -7));
        for (size_t i = 0; i < n; ++i) v.push_back(Mk<E>::mk(keys[i], (int) i));
        for (size_t i = 0; i < G; ++i) v.push_back(Mk<E>::mk(i & 1 ? 1000001 : -1000001, -7));
        f(v.begin() + G, v.begin() + G + n);
        for (size_t i = 0; i < G; ++i)
            if (Mk<E>::key(v[i]) != (i & 1 ? 1000000 : -1000000) || Mk<E>::key(v[G + n + i]) != (i & 1 ? 1000001 : -1000001)) { fail(std::string(name) + "/outside", std::string(name) + ": an element outside the range was changed"); break; }
        judge<E>(v.begin() + G, n, stable);
    }
    if (liveObjs != live0) { fail(std::string(name) + "/lifetime", fmt("%s: %ld objects not destroyed", name, (long) (liveObjs - live0))); liveObjs = live0; }
    {
        E *p = new E[n];                          // red zones right at both ends
        for (size_t i = 0; i < n; ++i) p[i] = Mk<E>::mk(keys[i], (int) i);
        f(p, p + n);
        judge<E>(p, n, stable);
        delete[] p;
    }
    cnt.traces += 2; cnt.transitions += n;
}
template<class E, class C, class F> void onContainer(const char *name, const std::vector<int> &keys, bool stable, F f) {
    curOp = name; prepare(keys, false);
    C c;
    for (size_t i = 0; i < keys.size(); ++i) c.push_back(Mk<E>::mk(keys[i], (int) i));
    f(c.begin(), c.end());
    judge<E>(c.begin(), keys.size(), stable);
    ++cnt.traces; cnt.transitions += keys.size();
}

static void radixAll(const std::vector<int> &keys);
static bool light;
static void runSorts(const std::vector<int> &keys) {
    curKeys = &keys; describe = showKeys; ++cnt.states; tick();
#ifdef MCX_OLD_VERGESORT
    onArray<int>("vergesort(old) int", keys, false, false, [](auto a, auto b) { vergesort::vergesort(a, b); });
    onArray<KV>("vergesort(old) KV", keys, false, false, [](auto a, auto b) { vergesort::vergesort(a, b, Less()); });
    onArray<Obj>("vergesort(old) Obj desc", keys, false, true, [](auto a, auto b) { vergesort::vergesort(a, b, Greater()); });
    onContainer<KV, std::list<KV>>("vergesort(old) list", keys, false, [](auto a, auto b) { vergesort::vergesort(a, b, Less()); });
#else
    onArray<int>("gfx::timsort int", keys, true, false, [](auto a, auto b) { gfx::timsort(a, b); });
    onArray<KV>("gfx::timsort KV", keys, true, false, [](auto a, auto b) { gfx::timsort(a, b, Less()); });
    onArray<int>("tim::timsort int", keys, true, false, [](auto a, auto b) { tim::timsort(a, b); });
    onArray<KV>("tim::timsort KV", keys, true, false, [](auto a, auto b) { tim::timsort(a, b, Less()); });
    onArray<int>("pdqsort int (branchless)", keys, false, false, [](auto a, auto b) { pdqsort(a, b); });
    onArray<KV>("pdqsort KV", keys, false, false, [](auto a, auto b) { pdqsort(a, b, Less()); });
    onArray<KV>("vergesort KV", keys, false, false, [](auto a, auto b) { vergesort::vergesort(a, b, Less()); });
    if (!light) {
        onArray<KV>("gfx::timsort KV desc", keys, true, true, [](auto a, auto b) { gfx::timsort(a, b, Greater()); });
        onArray<Obj>("gfx::timsort Obj", keys, true, false, [](auto a, auto b) { gfx::timsort(a, b, Less()); });
        onArray<KV>("tim::timsort KV desc", keys, true, true, [](auto a, auto b) { tim::timsort(a, b, Greater()); });
        onArray<Obj>("tim::timsort Obj", keys, true, false, [](auto a, auto b) { tim::timsort(a, b, Less()); });
        onArray<Big>("tim::timsort Big", keys, true, false, [](auto a, auto b) { tim::timsort(a, b, Less()); });
        onContainer<KV, std::deque<KV>>("tim::timsort deque", keys, true, [](auto a, auto b) { tim::timsort(a, b, Less()); });
        onContainer<KV, std::deque<KV>>("gfx::timsort deque", keys, true, [](auto a, auto b) { gfx::timsort(a, b, Less()); });
        onArray<Obj>("pdqsort Obj", keys, false, false, [](auto a, auto b) { pdqsort(a, b, Less()); });
        onArray<KV>("pdqsort_branchless KV desc", keys, false, true, [](auto a, auto b) { pdqsort_branchless(a, b, Greater()); });
        onArray<int>("vergesort int", keys, false, false, [](auto a, auto b) { vergesort::vergesort(a, b); });
        onArray<Obj>("vergesort Obj desc", keys, false, true, [](auto a, auto b) { vergesort::vergesort(a, b, Greater()); });
    }
    onContainer<KV, std::list<KV>>("vergesort list", keys, false, [](auto a, auto b) { vergesort::vergesort(a, b, Less()); });
    radixAll(keys);
#endif
}

// ---------------------------------------------------------------- radix and counting sorts
template<class T, class U> bool sameBits(const T &a, const U &b) { return !(a < b) && !(b < a); }
template<class E, class F> void radixOn(const char *name, const std::vector<E> &in, F f) {
    curOp = name;
    size_t n = in.size();
    std::vector<E> want = in; std::sort(want.begin(), want.end());
    E *a = new E[n], *b = new E[n];
    std::copy(in.begin(), in.end(), a);
    E *r = f(a, a + n, b);
    for (size_t i = 0; i < n; ++i) if (!sameBits(r[i], want[i])) { fail(std::string(name) + "/order", fmt("%s: position %zu of %zu is wrong", name, i, n)); break; }
    delete[] a; delete[] b;
    ++cnt.traces; cnt.transitions += n;
}
template<class E> void radixType(const char *nr, const char *nl, const std::vector<E> &in) {
    radixOn(nr, in, [](E *a, E *b, E *o) { return radix_sort(a, b, o) ? o : a; });
    if (nl) radixOn(nl, in, [](E *a, E *b, E *o) { return linear_sort(a, b, o) ? o : a; });
}
static void radixAll(const std::vector<int> &keys) {
#ifndef MCX_OLD_VERGESORT
    static std::vector<KV> kv; kv.clear();
    for (size_t i = 0; i < keys.size(); ++i) kv.push_back({keys[i], (int) i});
    // key extraction: least-significant-digit passes keep equal keys in order
    curOp = "radix_sort by key"; prepare(keys, false);
    KV *a = new KV[kv.size()], *b = new KV[kv.size()];
    std::copy(kv.begin(), kv.end(), a);
    KV *r = radix_sort(a, a + kv.size(), b, [](const KV &x) { return x.key; }) ? b : a;
    judge<KV>(r, kv.size(), true);
    curOp = "linear_sort by key"; std::copy(kv.begin(), kv.end(), a);
    r = linear_sort(a, a + kv.size(), b, [](const KV &x) { return x.key; }) ? b : a;
    judge<KV>(r, kv.size(), false);
    delete[] a; delete[] b;
    cnt.traces += 2;
    // the repository's own key-value merge sort (utility.h)
    if (!keys.empty()) {
        curOp = "cpu_sorting_key_value";
        size_t n = keys.size();
        int *k = new int[n]; double *v = new double[n];
        for (size_t i = 0; i < n; ++i) { k[i] = keys[i]; v[i] = (double) i; }
        cpu_sorting_key_value(k, v, (int) n);
        std::vector<KV> out; for (size_t i = 0; i < n; ++i) out.push_back({k[i], (int) v[i]});
        judge<KV>(out.begin(), n, false);
        delete[] k; delete[] v; ++cnt.traces;
    }
#endif
}
#ifndef MCX_OLD_VERGESORT
template<class T> std::vector<T> special() {
    std::vector<u64> bits = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x00ff00ff00ff00ffull, 0x0100000000000001ull};
    std::vector<T> v;
    for (u64 b : bits) { T x; if (std::is_integral<T>::value) x = (T) b; else continue; if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); }
    if (!std::is_integral<T>::value) for (double d : {0.0, 1.0, -1.0, 1.5, -1.5, 1e-30, -1e-30, 1e30, -1e30, 255.0, 256.0, -256.0, 1e300, -1e300}) if ((double) (T) d == d || d < 1e31) v.push_back((T) d);
    if (!std::is_integral<T>::value) { v.push_back(std::numeric_limits<T>::infinity()); v.push_back(-std::numeric_limits<T>::infinity()); v.push_back(std::numeric_limits<T>::denorm_min()); v.push_back(std::numeric_limits<T>::max()); v.push_back(std::numeric_limits<T>::lowest()); }
    return v;
}
template<class T> void addRadix(Harness &h, const char *nr, const char *nl, int len) {
    auto v = std::make_shared<std::vector<T>>(special<T>());
    for (int L = 1; L <= len; ++L) {
        u64 c = 1; for (int i = 0; i < L; ++i) c *= v->size();
        h.add(fmt("%s, %d special values", nr, L), c, [v, nr, nl, L](u64 idx) {
            std::vector<T> in; std::string d;
            for (int i = 0; i < L; ++i) { in.push_back((*v)[idx % v->size()]); idx /= v->size(); }
            describe = [&] { std::string s; for (auto x : in) s += std::to_string(x) + " "; return s; };
            ++cnt.states;
            radixType<T>(nr, nl, in);
            describe = nullptr;
        });
    }
}
#endif

// ---------------------------------------------------------------- spaces of sequences
static void addWords(Harness &h, int letters, int len) {
    u64 c = 1; for (int i = 0; i < len; ++i) c *= letters;
    h.add(fmt("all words of length %d over %d keys", len, letters), (c + 255) / 256, [=](u64 idx) {
        for (u64 w = idx * 256; w < (idx + 1) * 256 && w < c; ++w) {
            std::vector<int> k; u64 x = w;
            for (int i = 0; i < len; ++i) { k.push_back((int) (x % letters)); x /= letters; }
            runSorts(k);
        }
    });
}
// sequences with few changes: all words a^i b^j c^k d^l over a small alphabet with block boundaries at given positions
static void addBlocks(Harness &h, int n, std::vector<int> cuts, int blocks, int letters) {
    auto C = std::make_shared<std::vector<int>>();
    for (int c : cuts) if (c > 0 && c < n && std::find(C->begin(), C->end(), c) == C->end()) C->push_back(c);
    std::sort(C->begin(), C->end());
    u64 nc = C->size(), c = 1; for (int i = 0; i + 1 < blocks; ++i) c *= nc;
    u64 nl = 1; for (int i = 0; i < blocks; ++i) nl *= letters;
    h.add(fmt("length %d in %d constant blocks", n, blocks), c, [=](u64 idx) {
        std::vector<int> pos; u64 x = idx;
        for (int i = 0; i + 1 < blocks; ++i) { pos.push_back((*C)[x % nc]); x /= nc; }
        if (!std::is_sorted(pos.begin(), pos.end()) || std::adjacent_find(pos.begin(), pos.end()) != pos.end()) return;
        pos.push_back(n);
        for (u64 l = 0; l < nl; ++l) {
            std::vector<int> k; u64 y = l; int p = 0, prev = -1; bool dup = false;
            for (int b = 0; b < blocks; ++b) { int v = (int) (y % letters); y /= letters; if (v == prev) dup = true; prev = v; for (; p < pos[b]; ++p) k.push_back(v); }
            if (!dup) runSorts(k);
        }
    });
}
// two sorted runs whose merge takes blocks (l1,r1,l2,r2,...) alternately from the left and the right
static void addMerges(Harness &h, int llen, int rlen, std::vector<int> sizes, int words, int prefix) {
    auto S = std::make_shared<std::vector<int>>(sizes);
    u64 c = 1; for (int i = 0; i < words; ++i) c *= sizes.size();
    h.add(fmt("merge patterns of runs %d+%d (after %d)", llen, rlen, prefix), c * 2, [=](u64 idx) {
        bool rightFirst = idx & 1; u64 x = idx / 2;
        std::vector<int> w; for (int i = 0; i < words; ++i) { w.push_back((*S)[x % S->size()]); x /= S->size(); }
        for (int eq = 0; eq < 2; ++eq) {        // blocks with distinct keys / with equal keys inside and across a block boundary
            std::vector<int> L, R; int v = 0; bool right = rightFirst;
            for (size_t i = 0; (int) L.size() < llen || (int) R.size() < rlen; ++i) {
                int b = w[i % words];
                auto &t = right ? R : L; int lim = right ? rlen : llen;
                for (int q = 0; q < b && (int) t.size() < lim; ++q) { t.push_back(v); if (!eq || q % 3 == 2) ++v; }
                if (!eq) ++v;
                right = !right;
                if (i > 5000) break;
            }
            std::vector<int> k;
            for (int i = 0; i < prefix; ++i) k.push_back(i * 2);
            k.insert(k.end(), L.begin(), L.end());
            k.insert(k.end(), R.begin(), R.end());
            // descending second run gets reversed first (distinct keys only)
            runSorts(k);
            if (!eq) { std::vector<int> d(k.begin(), k.begin() + prefix + llen); d.insert(d.end(), R.rbegin(), R.rend()); runSorts(d); }
        }
    });
}
// natural runs of given lengths: exercises the run stack (all words of run lengths), each run spread over the key range
static void addRunStacks(Harness &h, std::vector<int> lens, int words) {
    auto S = std::make_shared<std::vector<int>>(lens);
    for (int W = 1; W <= words; ++W) {
        u64 c = 1; for (int i = 0; i < W; ++i) c *= lens.size();
        h.add(fmt("%d natural runs", W), c, [=](u64 idx) {
            u64 x = idx; std::vector<int> w; for (int i = 0; i < W; ++i) { w.push_back((*S)[x % S->size()]); x /= S->size(); }
            for (int kind = 0; kind < 3; ++kind) {
                std::vector<int> k;
                for (int r = 0; r < W; ++r) for (int i = 0; i < w[r]; ++i)
                    k.push_back(kind == 0 ? i * 7 + (r * 3) % 5                       // all runs overlap
                              : kind == 1 ? (W - r) * 10000 + i                       // each run below its predecessor
                              : (r % 2 ? 20000 - i * 3 - r : i * 5 + r));             // ascending and descending runs
                light = k.size() > 600;
                runSorts(k);
                light = false;
            }
        });
    }
}
static std::vector<int> tile(int shape, int len, int range) {
    std::vector<int> v; int lo = range == 0 ? 0 : range == 1 ? 1000 : 0, m = range == 2 ? 29 : 1;
    for (int i = 0; i < len; ++i) {
        int x = 0;
        switch (shape) {
            case 0: x = i; break;                                   // ascending
            case 1: x = len - i; break;                             // descending
            case 2: x = 3; break;                                   // constant
            case 3: x = i % 2 ? len - i : i; break;                 // zig-zag
            case 4: x = i < len / 2 ? i : len - i; break;           // organ pipe
            case 5: x = (i * 7 + 3) % (len | 1); break;             // scattered
            case 6: x = i % 4; break;                               // few keys
            case 7: x = i == len - 1 ? -1 : i; break;               // sorted but the last
        }
        v.push_back(lo + x * m);
    }
    return v;
}
static void addTiles(Harness &h, std::vector<int> lens, int words) {
    auto S = std::make_shared<std::vector<int>>(lens);
    u64 al = 8 * 3 * lens.size();
    for (int W = 1; W <= words; ++W) {
        u64 c = 1; for (int i = 0; i < W; ++i) c *= al;
        h.add(fmt("%d tiles", W), (c + 63) / 64, [=](u64 idx) {
            for (u64 t = idx * 64; t < (idx + 1) * 64 && t < c; ++t) {
                std::vector<int> k; u64 x = t;
                for (int i = 0; i < W; ++i) { u64 e = x % al; x /= al; auto v = tile((int) (e % 8), (*S)[e / 24], (int) (e / 8 % 3)); k.insert(k.end(), v.begin(), v.end()); }
                light = W > 2;
                runSorts(k);
                light = false;
            }
        });
    }
}
// one element of a sorted / reversed / constant sequence moved from p to q
static void addDisplaced(Harness &h, int n, int step) {
    h.add(fmt("length %d, one element moved", n), n / step + 1, [=](u64 idx) {
        for (int q = 0; q < n; q += step) for (int base = 0; base < 2; ++base) {
            std::vector<int> k; for (int i = 0; i < n; ++i) k.push_back(base ? n - i : i);
            int p = std::min<int>(n - 1, (int) idx * step); int v = k[p];
            k.erase(k.begin() + p); k.insert(k.begin() + std::min(q, n - 1), v);
            light = true; runSorts(k); light = false;
        }
    });
}
// McIlroy's adversary: the comparator fixes the keys lazily so that quicksort's partitions get as bad as possible
namespace el {
struct Adv { std::vector<int> val; int solid = 0, cand = 0, gas; };
static Adv *adv;
struct AE { int i; };
struct AdvLess { bool operator()(const AE &a, const AE &b) const {
    int x = a.i, y = b.i;
    if (adv->val[x] == adv->gas && adv->val[y] == adv->gas) { if (x == adv->cand) adv->val[x] = adv->solid++; else adv->val[y] = adv->solid++; }
    if (adv->val[x] == adv->gas) adv->cand = x; else if (adv->val[y] == adv->gas) adv->cand = y;
    return adv->val[x] < adv->val[y];
} };
}
static void addAdversary(Harness &h, int maxN) {
    h.add("adversarial comparator", maxN, [](u64 idx) {
        int n = (int) idx + 2;
#ifdef MCX_OLD_VERGESORT
        const int first = 2;
#else
        const int first = 0;
#endif
        for (int which = first; which < 3; ++which) {
            Adv a; a.gas = n * 4; a.val.assign(n, a.gas); adv = &a;
            std::vector<AE> v; for (int i = 0; i < n; ++i) v.push_back({i});
            curOp = which == 0 ? "pdqsort adversary" : which == 1 ? "pdqsort_branchless adversary" : "vergesort adversary";
            describe = [&] { return fmt("%d elements", n); };
            ++cnt.states; ++cnt.traces;
#ifndef MCX_OLD_VERGESORT
            if (which == 0) pdqsort(v.begin(), v.end(), AdvLess()); else if (which == 1) pdqsort_branchless(v.begin(), v.end(), AdvLess()); else
#endif
            vergesort::vergesort(v.begin(), v.end(), AdvLess());
            for (int i = 0; i + 1 < n; ++i) if (AdvLess()(v[i + 1], v[i])) { fail(std::string(curOp) + "/order", fmt("not sorted with an adversarial comparator, n=%d", n)); break; }
            std::vector<char> seen(n, 0); for (auto &e : v) { if (seen[e.i]) fail(std::string(curOp) + "/permutation", "element duplicated"); seen[e.i] = 1; }
            // the fixed key sequence is a killer sequence for all sorts
            std::vector<int> k = a.val; describe = nullptr;
            runSorts(k);
        }
    });
}
namespace mcx {
int setup(Harness &h) {
    const bool T = thorough;
    for (int L = 0; L <= (T ? 8 : 6); ++L) addWords(h, std::max(1, L), L);
    for (int L = 7; L <= (T ? 16 : 13); ++L) addWords(h, 2, L);
    for (int L = 7; L <= (T ? 10 : 8); ++L) addWords(h, 3, L);
    auto around = [](std::initializer_list<int> l) { std::vector<int> v; for (int x : l) for (int d = -1; d <= 1; ++d) v.push_back(x + d); return v; };
    std::vector<int> lens = {23, 24, 25, 31, 32, 33, 63, 64, 65, 79, 80, 81, 128, 129, 130, 200, 300};
    for (int n : lens) addBlocks(h, n, around({1, n / 8, n / 4, n / 2, 3 * n / 4, n - 2, 8, 24, 64}), T ? 4 : 3, 3);
    addBlocks(h, 400, around({1, 64, 128, 200, 300, 398}), 4, 3);
    std::vector<int> bs = {1, 2, 6, 7, 8, 15, 16, 40};
    for (auto lr : std::vector<std::pair<int, int>>{{32, 32}, {64, 64}, {100, 70}, {70, 100}, {200, 90}, {16, 60}, {300, 33}}) {
        addMerges(h, lr.first, lr.second, bs, T ? 4 : 3, 0);
        addMerges(h, lr.first, lr.second, {1, 7, 8, 30}, 4, 80);
    }
    addRunStacks(h, T ? std::vector<int>{16, 33, 40, 64, 65, 90, 128, 200} : std::vector<int>{33, 64, 70, 130, 210}, T ? 6 : 5);
    addTiles(h, T ? std::vector<int>{5, 17, 40, 90} : std::vector<int>{5, 24, 65}, T ? 3 : 2);
    if (!T) addTiles(h, {30}, 3);
    addDisplaced(h, 25, 1); addDisplaced(h, 33, 1); addDisplaced(h, 81, T ? 1 : 3); addDisplaced(h, 130, T ? 2 : 7); addDisplaced(h, 300, T ? 5 : 20);
    addAdversary(h, T ? 1200 : 400);
#ifndef MCX_OLD_VERGESORT
    addRadix<uint8_t>(h, "radix_sort u8", "linear_sort u8", 4);
    addRadix<int8_t>(h, "radix_sort i8", "linear_sort i8", 4);
    // plain char is ordered by its bytes (as memcmp does), which is no operator<: not compared
    addRadix<uint16_t>(h, "radix_sort u16", "linear_sort u16", 4);
    addRadix<int16_t>(h, "radix_sort i16", "linear_sort i16", 4);
    addRadix<uint32_t>(h, "radix_sort u32", "linear_sort u32", 3);
    addRadix<int32_t>(h, "radix_sort i32", "linear_sort i32", 3);
    addRadix<uint64_t>(h, "radix_sort u64", "linear_sort u64", T ? 4 : 3);
    addRadix<int64_t>(h, "radix_sort i64", "linear_sort i64", 3);
    addRadix<long long>(h, "radix_sort ll", nullptr, 2);
    addRadix<float>(h, "radix_sort float", "linear_sort float", 3);
    addRadix<double>(h, "radix_sort double", "linear_sort double", 3);
    addRadix<bool>(h, "radix_sort bool", nullptr, 2);
    // compound keys
    h.add("radix_sort compound keys", 4096, [](u64 idx) {
        static const int vals[4] = {-70000, 0, 3, 255}; static const uint8_t small[4] = {0, 1, 128, 255};
        std::vector<std::pair<int, uint8_t>> p; std::vector<std::tuple<uint8_t, int16_t, uint64_t>> t; std::vector<std::array<uint16_t, 3>> a;
        u64 x = idx;
        for (int i = 0; i < 3; ++i) { int u = x & 3, v = x >> 2 & 3; x >>= 4; p.push_back({vals[u], small[v]}); t.push_back({small[v], (int16_t) vals[u], (u64) vals[(u + v) & 3]}); a.push_back({(uint16_t) vals[u], (uint16_t) small[v], (uint16_t) (u * 300)}); }
        describe = [=] { return fmt("case %lu", idx); };
        ++cnt.states;
        radixOn("radix_sort pair", p, [](auto *x, auto *y, auto *o) { return radix_sort(x, y, o) ? o : x; });
        radixOn("radix_sort tuple", t, [](auto *x, auto *y, auto *o) { return radix_sort(x, y, o) ? o : x; });
        radixOn("radix_sort array", a, [](auto *x, auto *y, auto *o) { return radix_sort(x, y, o) ? o : x; });
        describe = nullptr;
    });
    // every parity of passes in front of and behind each component (which buffer the result is in)
    h.add("radix_sort component parities", 4096, [](u64 idx) {
        static const uint8_t s8[4] = {0, 1, 128, 255}; static const int16_t s16[4] = {-32768, -1, 0, 300};
        u64 x = idx; uint8_t p[3], q[3]; int16_t w[3]; bool b[3];
        for (int i = 0; i < 3; ++i) { p[i] = s8[x & 3]; q[i] = s8[x >> 2 & 3]; w[i] = s16[(x + (x >> 2)) & 3]; b[i] = x >> 1 & 1; x >>= 4; }
        describe = [=] { return fmt("case %lu", idx); };
        ++cnt.states;
        auto go = [&](const char *name, auto mk) {
            typedef decltype(mk(0)) E; std::vector<E> v; for (int i = 0; i < 3; ++i) v.push_back(mk(i));
            radixOn(name, v, [](auto *a, auto *e, auto *o) { return radix_sort(a, e, o) ? o : a; });
            // the key handed out by reference instead of by value
            static std::set<std::string> names;
            radixOn(names.insert(std::string(name) + ", key by reference").first->c_str(), v, [](auto *a, auto *e, auto *o) { return radix_sort(a, e, o, [](const auto &y) -> const auto & { return y; }) ? o : a; });
        };
        go("radix_sort pair(8,8)", [&](int i) { return std::pair<uint8_t, uint8_t>(p[i], q[i]); });
        go("radix_sort pair(8,16)", [&](int i) { return std::pair<uint8_t, int16_t>(p[i], w[i]); });
        go("radix_sort pair(16,8)", [&](int i) { return std::pair<int16_t, uint8_t>(w[i], q[i]); });
        go("radix_sort pair(8,pair(8,8))", [&](int i) { return std::pair<uint8_t, std::pair<uint8_t, uint8_t>>(p[i], {q[i], (uint8_t) w[i]}); });
        go("radix_sort pair(pair(8,16),8)", [&](int i) { return std::pair<std::pair<uint8_t, int16_t>, uint8_t>({p[i], w[i]}, q[i]); });
        go("radix_sort pair(bool,8)", [&](int i) { return std::pair<bool, uint8_t>(b[i], q[i]); });
        go("radix_sort pair(8,bool)", [&](int i) { return std::pair<uint8_t, bool>(p[i], b[i]); });
        go("radix_sort tuple(bool,16,bool)", [&](int i) { return std::tuple<bool, int16_t, bool>(b[i], w[i], q[i] & 1); });
        go("radix_sort tuple(8)", [&](int i) { return std::tuple<uint8_t>(p[i]); });
        go("radix_sort tuple(8,8)", [&](int i) { return std::tuple<uint8_t, uint8_t>(p[i], q[i]); });
        go("radix_sort tuple(8,16,8)", [&](int i) { return std::tuple<uint8_t, int16_t, uint8_t>(p[i], w[i], q[i]); });
        go("radix_sort tuple(8,8,8)", [&](int i) { return std::tuple<uint8_t, uint8_t, uint8_t>(p[i], (uint8_t) w[i], q[i]); });
        go("radix_sort array(8)*1", [&](int i) { return std::array<uint8_t, 1>{p[i]}; });
        go("radix_sort array(8)*2", [&](int i) { return std::array<uint8_t, 2>{p[i], q[i]}; });
        go("radix_sort array(8)*3", [&](int i) { return std::array<uint8_t, 3>{p[i], (uint8_t) w[i], q[i]}; });
        go("radix_sort array(array(8)*3)*2", [&](int i) { return std::array<std::array<uint8_t, 3>, 2>{{{p[i], q[i], p[i]}, {q[i], (uint8_t) w[i], p[i]}}}; });
        describe = nullptr;
    });
    // digit counters change width at 2^8 and 2^16 elements
    h.add("radix_sort lengths", 10 * 6, [](u64 idx) {
        static const size_t ns[10] = {0, 1, 255, 256, 257, 511, 513, 65535, 65536, 65537};
        size_t n = ns[idx / 6]; int kind = idx % 6;
        std::vector<uint32_t> v(n); std::vector<uint8_t> w(n); std::vector<int64_t> z(n);
        for (size_t i = 0; i < n; ++i) {
            u64 x = kind == 0 ? 7 : kind == 1 ? i : kind == 2 ? n - i : kind == 3 ? (i == n - 1 ? 0 : 254) : kind == 4 ? (i * 40503u) : (i % 2 ? 0xfffffffeull : 1);
            v[i] = (uint32_t) x; w[i] = (uint8_t) x; z[i] = (int64_t) (x * 0x100000001ull) * (i % 3 ? 1 : -1);
        }
        describe = [=] { return fmt("length %zu, kind %d", n, kind); };
        ++cnt.states;
        radixType<uint32_t>("radix_sort u32", "linear_sort u32", v);
        radixType<uint8_t>("radix_sort u8", "linear_sort u8", w);
        radixType<int64_t>("radix_sort i64", "linear_sort i64", z);
        std::vector<uint16_t> s(v.begin(), v.end()); std::vector<int16_t> ss(z.begin(), z.end()); std::vector<std::pair<uint8_t, uint16_t>> pp;
        for (size_t i = 0; i < n; ++i) pp.push_back({w[i], (uint16_t) (v[i] >> 3)});
        radixType<uint16_t>("radix_sort u16", "linear_sort u16", s);
        radixType<int16_t>("radix_sort i16", "linear_sort i16", ss);
        radixOn("radix_sort pair", pp, [](auto *x, auto *y, auto *o) { return radix_sort(x, y, o) ? o : x; });
        radixOn("counting_sort u8", w, [](uint8_t *a, uint8_t *b, uint8_t *o) { counting_sort(a, b, o); return o; });
        radixOn("counting_sort by key", w, [](uint8_t *a, uint8_t *b, uint8_t *o) { counting_sort(a, b, o, [](uint8_t x) { return x; }); return o; });
        describe = nullptr;
    });
#endif
    return 0;
}
}
MCX_MAIN
