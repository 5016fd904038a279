// R23: the SPRNG random streams (GTgraph/sprng2.0-lite).  The library's C sources are compiled as they are; every
// sequence of operations runs in a process of its own (the library keeps state per process) and every stream is
// compared, draw by draw, with a reference that knows nothing of the other streams.
#include "mc.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <sys/wait.h>
using namespace mcx;
static std::map<void *, size_t> live;
static std::string printed;
static unsigned char fillByte = 0xA7;
static bool keepFreed = false;              // addresses of freed blocks are not given out again
extern "C" {
int getprime_32(int, int *, int);
int getprime_64(int, unsigned int *, int);
int get_seed_rng(int *);
int make_new_seed(void);
#define API(P) int *P##_init(int, int, int, int, int); int P##_int(int *); double P##_dbl(int *); float P##_flt(int *); int P##_spawn(int *, int, int ***); \
    int P##_pack(int *, char **); int *P##_unpack(char *); int P##_free(int *); int P##_print(int *);
API(plain) API(chk)
int *simple_init(int, int, int); int simple_int(void); double simple_dbl(void); float simple_flt(void); int simple_pack(char **); int *simple_unpack(char *); int simple_print(void);
FILE *rn_err = nullptr;
void *rn_malloc(size_t n) { void *p = malloc(n); memset(p, fillByte, n); live[p] = n; return p; }
void rn_free(void *p) {
    if (!p) return;
    auto i = live.find(p);
    if (i == live.end()) { fail(std::string(curOp) + "/free", "a block that is not allocated is freed"); return; }
    if (keepFreed) memset(p, 0xDD, i->second); else free(p);
    live.erase(i);
}
int rn_printf(const char *f, ...) { char b[512]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); printed += b; return n; }
}
enum { LFG, LCG, LCG64, CMRG, MLFG };
static const char *const TN[5] = {"LFG", "LCG", "LCG64", "CMRG", "MLFG"};
static const int NPARAM[5] = {11, 7, 3, 3, 11};
typedef uint64_t U;
static const int OFF32 = 779156, OFF64 = 146138719;

// ---------------------------------------------------------------- reference: prime addends (largest first)
static bool isPrime(U n) {
    static const std::vector<uint32_t> small = [] { std::vector<uint32_t> v; for (uint32_t x = 3; x < 55200; x += 2) { bool p = true; for (uint32_t q : v) { if (q * q > x) break; if (x % q == 0) { p = false; break; } } if (p) v.push_back(x); } return v; }();
    if (n < 4) return n > 1;
    if (n % 2 == 0) return false;
    for (U d : small) { if (d * d > n) break; if (n % d == 0) return false; }
    return true;
}
static U nthPrime(U top, int k) {
    static std::map<U, std::vector<U>> memo;
    auto &v = memo[top];
    U x = v.empty() ? top : v.back() - 2;
    while ((int) v.size() <= k) { if (isPrime(x)) v.push_back(x); x -= 2; }
    return v[k];
}
static const U TOP32 = 11863283, TOP64 = 3037000499ull;
// ---------------------------------------------------------------- reference streams
static double below1(double d) { return d < 1 ? d : 1 - 0x1p-53; }
static float below1(float d) { return d < 1 ? d : 1 - 0x1p-24f; }
struct Ref {
    int type, seed, param;
    Ref(int t, int s, int p) : type(t), seed(s & 0x7fffffff), param(p < 0 || p >= NPARAM[t] ? 0 : p) {}
    virtual ~Ref() {}
    virtual int i() = 0; virtual double d() = 0;
    virtual float f() { return below1((float) d()); }
    virtual std::vector<std::shared_ptr<Ref>> spawn(int n) = 0;
    virtual std::shared_ptr<Ref> copy() const = 0;
    virtual long number() const = 0;
};
typedef std::shared_ptr<Ref> R;
struct RefLcg : Ref {                       // 48 bits, prime addend
    long pos, next; U s, a, c;
    RefLcg(int seed, int param, long pos_, long next_) : Ref(LCG, seed, param), pos(pos_), next(next_) {
        static const U M[7] = {0x2875a2e7b175, 0x5deece66d, 0x3eac44605265, 0x275b38eb4bbd, 0x1ee1429cc9f5, 0x739a9cb08605, 0x3228d7cc25f5};
        if (pos > OFF32) pos %= OFF32;
        s = 0x2bc68cfe166d ^ (U) this->seed << 16; a = M[this->param]; c = nthPrime(TOP32, pos);
        for (long k = 0; k < 29 * pos; ++k) step();
    }
    void step() { s = (s * a + c) & 0xffffffffffff; }
    int i() override { step(); return s >> 17; }
    double d() override { step(); return s * 0x1p-48; }
    std::vector<R> spawn(int n) override { std::vector<R> r; for (int k = 1; k <= n; ++k) r.push_back(std::make_shared<RefLcg>(seed, param, pos + next * k, next * (n + 1))); next *= n + 1; return r; }
    R copy() const override { return std::make_shared<RefLcg>(*this); }
    long number() const override { return pos; }
};
static const U A64[3] = {0x27bb2ee687b0b0fdull, 0x2c6fe96ee78b6955ull, 0x369dea0f31a53f85ull};
struct Ref64 : Ref {                        // 64 bits, prime addend; CMRG adds a second recurrence
    long pos, next; U s, a, c, z[5] = {1, 1, 1, 1, 1};
    Ref64(int type, int seed, int param, long pos_, long next_) : Ref(type, seed, param), pos(pos_), next(next_) {
        s = 0x2bc6ffff8cfe166dull ^ ((U) this->seed << 33 | pos); a = A64[this->param]; c = nthPrime(TOP64, pos);
        for (long k = 0; k < 127 * pos; ++k) step();
    }
    U step() {
        s = s * a + c;
        if (type == LCG64) return s;
        U p = (107374182 * z[0] + 104480 * z[4]) % 2147483647;
        for (int k = 4; k; --k) z[k] = z[k - 1];
        z[0] = p;
        return s + (p << 32);
    }
    int i() override { return step() >> 33; }
    double d() override { return below1(step() * 0x1p-64); }
    std::vector<R> spawn(int n) override { std::vector<R> r; for (int k = 1; k <= n; ++k) r.push_back(std::make_shared<Ref64>(type, seed, param, pos + next * k, next * (n + 1))); next *= n + 1; return r; }
    R copy() const override { return std::make_shared<Ref64>(*this); }
    long number() const override { return pos; }
};
// lagged Fibonacci generators: a stream is filled from its node number, written in digits of B bits
struct Lag { int L, K, first; };
static const Lag LAGS[11] = {{17, 5, 10}, {31, 6, 2}, {55, 24, 11}, {63, 31, 14}, {127, 97, 21}, {521, 353, 100}, {521, 168, 83}, {607, 334, 166}, {607, 273, 105}, {1279, 418, 208}, {1279, 861, 233}};
static Lag lagOf(int type, int param) { return type == MLFG ? LAGS[param] : param == 0 ? LAGS[10] : LAGS[param - 1]; }
static void lfsr(uint32_t r[2]) {           // 64 steps of the register
    static const uint32_t M[4][2] = {{0xb0000000, 0x1b}, {0x60000000, 0x2d}, {0xc0000000, 0x5a}, {0x80000000, 0xaf}};
    auto par = [](uint32_t x) { return (U) __builtin_parity(x); };
    uint32_t n0 = 0, n1 = 0;
    for (int k = 0; k < 28; ++k) { n0 |= par(r[0] & 0x1bu << k) << k; n1 |= par(r[1] & 0x1bu << k) << k; }
    for (int k = 28; k < 32; ++k) {
        n0 |= (par(r[0] & 0x1bu << k) ^ par(r[1] & 0x1bu >> (32 - k))) << k;
        n1 |= (par(r[0] & M[k - 28][0]) ^ par(r[1] & M[k - 28][1])) << k;
    }
    r[0] = n0; r[1] = n1;
}
static std::vector<U> filling(const std::vector<U> &n, Lag g, uint32_t seed, int B, bool wide) {
    std::vector<U> r(g.L);
    uint32_t t[2]; U mask = (1ull << B) - 1;
    t[0] = (uint32_t) n[0] ^ seed; t[1] = wide ? n[0] >> 32 : t[0];
    if (!t[0]) t[0] = 0x372f05ac;
    lfsr(t); lfsr(t);
    r[0] = (n[0] & mask) << 1;
    // the published generator lets a negative low word fill the high one
    for (int k = 1; k < g.L - 1; ++k) { lfsr(t); U w = wide ? (U) t[1] << 32 | (U) (int64_t) (int32_t) t[0] : t[0]; r[k] = ((w ^ n[k]) & mask) << 1; }
    r[g.L - 1] = 0; r[g.first] |= 1;
    return r;
}
static void twice(std::vector<U> &n, int B) {
    U c = 0;
    for (auto &x : n) { U y = (x & ((1ull << (B - 1)) - 1)) << 1 | c; c = x >> (B - 1) & 1; x = y; }
}
struct RefLag : Ref {
    Lag g; std::vector<U> si, r0, r1; long t = 0, num = 0;
    int B() const { return type == LFG ? 31 : 61; }
    uint32_t fs() const { return (uint32_t) seed ^ 0x372f05ac; }
    static U pow3(U n) { U v = 1, b = 3; for (; n; n >>= 1, b *= b) if (n & 1) v *= b; return v; }
    RefLag(int type, int seed, int param) : Ref(type, seed, param), g(lagOf(type, this->param)) {}
    // LFG: the node at n has the children 2n (the stream itself) and 2n+1
    void place(std::vector<U> n) {
        num = n[0];
        if (type == MLFG) {
            r0 = filling(n, g, fs(), 61, true);
            for (int m = 0; m < g.L; ++m) { U v = pow3(r0[m]); r0[m] = m < 64 && (0x5a38ull >> m & 1) ? -v : v; }
            twice(n, 61); n[0]++;
        } else {
            twice(n, 31); r0 = filling(n, g, fs(), 31, false); n[0]++; r1 = filling(n, g, fs(), 31, false);
        }
        si = n;
    }
    void runup(bool far) { long k = far ? (long) g.L * (type == LFG ? 64 : 124) : 4l * g.L; for (; k > 0; --k) { step(); if (type == LFG) step(); } }
    void step() {                            // x_t = x_{t-L} (+|*) x_{t-K}; the filling is used from the end
        // positions: value of age a is at index (L-1 - (t mod L)) for LFG and MLFG alike
        int h = (int) (g.L - 1 - t % g.L), l = (h + g.K) % g.L;
        if (type == MLFG) r0[h] *= r0[l];
        else { r0[h] = (uint32_t) (r0[h] + r0[l]); r1[h] = (uint32_t) (r1[h] + r1[l]); }
        ++t;
    }
    uint32_t mix() const { int h = (int) (g.L - 1 - (t - 1) % g.L); return ((uint32_t) r1[h] & ~1u) ^ (uint32_t) r0[h] >> 1; }
    U last() const { return r0[g.L - 1 - (t - 1) % g.L]; }
    int i() override { step(); if (type == MLFG) return last() >> 33; uint32_t v = mix(); step(); return v >> 1; }
    double d() override { step(); if (type == MLFG) return (last() >> 12) * 0x1p-52; uint32_t v = mix(); step(); return below1((mix() * 0x1p-32 + v) * 0x1p-32); }
    float f() override { if (type == MLFG) return below1((float) d()); step(); uint32_t v = mix(); step(); return below1((float) (v * 0x1p-32)); }
    static R first(int type, int gen, int total, int seed, int param) {
        auto r = std::make_shared<RefLag>(type, seed, param);
        std::vector<U> n(r->g.L - 1); n[0] = gen;
        r->place(n); r->runup(r->deep());
        while (r->si[0] < (U) total) twice(r->si, r->B());
        r->num = gen;
        return r;
    }
    bool deep() const { for (size_t k = 1; k < si.size(); ++k) if (si[k]) return true; return false; }
    std::vector<R> spawn(int n) override {
        std::vector<std::shared_ptr<RefLag>> q;
        for (int k = 0; k < n; ++k) q.push_back(std::make_shared<RefLag>(type, seed, param));
        q[0]->place(si);
        // level by level: every stream placed so far hands its next node to a new one
        std::vector<int> order{0};
        int i = 1;
        while (i < n) {
            std::vector<int> next;
            int l = (int) order.size();
            for (int k = 0; k < l && i < n; ++k, ++i) {
                auto &p = *q[order[k]];
                q[i]->place(p.si);
                twice(p.si, B());
                next.push_back(order[k]); next.push_back(i);
            }
            order = next;
        }
        twice(si, B());
        int k = n - 1;
        for (; k >= 0 && q[k]->deep(); --k) q[k]->runup(true);
        for (; k >= 0; --k) q[k]->runup(false);
        return std::vector<R>(q.begin(), q.end());
    }
    R copy() const override { return std::make_shared<RefLag>(*this); }
    long number() const override { return (int) num; }
};
static R refInit(int type, int gen, int total, int seed, int param) {
    if (total <= 0) total = 1;
    if (gen < 0 || gen >= total || type < 0 || type > 4) return nullptr;
    if (type == LCG) return std::make_shared<RefLcg>(seed, param, gen, total);
    if (type == LCG64 || type == CMRG) return std::make_shared<Ref64>(type, seed, param, gen, total);
    return RefLag::first(type, gen, total, seed, param);
}

// ---------------------------------------------------------------- running one case in a process of its own
static std::string D;
static void isolated(const std::function<void()> &f) {
    int before = nfail;
    static uint64_t *made = (uint64_t *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    describe = [] { return D; };
    made[0] = made[1] = 0;
    uint64_t t0 = cnt.transitions;
    pid_t p = fork();
    if (p == 0) { nfail = 0; f(); made[0] = cnt.transitions - t0; made[1] = outcomes["largest"]; _exit(nfail ? 77 : 66); }
    int st = 0; waitpid(p, &st, 0);
    cnt.transitions += made[0]; if (made[1]) outcomes["streams brought to their largest value"] += made[1];
    if (WIFEXITED(st) && WEXITSTATUS(st) == 66) return;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 1)) { nfail = before + 1; if (nfail >= maxFail) { printCounters(); _exit(1); } return; }
    printCounters(); if (WIFSIGNALED(st)) emit("CRASH", std::string("crash:") + curOp, fmt("signal %d", WTERMSIG(st))); _exit(98);
}
static std::string op;
static void bad(const char *key, const std::string &m) { fail(op + "/" + key, m); }
struct S { int *g; R r; };
static bool draw(S &s, int kind) {
    ++cnt.transitions;
    const char *n = TN[s.r->type]; op = n;
    if (kind == 0) { int a = plain_int(s.g), b = s.r->i(); if (a != b) { bad("int", fmt("draws the integer %d instead of %d", a, b)); return false; } }
    if (kind == 1) { double a = plain_dbl(s.g), b = s.r->d(); if (a != b || !(a >= 0 && a < 1)) { bad("double", fmt("draws %.17g instead of %.17g", a, b)); return false; } }
    if (kind == 2) { float a = plain_flt(s.g), b = s.r->f(); if (a != b || !(a >= 0 && a < 1)) { bad("float", fmt("draws %.9g as a float instead of %.9g", a, b)); return false; } }
    return true;
}
static bool same(S &s, int n = 4) { for (int k = 0; k < n; ++k) if (!draw(s, k % 4 == 3 ? 0 : k % 4)) return false; return true; }
static S start(int type, int g, int total, int seed, int param) {
    ++cnt.transitions; op = TN[type];
    S s{plain_init(type, g, total, seed, param), refInit(type, g, total, seed, param)};
    if (!s.g != !s.r) bad("init", s.g ? "makes a stream of parameters that name none" : "refuses good parameters");
    return s;
}
static bool doSpawn(S &s, int n, std::vector<S> &to) {
    ++cnt.transitions; op = TN[s.r->type];
    int **ng = nullptr; int m = plain_spawn(s.g, n, &ng);
    int want = n <= 0 ? 1 : n;
    auto r = s.r->spawn(want);
    if (m != want) { bad("spawn", fmt("spawns %d streams instead of %d", m, want)); return false; }
    for (int k = 0; k < m; ++k) to.push_back({ng[k], r[k]});
    rn_free(ng);
    return true;
}
static bool repack(S &s) {
    ++cnt.transitions; op = TN[s.r->type];
    char *b = nullptr; int n = plain_pack(s.g, &b);
    auto i = live.find(b);
    if (!b || n <= 0 || n > 24000 || i == live.end() || i->second < (size_t) n) { bad("pack", fmt("packs into %d bytes", n)); return false; }
    // the bytes alone carry the stream
    std::vector<char> w(b, b + n); rn_free(b); plain_free(s.g);
    s.g = plain_unpack(w.data());
    if (!s.g) { bad("unpack", "refuses what it packed"); return false; }
    return true;
}
static bool told(S &s) {
    ++cnt.transitions; op = TN[s.r->type];
    int x = get_seed_rng(s.g); if (x != s.r->seed) { bad("seed", fmt("reports the seed %d instead of %d", x, s.r->seed)); return false; }
    printed.clear(); plain_print(s.g);
    std::string w = fmt("seed = %d, stream_number = %ld\tparameter = %d", s.r->seed, s.r->number(), s.r->param);
    if (printed.find(w) == std::string::npos) { bad("print", "prints \"" + printed + "\" instead of \"" + w + "\""); return false; }
    return true;
}
static void finish(std::vector<S> &v, bool drawAll = true) {
    if (drawAll) for (auto &s : v) if (!same(s, 5)) return;
    std::map<int, int> left; for (auto &s : v) left[s.r->type]++;
    for (auto &s : v) { int n = plain_free(s.g); op = TN[s.r->type]; if (n != --left[s.r->type]) { bad("count", fmt("says %d streams are left instead of %d", n, left[s.r->type])); return; } }
    size_t b = 0; for (auto &p : live) b += p.second;
    op = "SPRNG"; if (b) bad("leak", fmt("%zu bytes stay allocated after all streams are freed", b));
}

#include "rng_golden.h"

static void families(Harness &h) {
    // ------------------------------------------------ prime addends
    h.add("32-bit primes: table", 1, [](uint64_t) {
        describe = [] { return D; }; D = "every 1000th offset, the offsets around it, the first 2100 and the last 10"; curOp = "getprime_32";
        std::vector<char> comp(TOP32 / 2 + 1);
        for (U p = 3; p * p <= TOP32; p += 2) if (!comp[p / 2]) for (U m = p * p; m <= TOP32; m += 2 * p) comp[m / 2] = 1;
        std::vector<int> at; for (U x = TOP32; x > 3444; x -= 2) if (!comp[x / 2]) at.push_back((int) x);
        ++cnt.states; op = "getprime_32";
        auto one = [&](int k) { int p = -1; ++cnt.transitions; int n = getprime_32(1, &p, k); if (k < (int) at.size() ? n != 1 || p != at[k] : n != 0) { bad("prime", fmt("offset %d gives %d primes, %d, instead of %d", k, n, p, k < (int) at.size() ? at[k] : 0)); return false; } return true; };
        for (int k = 0; k < 2100; ++k) if (!one(k)) return;
        for (int j = 1999; j < OFF32; j += 1000) { tick(); for (int e : {-1, 0, 1}) if (j + e <= OFF32 && (e >= 0 || j % 20000 == 1999) && !one(j + e)) return; }
        for (int e = 0; e < 4; ++e) if (!one(OFF32 - e)) return;
        for (int need : {2, 3, 1000, 1001}) for (int k : {0, 1, 2, 900, 997, 998, 999, 1000, 1999}) {
            std::vector<int> r(need, -1); int n = getprime_32(need, r.data(), k); ++cnt.transitions;
            if (n != need || !std::equal(r.begin(), r.end(), at.begin() + k)) { bad("primes", fmt("%d primes from offset %d are wrong", need, k)); return; }
        }
        int x = -1; if (getprime_32(0, &x, 0) != 0 || getprime_32(1, &x, -1) != 0 || x != -1) bad("refuse", "an impossible request yields primes");
        ++cnt.traces;
    });
    // a segmented sieve counts the primes downwards
    h.add("64-bit primes: table", 1, [](uint64_t) {
        describe = [] { return D; }; D = "every 10000th offset (all 146 million primes are counted), the first 1100 and the last ones"; curOp = "getprime_64"; op = "getprime_64";
        std::vector<uint32_t> small; for (uint32_t x = 3; x <= 55109; x += 2) if (isPrime(x)) small.push_back(x);
        const U W = 1 << 20;                         // odd numbers per segment: top, top-2, ...
        std::vector<uint64_t> bits(W / 64); long k = 0; ++cnt.states;
        auto one = [&](int off, U want) { unsigned p = 1; ++cnt.transitions; int n = getprime_64(1, &p, off); if (n != 1 || p != want) { bad("prime", fmt("offset %d gives %u instead of %lu", off, p, want)); return false; } return true; };
        for (U top = TOP64;; top -= 2 * W) {
            tick();
            std::fill(bits.begin(), bits.end(), 0);
            for (U q : small) {
                if (q * q > top) break;
                U m = top / q * q; if (m % 2 == 0) m -= q;          // largest odd multiple <= top
                for (U d = (top - m) / 2; d < W; d += q) { if (top - 2 * d == q) break; bits[d / 64] |= 1ull << d % 64; }
            }
            bool last = top < 2 * W + 3;
            for (U w = 0; w < W / 64; ++w) {
                U z = ~bits[w];
                // positions that matter: (k - 999) % 10000 == 0, the first 1100, the last few
                int c = __builtin_popcountll(z);
                long a = k < 1100 ? 0 : (9999 - (k - 1000) % 10000);   // primes until the next interesting one
                if (a >= c && k + c < OFF64 - 2 && !last) { k += c; continue; }
                for (int b = 0; b < 64; ++b) if (z >> b & 1) {
                    U x = top - 2 * (w * 64 + b);
                    if (x < 55108 || x > top) { w = W; break; }
                    if (k < 1100 || (k - 999) % 10000 == 0 || (k >= OFF64 - 2 && k <= OFF64)) if (!one((int) k, x)) return;
                    ++k;
                }
                if (k > OFF64 + 5) break;
            }
            if (last || k > OFF64 + 5) break;
        }
        for (int need : {2, 3, 1000, 1001}) for (int o : {0, 1, 2, 900, 997, 998, 999, 1000}) {
            std::vector<unsigned> r(need, 1); int n = getprime_64(need, r.data(), o); ++cnt.transitions; bool ok = n == need;
            for (int j = 0; ok && j < need; ++j) ok = r[j] == nthPrime(TOP64, o + j);
            if (!ok) { bad("primes", fmt("%d primes from offset %d are wrong", need, o)); return; }
        }
        unsigned x = 1; if (getprime_64(0, &x, 0) != 0 || getprime_64(1, &x, -1) != 0 || x != 1) bad("refuse", "an impossible request yields primes");
        ++cnt.traces;
    });
    // ------------------------------------------------ published values
    h.add("published sequences", 5, [](uint64_t t) {
        D = fmt("%s, the published test sequence", TN[t]); curOp = TN[t]; op = TN[t]; ++cnt.states;
        isolated([t] {
            int *s = plain_init(t, 0, 1, 985456376, 0);
            const int *g = GI[t];
            for (int k = 0; k < 500; ++k) { int a = plain_int(s); ++cnt.transitions; if (a != g[k]) { bad("published", fmt("integer %d is %d instead of %d", k, a, g[k])); return; } }
            for (int k = 0; k < 500; ++k) { float a = plain_flt(s); ++cnt.transitions; if (std::fabs(a - GF[t][k]) > 1e-5) { bad("published", fmt("float %d is %g instead of %g", k, a, GF[t][k])); return; } }
            for (int k = 0; k < 500; ++k) { double a = plain_dbl(s); ++cnt.transitions; if (std::fabs(a - GD[t][k]) > 1e-13) { bad("published", fmt("double %d is %.14g instead of %.14g", k, a, GD[t][k])); return; } }
        });
        isolated([t] {
            int *s = plain_init(t, 7, 9, 985456376, 0), **ng; int n = plain_spawn(s, 5, &ng);
            if (n != 5) { bad("published", "does not spawn 5 streams"); return; }
            for (int k = 0; k < 100; ++k) { int a = plain_int(ng[1]); ++cnt.transitions; if (a != GI[t][500 + k]) { bad("published", fmt("integer %d of a spawned stream is %d instead of %d", k, a, GI[t][500 + k])); return; } }
        });
        ++cnt.traces;
    });
    // ------------------------------------------------ every stream by itself
    static const int SEEDS[6] = {0, 1, 985456376, 0x7fffffff, -1, 0x372f05ac};
    static const std::array<int, 2> GEN[10] = {{0, 1}, {0, 2}, {1, 2}, {0, 5}, {3, 5}, {4, 5}, {7, 8}, {8, 9}, {31, 64}, {999, 1002}};
    h.add("single streams", 11 * 5 * 6 * 10, [](uint64_t i) {
        int t = i % 5; i /= 5; int p = i % 11; i /= 11; int sd = SEEDS[i % 6]; auto gt = GEN[i / 6];
        if (p >= NPARAM[t]) return;
        if (!thorough && lagOf(LFG, p).L > 200 && (t == LFG || t == MLFG) && i / 6 % 3) return;
        D = fmt("%s, parameter %d, stream %d of %d, seed %d", TN[t], p, gt[0], gt[1], sd); curOp = TN[t]; ++cnt.states;
        isolated([=] {
            std::vector<S> v{start(t, gt[0], gt[1], sd, p)}; if (!v[0].g) return;
            if (!told(v[0]) || !same(v[0], 12)) return;
            S c = v[0]; (void) c;
            if (!repack(v[0]) || !told(v[0]) || !same(v[0], 3) || !doSpawn(v[0], 3, v)) return;
            if (!doSpawn(v[1], 2, v)) return;
            for (auto &s : v) if (!told(s)) return;
            finish(v);
        });
        ++cnt.traces;
    });
    h.add("primes beyond the table", 3 * 12, [](uint64_t i) {
        static const int G[12] = {998, 999, 1000, 1001, 1002, 1500, 1998, 1999, 2000, 2001, 2998, 3005};
        int t = LCG + (int) (i % 3), g = G[i / 3];
        D = fmt("%s, stream %d of 4000", TN[t], g); curOp = TN[t]; ++cnt.states;
        isolated([=] { std::vector<S> v{start(t, g, 4000, 12345, 0)}; if (v[0].g && same(v[0])) finish(v); });
        ++cnt.traces;
    });
    h.add("long runs", 5 * 11, [](uint64_t i) {
        int t = i % 5, p = i / 5; if (p >= NPARAM[t]) return;
        D = fmt("%s, parameter %d, 6000 draws of every kind", TN[t], p); curOp = TN[t]; ++cnt.states;
        isolated([=] { std::vector<S> v{start(t, 1, 3, 77, p)}; if (v[0].g && same(v[0], 24000)) finish(v); });
        ++cnt.traces;
    });
    // ------------------------------------------------ all short histories
    struct K { int t, g, n, s, p; };
    static const K KIND[9] = {{LFG, 0, 1, 5, 1}, {LFG, 1, 3, 6, 2}, {LCG, 0, 1, 5, 0}, {LCG, 2, 3, 6, 3}, {LCG64, 1, 2, 5, 1}, {CMRG, 0, 1, 5, 0}, {CMRG, 2, 4, 5, 2}, {MLFG, 0, 1, 5, 0}, {MLFG, 1, 2, 6, 1}};
    // operations: 9 inits; on each of the first three streams: int, double, float, spawn 1, spawn 2, pack+unpack, free
    static const int NOP = 9 + 3 * 7;
    auto runHistory = [](const std::vector<int> &ops) {
        std::vector<S> v;
        for (int o : ops) {
            if (o < 9) { auto &k = KIND[o]; v.push_back(start(k.t, k.g, k.n, k.s, k.p)); if (!v.back().g) return; continue; }
            S &s = v[(o - 9) / 7];
            switch ((o - 9) % 7) {
                case 0: case 1: case 2: if (!draw(s, (o - 9) % 7)) return; break;
                case 3: case 4: { std::vector<S> n; if (!doSpawn(s, (o - 9) % 7 - 2, n)) return; v.insert(v.end(), n.begin(), n.end()); break; }
                case 5: if (!repack(s)) return; break;
                case 6: plain_free(s.g); v.erase(v.begin() + (o - 9) / 7); break;
            }
        }
        for (auto &s : v) if (!told(s)) return;
        finish(v);
    };
    auto histories = [h_ = &h, runHistory](int len) {
        uint64_t n = 1; for (int k = 1; k < len; ++k) n *= NOP;
        h_->add(fmt("histories of length %d", len), n * 9, [len, runHistory](uint64_t i) {
            std::vector<int> ops{(int) (i % 9)}; i /= 9;
            for (int k = 1; k < len; ++k, i /= NOP) ops.push_back((int) (i % NOP));
            // keep the histories whose streams exist
            int alive = 0; D.clear();
            for (int o : ops) {
                if (o < 9) { ++alive; D += fmt("init %s param %d; ", TN[KIND[o].t], KIND[o].p); continue; }
                int x = (o - 9) / 7, w = (o - 9) % 7;
                if (x >= alive) return;
                static const char *const N[7] = {"int", "double", "float", "spawn 1", "spawn 2", "pack and unpack", "free"};
                D += fmt("%s of stream %d; ", N[w], x);
                if (w == 3 || w == 4) alive += w - 2;
                if (w == 6) --alive;
            }
            curOp = "SPRNG"; ++cnt.states;
            isolated([&] { runHistory(ops); });
            ++cnt.traces;
        });
    };
    for (int l = 1; l <= (thorough ? 4 : 3); ++l) histories(l);
    // ------------------------------------------------ pairs of streams with all parameters: neither disturbs the other
    h.add("two streams, all parameters", 35 * 35, [](uint64_t i) {
        auto pick = [](int x) { int t = 0; while (x >= NPARAM[t]) x -= NPARAM[t++]; return std::array<int, 2>{t, x}; };
        auto a = pick(i % 35), b = pick(i / 35);
        D = fmt("%s parameter %d, then %s parameter %d", TN[a[0]], a[1], TN[b[0]], b[1]); curOp = "SPRNG"; ++cnt.states;
        isolated([=] {
            std::vector<S> v{start(a[0], 0, 1, 11, a[1]), start(b[0], 1, 2, 12, b[1])}; if (!v[0].g || !v[1].g) return;
            if (!draw(v[1], 0) || !draw(v[0], 1) || !doSpawn(v[0], 1, v) || !doSpawn(v[1], 1, v) || !repack(v[2]) || !repack(v[1])) return;
            for (auto &s : v) if (!told(s)) return;
            finish(v);
        });
        ++cnt.traces;
    });
    // ------------------------------------------------ families of streams are disjoint
    h.add("disjoint families", 5 * 4 * 27, [](uint64_t i) {
        int t = i % 5; i /= 5; int tot = i % 4 + 1; i /= 4; int n1 = i % 3 + 1, n2 = i / 3 % 3 + 1, n3 = i / 9 + 1;
        D = fmt("%s, %d streams; each spawns %d, all spawn %d, all spawn %d", TN[t], tot, n1, n2, n3); curOp = TN[t]; ++cnt.states;
        if ((tot * (1 + n1) * (1 + n2) * (1 + n3)) > (thorough ? 256 : 130)) return;
        isolated([=] {
            std::vector<S> v;
            for (int g = 0; g < tot; ++g) { v.push_back(start(t, g, tot, 42, t == LFG || t == MLFG ? 1 : 0)); if (!v.back().g) return; }
            for (int n : {n1, n2, n3}) for (size_t k = v.size(); k-- > 0;) { S s = v[k]; if (!doSpawn(s, n, v)) return; v[k] = s; }
            std::map<std::vector<int>, size_t> seen;
            for (size_t k = 0; k < v.size(); ++k) {
                std::vector<int> w; for (int j = 0; j < 6; ++j) { w.push_back(plain_int(v[k].g)); v[k].r->i(); ++cnt.transitions; }
                if (!seen.emplace(w, k).second) { op = TN[t]; bad("disjoint", fmt("streams %zu and %zu are the same", seen[w], k)); return; }
            }
            finish(v);
        });
        ++cnt.traces;
    });
    // ------------------------------------------------ one stream spawns again and again
    h.add("deep spawning", 5 * 4 * 2, [](uint64_t i) {
        int t = i % 5; i /= 5; int per = std::array<int, 4>{1, 2, 3, 5}[i % 4]; bool down = i / 4;
        D = fmt("%s, a stream spawns %d, again and again; %s goes on", TN[t], per, down ? "the last one spawned" : "the same stream"); curOp = TN[t]; ++cnt.states;
        isolated([=] {
            std::vector<S> v{start(t, 0, 1, 9, t == LFG || t == MLFG ? 1 : 0)};
            if (!v[0].g) return;
            int rounds = t == LFG || t == MLFG ? (t == LFG ? 66 : 70) : per == 1 ? 10 : per == 2 ? 6 : 4;      // prime-addend streams start up in time linear in their number
            for (int k = 0; k < rounds; ++k) {
                std::vector<S> n; size_t from = down ? v.size() - 1 : 0;
                if (!doSpawn(v[from], per, n)) return;
                v.insert(v.end(), n.begin(), n.end());
                for (auto &s : n) if (!same(s, 2)) return;
                if (!same(v[from], 2)) return;
                if (v.size() > 60) { for (size_t j = v.size() - 1; j-- > 1;) plain_free(v[j].g), v.erase(v.begin() + j); }
            }
            if (!repack(v.back()) || !repack(v[0])) return;
            finish(v);
        });
        ++cnt.traces;
    });
    // ------------------------------------------------ impossible requests
    h.add("bad parameters", 5 * 7 * 5 * 5, [](uint64_t i) {
        static const int G[7] = {-1, 0, 1, 2, 3, (int) 0x80000000, 1000000}, N[5] = {-1, 0, 1, 2, (int) 0x80000000}, P[5] = {-1, 99, 11, 7, 3};
        int t = i % 5; i /= 5; int g = G[i % 7]; i /= 7; int n = N[i % 5], p = P[i / 5];
        D = fmt("%s, stream %d of %d, parameter %d", TN[t], g, n, p); curOp = TN[t]; ++cnt.states;
        isolated([=] { S s = start(t, g, n, 3, p); std::vector<S> v; if (s.g && s.r) { v.push_back(s); if (!told(v[0]) || !doSpawn(v[0], i % 2 ? 0 : -3, v)) return; } finish(v); });
        ++cnt.traces;
    });
    h.add("bad types", 5, [](uint64_t i) {
        static const int T[5] = {-1, 5, 6, 0x7fffffff, (int) 0x80000000};
        D = fmt("generator type %d", T[i]); curOp = "init_rng"; op = "init_rng"; ++cnt.states;
        isolated([=] { if (plain_init(T[i], 0, 1, 0, 0)) bad("type", "makes a stream of an unknown type"); std::vector<S> v; finish(v); });
        ++cnt.traces;
    });
    h.add("foreign packets", 5 * 12, [](uint64_t i) {
        int t = i % 5, k = i / 5;
        D = fmt("%s, packet changed in way %d", TN[t], k); curOp = TN[t]; ++cnt.states;
        isolated([=] {
            std::vector<S> v{start(t, 0, 1, 3, 1)}; if (!v[0].g) return;
            char *b; int n = plain_pack(v[0].g, &b); op = TN[t];
            if (n < 40) { bad("pack", "packs too little"); return; }
            // another type; an unknown type; another kind of generator named in it; an impossible parameter
            size_t name = 4, len = strnlen(b + name, n - 5);
            if (k < 5) b[3] = (char) k; else if (k == 5) b[3] = 5; else if (k == 6) b[0] = (char) 0x80; else if (k < 10) b[name + (k - 7) * (len - 1) / 2] ^= 1;
            else if (k == 10) { if (t != LFG && t != MLFG) { rn_free(b); finish(v); return; } memset(b + name + len + 1, 0x11, t == LFG ? 8 : 32); }
            else { if (t != LCG) { rn_free(b); finish(v); return; } memset(b + name + len + 1 + 24, 0x11, 4); }
            int *q = plain_unpack(b);
            bool good = k == t;
            rn_free(b);
            if (!q != !good) { bad("unpack", good ? "refuses what it packed" : "accepts a packet of something else"); return; }
            if (q) v.push_back({q, v[0].r->copy()});
            finish(v);
        });
        ++cnt.traces;
    });
    // ------------------------------------------------ the largest values: a stream is brought there through its packed form
    h.add("largest values", 5 * 3 * 4, [](uint64_t i) {
        int t = i % 5; i /= 5; int kind = i % 3, w = i / 3;
        static const U X[4] = {~0ull, ~0ull << 10, ~0ull - 0x7fffffffff, 0xffffff7fffffffffull};
        D = fmt("%s, next value %016lx, drawn as %s", TN[t], X[w], kind == 0 ? "integer" : kind == 1 ? "double" : "float"); curOp = TN[t]; ++cnt.states;
        isolated([=] {
            std::vector<S> v{start(t, 0, 1, 3, t == LFG || t == MLFG ? 1 : 0)}; if (!v[0].g) return;
            char *b; int n = plain_pack(v[0].g, &b);
            auto put = [&](U have, U want, int bytes) {       // the number stands in the packet, high byte first
                std::string p, q; for (int k = bytes; k-- > 0;) { p += (char) (have >> 8 * k); q += (char) (want >> 8 * k); }
                std::string all(b, n); size_t at = all.find(p);
                if (at == std::string::npos) return false;
                memcpy(b + at, q.data(), bytes); return true;
            };
            auto inv = [](U a) { U x = a; for (int k = 0; k < 6; ++k) x *= 2 - a * x; return x; };
            bool ok = true;
            if (t == LCG) { auto &r = (RefLcg &) *v[0].r; U s = ((X[w] >> 16) - r.c) * inv(r.a) & 0xffffffffffff; ok = put(r.s, s, 8); r.s = s; }
            else if (t == LCG64 || t == CMRG) {
                auto &r = (Ref64 &) *v[0].r; U p = t == CMRG ? 107374182 * r.z[0] + 104480 * r.z[4] : 0; p %= 2147483647;
                U s = (X[w] - (p << 32) - r.c) * inv(r.a); ok = put(r.s, s, 8); r.s = s;
            } else {
                auto &r = (RefLag &) *v[0].r; int h0 = (int) (r.g.L - 1 - r.t % r.g.L), l0 = (h0 + r.g.K) % r.g.L, h1 = (h0 + r.g.L - 1) % r.g.L, l1 = (l0 + r.g.L - 1) % r.g.L;
                if (t == MLFG) { U x = (X[w] | 1) * inv(r.r0[l0]); ok = put(r.r0[h0], x, 8); r.r0[h0] = x; }
                else {
                    // r1 carries the value, r0 the low bit and nothing else
                    auto set = [&](int h, int l, uint32_t val) {
                        uint32_t a = (val & 1) << 1, c = val & ~1u;      // r0>>1 gives the low bit, r1 the others
                        uint32_t n0 = a - (uint32_t) r.r0[l], n1 = c - (uint32_t) r.r1[l];
                        ok = ok && put(r.r0[h], n0, 4) && put(r.r1[h], n1, 4); r.r0[h] = n0; r.r1[h] = n1;
                    };
                    set(h0, l0, X[w] >> 32); set(h1, l1, (uint32_t) X[w]);
                }
            }
            if (!ok) { rn_free(b); finish(v); return; }        // the packed form is another one: nothing to say
            int *q = plain_unpack(b); rn_free(b); plain_free(v[0].g); v[0].g = q; op = TN[t];
            if (!q) { bad("unpack", "refuses a stream near its end"); return; }
            outcomes["largest"]++;
            if (draw(v[0], kind)) finish(v);
        });
        ++cnt.traces;
    });
    // ------------------------------------------------ CHECK_POINTERS: a program's mistakes are noticed
    h.add("checked identities", 8 * 8 * 8 * 8, [](uint64_t i) {
        std::array<int, 4> ops; for (auto &o : ops) { o = i % 8; i /= 8; }
        static const char *const N[8] = {"init LCG", "init CMRG", "spawn 2", "pack and unpack", "free", "draw", "use a freed stream", "use what is no stream"};
        D = "checked: "; for (int o : ops) D += std::string(N[o]) + "; "; curOp = "checked"; op = "checked"; ++cnt.states;
        isolated([=] {
            keepFreed = true;
            std::vector<S> v; std::vector<int *> gone; std::vector<int> dummy(64);
            auto refused = [&](int *p, const char *what) {
                int **ng = nullptr; char *b = nullptr; printed.clear(); op = "checked"; ++cnt.transitions;
                if (chk_int(p) != -1 || chk_dbl(p) != -1 || chk_flt(p) != -1 || chk_spawn(p, 1, &ng) != 0 || chk_pack(p, &b) != 0 || chk_print(p) != 0 || chk_free(p) != -1 || !printed.empty()) { bad("refuse", std::string("takes ") + what + " for a stream"); return false; }
                return true;
            };
            for (int o : ops) {
                ++cnt.transitions; op = "checked";
                if (o < 2) { S s{chk_init(o ? CMRG : LCG, 1, 3, 8, 0), refInit(o ? CMRG : LCG, 1, 3, 8, 0)}; if (!s.g) { bad("init", "refuses good parameters"); return; } v.push_back(s); }
                else if (o == 7) { if (!refused(dummy.data(), "a program's own block") || !refused(nullptr, "a null pointer")) return; if (chk_init(LCG, 5, 3, 8, 0) != nullptr) { bad("init", "accepts bad parameters"); return; } }
                else if (o == 6) { for (int *p : gone) if (!refused(p, "a freed stream")) return; }
                else if (v.empty()) continue;
                else if (o == 2) { int **ng; int n = chk_spawn(v.back().g, 2, &ng); auto r = v.back().r->spawn(2); if (n != 2) { bad("spawn", "does not spawn"); return; } v.push_back({ng[0], r[0]}); v.push_back({ng[1], r[1]}); rn_free(ng); }
                else if (o == 3) { char *b; int n = chk_pack(v[0].g, &b); if (n <= 0) { bad("pack", "does not pack"); return; } int *q = chk_unpack(b); rn_free(b); if (!q) { bad("unpack", "does not unpack"); return; } v.push_back({q, v[0].r->copy()}); }
                else if (o == 4) { int *p = v[0].g; if (chk_free(p) < 0) { bad("free", "refuses a stream"); return; } gone.push_back(p); v.erase(v.begin()); }
                else for (auto &s : v) { int a = chk_int(s.g), b = s.r->i(); if (a != b) { bad("int", fmt("draws %d instead of %d", a, b)); return; } double x = chk_dbl(s.g), y = s.r->d(); float f = chk_flt(s.g), e = s.r->f(); if (x != y || f != e) { bad("double", fmt("draws %.17g, %.9g instead of %.17g, %.9g", x, f, y, e)); return; } }
            }
            for (int *p : gone) if (!refused(p, "a freed stream")) return;
            for (auto &s : v) if (chk_free(s.g) < 0) { op = "checked"; bad("free", "refuses a stream"); return; }
            for (auto &s : v) if (!refused(s.g, "a freed stream")) return;
            v.clear(); finish(v);
        });
        ++cnt.traces;
    });
    // ------------------------------------------------ the simple interface: one stream in the background
    h.add("simple interface", 9 * 9 * 9 * 9, [](uint64_t i) {
        std::array<int, 4> ops; for (auto &o : ops) { o = i % 9; i /= 9; }
        static const char *const N[9] = {"init LCG", "init CMRG", "init MLFG", "int", "double", "float", "pack", "unpack", "print"};
        D = "simple: "; for (int o : ops) D += std::string(N[o]) + "; "; curOp = "simple"; op = "simple"; ++cnt.states;
        isolated([=] {
            R r; char *b = nullptr; R packed; op = "simple";
            auto first = [&] { if (!r) r = refInit(LFG, 0, 1, 0, 0); };
            for (int o : ops) {
                ++cnt.transitions;
                if (o < 3) { int t = o == 0 ? LCG : o == 1 ? CMRG : MLFG; if (!simple_init(t, 21, 1)) { bad("init", "refuses good parameters"); return; } r = refInit(t, 0, 1, 21, 1); }
                else if (o == 3) { first(); int a = simple_int(), e = r->i(); if (a != e) { bad("int", fmt("draws %d instead of %d", a, e)); return; } }
                else if (o == 4) { first(); double a = simple_dbl(), e = r->d(); if (a != e) { bad("double", fmt("draws %.17g instead of %.17g", a, e)); return; } }
                else if (o == 5) { first(); float a = simple_flt(), e = r->f(); if (a != e) { bad("float", fmt("draws %.9g instead of %.9g", a, e)); return; } }
                else if (o == 6) { char *q = nullptr; int n = simple_pack(&q); if ((n > 0) != !!r) { bad("pack", "packs what is not there, or does not pack"); return; } if (r) { rn_free(b); b = q; packed = r->copy(); } }
                else if (o == 7) { if (!b) continue; if (!simple_unpack(b)) { bad("unpack", "refuses what it packed"); return; } r = packed->copy(); }
                else { printed.clear(); int n = simple_print(); if ((n == 1) != !!r) { bad("print", "prints what is not there, or does not print"); return; } if (r && printed.find(fmt("seed = %d,", r->seed)) == std::string::npos) { bad("print", "prints " + printed); return; } }
            }
            rn_free(b);
            first(); { int a = simple_int(), e = r->i(); if (a != e) { bad("int", fmt("draws %d instead of %d", a, e)); return; } }
            // one stream lives in the background, and nothing else
            size_t n = live.size(); plain_init(r->type, 0, 1, 21, 1);
            if (n > live.size() - n) bad("leak", fmt("%zu blocks stay allocated for one stream", n));
        });
        ++cnt.traces;
    });
    h.add("new seeds", 1, [](uint64_t) {
        describe = [] { return D; }; D = "make_sprng_seed, 2000 times"; curOp = "make_sprng_seed"; op = "make_sprng_seed"; ++cnt.states; std::set<int> s;
        for (int k = 0; k < 2000; ++k) { int x = make_new_seed(); ++cnt.transitions; if (x < 0) { bad("range", fmt("makes the seed %d", x)); return; } s.insert(x); }
        if (s.size() < 2) bad("same", "2000 times the same seed");
        ++cnt.traces;
    });
}
int mcx::setup(Harness &h) { rn_err = fopen("/dev/null", "w"); families(h); return 0; }
MCX_MAIN
