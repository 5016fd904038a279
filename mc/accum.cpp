// A18: explicit-state exploration of the accumulators.  Every reachable state of the real object (the bytes of
// its table together with the abstract map/set it should represent) is visited breadth first, every operation is
// tried in every state, and the object is compared with the abstract one after each.
#include <cassert>
#include <ratio>
#include <numeric>
#include <limits>
#include <unordered_set>
#include <deque>
#include "CSR.h"
#include "spgemm-blocks/util.h"
#include "spgemm-blocks/hash/HashAccumulator.h"
#include "spgemm-blocks/msa/MaskedSparseAccumulator1A.h"
#include "spgemm-blocks/msa/MaskedSparseAccumulator2A.h"
#include "spgemm-blocks/mca/MaskCompressedAccumulator.h"
#include "spgemm-blocks/heap/Heap.h"
#include "BitMap.h"
#include "SPA.h"
#include "mask_hash.h"
#include "mat.h"
using namespace mcx;

// ------------------------------------------------------------------------------------------------ engine
static std::string sysName; static std::vector<std::string> *opNames; static std::vector<unsigned char> path;
static std::string showPath() {
    std::string s = sysName + ":";
    for (auto o : path) s += " " + (*opNames)[o];
    return s;
}
struct Sys {
    std::vector<std::string> ops;
    virtual ~Sys() {}
    virtual void start() = 0;                 // fresh object, empty model
    virtual bool apply(int op) = 0;           // false: not a legal operation here; must not change anything then
    virtual void check() = 0;                 // compare object and model
    virtual std::string key() = 0;            // state
};
static void bad_(const std::string &k, const std::string &m) { fail(sysName + "/" + k, sysName + ": " + m); }
static void explore(Sys &S, u64 cap, size_t depth) {
    opNames = &S.ops; describe = showPath;
    std::unordered_set<std::string> seen;
    std::deque<std::vector<unsigned char>> todo;
    auto hashKey = [](const std::string &s) { u64 a = 1469598103934665603ull, b = s.size(); for (unsigned char c : s) { a = (a ^ c) * 1099511628211ull; b = mix64(b + c); } return std::string((char *) &a, 8) + std::string((char *) &b, 8); };
    path.clear(); S.start(); S.check(); seen.insert(hashKey(S.key())); todo.push_back({}); ++cnt.states;
    bool capped = false, cut = false;
    while (!todo.empty()) {
        auto p = todo.front(); todo.pop_front(); tick();
        if (p.size() >= depth) { cut = true; continue; }
        for (size_t o = 0; o < S.ops.size(); ++o) {
            path.clear(); S.start();
            for (auto x : p) { path.push_back(x); S.apply(x); }
            path.push_back(o);
            if (!S.apply(o)) continue;
            S.check();
            ++cnt.transitions; ++cnt.traces;
            if (seen.size() >= cap) { capped = true; continue; }
            if (seen.insert(hashKey(S.key())).second) { path.resize(p.size() + 1); todo.push_back(path); ++cnt.states; }
        }
    }
    if (capped) ++cnt.capped;
    outcomes[sysName + (capped ? fmt(": first %lu states", cap) : cut ? fmt(": all states within %zu operations", depth) : ": all reachable states")] += seen.size();
}
struct AlignedBuf { std::byte *p; size_t n; AlignedBuf(size_t b, size_t a) : n(b) { p = (std::byte *) malloc(b + a + 64); base = p; while ((uintptr_t) p % a) ++p; memset(p, 0xFF, b); } ~AlignedBuf() { free(base); } std::byte *base; };

// keys by the slot they hash to in a table of `size` slots
template<class K> std::vector<K> keysAt(u64 size, std::vector<u64> slots) {
    std::vector<K> r; std::map<u64, u64> from;
    for (u64 s : slots) { u64 k = from.count(s) ? from[s] : 0; while ((k * 107) % size != s % size) ++k; r.push_back((K) k); from[s] = k + 1; }
    return r;
}
template<class K> std::string kn(K k) { return std::to_string(k); }

// ------------------------------------------------------------------------------------------------ hash set (symbolic)
template<class K> struct HashSetSys : Sys {
    typedef HashAccumulator<K, void, void> Acc;
    std::vector<K> keys; std::vector<size_t> sizes; bool track; size_t cap;
    std::unique_ptr<Acc> acc; std::unique_ptr<AlignedBuf> buf; size_t bytes = 0;
    std::set<K> model; std::vector<K> order; size_t limit = 0;
    HashSetSys(std::vector<K> k, std::vector<size_t> s, bool t) : keys(k), sizes(s), track(t) {
        cap = *std::max_element(s.begin(), s.end());
        for (K x : keys) ops.push_back("insert(" + kn(x) + ")");
        if (!track) for (K x : keys) ops.push_back("erase(" + kn(x) + ")");
        ops.push_back(track ? "resetStatesList" : "resetStates");
        for (size_t x : sizes) ops.push_back(fmt("resize(%zu)", x));
    }
    void start() override {
        acc.reset(new Acc(cap)); auto [b, a] = acc->getMemoryRequirement(); bytes = b;
        buf.reset(new AlignedBuf(b, a)); acc->setBuffer(buf->p, b, 0);
        acc->resize(sizes[0]); limit = sizes[0]; model.clear(); order.clear();
    }
    bool apply(int o) override {
        size_t n = keys.size();
        if ((size_t) o < n) {
            K k = keys[o];
            if (!model.count(k) && model.size() >= limit) return false;
            bool r = track ? acc->template insert<true>(k) : acc->template insert<false>(k);
            bool e = model.insert(k).second;
            if (e) order.push_back(k);
            if (r != e) bad_("insert", fmt("insert(%ld) returned %d", (long) k, r));
            return true;
        }
        o -= n;
        if (!track) {
            if ((size_t) o < n) {
                K k = keys[o]; bool r = acc->erase(k), e = model.erase(k);
                if (r != e) bad_("erase", fmt("erase(%ld) returned %d", (long) k, r));
                return true;
            }
            o -= n;
        }
        if (o == 0) { if (track) acc->resetStatesList(); else acc->resetStates(); model.clear(); order.clear(); return true; }
        if (!model.empty()) return false;          // sizes change between rows
        limit = sizes[o - 1]; acc->resize(limit);
        return true;
    }
    void check() override {
        for (K k : keys) {
            auto i = acc->find(k);
            bool f = i != Acc::NOT_FOUND;
            if (f != (model.count(k) != 0)) { bad_("find", fmt("find(%ld) says %s", (long) k, f ? "present" : "absent")); return; }
            if (f && (*acc)[i].key != k) { bad_("find", fmt("find(%ld) points to key %ld", (long) k, (long) (*acc)[i].key)); return; }
        }
    }
    std::string key() override { std::string s((char *) buf->p, bytes); s += fmt("|%zu|", limit); for (K k : order) s += kn(k) + ","; if (!track) { s += "|"; for (K k : model) s += kn(k) + ","; } return s; }
};
// ------------------------------------------------------------------------------------------------ hash map (numeric)
enum { H_MASKGATHER, H_ALLGATHER, H_COMPL_SORTED, H_COMPL_UNSORTED };
template<class K, class V> struct HashMapSys : Sys {
    typedef HashAccumulator<K, V, bool> Acc;
    std::vector<K> keys; std::vector<size_t> sizes; int mode; size_t cap;
    std::unique_ptr<Acc> acc; std::unique_ptr<AlignedBuf> buf; size_t bytes = 0, limit = 0;
    struct E { bool valued; V v; };
    std::map<K, E> model; std::vector<K> maskOrder, insOrder;
    HashMapSys(std::vector<K> k, std::vector<size_t> s, int m) : keys(k), sizes(s), mode(m) {
        cap = *std::max_element(s.begin(), s.end());
        for (K x : keys) ops.push_back("insertMask(" + kn(x) + ")");
        for (K x : keys) ops.push_back("product(" + kn(x) + ")");
        ops.push_back("gather");
        for (size_t x : sizes) ops.push_back(fmt("resize(%zu)", x));
    }
    void start() override {
        acc.reset(new Acc(cap)); auto [b, a] = acc->getMemoryRequirement(); bytes = b;
        buf.reset(new AlignedBuf(b, a)); acc->setBuffer(buf->p, b, 0);
        acc->resize(sizes[0]); limit = sizes[0]; model.clear(); maskOrder.clear(); insOrder.clear();
    }
    bool compl_() { return mode >= H_COMPL_SORTED; }
    bool apply(int o) override {
        size_t n = keys.size();
        if ((size_t) o < n) {
            K k = keys[o];
            if (!model.count(k) && model.size() >= limit) return false;
            if (compl_() && !insOrder.empty()) return false;      // the mask comes first
            bool r = acc->insert(k), e = !model.count(k);
            if (e) { model[k] = {false, V()}; maskOrder.push_back(k); }
            if (r != e) bad_("insert", fmt("insert(%ld) returned %d", (long) k, r));
            return true;
        }
        o -= n;
        if ((size_t) o < n) {
            K k = keys[o]; V v = (V) (k % 5 + 1);
            if (compl_()) {
                if (!model.count(k) && model.size() >= limit) return false;
                auto it0 = model.find(k);
                if (it0 != model.end() && it0->second.valued && it0->second.v > 3 * v) return false;   // keeps the space finite
                auto idx = acc->findIdx(k); auto &en = (*acc)[idx];
                bool empty = en.key == Acc::EMPTY;
                auto it = model.find(k);
                if (empty != (it == model.end())) { bad_("findIdx", fmt("findIdx(%ld) says %s", (long) k, empty ? "absent" : "present")); return true; }
                if (empty) { acc->template insert<true>(idx, k, v, true); model[k] = {true, v}; insOrder.push_back(k); }
                else {
                    if (en.value2 != it->second.valued) { bad_("flag", fmt("key %ld: flag %d", (long) k, en.value2)); return true; }
                    if (en.value2) { en.value1 = en.value1 + v; it->second.v += v; }
                }
                return true;
            }
            auto it = model.find(k);
            if (it != model.end() && it->second.valued && it->second.v > 3 * v) return false;
            auto idx = acc->find(k);
            if ((idx != Acc::NOT_FOUND) != (it != model.end())) { bad_("find", fmt("find(%ld) says %s", (long) k, idx != Acc::NOT_FOUND ? "present" : "absent")); return true; }
            if (it == model.end()) return true;
            auto &en = (*acc)[idx];
            if (en.value2) { en.value1 = en.value1 + v; it->second.v += v; }
            else { en.value1 = v; en.value2 = true; it->second = {true, v}; }
            return true;
        }
        o -= n;
        if (o == 0) {
            std::vector<K> ki(64); std::vector<V> vi(64); K *kp = ki.data(); V *vp = vi.data();
            std::vector<std::pair<K, V>> exp; bool exactOrder = true;
            switch (mode) {
                case H_MASKGATHER: { acc->gather(kp, vp, maskOrder.begin(), maskOrder.end()); for (K k : maskOrder) if (model[k].valued) exp.push_back({k, model[k].v}); break; }
                case H_ALLGATHER: { acc->gather(kp, vp); for (auto &e : model) if (e.second.valued) exp.push_back({e.first, e.second.v}); exactOrder = false; break; }
                default: {
                    if (mode == H_COMPL_SORTED) acc->template gatherList<true>(kp, vp); else acc->template gatherList<false>(kp, vp);
                    for (K k : insOrder) exp.push_back({k, model[k].v});
                    if (mode == H_COMPL_SORTED) std::sort(exp.begin(), exp.end()); else exactOrder = false;
                    // every key list gathered: what is left are the mask entries
                    for (K k : maskOrder) if (!acc->erase(k)) { bad_("erase", fmt("mask key %ld lost after the gather", (long) k)); return true; }
                }
            }
            size_t got = kp - ki.data();
            std::vector<std::pair<K, V>> g; for (size_t i = 0; i < got; ++i) g.push_back({ki[i], vi[i]});
            if (!exactOrder) { std::sort(g.begin(), g.end()); std::sort(exp.begin(), exp.end()); }
            if (g != exp || (size_t) (vp - vi.data()) != got) bad_("gather", fmt("gather returned %zu entries, expected %zu (or other values)", got, exp.size()));
            model.clear(); maskOrder.clear(); insOrder.clear();
            return true;
        }
        if (!model.empty()) return false;
        limit = sizes[o - 1]; acc->resize(limit);
        return true;
    }
    void check() override {
        for (K k : keys) {
            auto i = acc->find(k); bool f = i != Acc::NOT_FOUND; auto it = model.find(k);
            if (f != (it != model.end())) { bad_("find", fmt("find(%ld) says %s", (long) k, f ? "present" : "absent")); return; }
            if (!f) continue;
            auto &e = (*acc)[i];
            if (e.key != k || e.value2 != it->second.valued || (e.value2 && !(e.value1 == it->second.v))) { bad_("entry", fmt("entry of key %ld is wrong", (long) k)); return; }
        }
    }
    std::string key() override {
        std::string s = fmt("%zu|", limit);
        for (size_t i = 0; i < bytes / sizeof(*(&(*acc)[0])); ++i) { auto &e = (*acc)[i]; s += kn(e.key) + ":"; if (e.key != Acc::EMPTY) s += e.value2 ? std::to_string(e.value1) : "-"; s += ";"; }
        s += "|"; for (K k : maskOrder) s += kn(k) + ","; s += "|"; for (K k : insOrder) s += kn(k) + ",";
        return s;
    }
};
// ------------------------------------------------------------------------------------------------ MSA
template<template<class, class, bool> class AccT, class K, class V, bool C> struct MsaSys : Sys {
    typedef AccT<K, V, C> Acc; static const bool HV = !std::is_same<V, void>::value;
    typedef std::conditional_t<HV, V, int> VV;
    int n; bool erasing;            // erasing: the operations of the symbolic phase
    std::unique_ptr<Acc> acc; std::unique_ptr<AlignedBuf> buf; size_t bytes = 0;
    std::vector<int> st; std::vector<VV> val; std::vector<K> mask, dirty; std::vector<char> gone;
    enum { DEF, MASK, INIT };
    MsaSys(int n_, bool er) : n(n_), erasing(er) {
        for (int i = 0; i < n; ++i) ops.push_back(fmt(C ? "setNotAllowed(%d)" : "setAllowed(%d)", i));
        for (int i = 0; i < n; ++i) ops.push_back(fmt("product(%d)", i));
        for (int i = 0; i < n; ++i) ops.push_back(fmt("erase(%d)", i));
        ops.push_back("gather<sorted>"); ops.push_back("gather"); ops.push_back("resetStates"); ops.push_back("resetStates(mask)");
    }
    void start() override {
        acc.reset(new Acc(n)); auto [b, a] = acc->getMemoryRequirement(); bytes = b;
        buf.reset(new AlignedBuf(b, a)); acc->setBuffer(buf->p, b, 0);
        st.assign(n, DEF); val.assign(n, VV()); mask.clear(); dirty.clear(); gone.assign(n, 0);
    }
    bool finished() { for (int s : st) if (s != DEF) return false; return true; }
    void wipe() { gone.assign(n, 0); }
    void clean() { if (finished() && !acc->isInitialized()) bad_("clean", "not in the clean state after a reset"); }
    bool apply(int o) override {
        if (o < n) {
            if (st[o] != DEF || gone[o] || !dirty.empty()) return false;
            if (C) acc->setNotAllowed(o); else acc->setAllowed(o);
            st[o] = MASK; mask.push_back(o); return true;
        }
        o -= n;
        if (o < n) {           // a product arrives at index o, handled as the algorithms do
            if (gone[o]) return false;
            bool allowed = C ? st[o] == DEF : st[o] == MASK;
            auto s = acc->getState(o);
            auto exp = st[o] == INIT ? Acc::INITIALIZED : allowed ? Acc::ALLOWED : Acc::NOT_ALLOWED;
            if (s != exp) { bad_("state", fmt("state of %d is %d, expected %d", o, s, exp)); return true; }
            VV v = (VV) (o * 2 + 1);
            if (s == Acc::INITIALIZED) { if constexpr (HV) { if (val[o] > 3 * v) return false; acc->getValue(o) = acc->getValue(o) + v; val[o] += v; } else return false; }
            else if (s == Acc::ALLOWED) { acc->setInitialized(o); if constexpr (HV) acc->getValue(o) = v; st[o] = INIT; val[o] = v; dirty.push_back(o); }
            return true;
        }
        o -= n;
        if (o < n) {
            if (!erasing) return false;
            bool r = acc->erase(o), e = st[o] != DEF;
            if (r != e) bad_("erase", fmt("erase(%d) returned %d", o, r));
            if (e) { st[o] = DEF; gone[o] = 1; }
            return true;
        }
        o -= n;
        if (o <= 1) {
            if constexpr (HV) {
                if (erasing) return false;
                std::vector<K> ki(32); std::vector<VV> vi(32); K *kp = ki.data(); VV *vp = vi.data();
                if (o == 0) acc->template gather<true>(kp, vp); else acc->template gather<false>(kp, vp);
                std::vector<std::pair<K, VV>> g, e; for (K *q = ki.data(); q < kp; ++q) g.push_back({*q, vi[q - ki.data()]});
                for (K k : dirty) { e.push_back({k, val[k]}); st[k] = DEF; }
                std::sort(e.begin(), e.end()); if (o == 1) std::sort(g.begin(), g.end());
                if (g != e || vp - vi.data() != kp - ki.data()) bad_("gather", fmt("gather returned %zu entries, expected %zu (or other values)", g.size(), e.size()));
                dirty.clear();
                // the mask entries that got no product are cleared by the caller
                for (K k : mask) { acc->clear(k); st[k] = DEF; }
                mask.clear(); wipe(); clean(); return true;
            } else return false;
        }
        if (o == 2) { acc->resetStates(); for (K k : dirty) st[k] = DEF; dirty.clear(); for (K k : mask) { acc->clear(k); st[k] = DEF; } mask.clear(); wipe(); clean(); return true; }
        acc->resetStates(mask.begin(), mask.end()); for (K k : dirty) st[k] = DEF; for (K k : mask) st[k] = DEF; dirty.clear(); mask.clear(); wipe(); clean(); return true;
    }
    void check() override {
        for (int i = 0; i < n; ++i) {
            auto exp = st[i] == INIT ? Acc::INITIALIZED : st[i] == MASK ? (C ? Acc::NOT_ALLOWED : Acc::ALLOWED) : Acc::DEFAULT_STATE;
            if (acc->getState(i) != exp) { bad_("state", fmt("state of %d is %d, expected %d", i, acc->getState(i), exp)); return; }
            if constexpr (HV) if (st[i] == INIT && !(acc->getValue(i) == val[i])) { bad_("value", fmt("value of %d", i)); return; }
        }
    }
    std::string key() override { std::string s; for (int i = 0; i < n; ++i) s += fmt("%d,%d,%d;", st[i], gone[i], (int) val[i] * (st[i] == INIT)); for (K k : mask) s += kn(k) + ","; s += "|"; for (K k : dirty) s += kn(k) + ","; s += "|" + std::string((char *) buf->p, bytes); return s; }
};
// ------------------------------------------------------------------------------------------------ MCA
template<class K, class V> struct McaSys : Sys {
    typedef MaskCompressedAccumulator<K, V> Acc; static const bool HV = !std::is_same<V, void>::value; typedef std::conditional_t<HV, V, int> VV;
    int n; std::unique_ptr<Acc> acc; std::unique_ptr<AlignedBuf> buf; size_t bytes = 0; std::vector<int> st; std::vector<VV> val;
    McaSys(int n_) : n(n_) {
        for (int i = 0; i < n; ++i) ops.push_back(fmt("product(%d)", i));
        for (int i = 0; i < n; ++i) ops.push_back(fmt("erase(%d)", i));
        for (int i = 0; i < n; ++i) ops.push_back(fmt("clear(%d)", i));
        for (int i = 0; i <= n; ++i) ops.push_back(fmt("clearAll(%d)", i));
        ops.push_back("clearAll()");
    }
    void start() override { acc.reset(new Acc(n)); auto [b, a] = acc->getMemoryRequirement(); bytes = b; buf.reset(new AlignedBuf(b, a)); acc->setBuffer(buf->p, b, 0); st.assign(n, 0); val.assign(n, VV()); }
    bool apply(int o) override {
        if (o < n) {
            VV v = (VV) (o + 1);
            if (st[o] && val[o] > 3 * v) return false;
            if (acc->isEmpty(o) != !st[o]) { bad_("isEmpty", fmt("isEmpty(%d) is wrong", o)); return true; }
            if (!st[o]) { (*acc)[o].state = Acc::INITIALIZED; if constexpr (HV) (*acc)[o].value = v; st[o] = 1; val[o] = v; }
            else { if constexpr (HV) (*acc)[o].value = (*acc)[o].value + v; else return false; val[o] += v; }
            return true;
        }
        o -= n;
        if (o < n) { bool r = acc->erase(o); if (r != (st[o] != 0)) bad_("erase", fmt("erase(%d) returned %d", o, r)); st[o] = 0; return true; }
        o -= n;
        if (o < n) { acc->clear(o); st[o] = 0; return true; }
        o -= n;
        if (o <= n) { acc->clearAll(o); for (int i = 0; i < o; ++i) st[i] = 0; return true; }
        acc->clearAll(); st.assign(n, 0); return true;
    }
    void check() override { for (int i = 0; i < n; ++i) { if (acc->isEmpty(i) != !st[i]) { bad_("isEmpty", fmt("isEmpty(%d) is wrong", i)); return; } if constexpr (HV) if (st[i] && !((*acc)[i].value == val[i])) { bad_("value", fmt("value of %d", i)); return; } } }
    std::string key() override { std::string s; for (int i = 0; i < n; ++i) s += fmt("%d,%d;", st[i], (int) val[i] * st[i]); return s + std::string((char *) buf->p, bytes); }
};
// ------------------------------------------------------------------------------------------------ heap
template<class K> struct HeapSys : Sys {
    int cap; std::vector<K> keys; std::unique_ptr<Heap<K>> h; std::unique_ptr<AlignedBuf> buf; size_t bytes = 0;
    std::multiset<std::tuple<K, K, K>> model; bool made = true; int serial = 0;
    HeapSys(int c, std::vector<K> k) : cap(c), keys(k) {
        for (K x : keys) ops.push_back("append(" + kn(x) + ")");
        ops.push_back("make"); ops.push_back("pop"); ops.push_back("clear");
        for (K x : keys) ops.push_back("advance root to " + kn(x));
    }
    void start() override { h.reset(new Heap<K>(cap)); auto [b, a] = h->getMemoryRequirement(); bytes = b; buf.reset(new AlignedBuf(b, a)); h->setBuffer(buf->p, b, 0); model.clear(); made = true; serial = 0; }
    bool apply(int o) override {
        int n = keys.size();
        if (o < n) { if ((int) model.size() >= cap || (made && !model.empty())) return false; h->append(keys[o], serial % 3, serial % 2); model.insert({keys[o], (K) (serial % 3), (K) (serial % 2)}); ++serial; made = false; return true; }
        o -= n;
        if (o == 0) { if (made) return false; h->make(); made = true; return true; }
        if (o == 1) { if (!made || model.empty()) return false; auto &t = h->top(); auto it = model.find({t.key, t.runr, t.loc}); if (it == model.end()) { bad_("top", "top() is not an element"); return true; } model.erase(it); h->pop(); return true; }
        if (o == 2) { h->clear(); model.clear(); made = true; return true; }
        K nk = keys[o - 3];
        if (!made || model.empty() || nk < h->top().key) return false;
        auto &t = h->top(); auto it = model.find({t.key, t.runr, t.loc}); if (it == model.end()) { bad_("top", "top() is not an element"); return true; }
        model.erase(it); t.key = nk; model.insert({nk, t.runr, t.loc}); h->sinkRoot(); return true;
    }
    void check() override {
        if (h->isEmpty() != model.empty()) { bad_("isEmpty", "isEmpty() is wrong"); return; }
        if (made && !model.empty()) { auto &t = h->top(); if (t.key != std::get<0>(*model.begin())) bad_("top", fmt("top() has key %ld, the minimum is %ld", (long) t.key, (long) std::get<0>(*model.begin()))); else if (!model.count({t.key, t.runr, t.loc})) bad_("top", "top() is not an element"); }
    }
    std::string key() override { std::string s = fmt("%d|%d|%zu|", made, serial % 6, model.size()); s += std::string((char *) buf->p, model.size() * sizeof(typename Heap<K>::EntryT)); return s; }
};
// ------------------------------------------------------------------------------------------------ BitMap
struct BitSys : Sys {
    u64 n; std::vector<u64> at; std::unique_ptr<BitMap> b, c; std::set<u64> model, cm; bool hasC = false;
    BitSys(u64 n_, std::vector<u64> a) : n(n_), at(a) { for (u64 x : at) ops.push_back(fmt("set_bit(%lu)", x)); for (u64 x : at) ops.push_back(fmt("set_bit_atomic(%lu)", x)); ops.push_back("reset"); ops.push_back("copy"); ops.push_back("assign"); ops.push_back("copy_from"); ops.push_back("swap"); ops.push_back("self-assign"); }
    void start() override { b.reset(new BitMap(n)); b->reset(); c.reset(); hasC = false; model.clear(); cm.clear(); }
    bool apply(int o) override {
        int k = at.size();
        if (o < 2 * k) { if (o < k) b->set_bit(at[o]); else b->set_bit_atomic(at[o - k]); model.insert(at[o % k]); return true; }
        o -= 2 * k;
        switch (o) {
            case 0: b->reset(); model.clear(); return true;
            case 1: c.reset(new BitMap(*b)); hasC = true; cm = model; return true;
            case 2: if (!hasC) { c.reset(new BitMap(1)); hasC = true; } *c = *b; cm = model; return true;
            case 3: if (!hasC) return false; c->copy_from(b.get()); cm = model; return true;
            case 4: if (!hasC) return false; std::swap(b, c); std::swap(model, cm); return true;
            default: *b = *b; return true;
        }
    }
    void one(BitMap &m, std::set<u64> &mod) {
        for (u64 i = 0; i < n; ++i) {
            if (m.get_bit(i) != (mod.count(i) != 0)) { bad_("get_bit", fmt("get_bit(%lu) is wrong", i)); return; }
            long nx = m.get_next_bit(i); auto it = mod.upper_bound(i); long e = it == mod.end() ? -1 : (long) *it;
            if (nx != e) { bad_("get_next_bit", fmt("get_next_bit(%lu) = %ld, expected %ld", i, nx, e)); return; }
        }
    }
    void check() override { one(*b, model); if (hasC) one(*c, cm); }
    std::string key() override { std::string s = hasC ? "c" : "-"; for (u64 x : model) s += std::to_string(x) + ","; s += "|"; for (u64 x : cm) s += std::to_string(x) + ","; return s; }
};
// ------------------------------------------------------------------------------------------------ SPA
template<class K> struct SpaSys : Sys {
    int n; std::unique_ptr<SPA<K, long>> spa; std::unique_ptr<SPAStructure<K>> str; std::set<K> mask; std::map<K, long> model; std::vector<std::vector<K>> masks;
    SpaSys(int n_) : n(n_) {
        for (int b = 0; b < (1 << n); ++b) { std::vector<K> m; for (int i = 0; i < n; ++i) if (b >> i & 1) m.push_back(i); masks.push_back(m); ops.push_back(fmt("Initialize(%x)", b)); }
        for (int i = 0; i < n; ++i) ops.push_back(fmt("Insert(%d)", i));
        ops.push_back("OutputReset");
    }
    void start() override { spa.reset(new SPA<K, long>(n)); str.reset(new SPAStructure<K>(n)); mask.clear(); model.clear(); fresh = true; }
    bool fresh = true;
    bool apply(int o) override {
        if (o < (1 << n)) { if (!fresh) return false; fresh = false; auto &m = masks[o]; spa->Initialize(m.begin(), m.end()); str->Initialize(m.begin(), m.end()); mask = std::set<K>(m.begin(), m.end()); return true; }
        o -= 1 << n;
        if (o < n) {
            long v = o * 2 + 1;
            if (model.count(o) && model[o] > 3 * v) return false;
            spa->Insert((K) o, v, std::plus<long>()); str->Insert((K) o);
            if (mask.count(o)) model[o] += v;
            return true;
        }
        std::vector<K> k(32, (K) 77); std::vector<long> v(32, 77); size_t got = spa->Size();
        if (got != model.size()) { bad_("Size", fmt("SPA::Size() = %zu, expected %zu", got, model.size())); return true; }
        if (str->Size() != model.size()) { bad_("Size", fmt("SPAStructure::Size() = %zu, expected %zu", str->Size(), model.size())); return true; }
        spa->OutputReset(k.begin(), v.begin()); str->Reset();
        std::map<K, long> g; for (size_t i = 0; i < got; ++i) g[k[i]] = v[i];
        if (g != model || (got < 32 && k[got] != (K) 77)) bad_("OutputReset", "wrong entries");
        model.clear(); mask.clear(); fresh = true; return true;
    }
    void check() override { if (spa->Size() != model.size() || str->Size() != model.size()) bad_("Size", fmt("Size() = %zu / %zu, expected %zu", spa->Size(), str->Size(), model.size())); }
    std::string key() override { std::string s = fresh ? "f" : "-"; for (K k : mask) s += kn(k) + ","; s += "|"; for (auto &e : model) s += fmt("%ld:%ld,", (long) e.first, e.second); for (auto f : spa->flags) s += (char) ('0' + f); s += "|"; for (auto f : str->flags) s += (char) ('0' + f); for (K k : spa->present) s += "p" + kn(k); return s; }
};
// ------------------------------------------------------------------------------------------------ map_lp
template<class K> struct LpSys : Sys {
    std::vector<K> keys; size_t cap; K sz;
    std::unique_ptr<map_lp<K, long, bool>> m3; std::unique_ptr<map_lp<K, bool>> m2; std::unique_ptr<map_lp<K>> m1;
    std::map<K, std::pair<long, bool>> model; std::set<K> mset;
    LpSys(std::vector<K> k, size_t c) : keys(k), cap(c), sz((K) (c + 1)) { for (K x : keys) ops.push_back("insert(" + kn(x) + ")"); for (K x : keys) ops.push_back("product(" + kn(x) + ")"); ops.push_back("gather/reset"); }
    void start() override { m3.reset(new map_lp<K, long, bool>(sz)); m2.reset(new map_lp<K, bool>(sz)); m1.reset(new map_lp<K>(sz)); model.clear(); mset.clear(); }
    bool apply(int o) override {
        int n = keys.size();
        if (o < n) {
            K k = keys[o]; bool e = !model.count(k);
            if (e && (model.size() >= cap || mset.size() - mset.count(k) >= cap)) return false;
            bool r3 = m3->insert(k, 0, false), r2 = m2->insert(k, false), r1 = m1->insert(k);
            if (r3 != e || r2 != e || r1 != !mset.count(k)) { bad_("insert", fmt("insert(%ld) returned %d/%d/%d", (long) k, r3, r2, r1)); return true; }
            if (e) model[k] = {0, false};
            mset.insert(k); return true;
        }
        o -= n;
        if (o < n) {
            K k = keys[o]; auto it = model.find(k); long v = (long) (k % 7) + 1;
            if (it != model.end() && it->second.first > 3 * v) return false;
            auto h3 = m3->find(k); auto h2 = m2->find(k);
            if ((h3 != -1) != (it != model.end()) || (h2 != -1) != (it != model.end())) { bad_("find", fmt("find(%ld) is wrong", (long) k)); return true; }
            if (it == model.end()) return true;
            if (m3->get2(h3) != it->second.second || (*m2)[h2] != it->second.second) { bad_("flag", fmt("flag of %ld is wrong", (long) k)); return true; }
            if (it->second.second) { m3->get1(h3) = m3->get1(h3) + v; it->second.first += v; } else { m3->get1(h3) = v; m3->get2(h3) = true; (*m2)[h2] = true; it->second = {v, true}; }
            return true;
        }
        std::vector<K> ki(64, (K) 77); std::vector<long> vi(64, 77);
        m3->gather(ki.data(), vi.data()); m2->reset();
        std::map<K, long> e, g; for (auto &x : model) if (x.second.second) e[x.first] = x.second.first;
        for (size_t i = 0; i < e.size(); ++i) g[ki[i]] = vi[i];
        if (g != e || ki[e.size()] != (K) 77) bad_("gather", "wrong entries");
        model.clear(); return true;
    }
    void check() override {
        for (K k : keys) {
            auto it = model.find(k); auto h3 = m3->find(k), h2 = m2->find(k), h1 = m1->find(k);
            if ((h3 != -1) != (it != model.end()) || (h2 != -1) != (it != model.end()) || (h1 != -1) != (mset.count(k) != 0)) { bad_("find", fmt("find(%ld) is wrong", (long) k)); return; }
            if (it != model.end() && (m3->get2(h3) != it->second.second || (*m2)[h2] != it->second.second || (it->second.second && m3->get1(h3) != it->second.first))) { bad_("entry", fmt("entry of %ld is wrong", (long) k)); return; }
            if constexpr (!std::is_same<K, unsigned>::value) if (h1 != -1 && (*m1)[h1] != k) { bad_("entry", fmt("key at find(%ld)", (long) k)); return; }
            decltype(h2) loc = -7; if ((m2->find(k, &loc) != -1) != (it != model.end()) || loc < 0) { bad_("find", fmt("find(%ld,&loc) is wrong", (long) k)); return; }
        }
    }
    std::string key() override { std::string s; for (auto &t : m3->v_) s += fmt("%ld:%d:%ld;", (long) std::get<0>(t), std::get<0>(t) != -1 && std::get<2>(t), std::get<0>(t) != -1 && std::get<2>(t) ? std::get<1>(t) : 0L); s += "|"; for (auto &t : m1->v_) s += fmt("%ld;", (long) t); return s; }
};
// ------------------------------------------------------------------------------------------------ memory split
template<class D, class Cl> void splitCase(size_t memSize, size_t dirty, size_t dn, size_t cn) {
    size_t ms = memSize / sizeof(Cl) * sizeof(Cl), db = (dn * sizeof(D) + sizeof(Cl) - 1) / sizeof(Cl) * sizeof(Cl);
    if (db + cn * sizeof(Cl) > ms || dirty > memSize) return;
    AlignedBuf b(memSize, 192); memset((void *) b.p, 0xFF, memSize); for (size_t i = 0; i < dirty; ++i) b.p[i] = (std::byte) (i * 7 + 1);
    D *dp = nullptr; Cl *cp = nullptr; size_t dd = dirty;
    splitMemory(b.p, memSize, dd, dp, dn, cp, cn);
    ++cnt.traces; ++cnt.transitions; ++cnt.states;
    std::byte *d0 = (std::byte *) dp, *c0 = (std::byte *) cp;
    if (d0 < b.p || c0 < b.p || d0 + dn * sizeof(D) > b.p + memSize || c0 + cn * sizeof(Cl) > b.p + memSize) { bad_("bounds", "a part lies outside the memory"); return; }
    if (cn && dn && d0 < c0 + cn * sizeof(Cl) && c0 < d0 + dn * sizeof(D)) { bad_("overlap", "the two parts overlap"); return; }
    if ((uintptr_t) c0 % sizeof(Cl)) { bad_("align", "clean part misaligned"); return; }
    for (size_t i = 0; i < cn * sizeof(Cl); ++i) if (c0[i] != (std::byte) 0xFF) { bad_("clean", fmt("byte %zu of the clean part is dirty", i)); return; }
    // the dirty size it reports must still cover everything that is not clean
    for (size_t i = dd; i < memSize; ++i) if (b.p[i] != (std::byte) 0xFF) { bad_("dirty", fmt("byte %zu beyond the reported dirty size is dirty", i)); return; }
}
struct E12 { char c[12]; };
struct E16 { char c[16]; };

int mcx::setup(Harness &h) {
    bool T = thorough; u64 cap = T ? 400000 : 25000; size_t dep = T ? 40 : 24;
    auto sys = [&](const std::string &name, std::function<Sys *()> mk) { h.add(name, 1, [=](u64) { sysName = name; curOp = sysName.c_str(); std::unique_ptr<Sys> s(mk()); explore(*s, cap, dep); }); };
    std::vector<u64> wrap32 = {31, 31, 31, 30, 0, 0, 1, 16}, clash32 = {5, 5, 5, 5, 5, 6, 6, 7}, wrap16 = {15, 15, 15, 0, 14}, mix64_ = {63, 63, 62, 0, 0, 1, 31, 32};
    sys("hash set, wrap 32", [=] { return new HashSetSys<int>(keysAt<int>(32, wrap32), {7}, false); });
    sys("hash set, clash 32", [=] { return new HashSetSys<int>(keysAt<int>(32, clash32), {7}, false); });
    sys("hash set, wrap 16", [=] { return new HashSetSys<int>(keysAt<int>(16, wrap16), {3}, false); });
    sys("hash set, sizes", [=] { return new HashSetSys<int>(keysAt<int>(32, {31, 31, 0, 15, 15}), {3, 7, 1, 9}, false); });
    sys("hash set long", [=] { return new HashSetSys<long>(keysAt<long>(32, wrap32), {7}, false); });
    sys("hash set uint64", [=] { return new HashSetSys<uint64_t>(keysAt<uint64_t>(16, wrap16), {3, 4}, false); });
    sys("hash set tracked", [=] { return new HashSetSys<int>(keysAt<int>(32, {31, 31, 30, 0, 0, 1}), {7, 3}, true); });
    sys("hash set tracked unsigned", [=] { return new HashSetSys<unsigned>(keysAt<unsigned>(16, wrap16), {3}, true); });
    sys("hash set huge keys", [=] { return new HashSetSys<int>({2147483646, 2147483646 - 32, 2147483646 - 64, 0, 1 << 30, (1 << 30) + 32}, {7}, false); });
    sys("hash map, gather by mask", [=] { return new HashMapSys<int, uint64_t>(keysAt<int>(16, {15, 15, 0, 14}), {3}, H_MASKGATHER); });
    sys("hash map, gather by mask, 32", [=] { return new HashMapSys<int, uint64_t>(keysAt<int>(32, {31, 31, 31, 30, 0}), {7, 3}, H_MASKGATHER); });
    sys("hash map, gather all", [=] { return new HashMapSys<int, uint64_t>(keysAt<int>(16, {15, 15, 0, 14}), {3}, H_ALLGATHER); });
    sys("hash map, complement sorted", [=] { return new HashMapSys<int, uint64_t>(keysAt<int>(32, {31, 31, 30, 0, 0}), {7, 4}, H_COMPL_SORTED); });
    sys("hash map, complement unsorted", [=] { return new HashMapSys<int, uint64_t>(keysAt<int>(16, {15, 15, 0, 14}), {3, 2}, H_COMPL_UNSORTED); });
    sys("hash map, complement clash", [=] { return new HashMapSys<int, uint64_t>(keysAt<int>(32, {5, 5, 5, 6, 6}), {7}, H_COMPL_SORTED); });
    sys("hash map long double", [=] { return new HashMapSys<long, double>(keysAt<long>(16, {15, 15, 0, 14}), {3}, H_COMPL_SORTED); });
    sys("hash map uint64 float", [=] { return new HashMapSys<uint64_t, float>(keysAt<uint64_t>(16, {15, 15, 0}), {3}, H_MASKGATHER); });
    int mn = T ? 4 : 3;
    sys("MSA1A", [=] { return new MsaSys<MaskedSparseAccumulator1A, int, uint64_t, false>(mn, false); });
    sys("MSA1A complement", [=] { return new MsaSys<MaskedSparseAccumulator1A, int, uint64_t, true>(mn, false); });
    sys("MSA1A symbolic", [=] { return new MsaSys<MaskedSparseAccumulator1A, int, void, false>(4, true); });
    sys("MSA1A complement symbolic", [=] { return new MsaSys<MaskedSparseAccumulator1A, int, void, true>(4, true); });
    sys("MSA2A", [=] { return new MsaSys<MaskedSparseAccumulator2A, int, uint64_t, false>(mn, false); });
    sys("MSA2A complement", [=] { return new MsaSys<MaskedSparseAccumulator2A, int, uint64_t, true>(mn, false); });
    sys("MSA2A symbolic", [=] { return new MsaSys<MaskedSparseAccumulator2A, int, void, false>(4, true); });
    sys("MSA2A complement symbolic", [=] { return new MsaSys<MaskedSparseAccumulator2A, int, void, true>(4, true); });
    sys("MSA1A float uint64", [=] { return new MsaSys<MaskedSparseAccumulator1A, uint64_t, float, true>(3, false); });
    sys("MSA2A double long", [=] { return new MsaSys<MaskedSparseAccumulator2A, long, double, false>(3, false); });
    sys("MCA", [=] { return new McaSys<int, uint64_t>(4); });
    sys("MCA symbolic", [=] { return new McaSys<int, void>(6); });
    sys("MCA double", [=] { return new McaSys<uint64_t, double>(3); });
    sys("heap", [=] { return new HeapSys<int>(T ? 6 : 5, {0, 1, 2, 7}); });
    sys("heap uint64", [=] { return new HeapSys<uint64_t>(4, {0, 3, 3000000000ull}); });
    sys("BitMap", [=] { return new BitSys(130, {0, 1, 63, 64, 127, 128, 129}); });
    sys("BitMap small", [=] { return new BitSys(1, {0}); });
    sys("BitMap word", [=] { return new BitSys(64, {0, 31, 32, 63}); });
    sys("SPA", [=] { return new SpaSys<int>(3); });
    sys("SPA uint64", [=] { return new SpaSys<uint64_t>(2); });
    sys("map_lp wrap", [=] { return new LpSys<int>(keysAt<int>(16, {15, 15, 15, 0, 14}), 15); });
    sys("map_lp long", [=] { return new LpSys<long>(keysAt<long>(16, {15, 15, 0, 0}), 15); });
    sys("map_lp unsigned", [=] { return new LpSys<unsigned>({0, 16, 4294967295u, 4294967279u}, 15); });
    h.add("map_lp, full table", 16, [](u64 idx) {
        // 15 keys in 16 slots: the longest probe sequences there are
        sysName = "map_lp full"; curOp = "map_lp"; describe = nullptr;
        map_lp<int, long, bool> m(16); std::vector<int> k = keysAt<int>(16, std::vector<u64>(15, idx));
        for (int x : k) if (!m.insert(x, x * 2, true)) bad_("insert", "a new key was refused");
        for (int x : k) { auto p = m.find(x); if (p == -1 || m.get1(p) != x * 2) bad_("find", "a key was lost"); if (m.find(x + 1600000) != -1) bad_("find", "a key appeared"); }
        ++cnt.states; cnt.transitions += 45; ++cnt.traces;
    });
    h.add("BitMap beyond 2^32", 1, [](u64) {
        sysName = "BitMap"; curOp = "BitMap::get_next_bit"; describe = nullptr;
        u64 n = (1ull << 32) + 512; BitMap b(n);                       // fresh pages are zero; only the tail is touched
        for (u64 i = (1ull << 32) / 64; i < (n + 63) / 64; ++i) b.data()[i] = 0;
        for (u64 p : {(1ull << 32) + 5, (1ull << 32) + 200}) b.set_bit(p);
        for (u64 q : {1ull << 32, (1ull << 32) + 4, (1ull << 32) + 5, (1ull << 32) + 63, (1ull << 32) + 199, (1ull << 32) + 200}) {
            long e = q < (1ull << 32) + 5 ? (long) ((1ull << 32) + 5) : q < (1ull << 32) + 200 ? (long) ((1ull << 32) + 200) : -1;
            long g = b.get_next_bit(q); ++cnt.transitions;
            if (g != e) bad_("get_next_bit-large", fmt("get_next_bit(%lu) = %ld, expected %ld", q, g, e));
        }
        ++cnt.states; ++cnt.traces;
    });
    h.add("splitMemory", 6, [](u64 k) {
        sysName = "splitMemory"; curOp = "splitMemory"; describe = nullptr; bool T = thorough;
        for (size_t ms = 0; ms <= (T ? 160u : 96u); ++ms) for (size_t d = 0; d <= ms; ++d) for (size_t dn = 0; dn <= 6; ++dn) for (size_t cn = 0; cn <= 6; ++cn) {
            describe = [=] { return fmt("memory %zu dirty %zu objects %zu + %zu", ms, d, dn, cn); };
            switch (k) { case 0: splitCase<std::byte, char>(ms, d, dn, cn); break; case 1: splitCase<double, uint8_t>(ms, d, dn, cn); break; case 2: splitCase<float, int>(ms, d, dn, cn); break;
                         case 3: splitCase<std::byte, E12>(ms, d, 0, cn); break; case 4: splitCase<std::byte, E16>(ms, d, 0, cn); break; case 5: splitCase<int, E12>(ms, d, dn, cn); break; }
        }
    });
    h.add("mallocAligned", 1, [](u64) {
        sysName = "mallocAligned"; curOp = "mallocAligned"; describe = nullptr;
        for (size_t n : {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 1000}) for (size_t a : {1, 2, 4, 8, 12, 16, 24, 32, 48, 64}) {
            auto *p = mallocAligned<std::byte>(n, a);
            if ((uintptr_t) p % a) bad_("align", fmt("%zu bytes with alignment %zu", n, a));
            memset((void *) p, 0x5A, n);
            freeAligned(p); ++cnt.states; ++cnt.transitions; ++cnt.traces;
        }
    });
    return 0;
}
MCX_MAIN
