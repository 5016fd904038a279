// Input spaces shared by the product harnesses.
#pragma once
#include "mat.h"
namespace mcx {
// structured rows over columns 0..W-1; every kind is a set of columns
struct RowKind { const char *name; std::vector<i64> cols; };
inline std::vector<RowKind> rowKinds(i64 W, bool collide) {
    std::vector<RowKind> v;
    auto add = [&](const char *n, std::vector<i64> c) {
        c.erase(std::remove_if(c.begin(), c.end(), [&](i64 x) { return x < 0 || x >= W; }), c.end());
        std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
        for (auto &k : v) if (k.cols == c) return;
        v.push_back({n, c});
    };
    auto step = [&](i64 s, i64 o) { std::vector<i64> c; for (i64 i = o; i < W; i += s) c.push_back(i); return c; };
    add("empty", {});
    add("all", step(1, 0));
    add("first", {0});
    add("last", {W - 1});
    add("evens", step(2, 0));
    add("odds", step(2, 1));
    { std::vector<i64> a, b; for (i64 i = 0; i < W; ++i) (i < (W + 1) / 2 ? a : b).push_back(i); add("low", a); add("high", b); }
    { std::vector<i64> a; for (i64 i = 1; i + 1 < W; ++i) a.push_back(i); add("inner", a); }
    add("mid", {W / 2});
    add("ends", {0, W - 1});
    add("thirds", step(3, 2));
    if (collide) {
        // keys that share their hash slot (slot = key * 107 mod size), including the last slot so that probing wraps
        for (i64 s : {16, 32, 64, 128}) {
            if (W <= 2 * s) continue;
            i64 last = 0; while ((last * 107) % s != s - 1) ++last;
            add("clash", step(s, last));
            add("clash0", step(s, 0));
        }
    }
    return v;
}
inline Pat oneRow(i64 W, const std::vector<i64> &c) { Pat p(1, W); p.rows[0] = c; return p; }
struct Shape { int m, k, n; };
inline u64 shapeCases(const Shape &s) { return 1ull << (s.m * s.k + s.k * s.n); }
} // namespace mcx
