// Controlled replacements of the C++ standard library's threads, locks, condition variables, futures and random engine:
// every thread is a fiber, exactly one runs at a time, and every operation on a shared synchronization object is a
// scheduling point of the explorer (shim.h).
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "shim.h"

namespace mcp {
enum State { FREE, RUN, LOCK, WAIT, JOIN, DONE, QUIET };
struct Th { State st = FREE; const void *on = nullptr; std::function<void()> fn; bool detached = false; };
extern Th th[32];
extern int nth;                          // ids in use: 0..nth-1
extern int freeCost;                     // cost of not continuing with the lowest thread when the running one cannot continue (0: preemption bounding, 1: delay bounding)
extern unsigned hardware;                // hardware_concurrency()
void run(const std::function<void()> &body);   // one execution: body is the main thread; checks that every thread has ended
int spawn(std::function<void()> f);
void join(int t);
void quiesce();                          // until no other thread can continue
void point();                            // scheduling point
[[noreturn]] void misuse(const char *what);
void block(State s, const void *on);     // until somebody sets RUN
void wakeAll(State s, const void *on);
void hbAcq(const void *), hbRel(const void *);

struct mutex {
    int owner = -1;
    mutex() = default; mutex(const mutex &) = delete; mutex &operator=(const mutex &) = delete;
    ~mutex() { if (owner >= 0) misuse("a locked mutex is destroyed"); }
    void lock(); bool try_lock(); void unlock();
    // timed and shared variants (never time out; no concurrent readers)
    template <class D> bool try_lock_for(const D &) { lock(); return true; }
    template <class D> bool try_lock_until(const D &) { lock(); return true; }
    void lock_shared() { lock(); } void unlock_shared() { unlock(); } bool try_lock_shared() { return try_lock(); }
};
struct condition_variable {
    condition_variable() = default; condition_variable(const condition_variable &) = delete; condition_variable &operator=(const condition_variable &) = delete;
    template <class L> void wait(L &l) {
        point(); l.unlock();
        // a wake-up without a notification is a deviation of its own
        if (mc::exploring() && mc::choose(2, 1)) point(); else block(WAIT, this);
        l.lock();
    }
    template <class L, class P> void wait(L &l, P p) { while (!p()) wait(l); }
    template <class L, class D> std::cv_status wait_for(L &l, const D &) { wait(l); return std::cv_status::no_timeout; }
    template <class L, class D, class P> bool wait_for(L &l, const D &, P p) { wait(l, p); return true; }
    template <class L, class D> std::cv_status wait_until(L &l, const D &) { wait(l); return std::cv_status::no_timeout; }
    template <class L, class D, class P> bool wait_until(L &l, const D &, P p) { wait(l, p); return true; }
    void notify_one() noexcept;
    void notify_all() noexcept { point(); wakeAll(WAIT, this); }
};
template <class F, class... A> std::function<void()> bindCall(F &&f, A &&...a) {
    auto t = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
    return [t] { std::apply([](auto &&...x) { std::invoke(std::move(x)...); }, std::move(*t)); };
}
class thread {
    int h = -1;
public:
    typedef int id; typedef int native_handle_type;
    thread() noexcept = default;
    template <class F, class... A, class = std::enable_if_t<!std::is_same<std::decay_t<F>, thread>::value>> explicit thread(F &&f, A &&...a) { h = spawn(bindCall(std::forward<F>(f), std::forward<A>(a)...)); }
    thread(const thread &) = delete;
    thread(thread &&o) noexcept : h(o.h) { o.h = -1; }
    thread &operator=(thread &&o) noexcept { if (h >= 0) misuse("a joinable thread is overwritten"); h = o.h; o.h = -1; return *this; }
    ~thread() { if (h >= 0) misuse("a joinable thread is destroyed"); }
    bool joinable() const noexcept { return h >= 0; }
    void join() { if (h < 0) misuse("a thread is joined twice"); int t = h; h = -1; mcp::join(t); }
    void detach() { if (h < 0) misuse("a thread is detached twice"); th[h].detached = true; h = -1; }
    id get_id() const noexcept { return h; }
    void swap(thread &o) noexcept { std::swap(h, o.h); }
    static unsigned hardware_concurrency() noexcept { return hardware; }
};
enum class mcp_launch { mcp_async = 1, deferred = 2 };
inline mcp_launch operator|(mcp_launch a, mcp_launch b) { return (mcp_launch) ((int) a | (int) b); }
template <class T> struct Shared { bool ready = false; std::exception_ptr e; std::conditional_t<std::is_void<T>::value, char, std::unique_ptr<std::conditional_t<std::is_void<T>::value, char, T>>> v; int h = -1; std::function<void()> lazy; };
template <class T> class future {
    std::shared_ptr<Shared<T>> s;
public:
    future() = default; explicit future(std::shared_ptr<Shared<T>> p) : s(p) {}
    future(const future &) = delete; future(future &&) = default;
    future &operator=(future &&o) { if (this != &o) { finish(); s = std::move(o.s); } return *this; }
    ~future() { finish(); }
    void finish() { if (s && s->h >= 0) { int t = s->h; s->h = -1; mcp::join(t); } }
    bool valid() const { return (bool) s; }
    void wait() { if (!s) misuse("future without state"); if (s->lazy) { auto f = std::move(s->lazy); s->lazy = nullptr; f(); } finish(); }
    T get() { wait(); auto p = std::move(s); s.reset(); if (p->e) std::rethrow_exception(p->e); if constexpr (!std::is_void<T>::value) return std::move(*p->v); }
};
template <class F, class... A> auto mcp_async(mcp_launch pol, F &&f, A &&...a) {
    typedef std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...> R;
    auto s = std::make_shared<Shared<R>>();
    auto t = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
    Shared<R> *sp = s.get();
    std::function<void()> w = [t, sp] {
        auto &s = *sp;
        try {
            auto call = [&] { return std::apply([](auto &&...x) { return std::invoke(std::move(x)...); }, std::move(*t)); };
            if constexpr (std::is_void<R>::value) call(); else s.v.reset(new R(call()));
        } catch (...) { s.e = std::current_exception(); }
        s.ready = true;
    };
    if ((int) pol & (int) mcp_launch::mcp_async) s->h = spawn(w); else s->lazy = w;
    return future<R>(s);
}
template <class F, class... A, class = std::enable_if_t<!std::is_same<std::decay_t<F>, mcp_launch>::value>> auto mcp_async(F &&f, A &&...a) { return mcp_async(mcp_launch::mcp_async, std::forward<F>(f), std::forward<A>(a)...); }

// random engine: the first `openAnswers` answers of an execution are choices of the explorer (below / above every
// cut), the following ones come from a fixed sequence
extern int openAnswers;
extern uint64_t seqState;
uint64_t answer();
struct engine64 {
    typedef uint64_t result_type;
    engine64() {} template <class S> explicit engine64(S &&) {}
    static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0ull; }
    template <class S> void seed(S &&) {} void seed() {} void discard(unsigned long long) {}
    result_type operator()() { return answer(); }
};
struct device { typedef unsigned result_type; device() {} template <class S> explicit device(S &&) {} static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } unsigned operator()() { return 12345; } double entropy() const { return 0; } };
}
namespace std {
using mcp_mutex = mcp::mutex; using mcp_cv = mcp::condition_variable; using mcp_thread = mcp::thread; using mcp_engine = mcp::engine64; using mcp_device = mcp::device;
template <class T> using mcp_future = mcp::future<T>;
using mcp::mcp_async; using mcp::mcp_launch;
int mcp_rand(); void mcp_srand(unsigned); long mcp_time(long *);
}
int mcp_rand(); void mcp_srand(unsigned); long mcp_time(long *);
#define mutex mcp_mutex
#define shared_mutex mcp_mutex
#define timed_mutex mcp_mutex
#define condition_variable mcp_cv
#define condition_variable_any mcp_cv
#define thread mcp_thread
#define future mcp_future
#define async mcp_async
#define launch mcp_launch
#define mt19937_64 mcp_engine
#define mt19937 mcp_engine
#define default_random_engine mcp_engine
#define random_device mcp_device
#define rand mcp_rand
#define srand mcp_srand
#define time mcp_time
