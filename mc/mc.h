// Enumeration framework shared by all harnesses.
//
// A harness registers families; a family is a finite, indexed space of cases, each of which drives the real
// code and compares it with a reference.  Cases are enumerated completely (or striped over the shards of one
// run); the position is published so that a crash, assertion failure or hang inside the code under test is
// attributed to the exact case and reported as a violation that can be replayed with --only.
#pragma once
#include <atomic>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define MC_ASAN 1
#endif

#ifdef MCX_HB
#include "hb.h"
#endif

namespace mcx {

struct Counters { uint64_t states = 0, transitions = 0, traces = 0, cases = 0, schedules = 0, choicePoints = 0, capped = 0; };
struct Position { uint64_t g = 0; };      // first case not yet finished

struct Family {
    std::string name;
    uint64_t count;
    std::function<void(uint64_t)> run;
};
struct Harness {
    std::vector<Family> fams;
    void add(const std::string &n, uint64_t c, std::function<void(uint64_t)> f) { if (c) fams.push_back({n, c, std::move(f)}); }
};
inline Counters cnt;
inline bool thorough = false;
inline std::string prop;
inline std::string curFam;
inline uint64_t curIdx = 0, curG = 0;
// what the code under test is doing right now; a callback so that setting it costs nothing
inline std::function<std::string()> describe;
inline const char *curOp = "";            // name of the operation under way (static string)
inline std::vector<std::string> samples;
inline std::map<std::string, uint64_t> outcomes;     // distinct observed outcomes (vacuity control)
inline Position *pos = nullptr;
inline int nfail = 0, maxFail = 3;
inline double longest = 0; inline std::string longestCase;      // the longest case so far (CPU seconds)
inline std::set<std::string> failKeys;

inline std::string jesc(const std::string &s) {
    std::string o; o.reserve(s.size() + 8);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o;
}
inline void emit(const char *kind, const std::string &key, const std::string &msg) {
    std::string d;
    if (describe) d = describe();
    if (d.size() > 6000) d.resize(6000);
    std::string s = std::string("@@") + kind + " {\"g\":" + std::to_string(curG) + ",\"family\":\"" + jesc(curFam) + "\",\"idx\":" +
        std::to_string(curIdx) + ",\"op\":\"" + jesc(curOp) + "\",\"key\":\"" + jesc(key) + "\",\"msg\":\"" + jesc(msg) + "\",\"input\":\"" + jesc(d) + "\"}\n";
    size_t off = 0;
    while (off < s.size()) { ssize_t w = ::write(1, s.data() + off, s.size() - off); if (w <= 0) break; off += w; }
}
inline std::string fmt(const char *f, ...) {
    char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline void printCounters();
// a property violation in the current case
inline std::set<std::string> knownKeys;      // listed in known_findings.txt: reported, but no reason to stop
inline void fail(const std::string &key, const std::string &msg) {
    if (!failKeys.insert(key).second) return;      // one report per distinct key and process
    emit("FAIL", key, msg);
    if (knownKeys.count(key)) return;
    if (++nfail >= maxFail) { printCounters(); _exit(1); }
}
inline std::atomic<bool> dying{false};
inline void onDeath() {
    if (dying.exchange(true)) return;
    emit("CRASH", std::string("crash:") + curOp, "the code under test aborted or made an invalid memory access");
}
inline void sigHandler(int sig) {
    if (!dying.exchange(true)) emit("CRASH", std::string("crash:") + curOp, fmt("signal %d", sig));
    _exit(98);
}
inline void printCounters() {
    std::string s = "@@COUNTERS {";
    s += fmt("\"states\":%lu,\"transitions\":%lu,\"traces\":%lu,\"cases\":%lu,\"schedules\":%lu,\"choicePoints\":%lu,\"capped\":%lu,\"samples\":[", cnt.states, cnt.transitions, cnt.traces, cnt.cases, cnt.schedules, cnt.choicePoints, cnt.capped);
    for (size_t i = 0; i < samples.size(); ++i) s += std::string(i ? "," : "") + "\"" + jesc(samples[i]) + "\"";
    s += "],\"outcomes\":{";
    bool f = true;
    for (auto &o : outcomes) { s += std::string(f ? "" : ",") + "\"" + jesc(o.first) + "\":" + std::to_string(o.second); f = false; }
    s += fmt("},\"longest\":%.2f,\"longestCase\":\"%s\"}\n", longest, jesc(longestCase).c_str());
    size_t off = 0; fflush(stdout);
    while (off < s.size()) { ssize_t w = ::write(1, s.data() + off, s.size() - off); if (w <= 0) break; off += w; }
}
inline void sample(const std::string &s) { if (samples.size() < 4) samples.push_back(s); }

inline double cpuNow() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline double wallNow() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline double hangLimit = 60;
inline volatile uint64_t beatG = ~0ull;
inline volatile uint64_t beat = 0;         // a long case may call mcx::tick()
inline void tick() { beat = beat + 1; }
__attribute__((no_sanitize("thread"))) inline void alarmHandler(int) {
    static uint64_t lastG = ~0ull - 1, lastBeat = 0; static double since = 0, sinceW = 0;
    double c = cpuNow(), w = wallNow();
    if (curG != lastG || beat != lastBeat) { lastG = curG; lastBeat = beat; since = c; sinceW = w; return; }
    if (c - since > hangLimit || w - sinceW > 4 * hangLimit) {
        if (!dying.exchange(true)) emit("HANG", std::string("hang:") + curOp, fmt("no progress for %.0f s of CPU time (%.0f s wall)", c - since, w - sinceW));
        _exit(97);
    }
}

#ifdef MCX_HB
inline void raceFound(const hb::Race &r) {
    std::string key = std::string(curOp) + "/race";
    if (!failKeys.count(key)) fail(key, hb::text(r));
}
#endif
int setup(Harness &h);       // provided by the harness: registers the families for mcx::prop / mcx::thorough

inline int mainLoop(int argc, char **argv) {
    int sh = 0, ns = 1; uint64_t start = 0; long only = -1; const char *pf = nullptr; bool list = false;
    std::string onlyFam; uint64_t stopAt = ~0ull;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--prop") prop = nx();
        else if (a == "--tier") thorough = nx() == "thorough";
        else if (a == "--shard") { auto s = nx(); sscanf(s.c_str(), "%d/%d", &sh, &ns); }
        else if (a == "--start") start = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--only") only = atol(nx().c_str());
        else if (a == "--progress") pf = argv[++i];
        else if (a == "--list") list = true;
        else if (a == "--fam") onlyFam = nx();
        else if (a == "--hang") hangLimit = atof(nx().c_str());
        else if (a == "--stop") stopAt = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--known") knownKeys.insert(nx());
        else if (a == "--maxfail") maxFail = atoi(nx().c_str());
    }
    Harness h;
#ifdef MCX_HB
    hb::onRace = raceFound;
#endif
    setup(h);
    if (list) {
        uint64_t g = 0;
        for (auto &f : h.fams) { printf("%s count=%lu first=%lu\n", f.name.c_str(), f.count, g); g += f.count; }
        return 0;
    }
    static Position dummy; pos = &dummy;
    if (pf) {
        int fd = open(pf, O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 4096)) { perror("progress"); return 3; }
        pos = (Position *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
#ifdef MC_ASAN
    __sanitizer_set_death_callback(onDeath);
#else
    signal(SIGSEGV, sigHandler); signal(SIGBUS, sigHandler); signal(SIGFPE, sigHandler); signal(SIGILL, sigHandler);
#endif
    signal(SIGABRT, sigHandler);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = alarmHandler; sa.sa_flags = SA_RESTART;
    sigaction(SIGALRM, &sa, nullptr);
    itimerval tv; tv.it_interval = {2, 0}; tv.it_value = {2, 0}; setitimer(ITIMER_REAL, &tv, nullptr);
    uint64_t base = 0;
    for (auto &f : h.fams) {
        curFam = f.name;
        if (!onlyFam.empty() && f.name != onlyFam) { base += f.count; continue; }
        uint64_t first = 0;
        if (only >= 0) {
            if ((uint64_t) only < base || (uint64_t) only >= base + f.count) { base += f.count; continue; }
            curIdx = only - base; curG = only; curOp = "";
            f.run(curIdx); ++cnt.cases;
        } else {
            // stripe: case g belongs to shard g % ns
            uint64_t s0 = base > start ? base : start;
            first = s0 + ((uint64_t) (sh + ns) - s0 % ns) % ns;
            for (uint64_t g = first; g < base + f.count && g <= stopAt; g += ns) {
                curIdx = g - base; curG = g; pos->g = g; curOp = ""; describe = nullptr;
                double c0 = cpuNow();
                f.run(curIdx);
                double c1 = cpuNow() - c0;
                if (c1 > longest) { longest = c1; longestCase = f.name; }
                ++cnt.cases;
            }
        }
        base += f.count;
    }
    pos->g = base;
    describe = nullptr;
    printCounters();
    fflush(stdout);
    _exit(nfail ? 1 : 0);          // no destructors: the report callbacks refer to statics
}
} // namespace mcx
#define MCX_MAIN int main(int argc, char **argv) { return mcx::mainLoop(argc, argv); }
