// Happens-before race detector for the controlled runtimes.  The code under test is compiled with -fsanitize=thread and
// linked against hb.cpp instead of the ThreadSanitizer runtime.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
namespace hb {
void begin(int T);                       // a concurrent section of threads 0..T-1 starts: everything before happens before it
void end();                              // the section is over
void spawn(int parent, int child);
void joined(int parent, int child);
void acquire(const void *o, int t);
void release(const void *o, int t);
void ignore(const void *p, size_t n);    // variables of the harness
void clearRange(const void *p, size_t n);
extern uint64_t accesses;
extern uint64_t sections;                // concurrent sections checked
struct Race { int tid[2]; int kind[2]; const void *pc[2]; };
extern void (*onRace)(const Race &);     // two unordered accesses to one location by different threads, at least one a write
std::string text(const Race &);          // slow: symbolizes
extern bool muted[128];                  // per thread: accesses are not looked at (code of the harness)
extern bool atomicsYield;                // an atomic operation is a scheduling point
}
