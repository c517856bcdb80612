// Simulated thread scheduler: real threads, exactly one of which runs at any
// time; every switch is decided by the plan. Synchronisation (mutexes, once,
// guards of function statics, atomics, condition variables) is interposed, all
// memory accesses of instrumented code are events. A happens-before detector
// reports data races whatever the interleaving.
#pragma once
#include "core.hpp"

namespace sim {
namespace thr {
constexpr int MAXT = 9;  // 0 is the main thread
enum { PK_ACCESS, PK_SYNC, PK_STEP };
struct Stats {
  u64 accesses, syncs, switches, preempts, blocks, forced;
  u64 fired[3];   // preemptions by kind
  u64 order;      // hash of the sequence of switches
};
extern Stats stats;
// plan: preempt thread th at its n-th event of the kind in (to >> 8), run (to & 255)
void init(int nthreads, const std::vector<Preempt>& pre);
void run(int nthreads, void (*fn)(int tid, void*), void* arg);
int self();           // 0: main
struct Lib {          // library code runs (harness code is not observed)
  Lib();
  ~Lib();
};
void boundary();      // between two operations
void sync_event();    // a place where others may interfere
void touch(const void* p, std::size_t n, bool write);  // recorded as access
void step_is(u32 step);
u64 now();            // global event time
extern bool racing;   // detector on
extern bool report_races;
void exempt(const void* p, std::size_t n);  // memory that races by design
extern u64 budget;    // events a thread may spend between boundaries
extern void (*on_problem)(const char* cls, const std::string& msg);
extern std::string (*step_name)(u32 step);
// memory life cycle
void born(void* p, std::size_t n);
void dying(void* p, std::size_t n);
}  // namespace thr
}  // namespace sim
