// Simulated heap: every C++ allocation of the process goes through here.
// While armed (i.e. while a library call runs) allocations can be made to
// fail, are filled with seeded garbage and are tracked until freed.
#pragma once
#include "core.hpp"

namespace sim {
struct ArmStats {
  u64 allocs = 0;   // allocation requests of the call
  u64 failed = 0;   // of them made to fail
  u64 bytes = 0;    // bytes handed out
  u64 live = 0;     // blocks born in the call and still alive now
  bool limit = false;
};
// Faults count the allocations of the calling thread from arm() on.
void heap_arm(u32 fk, u64 fpos, u64 fcnt);
ArmStats heap_disarm();
// blocks born in the last armed section that are still alive
u64 heap_live();
void heap_garbage(u64 seed);
// step counter of instrumented code while armed; 0 budget = unlimited
void step_budget(u64 edges);
u64 steps_used();
// called when a limit is exceeded (memory, steps); must not return
extern void (*heap_runaway)(const char* what);
// a thread with faults, garbage and accounting of its own
void heap_thread(bool own);
extern void (*heap_born)(void* p, std::size_t n);
extern void (*heap_dying)(void* p, std::size_t n);
struct Armed {
  ArmStats st;
  bool on = true;
  Armed(u32 fk, u64 fpos, u64 fcnt) { heap_arm(fk, fpos, fcnt); }
  ArmStats end() {
    if (on) {
      on = false;
      st = heap_disarm();
    }
    return st;
  }
  ~Armed() { end(); }
};
}  // namespace sim
