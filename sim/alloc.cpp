#include "alloc.hpp"

#include <errno.h>
#include <malloc.h>
#include <stdlib.h>

#include <new>

namespace sim {
namespace {
struct State {
  bool armed;
  u32 fk;
  u64 fpos, fcnt, n, failed, bytes;
};
// open-addressing set of the blocks born in the current armed section
constexpr u32 CAP = 1u << 15;
struct Track {
  State st;
  u64 garbage_seed = 1;
  u64 edges;
  bool any_armed;
  u32 used;
  u64 live_blocks, live_bytes;
  void* slots[CAP];
};
Track first;
thread_local Track* t = &first;
u64 budget;
constexpr u64 LIMIT = 512ull << 20;

u32 slot_of(void* p) {
  return u32(mix(reinterpret_cast<u64>(p))) & (CAP - 1);
}
void* const TOMB = reinterpret_cast<void*>(1);
void track(void* p) {
  if (t->used > CAP / 2) return;  // give up tracking, only under-reports
  u32 i = slot_of(p);
  while (t->slots[i] && t->slots[i] != TOMB) i = (i + 1) & (CAP - 1);
  if (!t->slots[i]) t->used++;
  t->slots[i] = p;
  t->live_blocks++;
}
void untrack(void* p) {
  if (!t->live_blocks) return;
  u32 i = slot_of(p);
  while (t->slots[i]) {
    if (t->slots[i] == p) {
      t->slots[i] = TOMB;
      t->live_blocks--;
      return;
    }
    i = (i + 1) & (CAP - 1);
  }
}
}  // namespace
void (*heap_runaway)(const char*) = nullptr;
void (*heap_born)(void*, std::size_t) = nullptr;
void (*heap_dying)(void*, std::size_t) = nullptr;
void heap_thread(bool own) { t = own ? static_cast<Track*>(calloc(1, sizeof(Track))) : &first; }

void heap_garbage(u64 seed) { t->garbage_seed = seed; }
void heap_arm(u32 fk, u64 fpos, u64 fcnt) {
  if (t->used) std::memset(t->slots, 0, sizeof t->slots);
  t->used = 0;
  t->live_blocks = t->live_bytes = 0;
  t->st = State{true, fk, fpos, fcnt, 0, 0, 0};
  t->edges = 0;
  t->any_armed = true;
}
ArmStats heap_disarm() {
  t->st.armed = false;
  t->any_armed = false;
  ArmStats r;
  r.allocs = t->st.n;
  r.failed = t->st.failed;
  r.bytes = t->st.bytes;
  r.live = t->live_blocks;
  return r;
}
u64 heap_live() { return t->live_blocks; }
void step_budget(u64 e) { budget = e; }
u64 steps_used() { return t->edges; }
extern "C" void sim_edge() {
  if (t->any_armed && ++t->edges > budget && budget) {
    t->any_armed = false;
    if (heap_runaway) heap_runaway("steps");
    abort();
  }
}

static void* get(std::size_t n, std::size_t al) noexcept {
  State& s = t->st;
  if (s.armed) {
    u64 k = s.n++;
    bool fail = false;
    switch (s.fk) {
      case F_ALLOC_ONE: fail = k == s.fpos; break;
      case F_ALLOC_RUN: fail = k >= s.fpos && k < s.fpos + s.fcnt; break;
      case F_ALLOC_ALL: fail = k >= s.fpos; break;
      case F_ALLOC_SIZE: fail = n >= s.fpos; break;
      default: break;
    }
    if (fail) {
      s.failed++;
      return nullptr;
    }
    s.bytes += n;
    t->live_bytes += n;
    if (n > LIMIT || t->live_bytes > 8 * LIMIT) {
      s.armed = false;
      t->any_armed = false;
      if (heap_runaway) heap_runaway("memory");
      abort();
    }
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al)
                      : malloc(n ? n : 1);
    if (!p) return p;
    if (heap_born) heap_born(p, n);
    u64 g = mix(t->garbage_seed + k);
    unsigned char* c = static_cast<unsigned char*>(p);
    std::size_t m = n < 65536 ? n : 65536;
    for (std::size_t i = 0; i < m; i++) {
      c[i] = static_cast<unsigned char>(g >> ((i & 7) * 8));
      if ((i & 7) == 7) g = g * 6364136223846793005ull + 1442695040888963407ull;
    }
    track(p);
    return p;
  }
  void* q = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (q && heap_born) heap_born(q, n);
  return q;
}
static void put(void* p) noexcept {
  if (!p) return;
  if (heap_dying) heap_dying(p, malloc_usable_size(p));
  untrack(p);
  free(p);
}
}  // namespace sim

extern "C" {
#ifdef SIM_EDGES
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  if (a == b || *a) return;
  static uint32_t n;
  for (uint32_t* x = a; x < b; x++) *x = ++n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t*) { sim::sim_edge(); }
const char* __asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:malloc_context_size=4:"
         "quarantine_size_mb=64";
}
const char* __ubsan_default_options() { return "print_stacktrace=0"; }
#endif
}

void* operator new(std::size_t n) {
  void* p = sim::get(n, 0);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](std::size_t n) {
  void* p = sim::get(n, 0);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  return sim::get(n, 0);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept {
  return sim::get(n, 0);
}
void* operator new(std::size_t n, std::align_val_t a) {
  void* p = sim::get(n, std::size_t(a));
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](std::size_t n, std::align_val_t a) {
  void* p = sim::get(n, std::size_t(a));
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(std::size_t n, std::align_val_t a,
                   const std::nothrow_t&) noexcept {
  return sim::get(n, std::size_t(a));
}
void* operator new[](std::size_t n, std::align_val_t a,
                     const std::nothrow_t&) noexcept {
  return sim::get(n, std::size_t(a));
}
void operator delete(void* p) noexcept { sim::put(p); }
void operator delete[](void* p) noexcept { sim::put(p); }
void operator delete(void* p, std::size_t) noexcept { sim::put(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept {
  sim::put(p);
}
void operator delete(void* p, std::align_val_t) noexcept { sim::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept {
  sim::put(p);
}
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept {
  sim::put(p);
}
void operator delete(void* p, std::align_val_t,
                     const std::nothrow_t&) noexcept {
  sim::put(p);
}
void operator delete[](void* p, std::align_val_t,
                       const std::nothrow_t&) noexcept {
  sim::put(p);
}
