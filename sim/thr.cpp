#include "thr.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>

namespace sim {
using u8 = unsigned char;
using u16 = unsigned short;
namespace thr {
Stats stats;
bool racing = false;
bool report_races = true;
u64 budget = 0;
void (*on_problem)(const char*, const std::string&) = nullptr;
std::string (*step_name)(u32) = nullptr;
namespace {
// ------------------------------------------------------------- scheduler
enum { READY, BLOCKED, DONE };
struct Pt {
  u64 n;
  int to;
};
struct Th {
  volatile int gate;
  int state;
  int inlib;
  const void* on;
  u32 step;
  u64 spent;      // events since the last boundary
  u64 slice;      // accesses since it got the processor
  u64 cnt[3];
  std::vector<Pt>* pre[3];
  std::size_t nx[3];
  u64 next_access;
  char* lo;  // stack
  char* hi;
  u32 vc[MAXT];
};
Th th[MAXT];
thread_local int me = 0;
int nth = 0;
bool started = false;
u64 clock_ = 1;
void (*body)(int, void*);
void* body_arg;
constexpr u64 SLICE = 3000000;

void futex_wait(volatile int* a) {
  while (!__atomic_load_n(a, __ATOMIC_ACQUIRE)) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(a, 0, __ATOMIC_RELEASE);
}
void give(int t) {
  __atomic_store_n(&th[t].gate, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, &th[t].gate, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
int pick(int from, int want) {
  if (want >= 1 && want <= nth && th[want].state == READY) return want;
  for (int k = 1; k <= nth; k++) {
    int t = (from - 1 + k) % nth + 1;
    if (th[t].state == READY && t != from) return t;
  }
  return th[from].state == READY ? from : 0;
}
void switch_to(int t) {
  if (t == me) return;
  stats.switches++;
  clock_++;
  stats.order = mix(stats.order ^ (u64(me) << 32 | u64(t) << 24 | (th[me].step & 0xffff)));
  th[t].slice = 0;
  give(t);
  futex_wait(&th[me].gate);
}
void fire(int kind) {
  Th& x = th[me];
  int to = (*x.pre[kind])[x.nx[kind]++].to;
  int t = pick(me, to);
  if (t && t != me) {
    stats.preempts++;
    stats.fired[kind]++;
    switch_to(t);
  }
}
inline void event(int kind) {
  Th& x = th[me];
  u64 n = ++x.cnt[kind];
  while (x.nx[kind] < x.pre[kind]->size() && (*x.pre[kind])[x.nx[kind]].n <= n) {
    fire(kind);
  }
}
void problem(const char* cls, const std::string& m) {
  racing = false;
  if (on_problem) on_problem(cls, m);
  abort();
}
void spend() {
  Th& x = th[me];
  if (budget && ++x.spent > budget) problem("hang", "an operation exceeded its bound of steps");
}
void block(const void* on) {
  Th& x = th[me];
  stats.blocks++;
  x.state = BLOCKED;
  x.on = on;
  int t = pick(me, 0);
  if (!t) problem("deadlock", "every thread waits for another one");
  switch_to(t);
}
void wake(const void* on) {
  for (int t = 1; t <= nth; t++)
    if (th[t].state == BLOCKED && th[t].on == on) th[t].state = READY;
}
// --------------------------------------------------- synchronisation objects
struct Sync {
  const void* a;
  u32 vc[MAXT];
  int owner;      // mutex owner / -1
  int depth;
  int readers;    // rwlock
  u64 rmask;
};
constexpr u32 NSYNC = 1u << 14;
Sync* syncs;
u32 nsync;
Sync& sync_of(const void* a) {
  if (!syncs) {
    syncs = static_cast<Sync*>(mmap(nullptr, NSYNC * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  }
  u32 i = u32(mix(reinterpret_cast<u64>(a))) & (NSYNC - 1);
  while (syncs[i].a && syncs[i].a != a) i = (i + 1) & (NSYNC - 1);
  if (!syncs[i].a) {
    if (++nsync > NSYNC - 8) abort();
    syncs[i].a = a;
    syncs[i].owner = -1;
  }
  return syncs[i];
}
void acquire(const u32* v) {
  for (int i = 0; i < MAXT; i++)
    if (v[i] > th[me].vc[i]) th[me].vc[i] = v[i];
}
void release(u32* v) {
  for (int i = 0; i < MAXT; i++)
    if (th[me].vc[i] > v[i]) v[i] = th[me].vc[i];
  th[me].vc[me]++;
}
// ------------------------------------------------------------ race detector
struct Cell {
  u32 wclk;
  u16 wstep;
  u8 wtid, wmask;
  u32 rclk[MAXT];
  u16 rstep[MAXT];
  u8 rmask[MAXT];
};
constexpr u64 PG = 4096, CPP = PG / 8;
struct Page {
  u64 no;
  Cell* c;
};
constexpr u32 NPAGE = 1u << 15;
Page* pages;
u64 last_no = ~0ull;
Cell* last_c;
Cell* arena;
u32 arena_left;
Cell* page_of(u64 no, bool create) {
  if (no == last_no) return last_c;
  if (!pages)
    pages = static_cast<Page*>(mmap(nullptr, NPAGE * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  u32 i = u32(mix(no)) & (NPAGE - 1);
  while (pages[i].c && pages[i].no != no) i = (i + 1) & (NPAGE - 1);
  if (!pages[i].c) {
    if (!create) return nullptr;
    if (!arena_left) {
      arena_left = 64;
      arena = static_cast<Cell*>(mmap(nullptr, 64 * CPP * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    }
    pages[i].no = no;
    pages[i].c = arena;
    arena += CPP;
    arena_left--;
  }
  last_no = no;
  last_c = pages[i].c;
  return last_c;
}
std::string sname(u32 s) { return step_name ? step_name(s) : std::to_string(s); }
struct Exempt {
  u64 lo, hi;
} ex[8];
int nex = 0;
void race(const Cell& c, int other, bool ow, bool w) {
  if (!report_races) return;
  u32 os = ow ? c.wstep : c.rstep[other];
  // the unordered pair, so that the report does not depend on the order
  problem("race", std::string("thread ") + std::to_string(me) + (w ? " writes" : " reads") + " in " + sname(th[me].step) +
                      " what thread " + std::to_string(other) + (ow ? " writes" : " reads") + " in " + sname(os) +
                      " without synchronisation");
}
// returns true if others have to do with that granule
inline bool check(u64 a, unsigned n, bool w, bool record) {
  u64 g = a >> 3;
  unsigned off = unsigned(a & 7);
  u8 mask = u8(((1u << n) - 1) << off);
  Cell& c = page_of(g / CPP, true)[g % CPP];
  Th& x = th[me];
  bool shared = false;
  if (c.wmask && c.wtid != me) {
    if ((c.wmask & mask) && c.wclk > x.vc[c.wtid]) race(c, c.wtid, true, w);
    shared = c.wtid != 0;
  }
  if (w) {
    for (int t = 0; t <= nth; t++)
      if (t != me && c.rmask[t]) {
        if ((c.rmask[t] & mask) && c.rclk[t] > x.vc[t]) race(c, t, false, w);
        shared = shared || t;
      }
    if (record) {
      if (c.wmask && c.wtid == me && c.wclk == x.vc[me]) {
        c.wmask |= mask;
      } else {
        c.wmask = mask;
      }
      c.wtid = u8(me);
      c.wclk = x.vc[me];
      c.wstep = u16(x.step);
    }
  } else if (record) {
    c.rmask[me] = c.rclk[me] == x.vc[me] ? u8(c.rmask[me] | mask) : mask;
    c.rclk[me] = x.vc[me];
    c.rstep[me] = u16(x.step);
  }
  return shared;
}
inline bool own_stack(u64 a) { return a >= reinterpret_cast<u64>(th[me].lo) && a < reinterpret_cast<u64>(th[me].hi); }
void sync_ev();
inline void access(const void* p, std::size_t n, bool w) {
  if (!racing || !th[me].inlib) return;
  Th& x = th[me];
  u64 a = reinterpret_cast<u64>(p);
  bool shared = false;
  for (int i = 0; i < nex; i++)
    if (a >= ex[i].lo && a < ex[i].hi) {
      sync_ev();
      return;
    }
  if (!own_stack(a)) {
    while (n) {
      unsigned k = unsigned(std::min<std::size_t>(n, 8 - (a & 7)));
      shared |= check(a, k, w, true);
      a += k;
      n -= k;
    }
  }
  if (!me || !started) return;
  stats.accesses++;
  spend();
  if (shared) {
    stats.syncs++;
    event(PK_SYNC);
  }
  if (++x.cnt[PK_ACCESS] >= x.next_access) {
    x.cnt[PK_ACCESS]--;
    event(PK_ACCESS);
    x.next_access = x.nx[0] < x.pre[0]->size() ? (*x.pre[0])[x.nx[0]].n : ~0ull;
  }
  if (++x.slice > SLICE) {
    int t = pick(me, 0);
    x.slice = 0;
    if (t && t != me) {
      stats.forced++;
      switch_to(t);
    }
  }
}
void sync_ev() {
  if (!me || !started || !th[me].inlib) return;
  stats.syncs++;
  spend();
  event(PK_SYNC);
}
void clear_range(u64 a, u64 n) {
  u64 e = a + n;
  for (u64 g = a >> 3; g <= (e - 1) >> 3; g++) {
    Cell* c = page_of(g / CPP, false);
    if (!c) {
      g = (g / CPP + 1) * CPP - 1;
      continue;
    }
    std::memset(&c[g % CPP], 0, sizeof(Cell));
  }
}
void* entry(void* a) {
  int t = int(reinterpret_cast<intptr_t>(a));
  futex_wait(&th[t].gate);
  me = t;
  pthread_attr_t at;
  void* lo;
  size_t sz;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &lo, &sz);
  th[t].lo = static_cast<char*>(lo);
  th[t].hi = th[t].lo + sz;
  body(t, body_arg);
  Th& x = th[t];
  x.state = DONE;
  // the main thread continues after the last one
  int n = pick(t, 0);
  bool any = false;
  for (int i = 1; i <= nth; i++) any = any || th[i].state == BLOCKED;
  if (!n && any) problem("deadlock", "the remaining threads wait for each other");
  for (int i = 0; i < MAXT; i++)
    if (x.vc[i] > th[0].vc[i]) th[0].vc[i] = x.vc[i];
  stats.order = mix(stats.order ^ u64(n));
  if (n) th[n].slice = 0;
  give(n);
  futex_wait(&x.gate);  // ends when the main thread says so
  me = 0;
  return nullptr;
}
template <class F>
F next(const char* n) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
}  // namespace

void exempt(const void* p, std::size_t n) {
  if (nex < 8) ex[nex++] = Exempt{reinterpret_cast<u64>(p), reinterpret_cast<u64>(p) + n};
}
int self() { return me; }
u64 now() { return ++clock_; }
void step_is(u32 s) { th[me].step = s; }
Lib::Lib() { th[me].inlib++; }
Lib::~Lib() { th[me].inlib--; }
void boundary() {
  if (!me || !started) return;
  th[me].spent = 0;
  event(PK_STEP);
}
void sync_event() { sync_ev(); }
void touch(const void* p, std::size_t n, bool w) { access(p, n, w); }
void born(void* p, std::size_t n) {
  if (racing && n) clear_range(reinterpret_cast<u64>(p), n);
}
void dying(void* p, std::size_t n) {
  if (!racing || !n) return;
  if (!th[me].inlib) return clear_range(reinterpret_cast<u64>(p), n);
  // freeing is a write: whoever still uses it unordered is in a race
  u64 a = reinterpret_cast<u64>(p), e = a + n;
  for (; a < e; a = (a | 7) + 1) check(a, unsigned(std::min<u64>(8 - (a & 7), e - a)), true, false);
  clear_range(reinterpret_cast<u64>(p), n);
}
void init(int n, const std::vector<Preempt>& pre) {
  nth = n;
  for (int t = 0; t < MAXT; t++) {
    Th& x = th[t];
    for (int k = 0; k < 3; k++) {
      x.pre[k] = new std::vector<Pt>;
      for (auto& p : pre)
        if (int(p.th) == t && int(p.to >> 8) == k) x.pre[k]->push_back(Pt{p.n, int(p.to & 255)});
      std::stable_sort(x.pre[k]->begin(), x.pre[k]->end(), [](const Pt& a, const Pt& b) { return a.n < b.n; });
    }
    x.next_access = x.pre[0]->empty() ? ~0ull : (*x.pre[0])[0].n;
    x.vc[t] = 1;
  }
}
void run(int n, void (*fn)(int, void*), void* arg) {
  body = fn;
  body_arg = arg;
  auto real_create = next<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  pthread_t id[MAXT];
  for (int t = 1; t <= n; t++) {
    for (int i = 0; i < MAXT; i++) th[t].vc[i] = std::max(th[t].vc[i], th[0].vc[i]);
    th[t].state = READY;
    if (real_create(&id[t], &at, entry, reinterpret_cast<void*>(intptr_t(t)))) abort();
  }
  th[0].vc[0]++;
  started = true;
  give(1);
  futex_wait(&th[0].gate);
  started = false;
  for (int t = 1; t <= n; t++) {
    give(t);
    pthread_join(id[t], nullptr);
  }
}
// ------------------------------------------------- used by the interposers
bool managed() { return racing; }
void m_lock(const void* m, bool rec) {
  sync_ev();
  Sync& s = sync_of(m);
  if (s.owner == me && s.depth) {
    if (!rec) problem("deadlock", "a thread waits for a lock that it holds itself");
    s.depth++;
    return;
  }
  while (s.depth || s.readers) {
    if (!me) problem("deadlock", "a lock is never released");
    block(m);
  }
  s.owner = me;
  s.depth = 1;
  acquire(s.vc);
}
bool m_try(const void* m, bool rec) {
  sync_ev();
  Sync& s = sync_of(m);
  if (s.owner == me && s.depth) {
    if (!rec) return false;
    s.depth++;
    return true;
  }
  if (s.depth || s.readers) return false;
  s.owner = me;
  s.depth = 1;
  acquire(s.vc);
  return true;
}
void m_unlock(const void* m) {
  Sync& s = sync_of(m);
  if (!s.depth) return;
  if (s.owner != me) problem("lock", "a lock is released by a thread that does not hold it");
  if (--s.depth) return;
  release(s.vc);
  s.owner = -1;
  wake(m);
  sync_ev();
}
void r_lock(const void* m) {
  sync_ev();
  Sync& s = sync_of(m);
  while (s.depth) block(m);
  s.readers++;
  acquire(s.vc);
}
void rw_unlock(const void* m) {
  Sync& s = sync_of(m);
  if (s.depth) return m_unlock(m);
  if (!s.readers) return;
  release(s.vc);
  s.readers--;
  wake(m);
  sync_ev();
}
void a_load(const void* p, unsigned n, int mo) {
  if (!racing || !th[me].inlib) return;
  if (!own_stack(reinterpret_cast<u64>(p))) check(reinterpret_cast<u64>(p), n, false, false);
  sync_ev();
  if (mo != 0) acquire(sync_of(p).vc);
}
void a_store(const void* p, unsigned n, int mo) {
  if (!racing || !th[me].inlib) return;
  if (!own_stack(reinterpret_cast<u64>(p))) check(reinterpret_cast<u64>(p), n, true, false);
  if (mo >= 3) release(sync_of(p).vc);
}
void a_rmw(const void* p, unsigned n, int mo) {
  if (!racing || !th[me].inlib) return;
  if (!own_stack(reinterpret_cast<u64>(p))) check(reinterpret_cast<u64>(p), n, true, false);
  sync_ev();
  Sync& s = sync_of(p);
  if (mo == 1 || mo == 2 || mo >= 4) acquire(s.vc);
  if (mo >= 3) release(s.vc);
}
// 0: done already, 1: to be done by the caller
int once_begin(const void* o, volatile u8* flag) {
  sync_ev();
  Sync& s = sync_of(o);
  for (;;) {
    if (*flag) {
      acquire(s.vc);
      return 0;
    }
    if (!s.depth) break;
    if (s.owner == me) problem("deadlock", "an initialisation waits for itself");
    block(o);
  }
  s.depth = 1;
  s.owner = me;
  acquire(s.vc);
  return 1;
}
void once_end(const void* o, volatile u8* flag, bool ok) {
  Sync& s = sync_of(o);
  if (ok) *flag = 1;
  s.depth = 0;
  s.owner = -1;
  release(s.vc);
  wake(o);
  sync_ev();
}
void cond_wait(const void* c, const void* m, bool rec) {
  Sync& s = sync_of(m);
  s.depth = 0;
  release(s.vc);
  s.owner = -1;
  wake(m);
  block(c);
  m_lock(m, rec);
}
// gives everybody else a chance
void yield_now() {
  if (!me || !started) return;
  sync_ev();
  int t = pick(me, 0);
  if (t && t != me) {
    stats.forced++;
    switch_to(t);
  }
}
void forget_sync(const void* a) { (void)a; }
}  // namespace thr
}  // namespace sim
using namespace sim::thr;

#define VIS __attribute__((visibility("default")))
extern "C" {
static bool rec_kind(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
VIS int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (racing) return m_lock(m, rec_kind(m)), 0;
  static auto real = next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  return real(m);
}
VIS int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (racing) return m_try(m, rec_kind(m)) ? 0 : EBUSY;
  static auto real = next<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  return real(m);
}
VIS int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (racing) return m_unlock(m), 0;
  static auto real = next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  return real(m);
}
VIS int pthread_spin_lock(pthread_spinlock_t* m) noexcept { return m_lock(const_cast<int*>(m), false), 0; }
VIS int pthread_spin_trylock(pthread_spinlock_t* m) noexcept { return m_try(const_cast<int*>(m), false) ? 0 : EBUSY; }
VIS int pthread_spin_unlock(pthread_spinlock_t* m) noexcept { return m_unlock(const_cast<int*>(m)), 0; }
VIS int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return m_lock(m, false), 0; }
VIS int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return r_lock(m), 0; }
VIS int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return m_try(m, false) ? 0 : EBUSY; }
VIS int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { return r_lock(m), 0; }
VIS int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { return rw_unlock(m), 0; }
VIS int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, rec_kind(m)), 0; }
VIS int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const struct timespec*) {
  m_unlock(m);
  yield_now();
  m_lock(m, rec_kind(m));
  return ETIMEDOUT;
}
VIS int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) {
  return pthread_cond_timedwait(c, m, t);
}
VIS int pthread_cond_signal(pthread_cond_t* c) noexcept { return wake(c), 0; }
VIS int pthread_cond_broadcast(pthread_cond_t* c) noexcept { return wake(c), 0; }
VIS int pthread_once(pthread_once_t* o, void (*f)()) {
  if (!racing) {
    static auto real = next<int (*)(pthread_once_t*, void (*)())>("pthread_once");
    return real(o, f);
  }
  // 2 is what the C library uses for a completed initialisation
  volatile sim::u8* b = reinterpret_cast<volatile sim::u8*>(o);
  if (*b == 2) {
    sync_ev();
    acquire(sync_of(o).vc);
    return 0;
  }
  if (!once_begin(o, b)) return 0;
  try {
    f();
  } catch (...) {
    once_end(o, b, false);
    throw;
  }
  once_end(o, b, true);
  *b = 2;
  return 0;
}
VIS int __cxa_guard_acquire(sim::u64* g) {
  volatile sim::u8* b = reinterpret_cast<volatile sim::u8*>(g);
  if (racing) return once_begin(g, b);
  if (*b) return 0;
  return 1;
}
VIS void __cxa_guard_release(sim::u64* g) {
  volatile sim::u8* b = reinterpret_cast<volatile sim::u8*>(g);
  if (racing) return once_end(g, b, true);
  *b = 1;
}
VIS void __cxa_guard_abort(sim::u64* g) {
  if (racing) once_end(g, reinterpret_cast<volatile sim::u8*>(g), false);
}
VIS int sched_yield() noexcept {
  yield_now();
  return 0;
}
VIS int nanosleep(const struct timespec* a, struct timespec* b) {
  if (racing) return yield_now(), 0;
  return int(syscall(SYS_nanosleep, a, b));
}
VIS int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) {
  if (racing) return yield_now(), 0;
  return int(syscall(SYS_clock_nanosleep, c, f, a, b));
}
VIS int usleep(unsigned) {
  yield_now();
  return 0;
}
// functions of the C library with a static result
static char static_time[2][8] __attribute__((aligned(8)));
#define STATIC_RESULT(ret, name, arg, which)                         \
  VIS ret name(arg a) noexcept {                                     \
    static auto real = next<ret (*)(arg)>(#name);                    \
    if (racing) {                                                    \
      touch(static_time[which], 8, true);                            \
      sync_ev();                                                     \
    }                                                                \
    ret r = real(a);                                                 \
    if (racing) sync_ev();                                           \
    return r;                                                        \
  }
STATIC_RESULT(struct tm*, localtime, const time_t*, 0)
STATIC_RESULT(struct tm*, gmtime, const time_t*, 0)
STATIC_RESULT(char*, asctime, const struct tm*, 1)
STATIC_RESULT(char*, ctime, const time_t*, 1)

VIS void* __cxa_allocate_exception(size_t n) noexcept {
  static auto real = next<void* (*)(size_t)>("__cxa_allocate_exception");
  void* p = real(n);
  if (p) born(static_cast<char*>(p) - 128, n + 128);
  return p;
}

// ------------------------------------------------ instrumentation interface
VIS void __tsan_init() {}
VIS void __tsan_func_entry(void*) {}
VIS void __tsan_func_exit() {}
VIS void __tsan_ignore_thread_begin() {}
VIS void __tsan_ignore_thread_end() {}
#define RW(n)                                                                  \
  VIS void __tsan_read##n(void* p) { access(p, n, false); }                    \
  VIS void __tsan_write##n(void* p) { access(p, n, true); }                    \
  VIS void __tsan_unaligned_read##n(void* p) { access(p, n, false); }          \
  VIS void __tsan_unaligned_write##n(void* p) { access(p, n, true); }          \
  VIS void __tsan_volatile_read##n(void* p) { access(p, n, false); }           \
  VIS void __tsan_volatile_write##n(void* p) { access(p, n, true); }           \
  VIS void __tsan_read_write##n(void* p) { access(p, n, true); }               \
  VIS void __tsan_unaligned_read_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
VIS void __tsan_vptr_read(void** p) { access(p, 8, false); }
VIS void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) access(p, 8, true);
}
VIS void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
VIS void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
VIS void* __tsan_memcpy(void* d, const void* s, size_t n) {
  access(s, n, false);
  access(d, n, true);
  return memcpy(d, s, n);
}
VIS void* __tsan_memmove(void* d, const void* s, size_t n) {
  access(s, n, false);
  access(d, n, true);
  return memmove(d, s, n);
}
VIS void* __tsan_memset(void* d, int c, size_t n) {
  access(d, n, true);
  return memset(d, c, n);
}
#define ATOMIC(bits, T)                                                                            \
  VIS T __tsan_atomic##bits##_load(const volatile T* p, int mo) {                                  \
    a_load(const_cast<const T*>(p), bits / 8, mo);                                                 \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                   \
  }                                                                                                \
  VIS void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) {                               \
    a_store(const_cast<const T*>(p), bits / 8, mo);                                                \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                      \
    if (racing) sync_ev();                                                                         \
  }                                                                                                \
  VIS T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) {                               \
    a_rmw(const_cast<const T*>(p), bits / 8, mo);                                                  \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                            \
  }                                                                                                \
  ATOMIC_OP(bits, T, add) ATOMIC_OP(bits, T, sub) ATOMIC_OP(bits, T, and)                          \
  ATOMIC_OP(bits, T, or) ATOMIC_OP(bits, T, xor) ATOMIC_OP(bits, T, nand)                          \
  VIS int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) {   \
    a_rmw(const_cast<const T*>(p), bits / 8, mo);                                                  \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);        \
  }                                                                                                \
  VIS int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) {     \
    a_rmw(const_cast<const T*>(p), bits / 8, mo);                                                  \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);        \
  }                                                                                                \
  VIS T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) {         \
    a_rmw(const_cast<const T*>(p), bits / 8, mo);                                                  \
    __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);              \
    return e;                                                                                      \
  }
#define ATOMIC_OP(bits, T, op)                                              \
  VIS T __tsan_atomic##bits##_fetch_##op(volatile T* p, T v, int mo) {      \
    a_rmw(const_cast<const T*>(p), bits / 8, mo);                           \
    return __atomic_fetch_##op(p, v, __ATOMIC_SEQ_CST);                     \
  }
ATOMIC(8, sim::u8)
ATOMIC(16, sim::u16)
ATOMIC(32, sim::u32)
ATOMIC(64, sim::u64)
VIS void __tsan_atomic_thread_fence(int) {
  // strongest reading: synchronises with every other fence
  static char all;
  if (!racing) return;
  sync_ev();
  sim::u32* v = sync_of(&all).vc;
  acquire(v);
  release(v);
}
VIS void __tsan_atomic_signal_fence(int) {}
}
