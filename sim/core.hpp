// Deterministic simulation core: PRNG, plans, forked runs, batch driver,
// minimiser.  A plan (header, steps, preemptions) decides one execution
// completely; generation from a seed is separate from execution.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {
using u64 = std::uint64_t;
using u32 = std::uint32_t;
using i64 = std::int64_t;

inline u64 mix(u64 x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(mix(seed ^ 0x5DEECE66Dull)) {}
  u64 next() {
    s += 0x9E3779B97F4A7C15ull;
    u64 x = s;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  bool chance(double p) { return uni() < p; }
  double uni() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  double range(double lo, double hi) { return lo + (hi - lo) * uni(); }
};
struct Hash {
  u64 h = 0xCBF29CE484222325ull;
  void add(u64 v) { h = mix(h ^ v) + v * 0x100000001B3ull; }
  void bytes(const void* p, std::size_t n) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    u64 x = 0;
    add(n);
    while (n >= 8) {
      std::memcpy(&x, c, 8);
      add(x);
      c += 8;
      n -= 8;
    }
    x = 0;
    if (n) {
      std::memcpy(&x, c, n);
      add(x);
    }
  }
  void str(const std::string& s) { bytes(s.data(), s.size()); }
  void dbl(double d) {
    u64 x;
    std::memcpy(&x, &d, 8);
    add(x);
  }
};

constexpr int NA = 8;
enum FaultKind : u32 {
  F_NONE = 0,
  F_ALLOC_ONE = 1,    // the fpos-th allocation of the step fails
  F_ALLOC_RUN = 2,    // fcnt allocations from the fpos-th on fail
  F_ALLOC_ALL = 3,    // every allocation from the fpos-th on fails
  F_ALLOC_SIZE = 4,   // allocations of at least fpos bytes fail
};
struct Step {
  u32 op = 0;
  u32 a[NA] = {};
  u64 ds = 0;  // data seed of the step
  u32 fk = 0, fpos = 0, fcnt = 0;
  u32 th = 0;
};
struct Preempt {
  u32 th = 0;
  u64 n = 0;
  u32 to = 0;
};
struct Plan {
  std::string prop;
  u64 seed = 0;
  std::map<std::string, i64> h;
  std::vector<Step> steps;
  std::vector<Preempt> pre;
  i64 get(const std::string& k, i64 d = 0) const {
    auto it = h.find(k);
    return it == h.end() ? d : it->second;
  }
  std::string text() const;
  static bool parse(const std::string& text, Plan& out);
};

// Block shared between a forked child and the parent
constexpr int NSIG = 512;
constexpr int NCOUNT = 96;
struct Shared {
  volatile u32 phase, step, op, armed;
  volatile u32 done;
  volatile u32 viol;
  volatile u32 nontrivial;  // a fault fired / the schedule was perturbed
  char cls[48];
  char msg[600];
  u32 vstep, vop;
  u64 hash[8];
  u64 ticks;  // simulated steps / events
  u64 count[NCOUNT];
  u32 nsig;
  u64 sig[NSIG];
  char note[4000];
  char extra[1 << 16];
};

struct RunResult {
  bool viol = false;
  bool skipped = false;
  bool nontrivial = false;
  std::string cls, msg;
  u32 vstep = 0, vop = 0;
  u64 hash = 0;
  u64 ticks = 0;
  u64 count[NCOUNT] = {};
  std::vector<u64> sigs;
  std::string note;
};

struct ChildStatus {
  bool ok = false;          // child reached the end
  std::string cls, detail;  // otherwise "crash"/"hang"/"abort"...
};
// Runs fn in a forked child (fresh copy of this process) with the block zeroed.
ChildStatus in_child(Shared* sh, const std::function<void(Shared*)>& fn,
                     int wall_s = 120);
Shared* shared_block(int i);
// to be called in the child: record a violation (first one wins) / and stop
RunResult collect(Shared* sh, const ChildStatus& st);
inline void signature(Shared* sh, u64 s) {
  if (sh->nsig < NSIG) sh->sig[sh->nsig++] = s;
}
void violation(Shared* sh, const char* cls, const std::string& msg);
[[noreturn]] void child_stop(int code);

struct Harness {
  virtual ~Harness() = default;
  virtual Plan gen(const std::string& prop, u64 seed) = 0;
  virtual RunResult run(const Plan& p) = 0;
  virtual const char* const* counter_names() = 0;  // null terminated
  virtual std::string op_name(u32 op) = 0;
  virtual std::string describe(const Step& s) {
    std::string t = op_name(s.op) + "(";
    int last = NA - 1;
    while (last >= 0 && !s.a[last]) last--;
    for (int i = 0; i <= last; i++)
      t += (i ? "," : "") + std::to_string(s.a[i]);
    t += ")";
    if (s.th) t = "thread " + std::to_string(s.th) + ": " + t;
    static const char* const fk[] = {
        "", " allocation #", " allocations from #",
        " every allocation from #", " allocations of at least bytes "};
    if (s.fk >= 1 && s.fk <= 4)
      t += std::string(" fault:") + fk[s.fk] + std::to_string(s.fpos) +
           (s.fk == F_ALLOC_RUN ? " (" + std::to_string(s.fcnt) + ")" : "");
    else if (s.fk)
      t += " fault:" + std::to_string(s.fk) + "@" + std::to_string(s.fpos);
    return t;
  }
  // candidate simplifications of one step, simplest first
  virtual void simplify(const Step& s, std::vector<Step>& out) {
    Step t = s;
    if (s.fk) {
      t.fk = t.fpos = t.fcnt = 0;
      out.push_back(t);
    }
    for (int i = 0; i < NA; i++)
      if (s.a[i]) {
        t = s;
        t.a[i] = 0;
        out.push_back(t);
        if (s.a[i] > 1) {
          t.a[i] = s.a[i] / 2;
          out.push_back(t);
          t.a[i] = s.a[i] - 1;
          out.push_back(t);
        }
      }
    if (s.fk && s.fpos > 0) {
      t = s;
      t.fpos = s.fpos / 2;
      out.push_back(t);
      t.fpos = s.fpos - 1;
      out.push_back(t);
    }
  }
  virtual void simplify_header(const Plan&, std::vector<Plan>&) {}
};
int harness_main(Harness& h, int argc, char** argv);
}  // namespace sim
