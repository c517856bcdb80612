// Differentiated numbers with run-time sized gradients in a process whose heap
// fails (C15).
#include <algorithm>
#include <array>
#include <cmath>
#include <stdexcept>
#include <vector>

#include "alloc.hpp"
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"

using namespace sim;
namespace {
using ld = long double;
using AD = bezman::utils::computational_differentiation::AlgoDiffType<double>;
using AS = bezman::utils::computational_differentiation::AlgoDiffType<double, 2>;
using AN = bezman::utils::computational_differentiation::AlgoDiffType<AS>;

enum Op : u32 {
  A_BIN, A_BINS, A_UNARY, A_INPLACE, A_INPLACES, A_ASSIGN, A_MOVE, A_COPY, A_MAKE, A_EXPR, A_COMPARE,
  A_PUSH, A_VASSIGN, A_VSET, A_VGET, A_VINSERT, A_VERASE, A_VSORT, A_VSUM, A_VRESIZE, A_SWAP, A_ACTIVE, NOP
};
const char* const names[] = {
    "binary", "binary-with-scalar", "function", "in-place", "in-place-with-scalar", "assign", "move-assign", "copy",
    "construct", "expression", "compare", "vector-append", "vector-assign", "vector-element-assign",
    "assign-from-element", "vector-insert", "vector-erase", "vector-sort", "vector-sum", "vector-resize", "swap",
    "set-active"};
enum {
  K_OPS, K_SKIP, K_OOM, K_RETRY, K_SELF, K_PAIR, K_MODEL, K_F1, K_F2, K_F3, K_F4, K_NEW, K_OLD, K_NEST, K_SIZE, K_PRE, NK
};
const char* const counters[] = {
    "operations executed", "operations outside the covered domain", "operations that ran out of memory",
    "retries after a failure", "operations with the target as argument", "value-gradient pairs checked after a failure",
    "pairs judged by the model", "fault: single allocation failed", "fault: several allocations failed",
    "fault: all allocations from one on failed", "fault: large allocations failed",
    "numbers holding the new pair after a failure", "numbers holding the old pair after a failure",
    "second-order operations", "assignments between numbers of different gradient sizes",
    "first attempts that failed before any success with these arguments", nullptr};
Shared* S;
[[noreturn]] void bad(const char* cls, const std::string& m) {
  violation(S, cls, m);
  child_stop(3);
}
// ---- reference arithmetic
template <class T>
struct J {
  T v{};
  std::vector<T> d;
};
ld f_exp(ld x) { return std::exp(x); }
ld f_log(ld x) { return std::log(x); }
ld f_sqrt(ld x) { return std::sqrt(x); }
ld f_sin(ld x) { return std::sin(x); }
ld f_cos(ld x) { return std::cos(x); }
ld f_tan(ld x) { return std::tan(x); }
ld f_acos(ld x) { return std::acos(x); }
ld f_asin(ld x) { return std::asin(x); }
ld f_atan(ld x) { return std::atan(x); }
ld real(ld x) { return x; }
template <class T>
ld real(const J<T>& x) { return real(x.v); }
template <class T>
J<T> operator+(const J<T>& a, const J<T>& b) {
  J<T> r;
  r.v = a.v + b.v;
  for (std::size_t i = 0; i < a.d.size(); i++) r.d.push_back(a.d[i] + b.d[i]);
  return r;
}
template <class T>
J<T> operator*(const J<T>& a, const J<T>& b) {
  J<T> r;
  r.v = a.v * b.v;
  for (std::size_t i = 0; i < a.d.size(); i++) r.d.push_back(a.d[i] * b.v + a.v * b.d[i]);
  return r;
}
J<ld> konst(ld c, const J<ld>& like) { return {c, std::vector<ld>(like.d.size(), 0)}; }
ld konst(ld c, ld) { return c; }
J<J<ld>> konst(ld c, const J<J<ld>>& like) {
  J<ld> z = konst(0, like.v);
  return {konst(c, like.v), std::vector<J<ld>>(like.d.size(), z)};
}
template <class T>
J<T> scale(const J<T>& a, ld c) { return a * konst(c, a); }
ld scale(ld a, ld c) { return a * c; }
template <class T>
J<T> operator-(const J<T>& a, const J<T>& b) { return a + scale(b, -1); }
template <class T>
J<T> chain(const J<T>& x, const T& fv, const T& fd) {
  J<T> r;
  r.v = fv;
  for (const T& t : x.d) r.d.push_back(t * fd);
  return r;
}
ld f_inv(ld x) { return 1 / x; }
template <class T>
J<T> f_inv(const J<T>& x) {
  T i = f_inv(x.v);
  return chain(x, i, scale(i * i, -1));
}
template <class T>
J<T> f_exp(const J<T>& x) { return chain(x, f_exp(x.v), f_exp(x.v)); }
template <class T>
J<T> f_log(const J<T>& x) { return chain(x, f_log(x.v), f_inv(x.v)); }
template <class T>
J<T> f_sqrt(const J<T>& x) { return chain(x, f_sqrt(x.v), scale(f_inv(f_sqrt(x.v)), 0.5L)); }
template <class T>
J<T> f_cos(const J<T>& x);
template <class T>
J<T> f_sin(const J<T>& x) { return chain(x, f_sin(x.v), f_cos(x.v)); }
template <class T>
J<T> f_cos(const J<T>& x) { return chain(x, f_cos(x.v), scale(f_sin(x.v), -1)); }
template <class T>
J<T> f_tan(const J<T>& x) { return f_sin(x) * f_inv(f_cos(x)); }
template <class T>
J<T> f_atan(const J<T>& x) { return chain(x, f_atan(x.v), f_inv(konst(1, x.v) + x.v * x.v)); }
J<ld> f_acos(const J<ld>& x) { return chain(x, f_acos(x.v), -1 / f_sqrt(1 - x.v * x.v)); }
J<ld> f_asin(const J<ld>& x) { return chain(x, f_asin(x.v), 1 / f_sqrt(1 - x.v * x.v)); }

// ---- flat pictures of numbers
using Pic = std::vector<double>;  // value then gradient, each maybe with its own gradient
Pic pic(const AD& a) {
  Pic p{a.GetValue()};
  auto d = a.GetDerivatives();
  p.insert(p.end(), d.begin(), d.end());
  return p;
}
void put(Pic& p, const AS& a) {
  p.push_back(a.GetValue());
  auto d = a.GetDerivatives();
  p.insert(p.end(), d.begin(), d.end());
}
Pic pic(const AN& a) {
  Pic p;
  put(p, a.GetValue());
  for (const AS& x : a.GetDerivatives()) put(p, x);
  return p;
}
bool same(const Pic& a, const Pic& b) {
  return a.size() == b.size() && !std::memcmp(a.data(), b.data(), 8 * a.size());
}
template <class N>
struct Tr;
template <>
struct Tr<AD> {
  static constexpr bool nested = false;
  using M = J<ld>;
  static M model(const Pic& p) {
    M m;
    m.v = p[0];
    for (std::size_t i = 1; i < p.size(); i++) m.d.push_back(p[i]);
    return m;
  }
  static std::vector<ld> flat(const M& m) {
    std::vector<ld> r{m.v};
    r.insert(r.end(), m.d.begin(), m.d.end());
    return r;
  }
  static AD make(double v, std::size_t n, Rng& r) {
    AD a(v, n);
    if (n && r.chance(0.7)) {
      // a general gradient
      for (std::size_t i = 0; i < n; i++) a += r.range(-2, 2) * AD(0., n, i);
      a += v - a.GetValue();
    }
    return a;
  }
  static double scalar(double s) { return s; }
};
template <>
struct Tr<AN> {
  static constexpr bool nested = true;
  using M = J<J<ld>>;
  static M model(const Pic& p) {
    M m;
    auto one = [&](std::size_t i) { return J<ld>{p[i], {p[i + 1], p[i + 2]}}; };
    m.v = one(0);
    for (std::size_t i = 3; i < p.size(); i += 3) m.d.push_back(one(i));
    return m;
  }
  static std::vector<ld> flat(const M& m) {
    std::vector<ld> r;
    auto one = [&](const J<ld>& x) {
      r.push_back(x.v);
      r.insert(r.end(), x.d.begin(), x.d.end());
    };
    one(m.v);
    for (auto& x : m.d) one(x);
    return r;
  }
  static AN make(double v, std::size_t n, Rng& r) {
    AN a(AS(v, std::size_t(r.below(2))), n);
    if (n) a.SetActiveComponent(r.below(n));
    return a;
  }
  static AS scalar(double s) { return AS(s); }
};
constexpr int NSLOT = 6, NVEC = 2;
template <class N>
struct World {
  std::array<N, NSLOT> x;
  std::array<std::vector<N>, NVEC> v;
};
struct Case {
  u32 op, f, a, b, c, i;
  double s;
  std::size_t n;
};
template <class N>
struct Run {
  using W = World<N>;
  using M = typename Tr<N>::M;
  const Plan& plan;
  W w;
  u64 g;
  Hash h;
  explicit Run(const Plan& p) : plan(p), g(u64(p.get("garbage"))) {
    Rng r{u64(p.get("wseed"))};
    for (int i = 0; i < NSLOT; i++) w.x[i] = fresh(r, i);
    for (auto& v : w.v)
      for (u64 k = r.below(4); k--;) v.push_back(fresh(r, int(r.below(NSLOT))));
  }
  // gradients of two sizes: most numbers fit together
  std::size_t size_of(int slot) const {
    return std::size_t(slot == NSLOT - 1 ? plan.get("n2", 2) : plan.get("n", 3));
  }
  N fresh(Rng& r, int slot) {
    double v = r.chance(0.2) ? double(i64(r.below(5)) - 2) : r.range(-3, 3);
    return Tr<N>::make(v, size_of(slot), r);
  }
  using State = std::vector<std::vector<Pic>>;
  static State state(const W& q) {
    State s;
    for (auto& x : q.x) s.push_back({pic(x)});
    for (auto& v : q.v) {
      s.emplace_back();
      for (auto& x : v) s.back().push_back(pic(x));
    }
    return s;
  }
  // runs the case on world q; r receives a result
  template <class F>
  int guarded(const Step* s, u64 garbage, u64 allocs, ArmStats& st, u64& leak, std::string& what, F&& f) {
    heap_garbage(garbage);
    int status = 0;
    {
      Armed arm(s ? s->fk : 0, s ? (s->fk == F_ALLOC_SIZE ? s->fpos : s->fpos % (allocs ? allocs : 1)) : 0, s ? s->fcnt : 0);
      try {
        f();
      } catch (const std::bad_alloc&) {
        status = 1;
      } catch (const std::length_error& e) {
        status = 2;
        what = e.what();
      } catch (const std::exception& e) {
        status = 2;
        what = e.what();
      } catch (...) {
        status = 2;
      }
      st = arm.end();
    }
    leak = status ? heap_live() : 0;
    return status;
  }
  static N binary(u32 f, const N& a, const N& b) {
    switch (f % 5) {
      case 0: return a + b;
      case 1: return a - b;
      case 2: return a * b;
      case 3: return a / b;
      default: return pow(a, b);
    }
  }
  static bool m_binary(u32 f, const M& a, const M& b, M& r) {
    if (a.d.size() != b.d.size()) return false;
    switch (f % 5) {
      case 0: r = a + b; break;
      case 1: r = a - b; break;
      case 2: r = a * b; break;
      case 3:
        if (std::fabs(real(b)) < 0.05L) return false;
        r = a * f_inv(b);
        break;
      default:
        if (real(a) < 0.05L || std::fabs(real(b)) > 5) return false;
        r = f_exp(f_log(a) * b);
    }
    return true;
  }
  static N binary_s(u32 f, const N& a, double s) {
    auto q = Tr<N>::scalar(s);
    switch (f % 9) {
      case 0: return a + q;
      case 1: return a - q;
      case 2: return a * q;
      case 3:
        if constexpr (Tr<N>::nested) return a * q;
        else return a / q;
      case 4: return q + a;
      case 5: return q - a;
      case 6: return q * a;
      case 7: return q / a;
      default: return pow(a, q);
    }
  }
  static bool m_binary_s(u32 f, const M& a, ld s, M& r) {
    M k = konst(s, a);
    switch (f % 9) {
      case 0: case 4: r = a + k; break;
      case 1: r = a - k; break;
      case 2: case 6: r = a * k; break;
      case 3:
        if (std::fabs(s) < 0.05L) return false;
        r = Tr<N>::nested ? a * k : scale(a, 1 / s);
        break;
      case 5: r = k - a; break;
      case 7:
        if (std::fabs(real(a)) < 0.05L) return false;
        r = k * f_inv(a);
        break;
      default:
        if (real(a) < 0.05L) return false;
        r = f_exp(scale(f_log(a), s));
    }
    return true;
  }
  static N unary(u32 f, const N& a) {
    switch (f % 12) {
      case 0: return -a;
      case 1: return exp(a);
      case 2: return abs(a);
      case 3: return sqrt(a);
      case 4: return log(a);
      case 5: return sin(a);
      case 6: return cos(a);
      case 7: return tan(a);
      case 8: return atan(a);
      default:
        if constexpr (Tr<N>::nested) return a;
        else return f % 12 == 9 ? log10(a) : f % 12 == 10 ? acos(a) : asin(a);
    }
  }
  static bool m_unary(u32 f, const M& a, M& r) {
    ld x = real(a);
    switch (f % 12) {
      case 0: r = scale(a, -1); break;
      case 1:
        if (x > 5) return false;
        r = f_exp(a);
        break;
      case 2:
        if (std::fabs(x) < 1e-6L) return false;
        r = scale(a, x > 0 ? 1 : -1);
        break;
      case 3:
        if (x < 0.05L) return false;
        r = f_sqrt(a);
        break;
      case 4:
        if (x < 0.05L) return false;
        r = f_log(a);
        break;
      case 5: r = f_sin(a); break;
      case 6: r = f_cos(a); break;
      case 7:
        if (std::fabs(std::cos(x)) < 0.1L) return false;
        r = f_tan(a);
        break;
      case 8: r = f_atan(a); break;
      default:
        if constexpr (Tr<N>::nested) {
          r = a;
        } else {
          if (f % 12 == 9) {
            if (x < 0.05L) return false;
            r = scale(f_log(a), 1 / std::log(10.L));
          } else {
            if (std::fabs(x) > 0.95L) return false;
            r = f % 12 == 10 ? f_acos(a) : f_asin(a);
          }
        }
    }
    return true;
  }
  static N expr(u32 f, const N& a, const N& b, const N& c) {
    switch (f % 4) {
      case 0: return a * b + c;
      case 1: return sin(a) * (b - c) + a * a;
      case 2: return a + b + c - a * c;
      default: return exp(-(a * a)) * b + c * c * c;
    }
  }
  static bool m_expr(u32 f, const M& a, const M& b, const M& c, M& r) {
    if (a.d.size() != b.d.size() || b.d.size() != c.d.size()) return false;
    switch (f % 4) {
      case 0: r = a * b + c; break;
      case 1: r = f_sin(a) * (b - c) + a * a; break;
      case 2: r = a + b + c - a * c; break;
      default: r = f_exp(scale(a * a, -1)) * b + c * c * c;
    }
    return true;
  }
  static bool size_ok(const N& a, const N& b) { return a.GetNumberOfDerivatives() == b.GetNumberOfDerivatives(); }
  // what the library does; result numbers go to `out`
  void exec(const Case& c, W& q, std::vector<N>& out, std::vector<double>& vals) {
    N& a = q.x[c.a];
    N& b = q.x[c.b];
    N& d = q.x[c.c];
    auto& v = q.v[c.f % NVEC];
    auto& u = q.v[(c.f + 1) % NVEC];
    switch (c.op) {
      case A_BIN: a = binary(c.f, b, d); break;
      case A_BINS: a = binary_s(c.f, b, c.s); break;
      case A_UNARY: a = unary(c.f, b); break;
      case A_INPLACE:
        switch (c.f % 4) {
          case 0: a += b; break;
          case 1: a -= b; break;
          case 2: a *= b; break;
          default: a /= b;
        }
        break;
      case A_INPLACES: {
        auto s = Tr<N>::scalar(c.s);
        switch (c.f % 4) {
          case 0: a += s; break;
          case 1: a -= s; break;
          case 2: a *= s; break;
          default:
            if constexpr (Tr<N>::nested) a *= s;
            else a /= s;
        }
        break;
      }
      case A_ASSIGN: a = b; break;
      case A_MOVE: a = std::move(b); break;
      case A_COPY: out.emplace_back(b); break;
      case A_MAKE:
        if constexpr (Tr<N>::nested) a = N(AS(c.s), c.n);
        else a = c.i % 2 && c.n ? N(c.s, c.n, c.i % c.n) : N(c.s, c.n);
        break;
      case A_EXPR: a = expr(c.f, b, d, q.x[c.i % NSLOT]); break;
      case A_COMPARE:
        if constexpr (!Tr<N>::nested)
          vals = {double(a > b), double(a >= b), double(a < b.GetValue()), double(a <= c.s), double(a == b),
                  double(a == c.s), double(a != c.s), double(c.s > a), double(a > c.s)};
        break;
      case A_PUSH: v.push_back(a); break;
      case A_VASSIGN: u = v; break;
      case A_VSET: if (!v.empty()) v[c.i % v.size()] = a; break;
      case A_VGET: if (!v.empty()) a = v[c.i % v.size()]; break;
      case A_VINSERT: v.insert(v.begin() + long(c.i % (v.size() + 1)), a); break;
      case A_VERASE: if (!v.empty()) v.erase(v.begin() + long(c.i % v.size())); break;
      case A_VSORT:
        if constexpr (!Tr<N>::nested) std::sort(v.begin(), v.end(), [](const N& l, const N& r) { return r > l; });
        break;
      case A_VSUM: {
        N s(a);
        for (auto& x : v)
          if (size_ok(s, x)) s += x;
        out.push_back(std::move(s));
        break;
      }
      case A_VRESIZE: v.resize(c.i % 5, a); break;
      case A_SWAP: std::swap(a, b); break;
      case A_ACTIVE: if (a.GetNumberOfDerivatives()) a.SetActiveComponent(c.i % a.GetNumberOfDerivatives()); break;
    }
  }
  // expected pair of x[c.a] after the case; false: outside the domain
  bool expect(const Case& c, const State& s, M& r, bool& judged) {
    judged = true;
    auto m = [&](u32 i) { return Tr<N>::model(s[i][0]); };
    const auto& v = s[NSLOT + c.f % NVEC];
    switch (c.op) {
      case A_BIN: return m_binary(c.f, m(c.b), m(c.c), r);
      case A_BINS: return m_binary_s(c.f, m(c.b), c.s, r);
      case A_UNARY: return m_unary(c.f, m(c.b), r);
      case A_INPLACE: return m_binary(c.f % 4, m(c.a), m(c.b), r);
      case A_INPLACES: return m_binary_s(c.f % 4, m(c.a), c.s, r);
      case A_ASSIGN: case A_MOVE:
        if (c.op == A_MOVE && c.a == c.b) return false;
        if (s[c.a][0].size() != s[c.b][0].size()) S->count[K_SIZE]++;
        r = m(c.b);
        return true;
      case A_MAKE: {
        M z = Tr<N>::model(Pic(Tr<N>::nested ? 3 + 3 * c.n : 1 + c.n, 0.));
        r = konst(c.s, z);
        if constexpr (!Tr<N>::nested) {
          if (c.i % 2 && c.n) r.d[c.i % c.n] = 1;
        }
        return true;
      }
      case A_EXPR: return m_expr(c.f, m(c.b), m(c.c), m(c.i % NSLOT), r);
      case A_VGET:
        if (v.empty()) return false;
        r = Tr<N>::model(v[c.i % v.size()]);
        return true;
      case A_SWAP:
        if (c.a == c.b) return false;
        r = m(c.b);
        return true;
      default: judged = false; return true;
    }
  }
  static bool sane(const M& r) {
    for (ld x : Tr<N>::flat(r))
      if (!(std::fabs(x) < 1e5L)) return false;
    return true;
  }
  std::string compare(const Pic& got, const M& want, const State& s) {
    auto f = Tr<N>::flat(want);
    if (got.size() != f.size())
      return "the number carries " + std::to_string(got.size()) + " entries instead of " + std::to_string(f.size());
    ld sc = 1;
    for (ld x : f) sc = std::max(sc, std::fabs(x));
    for (int i = 0; i < NSLOT; i++)
      for (double x : s[std::size_t(i)][0]) sc = std::max<ld>(sc, std::fabs(x));
    sc *= sc;
    for (std::size_t i = 0; i < f.size(); i++)
      if (!(std::fabs(got[i] - f[i]) <= 1e-10L * sc)) {
        char b[128];
        snprintf(b, sizeof b, " is %.12g instead of %.12Lg", got[i], f[i]);
        return (i ? "entry " + std::to_string(i) + " of the gradient" : std::string("the value")) + b;
      }
    return "";
  }
  void step(std::size_t idx, const Step& s) {
    S->step = u32(idx);
    g = mix(g + idx);
    Rng r(s.ds);
    Case c;
    c.op = s.op % NOP;
    S->op = c.op;
    c.f = s.a[0];
    c.a = s.a[1] % NSLOT;
    c.b = s.a[2] % NSLOT;
    c.c = s.a[3] % NSLOT;
    c.i = s.a[4];
    c.s = r.chance(0.3) ? double(i64(r.below(7)) - 3) : r.range(-3, 3);
    c.n = size_of(int(c.a));
    const std::string opn = names[c.op];
    const State s0 = state(w);
    for (auto& v : w.v)
      if (v.size() > 8) v.resize(3);
    const State s1 = state(w);
    M want;
    bool judged;
    if (!expect(c, s1, want, judged) || (judged && !sane(want))) {
      S->count[K_SKIP]++;
      return;
    }
    S->count[K_OPS]++;
    if (Tr<N>::nested) S->count[K_NEST]++;
    if (c.a == c.b || c.a == c.c) S->count[K_SELF]++;
    // undisturbed twin
    W t = w;
    for (int i = 0; i < NVEC; i++) t.v[i].reserve(w.v[i].capacity());
    std::vector<N> tout, out;
    tout.reserve(2);
    out.reserve(2);
    std::vector<double> tv, vv;
    ArmStats st;
    u64 leak = 0;
    std::string what;
    S->phase = 1;
    // sometimes the very first attempt with these arguments fails
    const u64 pre = mix(s.ds ^ 0xF1257);
    if (s.fk && pre % 3 != 0) {
      static const u32 early[4] = {1, 2, 4, 12};
      W p = w;
      std::vector<N> po;
      std::vector<double> pv;
      po.reserve(2);
      guarded(&s, ~g, early[pre / 3 % 4], st, leak, what, [&] { exec(c, p, po, pv); });
      if (st.failed) {
        S->nontrivial = 1;
        S->count[K_PRE]++;
      }
    }
    int status = guarded(nullptr, ~g, 0, st, leak, what, [&] { exec(c, t, tout, tv); });
    S->ticks += 1 + st.allocs;
    const u64 allocs = st.allocs;
    if (status) bad("exception", opn + " threw '" + (status == 1 ? "bad_alloc" : what) + "' though memory was available");
    const State ts = state(t);
    if (judged) {
      S->count[K_MODEL]++;
      std::string why = compare(ts[c.a][0], want, s1);
      if (!why.empty()) bad("wrong", opn + " (variant " + std::to_string(c.f) + "): " + why);
    }
    if (c.op == A_VSUM) {
      M sum = Tr<N>::model(s1[c.a][0]);
      for (auto& p : s1[NSLOT + c.f % NVEC])
        if (p.size() == s1[c.a][0].size()) sum = sum + Tr<N>::model(p);
      std::string why = compare(pic(tout[0]), sum, s1);
      if (!why.empty()) bad("wrong", opn + ": " + why);
    }
    if (c.op == A_COPY && !same(pic(tout[0]), s1[c.b][0])) bad("wrong", "a copy differs from the original");
    // everything but what the operation concerns stays what it was
    auto touched = [&](std::size_t i) {
      if (i >= NSLOT) {
        u32 v = u32(i) - NSLOT;
        if (c.op >= A_PUSH && c.op <= A_VRESIZE && c.op != A_VGET && c.op != A_VSUM)
          return c.op == A_VASSIGN ? v == (c.f + 1) % NVEC : v == c.f % NVEC;
        return false;
      }
      if (c.op == A_COMPARE || c.op == A_COPY || (c.op >= A_PUSH && c.op <= A_VRESIZE && c.op != A_VGET)) return false;
      if (i == c.b && (c.op == A_MOVE || c.op == A_SWAP)) return true;
      return i == c.a;
    };
    for (std::size_t i = 0; i < s1.size(); i++)
      if (!touched(i)) {
        bool eq = ts[i].size() == s1[i].size();
        for (std::size_t k = 0; eq && k < ts[i].size(); k++) eq = same(ts[i][k], s1[i][k]);
        if (!eq) bad("bystander", opn + " changed another number");
      }
    if (c.op == A_PUSH || c.op == A_VINSERT || c.op == A_VRESIZE) {
      // each element is one of the old ones or the argument
      for (auto& p : ts[NSLOT + c.f % NVEC]) {
        bool ok = same(p, s1[c.a][0]);
        for (auto& q : s1[NSLOT + c.f % NVEC]) ok = ok || same(p, q);
        if (!ok) bad("wrong", opn + ": an element lost its value or gradient");
      }
    }
    // the real call
    S->phase = 2;
    u64 sig = c.op * 16 + c.f % 12 + 4096 * (c.a == c.b) + 8192 * (c.a == c.c) + (Tr<N>::nested ? 16384 : 0) +
              32768 * s1[c.a][0].size() + (u64(1) << 32) * s.fk;
    const Step* fs = s.fk ? &s : nullptr;
    for (int at = 0; at < 3; at++) {
      out.clear();
      vv.clear();
      std::string wh;
      u64 lk = 0;
      status = guarded(at < 2 ? fs : nullptr, mix(g + at), allocs, st, lk, wh, [&] { exec(c, w, out, vv); });
      S->ticks += 1 + st.allocs;
      if (st.failed) {
        S->nontrivial = 1;
        S->count[s.fk == F_ALLOC_ONE ? K_F1 : s.fk == F_ALLOC_RUN ? K_F2 : s.fk == F_ALLOC_ALL ? K_F3 : K_F4] += st.failed;
      }
      sig = sig * 5 + u64(status);
      if (!status) {
        if (at) S->count[K_RETRY]++;
        break;
      }
      if (status == 2 || !st.failed)
        bad("exception", opn + " threw '" + (status == 1 ? "bad_alloc although no allocation failed" : wh) + "'");
      S->count[K_OOM]++;
      const State now = state(w);
      for (std::size_t i = 0; i < s1.size(); i++) {
        bool full = touched(i);
        if (i < NSLOT) {
          S->count[K_PAIR]++;
          if (same(now[i][0], s1[i][0])) {
            S->count[K_OLD]++;
          } else if (full && same(now[i][0], ts[i][0])) {
            S->count[K_NEW]++;
          } else {
            bool v_new = full && now[i][0][0] == ts[i][0][0] && now[i][0][0] != s1[i][0][0];
            bad("mixture", "after " + opn + " ran out of memory " +
                               (full ? v_new ? "the target has the new value with another gradient"
                                             : "the target has neither its previous nor its new value and gradient"
                                     : "another number changed"));
          }
        } else {
          if (!full && now[i].size() != s1[i].size()) bad("mixture", "after " + opn + " ran out of memory a vector changed its size");
          for (auto& p : now[i]) {
            S->count[K_PAIR]++;
            bool ok = false;
            for (auto& q : s1[i]) ok = ok || same(p, q);
            if (full) {
              for (auto& q : ts[i]) ok = ok || same(p, q);
              ok = ok || same(p, s1[c.a][0]);
            }
            if (!ok) bad("mixture", "after " + opn + " ran out of memory an element carries the value and gradient of different computations");
          }
        }
      }
      if (lk && c.op != A_PUSH && c.op != A_VASSIGN && c.op != A_VINSERT && c.op != A_VRESIZE) {
        // each attempt from the same state
        restore(s1, t0_of(s1));
        u64 lk2 = 0;
        int st2 = guarded(fs, mix(g + 9), allocs, st, lk2, wh, [&] { exec(c, w, out, vv); });
        if (st2 == 1 && lk2) bad("leak", opn + " keeps memory each time it runs out of memory");
      }
      // start again from what was there (the retry of an in-place operation
      // must not act twice)
      restore(s1, t0_of(s1));
    }
    const State now = state(w);
    bool eq = now.size() == ts.size();
    for (std::size_t i = 0; eq && i < now.size(); i++) {
      if (c.op == A_MOVE && i == c.b) continue;
      eq = now[i].size() == ts[i].size();
      for (std::size_t k = 0; eq && k < now[i].size(); k++) eq = same(now[i][k], ts[i][k]);
    }
    eq = eq && out.size() == tout.size() && vv == tv;
    for (std::size_t i = 0; eq && i < out.size(); i++) eq = same(pic(out[i]), pic(tout[i]));
    if (!eq) bad("differs", opn + " differs from the undisturbed computation");
    if (c.op == A_MOVE) {
      Rng q(s.ds ^ 3);
      w.x[c.b] = fresh(q, int(c.b));
    }
    // keep numbers in range, gradients of the slot's size
    for (int i = 0; i < NSLOT; i++) {
      Pic p = pic(w.x[i]);
      bool ok = true;
      for (double x : p) ok = ok && std::fabs(x) < 1e4;
      if (!ok) {
        Rng q(s.ds ^ u64(i));
        w.x[i] = fresh(q, i);
      }
    }
    signature(S, mix(sig));
    for (auto& l : now)
      for (auto& p : l) h.bytes(p.data(), 8 * p.size());
  }
  // numbers with the state before the call (rebuilt from their copies)
  W base;
  W& t0_of(const State&) { return base; }
  void restore(const State& s, W& b) {
    w = b;
    (void)s;
  }
  void go() {
    for (std::size_t i = 0; i < plan.steps.size(); i++) {
      for (auto& v : w.v)
        if (v.size() > 8) v.resize(3);
      base = w;
      step(i, plan.steps[i]);
    }
  }
};
struct AdH : Harness {
  const char* const* counter_names() override { return counters; }
  std::string op_name(u32 op) override { return names[op % NOP]; }
  void simplify_header(const Plan& p, std::vector<Plan>& out) override {
    for (i64 d = 1; d < p.get("n", 3); d++) {
      Plan q = p;
      q.h["n"] = d;
      out.push_back(q);
    }
  }
  Plan gen(const std::string& prop, u64 seed) override {
    Plan p;
    p.prop = prop;
    p.seed = seed;
    Rng r(seed);
    p.h["nested"] = r.chance(0.25);
    p.h["n"] = i64(1 + r.below(r.chance(0.2) ? 60 : 6));
    p.h["n2"] = i64(r.below(9));
    p.h["wseed"] = i64(r.below(1u << 30));
    p.h["garbage"] = i64(r.below(1u << 30));
    const double fault = r.chance(0.8) ? 0.6 : 0.1;
    int n = 5 + int(r.below(30));
    u32 mask = r.chance(0.3) ? u32(r.below(1u << NOP)) | 32 : ~0u;
    for (int i = 0; i < n; i++) {
      Step s;
      do s.op = u32(r.below(NOP));
      while (!(mask >> s.op & 1));
      for (u32& a : s.a) a = u32(r.below(24));
      if (r.chance(0.25)) s.a[2] = s.a[1];
      s.ds = r.next() >> 8;
      if (r.chance(fault)) {
        s.fk = 1 + u32(r.below(4));
        s.fpos = s.fk == F_ALLOC_SIZE ? u32(8 << r.below(6)) : u32(r.below(1u << 12));
        s.fcnt = 1 + u32(r.below(3));
      }
      p.steps.push_back(s);
    }
    return p;
  }
  RunResult run(const Plan& p) override {
    heap_runaway = [](const char* w) {
      violation(S, "hang", std::string("a call exceeded its bound of ") + w);
      child_stop(3);
    };
    step_budget(20000000);
    Shared* a = shared_block(0);
    S = a;
    ChildStatus st = in_child(a, [&](Shared*) {
      if (p.get("nested")) {
        Run<AN> r(p);
        r.go();
        S->hash[0] = r.h.h;
      } else {
        Run<AD> r(p);
        r.go();
        S->hash[0] = r.h.h;
      }
    });
    return collect(a, st);
  }
};
}  // namespace
int main(int argc, char** argv) {
  AdH h;
  return harness_main(h, argc, argv);
}
