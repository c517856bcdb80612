#include "oplan.hpp"

#include <algorithm>

namespace sim {
const char* const op_names[] = {
    "elevate", "update-degrees", "assign", "move-assign", "add-in-place",
    "subtract-in-place", "add-point", "subtract-point", "scale-in-place",
    "set-control-point", "transpose-and-scale", "fit-into-unit-cube", "add", "subtract", "multiply",
    "scaled-copy", "shifted-copy", "negate", "power", "derivative", "split",
    "split-at-several", "extract", "to-rational", "copy", "construct",
    "rational-from-pair", "construct-empty", "evaluate", "forward-evaluate",
    "evaluate-derivative", "basis", "unweighted-basis", "basis-contributions",
    "basis-derivatives", "basis-derivative-contributions", "compare", "corners",
    "fits-unit-cube", "control-point-access", "rejected-split",
    "rejected-split-at-several", "rejected-extract", "rejected-power",
    "rejected-corner"};

bool admissible(const Snap& s, int P, int big) {
  std::string why;
  if (!consistent(s, why)) return false;
  Limits l = limits(P, big);
  for (int i = 0; i < P; i++)
    if (s.deg[i] > l.slot_deg) return false;
  if (!(s.cmax() <= 1e4)) return false;
  if (s.rat) {
    double a = s.wmin(), b = s.wmax();
    if (!(a > 1e-3) || !(b < 1e3) || !(a > 1e-2 * b)) return false;
  }
  return true;
}
Snap random_spline(int P, int kind, u64 seed, int maxdeg) {
  Rng r(seed);
  Snap s;
  s.P = P;
  s.D = dim_of(kind);
  s.rat = is_rat(kind);
  std::size_t n = 1;
  int lim = P == 1 ? 6 : P == 2 ? 3 : 2;
  if (maxdeg < lim) lim = maxdeg;
  if (P == 1 && maxdeg > 6 && r.chance(0.15)) lim = 9;
  const int large = maxdeg > 9 ? int(r.below(P)) : -1;
  const bool huge = maxdeg > 29;
  if (huge) maxdeg = P == 3 ? 13 : 29;
  for (int i = 0; i < P; i++) {
    s.deg[i] = r.below((maxdeg > 9 ? 3 - std::size_t(P) / 2 : lim) + 1);
    if (i == large || (huge && r.chance(0.7))) s.deg[i] = r.chance(0.3) ? maxdeg - r.below(3) : r.below(maxdeg + 1);
    s.off[i] = n;
    n *= s.deg[i] + 1;
  }
  s.ncp = s.csz = n;
  u64 mode = r.below(12);
  // 0: large, 1: small integers, 2: inside the unit cube, 3: on its boundary,
  // 4: far from the origin, 5: tiny, 6: without extent along a coordinate
  double amp = mode == 0 ? 100 : mode == 4 ? 0.5 : mode == 5 ? std::pow(10., -double(r.below(12))) : 2;
  const double shift = mode == 4 ? r.range(-50, 50) : 0;
  const int flat = mode == 6 ? int(r.below(s.D)) : -1;
  const double level = r.chance(0.5) ? 0 : r.range(-2, 2);
  for (std::size_t i = 0; i < n * s.D; i++)
    s.c.push_back(int(i % s.D) == flat ? level
                  : mode == 1          ? double(i64(r.below(7)) - 3)
                  : mode == 2          ? r.uni()
                  : mode == 3          ? double(r.below(3)) / 2
                                       : shift + r.range(-amp, amp));
  if (s.rat) {
    for (int i = 0; i < P; i++) {
      s.wdeg[i] = s.deg[i];
      s.woff[i] = s.off[i];
    }
    // some have one weight for all control points, in some the weights are
    // small or large as a whole
    const bool unit = r.chance(0.15);
    const double common = unit && r.chance(0.3) ? r.range(0.3, 2) : 1;
    const double size = r.chance(0.2) ? std::pow(10., r.range(-2, 2)) : 1;
    for (std::size_t i = 0; i < n; i++) {
      double w = (unit ? common : r.range(0.3, 2)) * size;
      s.w.push_back(w);
      for (int d = 0; d < s.D; d++) s.c[i * s.D + d] *= w;
    }
    s.wncp = s.wsz = n;
  }
  return s;
}
static std::size_t count_of(const std::size_t* d, int P) {
  std::size_t n = 1;
  for (int i = 0; i < P; i++) n *= d[i] + 1;
  return n;
}
static bool affordable(const std::size_t* d, int P, std::size_t na, std::size_t nb, const Limits& l) {
  const std::size_t n = count_of(d, P);
  return n <= l.max_cp && (n <= 400 || na * nb <= 200000);
}
void alias_values(const Job& j, const Snap& A, Par& p) {
  std::size_t n = A.csz;
  for (int d = 0; d < A.D; d++) {
    p.pt[d] = A.c[(j.p.cp % n) * A.D + d];
    p.pt2[d] = A.c[(j.p.cp2 % n) * A.D + d];
  }
  p.sc = A.c[(j.p.cp % n) * A.D + (A.D == 1 ? 0 : j.p.comp)];
}
static double param(Rng& r, u64 pool = 0) {
  if (pool && r.chance(0.25)) return Rng(mix(pool + r.below(3))).uni();
  double x = r.uni();
  if (x < 0.08) return 0;
  if (x < 0.16) return 1;
  if (x < 0.20) return 0.5;
  if (x < 0.26) return std::pow(10., -12 * r.uni());
  if (x < 0.32) return 1 - std::pow(10., -12 * r.uni());
  return r.uni();
}
bool plan_op(const Step& s, const View& v, Job& j) {
  const int P = v.P;
  const Limits lim = limits(P, v.big);
  Rng r(s.ds);
  Call& c = j.c;
  Par& p = j.p;
  u32 op = s.op % NOPS;
  c.op = op;
  int k = int(s.a[0] % NKIND);
  bool shared = v.shared[0][0] != nullptr;
  int nsl = shared && !op_inplace(op) ? 2 * NSL : NSL;
  c.a = int(s.a[0] / NKIND) % nsl;
  int nb = shared ? 2 * NSL : NSL;
  c.b = int(s.a[1]) % nb;
  // kinds this operation exists for
  switch (op) {
    case O_TRANSSCALE: case O_FITCUBE: case O_TORAT: case O_BDCONTRIB: case O_EQ:
      k %= 3;
      break;
    case O_POWER: k = PS; break;
    case O_REJ_POWER: k = k % 2 ? PV2 : PV3; break;
    case O_RATPAIR: case O_UNWBASIS: k = RS + k % 3; break;
    default: break;
  }
  c.ka = c.kb = k;
  if (op == O_MUL && dim_of(k) == 1)
    c.kb = (is_rat(k) ? int(RS) : int(PS)) + int(s.a[1] / 6) % 3;
  auto get = [&](int kind, int slot) {
    return slot >= NSL ? v.shared[kind][slot - NSL] : v.own[kind][slot];
  };
  if (c.b >= NSL && op == O_MOVEASSIGN) c.b -= NSL;
  j.A = get(c.ka, c.a);
  j.B = get(c.kb, c.b);
  const Snap &A = *j.A, &B = *j.B;
  j.uses_b = op == O_ASSIGN || op == O_MOVEASSIGN || op == O_ADDIN ||
             op == O_SUBIN || op == O_ADD || op == O_SUB || op == O_MUL ||
             op == O_EQ;
  j.dest = int(s.a[2] % NSL);
  j.want_store = op_new(op) && (s.a[7] & 2);
  c.store_copy = s.a[7] & 4;
  j.lasting = s.a[7] & 8;
  c.alias = (s.a[7] & 1) && (op == O_ADDPT || op == O_SUBPT || op == O_SCALEIN ||
                             op == O_TRANSSCALE);
  // parameters
  p.dim = int(s.a[3] % P);
  p.variant = s.a[4];
  p.part = int(s.a[5] % 8);
  for (int i = 0; i < 3; i++) p.u[i] = param(r, v.pool);
  p.sc = r.chance(0.1) ? 0 : r.range(-2, 2);
  if (r.chance(0.1)) p.sc = r.chance(0.5) ? 1 : -1;
  if (r.chance(0.1)) p.sc *= std::pow(10., -10 * r.uni());
  const bool sparse = r.chance(0.15);
  for (int i = 0; i < 3; i++) {
    p.pt[i] = r.range(-2, 2);
    p.pt2[i] = r.range(-2, 2);
    if (sparse && r.chance(0.6)) p.pt[i] = 0;
    if (sparse && r.chance(0.4)) p.pt2[i] = double(r.below(2));
  }
  p.cp = s.a[5];
  p.cp2 = s.a[6];
  p.comp = int(s.a[6] % dim_of(k));
  if (A.csz == 0 || (j.uses_b && B.csz == 0)) return false;
  switch (op) {
    case O_ELEVATE:
      if (A.deg[p.dim] >= lim.slot_deg) return false;
      break;
    case O_UPDATEDEG: case O_CTOR: case O_EMPTYCTOR: {
      std::size_t m = P == 1 ? 8 : P == 2 ? 4 : 2;
      std::size_t n = 1;
      for (int i = 0; i < P; i++) {
        p.deg[i] = r.below((v.big && i == 0 ? 29 : m) + 1);
        n *= p.deg[i] + 1;
      }
      if (op == O_CTOR) {
        for (std::size_t i = 0; i < n * dim_of(k); i++) p.data.push_back(r.range(-2, 2));
        for (std::size_t i = 0; i < n; i++) p.wdata.push_back(r.range(0.3, 2));
      }
      break;
    }
    case O_MOVEASSIGN:
      if (c.a == c.b) return false;
      break;
    case O_ADD: case O_SUB: case O_ADDIN: case O_SUBIN:
      if (is_rat(k)) {
        std::size_t d[3];
        for (int i = 0; i < P; i++) {
          d[i] = A.deg[i] + B.deg[i];
          if (d[i] > lim.prod_deg) return false;
        }
        if (!affordable(d, P, A.csz, j.uses_b ? B.csz : A.csz, lim)) return false;
      }
      break;
    case O_MUL: {
      std::size_t d[3];
      for (int i = 0; i < P; i++) {
        d[i] = A.deg[i] + B.deg[i];
        if (d[i] > lim.prod_deg) return false;
      }
      if (!affordable(d, P, A.csz, j.uses_b ? B.csz : A.csz, lim)) return false;
      break;
    }
    case O_POWER: {
      p.power = s.a[3];
      std::size_t d[3];
      for (int i = 0; i < P; i++) {
        d[i] = A.deg[i] * p.power;
        if (d[i] > lim.prod_deg) return false;
      }
      if (!affordable(d, P, A.csz, j.uses_b ? B.csz : A.csz, lim)) return false;
      if (!(std::pow(A.cmax() + 1, p.power) < 1e8)) return false;
      break;
    }
    case O_REJ_POWER: p.power = s.a[3] % 5; break;
    case O_DERIV: {
      int tot = 0;
      for (int i = 0; i < P; i++) {
        p.ord[i] = is_rat(k) ? r.below(3) : r.below(A.deg[i] + 2);
        if (r.chance(0.3)) p.ord[i] = 0;
        tot += int(p.ord[i]);
      }
      if (is_rat(k)) {
        std::size_t d[3];
        for (int i = 0; i < P; i++) {
          if (tot > 2) return false;
          d[i] = A.deg[i] << tot;
          if (d[i] > std::max<std::size_t>(lim.prod_deg / 2, 4)) return false;
        }
        if (!affordable(d, P, A.csz, j.uses_b ? B.csz : A.csz, lim)) return false;
      }
      break;
    }
    case O_SPLIT:
      p.planes.push_back(r.chance(0.2) ? 0.5 : r.chance(0.1) ? r.range(1e-6, 1e-3) : r.range(0.02, 0.98));
      if (r.chance(0.05)) p.planes[0] = 1 - p.planes[0];
      break;
    case O_SPLITV: {
      std::size_t n = s.a[4] == 11 ? 9 : s.a[4] % 5;
      double x = 0;
      for (std::size_t i = 0; i < n; i++) {
        const double before = x;
        // sometimes very close to the previous one or to an end
        const double d = !r.chance(0.12) ? r.range(0.05, 0.5) : std::pow(10., -1 - double(r.below(12)));
        x += (1 - x) * (r.chance(0.03) ? 1 - d : d);
        if (!(x > before && x < 1)) break;
        p.planes.push_back(x);
      }
      break;
    }
    case O_REJ_SPLIT: {
      static const double bad[] = {0., 1., -0.5, 1.5, -1e300, 1e300, -0.0, 2};
      u32 q = s.a[5] % 12;
      if (q < 8) p.planes.push_back(bad[q]);
      else if (q == 8) p.planes.push_back(std::nan(""));
      else if (q == 9) p.planes.push_back(HUGE_VAL);
      else if (q == 10) p.planes.push_back(-HUGE_VAL);
      else p.planes.push_back(r.chance(0.5) ? r.range(-3, -0.001) : r.range(1.001, 4));
      break;
    }
    case O_REJ_SPLITV: {
      double x = r.range(0.05, 0.45), y = r.range(0.5, 0.95);
      switch (s.a[5] % 7) {
        case 0: p.planes = {y, x}; break;              // unsorted
        case 1: p.planes = {x, 1.}; break;
        case 2: p.planes = {0., y}; break;
        case 3: p.planes = {x, y, 1.5}; break;
        case 4: p.planes = {-x, y}; break;
        case 5: p.planes = {x, x}; break;              // no extent
        default: p.planes = {x, y, x}; break;
      }
      break;
    }
    case O_EXTRACT: p.extract = s.a[3] % dim_of(k); break;
    case O_REJ_EXTRACT:
      p.extract = dim_of(k) + (s.a[3] % 4 == 3 ? 1000000u : s.a[3] % 4);
      break;
    case O_EVDER: case O_BDERIV: case O_BDCONTRIB: {
      int tot = 0;
      for (int i = 0; i < P; i++) {
        p.ord[i] = is_rat(k) ? r.below(4) : r.below(A.deg[i] + 3);
        if (r.chance(0.3)) p.ord[i] = 0;
        tot += int(p.ord[i]);
      }
      if (is_rat(k) && tot > 4) return false;
      break;
    }
    case O_CPACCESS: case O_SETCP:
      for (int i = 0; i < P; i++) p.deg[i] = r.below(A.deg[i] + 1);
      if (A.rat) p.sc = r.range(0.3, 2);
      break;
    default: break;
  }
  return true;
}

// ------------------------------------------------------------------- model
static ld scale_of(const Snap& s) {
  ld w = s.wmin();
  return ld(s.cmax()) / w * (ld(s.wmax()) / w) + 1e-30L;
}
static bool near(ld a, ld b, ld scale) {
  ld t = 1e-12L * scale + 1e-15L;
  return std::fabs(a - b) <= t;  // false for NaN
}
static std::string num(ld x) {
  char b[48];
  snprintf(b, sizeof b, "%.10Lg", x);
  return b;
}
static std::string point(const double* u, int P) {
  std::string t = "(";
  for (int i = 0; i < P; i++) t += (i ? "," : "") + num(u[i]);
  return t + ")";
}
bool same_geometry(const Snap& a, const Snap& b, u64 seed, std::string& why) {
  if (same_bits(a, b)) return true;
  if (!consistent(a, why)) return false;
  Rng r(seed);
  ld sc = scale_of(a) + scale_of(b);
  for (int t = 0; t < 4; t++) {
    double u[3];
    for (double& x : u) x = param(r);
    Val x = value(a, u), y = value(b, u);
    for (int d = 0; d < a.D; d++)
      if (!near(x.v[d], y.v[d], sc)) {
        why = "value at " + point(u, a.P) + " is " + num(x.v[d]) + " instead of " + num(y.v[d]);
        return false;
      }
  }
  return true;
}
static std::string compare(const Snap& got, Rng& r, ld scale,
                           const std::function<void(const double*, ld*)>& want) {
  std::string why;
  if (!consistent(got, why)) return why;
  for (double x : got.c)
    if (!std::isfinite(x)) return "a control point is not finite";
  ld sc = scale + scale_of(got);
  for (int t = 0; t < 4; t++) {
    double u[3];
    for (double& x : u) x = param(r);
    ld e[3] = {0, 0, 0};
    want(u, e);
    Val x = value(got, u);
    for (int d = 0; d < got.D; d++)
      if (!near(x.v[d], e[d], sc))
        return "coordinate " + std::to_string(d) + " at " + point(u, got.P) +
               " is " + num(x.v[d]) + ", the definition gives " + num(e[d]);
  }
  return "";
}
static ld deriv_scale(const Snap& A, const std::size_t* k, ld base) {
  ld s = base;
  if (!A.rat) {
    // sum of the absolute values of the terms of the definition
    for (int i = 0; i < A.P; i++)
      for (std::size_t j = 0; j < k[i] && j < A.deg[i]; j++) s *= 2 * ld(A.deg[i] - j);
    return s;
  }
  for (int i = 0; i < A.P; i++)
    for (std::size_t j = 0; j < k[i]; j++) {
      s *= 4.0L * ld(A.deg[i] + 1) * (j + 1);
      if (A.rat) s *= ld(A.wmax()) / A.wmin() * 2;

    }
  return s;
}
std::string judge(const Job& j, const Snap& A, const Snap& B, const Out& out,
                  const Snap& post, u64 seed) {
  const Call& c = j.c;
  const Par& p = j.p;
  const int P = A.P, D = A.D;
  Rng r(seed);
  ld sA = scale_of(A), sB = j.uses_b ? scale_of(B) : 0;
  auto vals = [&](const std::vector<ld>& want, ld sc) -> std::string {
    if (want.size() != out.vals.size())
      return "gives " + std::to_string(out.vals.size()) + " numbers instead of " + std::to_string(want.size());
    for (std::size_t i = 0; i < want.size(); i++)
      if (!near(out.vals[i], want[i], sc))
        return "number " + std::to_string(i) + " is " + num(out.vals[i]) + ", the definition gives " + num(want[i]);
    return "";
  };
  auto one = [&]() -> const Snap& { return op_inplace(c.op) ? post : out.res[0]; };
  if (op_new(c.op) && out.res.empty()) return "no result";
  if (op_inplace(c.op) || op_new(c.op)) {
    std::string why;
    const std::size_t n = op_inplace(c.op) ? 1 : out.res.size();
    for (std::size_t i = 0; i < n; i++)
      if (!consistent(op_inplace(c.op) ? post : out.res[i], why)) return why;
  }
  switch (c.op) {
    case O_ELEVATE: {
      for (int i = 0; i < P; i++)
        if (post.deg[i] != A.deg[i] + (i == p.dim)) return "degree " + std::to_string(i) + " is " + std::to_string(post.deg[i]);
      return compare(post, r, sA, [&](const double* u, ld* e) { Val v = value(A, u); std::copy(v.v, v.v + 3, e); });
    }
    case O_UPDATEDEG:
      for (int i = 0; i < P; i++)
        if (post.deg[i] != p.deg[i]) return "degree " + std::to_string(i) + " is " + std::to_string(post.deg[i]);
      return "";
    case O_ASSIGN: case O_MOVEASSIGN:
      return same_bits(post, B) ? "" : "the target differs from the source";
    case O_COPY: case O_RATPAIR:
      return same_bits(one(), A) ? "" : "the copy differs from the original";
    case O_ADDIN: case O_ADD: case O_SUBIN: case O_SUB: {
      ld sg = c.op == O_ADDIN || c.op == O_ADD ? 1 : -1;
      return compare(one(), r, sA + sB, [&](const double* u, ld* e) {
        Val x = value(A, u), y = value(B, u);
        for (int d = 0; d < D; d++) e[d] = x.v[d] + sg * y.v[d];
      });
    }
    case O_ADDPT: case O_SUBPT: {
      ld sg = c.op == O_ADDPT ? 1 : -1;
      return compare(post, r, sA + 2 + std::fabs(p.pt[0]) + std::fabs(p.pt[1]) + std::fabs(p.pt[2]), [&](const double* u, ld* e) {
        Val x = value(A, u);
        for (int d = 0; d < D; d++) e[d] = x.v[d] + sg * p.pt[d];
      });
    }
    case O_SHIFTED: {
      u32 q = p.variant & 3;
      if (q == 3 && A.rat) q = 2;
      return compare(one(), r, sA + 8, [&](const double* u, ld* e) {
        Val x = value(A, u);
        for (int d = 0; d < D; d++)
          e[d] = q <= 1 ? x.v[d] + p.pt[d] : q == 2 ? x.v[d] - p.pt[d] : p.pt[d] - x.v[d];
      });
    }
    case O_SCALEIN: case O_SCALED:
      return compare(one(), r, sA * (1 + std::fabs(p.sc)), [&](const double* u, ld* e) {
        Val x = value(A, u);
        for (int d = 0; d < D; d++) e[d] = x.v[d] * p.sc;
      });
    case O_TRANSSCALE: {
      ld m = 0;
      for (int d = 0; d < D; d++) m = std::max<ld>(m, (std::fabs(p.pt[d]) + sA) * (1 + std::fabs(p.pt2[d])));
      return compare(post, r, m, [&](const double* u, ld* e) {
        Val x = value(A, u);
        for (int d = 0; d < D; d++) e[d] = (x.v[d] + p.pt[d]) * p.pt2[d];
      });
    }
    case O_SETCP: {
      Snap e = A;
      std::size_t i = 0;
      for (int d = 0; d < P; d++) i += A.off[d] * p.deg[d];
      for (int d = 0; d < D; d++) e.c[i * D + d] = p.pt[d];
      if (A.rat) e.w[i] = p.sc;
      return same_bits(post, e) ? "" : "the spline is not the old one with that control point replaced";
    }
    case O_FITCUBE: {
      ld mn[3], mx[3];
      bool vague = false;
      for (int d = 0; d < D; d++) {
        mn[d] = mx[d] = A.c[d];
        for (std::size_t i = 0; i < A.csz; i++) {
          mn[d] = std::min<ld>(mn[d], A.c[i * D + d]);
          mx[d] = std::max<ld>(mx[d], A.c[i * D + d]);
        }
        if (mx[d] > mn[d] && mx[d] - mn[d] < 1e-5L * std::max(std::fabs(mn[d]), std::fabs(mx[d]))) vague = true;
      }
      for (std::size_t i = 0; i < post.c.size(); i++)
        if (!(post.c[i] >= -1e-12 && post.c[i] <= 1 + 1e-12)) return "a control point is outside the unit cube";
      if (vague) return "";
      Rng q(seed + 1);
      ld f[3];
      ld amp = 1;
      for (int d = 0; d < D; d++) {
        f[d] = mx[d] > mn[d] ? 1 / (mx[d] - mn[d]) : 0;
        if (f[d] > 0) amp = std::max<ld>(amp, f[d] * std::max(std::fabs(mn[d]), std::fabs(mx[d])));
      }
      return compare(post, r, amp, [&](const double* u, ld* e) {
        Val x = value(A, u), y = value(post, u);
        for (int d = 0; d < D; d++) e[d] = f[d] > 0 ? (x.v[d] - mn[d]) * f[d] : y.v[d];
      });
    }
    case O_MUL: {
      const int DB = B.D;
      return compare(one(), r, sA * sB * 3, [&](const double* u, ld* e) {
        Val x = value(A, u), y = value(B, u);
        if (D == 1)
          for (int d = 0; d < DB; d++) e[d] = x.v[0] * y.v[d];
        else
          for (int d = 0; d < D; d++) e[0] += x.v[d] * y.v[d];
      });
    }
    case O_NEG:
      return compare(one(), r, sA, [&](const double* u, ld* e) {
        Val x = value(A, u);
        for (int d = 0; d < D; d++) e[d] = -x.v[d];
      });
    case O_POWER: {
      ld sc = 1;
      for (u32 i = 0; i < p.power; i++) sc *= sA + 1;
      return compare(one(), r, sc, [&](const double* u, ld* e) {
        Val x = value(A, u);
        e[0] = 1;
        for (u32 i = 0; i < p.power; i++) e[0] *= x.v[0];
      });
    }
    case O_DERIV: {
      ld sc = deriv_scale(A, p.ord, sA);
      if (A.rat) {
        // the quotient rule works with squared weights; judge by the weights
        // at the parameter only
        sc *= ld(A.wmax()) / A.wmin();
      }
      const Snap& g = one();
      std::string why;
      for (double x : g.c)
        if (!std::isfinite(x)) return "a control point is not finite";
      for (int t = 0; t < 4; t++) {
        double u[3];
        for (double& x : u) x = param(r);
        ld e[3] = {0, 0, 0};
        derivative(A, u, p.ord, e);
        Val x = value(g, u);
        for (int d = 0; d < D; d++)
          if (!near(x.v[d], e[d], sc))
            return "derivative, coordinate " + std::to_string(d) + " at " + point(u, P) + " is " + num(x.v[d]) +
                   ", the definition gives " + num(e[d]);
      }
      return "";
    }
    case O_SPLIT: case O_SPLITV: {
      if (out.res.size() != p.planes.size() + 1)
        return "gives " + std::to_string(out.res.size()) + " parts instead of " + std::to_string(p.planes.size() + 1);
      for (std::size_t k = 0; k < out.res.size(); k++) {
        ld lo = k ? p.planes[k - 1] : 0, hi = k < p.planes.size() ? p.planes[k] : 1;
        std::string w = compare(out.res[k], r, sA, [&](const double* u, ld* e) {
          // evaluate in extended precision at the mapped parameter
          double m[3] = {u[0], u[1], u[2]};
          m[p.dim] = double(lo + (hi - lo) * u[p.dim]);
          Val x = value(A, m);
          std::copy(x.v, x.v + 3, e);
        });
        if (!w.empty()) return "part " + std::to_string(k) + ": " + w;
      }
      return "";
    }
    case O_EXTRACT:
      return compare(one(), r, sA, [&](const double* u, ld* e) {
        Val x = value(A, u);
        e[0] = x.num[p.extract];
      });
    case O_TORAT:
      return compare(one(), r, sA, [&](const double* u, ld* e) {
        Val x = value(A, u);
        std::copy(x.v, x.v + 3, e);
      });
    case O_CTOR: {
      const Snap& g = one();
      for (int i = 0; i < P; i++)
        if (g.deg[i] != p.deg[i]) return "wrong degrees";
      for (std::size_t i = 0; i < p.data.size(); i++)
        if (!near(g.c[i], p.data[i] * (A.rat ? p.wdata[i / D] : 1), 1)) return "wrong control points";
      if (A.rat && g.w != p.wdata) return "wrong weights";
      return "";
    }
    case O_EMPTYCTOR:
      for (int i = 0; i < P; i++)
        if (one().deg[i] != p.deg[i]) return "wrong degrees";
      return "";
    case O_EVAL: case O_FEVAL: {
      Val x = value(A, p.u);
      return vals(std::vector<ld>(x.v, x.v + D), sA);
    }
    case O_EVDER: {
      std::vector<ld> e(3);
      derivative(A, p.u, p.ord, e.data());
      e.resize(D);
      return vals(e, deriv_scale(A, p.ord, sA));
    }
    case O_BASIS:
      return vals(rational_basis(A, p.u, Snap().deg, true), A.wmax() / A.wmin());
    case O_UNWBASIS:
      return vals(rational_basis(A, p.u, Snap().deg, false), (1 + A.wmax()) / (A.wmin() * std::min(1., A.wmin())));
    case O_BDERIV:
      return vals(rational_basis(A, p.u, p.ord, true), deriv_scale(A, p.ord, A.wmax() / A.wmin()));
    case O_CONTRIB: case O_BDCONTRIB: {
      std::vector<ld> e;
      for (int i = 0; i < P; i++) {
        e.push_back(A.deg[i] + 1);
        for (std::size_t q = 0; q <= A.deg[i]; q++)
          e.push_back(bern(A.deg[i], q, p.u[i], c.op == O_CONTRIB ? 0 : p.ord[i]));
      }
      return vals(e, deriv_scale(A, c.op == O_CONTRIB ? Snap().deg : p.ord, 1));
    }
    case O_EQ: {
      bool eq = A.csz == B.csz;
      for (int i = 0; i < P; i++) eq = eq && A.deg[i] == B.deg[i];
      for (std::size_t i = 0; eq && i < A.c.size(); i++) eq = A.c[i] == B.c[i];
      return vals({ld(eq)}, 0);
    }
    case O_CORNERS: case O_FITS: {
      std::vector<ld> mn(D), mx(D);
      for (std::size_t i = 0; i < A.csz; i++)
        for (int d = 0; d < D; d++) {
          ld x = ld(A.c[i * D + d]) / (A.rat ? ld(A.w[i]) : 1);
          mn[d] = i ? std::min(mn[d], x) : x;
          mx[d] = i ? std::max(mx[d], x) : x;
        }
      if (c.op == O_CORNERS) {
        mn.insert(mn.end(), mx.begin(), mx.end());
        return vals(mn, sA);
      }
      bool fits = true, vague = false;
      for (int d = 0; d < D; d++) {
        fits = fits && mn[d] >= 0 && mx[d] <= 1;
        if (A.rat) vague = vague || std::fabs(mn[d]) < 1e-12 || std::fabs(mx[d] - 1) < 1e-12;
      }
      return vague ? "" : vals({ld(fits)}, 0);
    }
    case O_CPACCESS: {
      std::size_t i = 0;
      for (int d = 0; d < P; d++) i += A.off[d] * p.deg[d];
      std::vector<ld> e;
      switch (p.variant / 2 % 5) {
        case 0:
          for (int d = 0; d < D; d++) e.push_back(ld(A.c[i * D + d]) / (A.rat ? ld(A.w[i]) : 1));
          break;
        case 1:
          for (int d = 0; d < D; d++) e.push_back(A.c[i * D + d]);
          if (A.rat) e.push_back(A.w[i]);
          break;
        case 2:
          e.push_back(i);
          for (int d = 0; d < P; d++) e.push_back(p.deg[d]);
          break;
        case 3:
          if (A.rat) e.assign(A.w.begin(), A.w.end());
          else e.push_back(A.csz);
          e.push_back(A.csz);
          for (int q = 0; q < 2 * P; q++) e.push_back(A.deg[q % P]);
          break;
        default: {
          if (D == 1) break;
          const double *x = p.pt, *y = p.pt2;
          ld dot = 0, sx = 0, sy = 0;
          for (int d = 0; d < D; d++) dot += ld(x[d]) * y[d], sx += ld(x[d]) * x[d], sy += ld(y[d]) * y[d];
          for (int d = 0; d < D; d++) e.push_back(2 * ld(x[d]));
          for (int d = 0; d < D; d++) e.push_back(ld(y[d]) * y[p.comp]);
          for (int d = 0; d < D; d++) e.push_back(ld(y[d]) - x[d]);
          for (int d = 0; d < D; d++) e.push_back(-ld(x[d]));
          for (int d = 0; d < D; d++) e.push_back(ld(x[d]) / 1.25L);
          for (int d = 0; d < D; d++) e.push_back(1.5L / (sy + 1) * x[d]);
          e.push_back(dot);
          e.push_back(sx);
          e.push_back(std::sqrt(sy));
          for (int d = 0; d < D; d++) e.push_back(1.5L / (2 << d));
          for (int d = 0; d < D; d++) {
            char b[40];
            snprintf(b, sizeof b, "%.12g", x[d]);
            e.push_back(std::strtod(b, nullptr));
          }
          return vals(e, 10);
        }
      }
      return vals(e, sA);
    }
    default:
      return "";
  }
}
Step random_step(Rng& r, const double w[4], double alias, double fault) {
  Step s;
  double x = r.uni() * (w[0] + w[1] + w[2] + w[3]);
  if (x < w[0]) s.op = O_ELEVATE + u32(r.below(O_FITCUBE - O_ELEVATE + 1));
  else if (x < w[0] + w[1]) s.op = O_ADD + u32(r.below(O_EMPTYCTOR - O_ADD + 1));
  else if (x < w[0] + w[1] + w[2]) s.op = O_EVAL + u32(r.below(O_CPACCESS - O_EVAL + 1));
  else s.op = O_REJ_SPLIT + u32(r.below(NOPS - O_REJ_SPLIT));
  // plain sums and differences of unequal degrees are worth more attention
  if (r.chance(0.12) && w[0] > 0.1) s.op = r.chance(0.5) ? O_ADDIN : O_SUBIN;
  else if (r.chance(0.08) && w[1] > 0.1) s.op = r.chance(0.5) ? O_ADD : O_SUB;
  s.a[0] = u32(r.below(NKIND * 2 * NSL));
  s.a[1] = u32(r.below(36));
  s.a[2] = u32(r.below(NSL));
  s.a[3] = u32(r.below(12));
  s.a[4] = u32(r.below(12));
  s.a[5] = u32(r.below(64));
  s.a[6] = u32(r.below(64));
  s.ds = r.next() >> 8;
  s.a[7] = (r.chance(alias) ? 1 : 0) | (r.chance(0.6) ? 2 : 0) | (r.chance(0.3) ? 4 : 0) | (r.chance(0.3) ? 8 : 0) |
           u32(r.below(4)) << 4;
  if (r.chance(alias * 0.5)) s.a[1] = (s.a[0] / NKIND) % NSL;  // self-argument
  if (r.chance(fault)) {
    s.fk = 1 + u32(r.below(4));
    s.fpos = s.fk == F_ALLOC_SIZE ? u32(16 << r.below(7)) : u32(r.below(1u << 16));
    s.fcnt = 1 + u32(r.below(3));
  }
  return s;
}
std::vector<Step> focused_steps(Rng& r, const double w[4], double alias, double fault, int n) {
  static const u32 changes[] = {O_SETCP, O_SETCP, O_SETCP, O_ADDPT, O_SUBPT, O_SCALEIN, O_TRANSSCALE, O_FITCUBE,
                                O_ADDIN, O_ELEVATE};
  const double others[4] = {0, w[1] + 0.1, w[2] + 0.3, w[3]};
  std::vector<Step> t, res;
  const std::size_t k = 2 + r.below(3);
  for (std::size_t i = 0; i < k; i++) {
    t.push_back(random_step(r, i ? others : w, alias, 0));
    if (!i) t[i].op = changes[r.below(10)];
    else if (r.chance(0.85)) t[i].a[0] = t[0].a[0];
  }
  for (int i = 0; i < n; i++) {
    Step s = t[r.below(k)];
    const Step fresh = random_step(r, w, alias, fault);
    if (r.chance(op_inplace(s.op) ? 0.8 : 0.1)) s.ds = fresh.ds;
    s.a[7] = fresh.a[7];
    if (r.chance(op_inplace(s.op) ? 0.5 : 0.05)) s.a[5] = fresh.a[5], s.a[6] = fresh.a[6];
    if (r.chance(0.5)) s.fk = fresh.fk, s.fpos = fresh.fpos, s.fcnt = fresh.fcnt;
    res.push_back(s);
  }
  return res;
}
}  // namespace sim
