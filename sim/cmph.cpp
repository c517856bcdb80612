// Compositions of splines through refinements, in a process whose heap fails
// (C04; rejections C07; history C03; recovery C05).
#include <algorithm>

#include "cmp_api.hpp"
#include "ops_api.hpp"

using namespace sim;
namespace sim {
const CApi* cmp_11(); const CApi* cmp_12(); const CApi* cmp_21(); const CApi* cmp_22();
const CApi* cmp_32(); const CApi* cmp_23(); const CApi* cmp_31(); const CApi* cmp_33();
}  // namespace sim
namespace {
const char* const cop_names[] = {"compose", "compose-sensitivities", "compose-group", "elevate", "split",
                                 "fit-into-unit-cube", "new-spline", "new-spline-outside-the-cube"};
enum {
  K_COMP, K_SENS, K_GROUP, K_REF, K_REJ, K_REJOOM, K_OOM, K_RETRY, K_LEAK, K_F1, K_F2, K_F3, K_F4, K_STORED,
  K_POST, K_PTS, K_SKIP, K_OTHER, K_HIST, K_VAGUE, K_PRE, K_COPIES, NK
};
const char* const counters[] = {
    "compositions judged", "composition sensitivities judged", "group compositions judged",
    "refinements of operands", "compositions rejected", "rejected compositions that ran out of memory",
    "compositions that ran out of memory", "retries after a failure", "failed compositions checked for kept memory",
    "fault: single allocation failed", "fault: several allocations failed",
    "fault: all allocations from one on failed", "fault: large allocations failed",
    "results composed again as outer splines", "refinements of results judged", "points compared",
    "steps outside the covered domain", "runs ended by a violation of another property", "histories compared",
    "inner splines on the rim of the cube",
    "first attempts that failed before any success with these arguments",
    "requests repeated with copies", nullptr};
Shared* S;
[[noreturn]] void bad(const char* cls, const std::string& m) {
  violation(S, cls, m);
  child_stop(3);
}
const CApi* api_of(int i) {
  switch (i) {
    case 0: return cmp_11();
    case 1: return cmp_12();
    case 2: return cmp_21();
    case 3: return cmp_22();
    case 4: return cmp_32();
    case 5: return cmp_23();
    case 6: return cmp_31();
    default: return cmp_33();
  }
}
struct Geo {
  Snap now, base;
  double lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1};
  Val at(const double* u) const {
    double v[3];
    for (int i = 0; i < 3; i++) v[i] = lo[i] + (hi[i] - lo[i]) * u[i];
    return value(base, v);
  }
};
double param(Rng& r) {
  double x = r.uni();
  if (x < 0.08) return 0;
  if (x < 0.16) return 1;
  if (x < 0.20) return 0.5;
  if (x < 0.24) return std::pow(10., -12 * r.uni());
  if (x < 0.28) return 1 - std::pow(10., -12 * r.uni());
  return r.uni();
}
std::string num(ld x) {
  char b[48];
  snprintf(b, sizeof b, "%.10Lg", x);
  return b;
}
Snap random_c(int kind, int po, int pi, u64 seed, int maxdeg, bool outside) {
  Rng r(seed);
  Snap s;
  const bool inner = ck_inner(kind);
  s.P = inner ? pi : po;
  s.D = inner ? po : kind == CO_S || kind == CO_RS ? 1 : 2;
  s.rat = ck_rat(kind);
  std::size_t n = 1;
  int lim = inner ? (pi == 1 ? 4 : 2) : po == 1 ? 6 : po == 2 ? 3 : 2;
  if (inner && pi == 3) lim = 1 + (r.below(3) == 0);
  if (inner && pi == 1 && maxdeg > 6) lim = 8;
  if (!inner && po == 1 && maxdeg > 6) lim = maxdeg;
  // outer splines with many control points, inner ones of low degree
  if (maxdeg > 20) lim = inner ? (r.chance(0.7) ? 1 : 2) : po == 1 ? 29 : po == 2 ? 8 : 4;
  if (lim > maxdeg) lim = maxdeg;
  for (int i = 0; i < s.P; i++) {
    s.deg[i] = r.below(lim + 1);
    s.off[i] = n;
    n *= s.deg[i] + 1;
  }
  s.ncp = s.csz = n;
  u64 mode = r.below(8);
  // outer splines: 1 tiny, 2 large, 3 far from the origin
  const double amp = mode == 1 ? std::pow(10., -double(r.below(10))) : mode == 2 ? 100 : 2;
  const double shift = mode == 3 ? 50 : 0;
  for (std::size_t i = 0; i < n * s.D; i++)
    s.c.push_back(inner ? (mode == 0 ? double(r.below(2)) : mode == 1 ? double(r.below(5)) / 4 : r.uni())
                        : mode == 0 ? double(i64(r.below(7)) - 3) : shift + r.range(-amp, amp));
  if (inner && outside) {
    // a corner of the spline, so that its values leave the cube as well
    std::size_t corner = 0;
    for (int i = 0; i < s.P; i++)
      if (r.chance(0.5)) corner += s.off[i] * s.deg[i];
    double far = r.chance(0.3) ? 1e-9 : r.chance(0.5) ? 0.01 : 5;
    s.c[corner * s.D + r.below(s.D)] = r.chance(0.5) ? -far : 1 + far;
  }
  if (s.rat) {
    for (int i = 0; i < s.P; i++) {
      s.wdeg[i] = s.deg[i];
      s.woff[i] = s.off[i];
    }
    const bool unit = r.chance(0.15);
    const double common = unit && r.chance(0.3) ? r.range(0.5, 1.5) : 1;
    const double size = r.chance(0.2) ? std::pow(10., r.range(-2, 2)) : 1;
    for (std::size_t i = 0; i < n; i++) {
      double w = (unit ? common : r.range(0.5, 1.5)) * size;
      s.w.push_back(w);
      for (int d = 0; d < s.D; d++) s.c[i * s.D + d] *= w;
    }
    s.wncp = s.wsz = n;
  }
  return s;
}
enum Fit { F_IN, F_OUT, F_VAGUE };
Fit fits(const Snap& s) {
  bool over = false, far = false;
  double u[3];
  for (std::size_t i = 0; i < s.csz; i++)
    for (int d = 0; d < s.D; d++) {
      double x = s.rat ? s.c[i * s.D + d] / s.w[i] : s.c[i * s.D + d];
      if (x < 0 || x > 1) over = true;
    }
  if (!over) {
    if (!s.rat) return F_IN;
    for (std::size_t i = 0; i < s.csz; i++)
      for (int d = 0; d < s.D; d++) {
        // another way of dividing could round differently
        double x = s.c[i * s.D + d] / s.w[i];
        if (x != 0 && x != 1 && (x < 1e-13 || x > 1 - 1e-13)) return F_VAGUE;
      }
    return F_IN;
  }
  // is it only the control polygon, or a hair?
  for (int m = 0; m < (1 << s.P); m++) {
    for (int i = 0; i < 3; i++) u[i] = m >> i & 1;
    Val v = value(s, u);
    for (int d = 0; d < s.D; d++)
      if (v.v[d] < -1e-12L || v.v[d] > 1 + 1e-12L) far = true;
  }
  return far ? F_OUT : F_VAGUE;
}
struct Mode {
  bool judge = false, reject = false, bits = false, recover = false;
};
Mode mode_of(const std::string& p) {
  Mode m;
  if (p == "C04") m.judge = m.reject = m.recover = true;
  if (p == "C07") m.reject = true;
  if (p == "C03") m.bits = true;
  if (p == "C05") m.recover = true;
  return m;
}
struct Runner {
  const Plan& plan;
  Mode m;
  const CApi* api;
  void* w;
  int po, pi;
  u64 g;
  Geo cur[NCK][CSL];
  Hash h;
  std::vector<u64>* steps_out = nullptr;
  bool no_reject = false;
  Runner(const Plan& p, u64 garbage, Mode mode) : plan(p), m(mode) {
    api = api_of(int(p.get("dims")));
    po = api->po;
    pi = api->pi;
    g = garbage;
    w = api->make();
    Rng r{u64(p.get("wseed"))};
    for (int k = 0; k < NCK; k++)
      for (int i = 0; i < CSL; i++) {
        const u64 x = r.next();
        fill(k, i, x, false);
        Rng q(x ^ 77);
        if (i && q.chance(0.12)) {
          api->set(w, k, i, similar_spline(cur[k][q.below(i)].now, q, ck_inner(k)));
          sync(k, i);
        }
      }
  }
  ~Runner() { api->destroy(w); }
  void sync(int k, int i) {
    Geo& q = cur[k][i];
    q.now = q.base = api->snap(w, k, i);
    for (int d = 0; d < 3; d++) q.lo[d] = 0, q.hi[d] = 1;
  }
  void fill(int k, int i, u64 seed, bool outside) {
    api->set(w, k, i, random_c(k, po, pi, seed, int(plan.get("maxdeg", 6)), outside));
    sync(k, i);
  }
  [[noreturn]] void other() {
    S->count[K_OTHER]++;
    S->done = 1;
    child_stop(0);
  }
  void note(u64 x) {
    if (steps_out) steps_out->push_back(x);
    h.add(x);
  }
  void unchanged(const std::string& what, bool report) {
    for (int k = 0; k < NCK; k++)
      for (int i = 0; i < CSL; i++) {
        Snap s = api->snap(w, k, i);
        if (!same_bits(s, cur[k][i].now)) {
          if (report) bad("bystander", what + " changed a spline (kind " + std::to_string(k) + ")");
          sync(k, i);
        }
      }
  }
  static std::string status_text(const COut& o) {
    switch (o.status) {
      case ST_OK: return "returned normally";
      case ST_OOM: return "reported exhausted memory";
      case ST_REJECT: return "threw '" + o.what + "'";
      default: return "threw an undocumented exception '" + o.what + "'";
    }
  }
  std::size_t sumdeg(const Snap& s) {
    std::size_t n = 0;
    for (int i = 0; i < s.P; i++) n += s.deg[i];
    return n;
  }
  // cost of a composition, 0: outside the covered domain
  bool allowed(const Snap& o, const Snap& in) {
    std::size_t n = sumdeg(o), cps = 1;
    for (int i = 0; i < pi; i++) {
      if (n * in.deg[i] > (pi == 1 ? 29u : pi == 2 ? 12u : 6u)) return false;
      cps *= n * in.deg[i] + 1;
    }
    if (cps * o.csz > 12000) return false;
    if (o.rat && (o.wmin() < 0.03 * o.wmax() || o.wmin() < 1e-20 || o.wmax() > 1e20)) return false;
    if (in.rat && in.wmin() < 0.15 * in.wmax()) return false;
    return o.cmax() / (o.rat ? o.wmax() : 1) < 1e3;
  }
  // "" or what is wrong with the composition `r` (fn maps the parameter)
  template <class F>
  std::string compare(const Snap& r, const Geo& o, const Geo& in, Rng& rg, F&& map, int sens) {
    std::string why;
    if (!consistent(r, why)) return why;
    for (double x : r.c)
      if (!std::isfinite(x)) return "a control point is not finite";
    const std::size_t n = sumdeg(o.now);
    for (int t = 0; t < 4; t++) {
      double u[3], v[3];
      for (double& x : u) x = param(rg);
      for (int i = 0; i < 3; i++) v[i] = u[i];
      map(v);
      Val x = in.at(v);
      double xi[3] = {double(x.v[0]), double(x.v[1]), double(x.v[2])};
      Val got = value(r, u);
      ld amp = 1;
      if (in.now.rat)
        for (std::size_t i = 0; i < n; i++) amp *= in.now.wmax() / x.w;
      ld wr = o.now.rat ? ld(o.now.wmax()) / o.now.wmin() : 1;
      ld e[3] = {0, 0, 0}, sc;
      if (sens >= 0) {
        e[0] = rational_basis(o.now, xi, Snap().deg, true)[std::size_t(sens)];
        sc = amp * wr * wr;
      } else {
        Val y = o.at(xi);
        for (int d = 0; d < o.now.D; d++) e[d] = y.v[d];
        sc = amp * wr * wr * o.now.cmax() / (o.now.rat ? o.now.wmin() : 1);
      }
      S->count[K_PTS]++;
      for (int d = 0; d < r.D; d++)
        if (!(std::fabs(got.v[d] - e[d]) <= 1e-11L * sc + 1e-15L)) {
          std::string at;
          for (int i = 0; i < pi; i++) at += (i ? "," : "") + num(u[i]);
          return "coordinate " + std::to_string(d) + " at (" + at + ") is " + num(got.v[d]) + ", " +
                 (sens >= 0 ? "the derivative of" : "") + " outer(inner) gives " + num(e[d]);
        }
    }
    return "";
  }
  std::string judge(const CCall& c, const COut& o, u64 seed) {
    Rng r(seed);
    const Geo& out = cur[c.ko][c.o];
    auto id = [](double*) {};
    if (c.op == CC_GROUP) {
      S->count[K_GROUP]++;
      if (o.kstore == -2) return "a member of the group was changed";
      if (o.res.size() != std::size_t(c.ng))
        return "gives " + std::to_string(o.res.size()) + " splines for " + std::to_string(c.ng);
      for (int i = 0; i < c.ng; i++) {
        std::string why = compare(o.res[i], out, cur[c.ki][c.group[i]], r, id, -1);
        if (!why.empty()) return "member " + std::to_string(i) + ": " + why;
      }
      return "";
    }
    const Geo& in = cur[c.ki][c.i];
    if (c.op == CC_SENS) {
      S->count[K_SENS]++;
      if (o.res.size() != out.now.csz)
        return "gives " + std::to_string(o.res.size()) + " splines for " + std::to_string(out.now.csz) + " control points";
      for (std::size_t i = 0; i < o.res.size(); i++) {
        std::string why = compare(o.res[i], out, in, r, id, int(i));
        if (!why.empty()) return "control point " + std::to_string(i) + ": " + why;
      }
      return "";
    }
    S->count[K_COMP]++;
    if (o.res.size() != 1) return "no result";
    std::string why = compare(o.res[0], out, in, r, id, -1);
    if (!why.empty()) return why;
    if (c.post) {
      S->count[K_POST]++;
      if (o.post.size() != (c.post == 1 ? 1u : 2u)) return "wrong number of refined results";
      for (std::size_t k = 0; k < o.post.size(); k++) {
        double lo = c.post == 1 || !k ? 0 : c.plane, hi = c.post == 1 || k ? 1 : c.plane;
        int d = c.dim % pi;
        why = compare(o.post[k], out, in, r, [&](double* v) { v[d] = lo + (hi - lo) * v[d]; }, -1);
        if (!why.empty()) return std::string(c.post == 1 ? "elevated" : "split") + " result: " + why;
      }
    }
    return "";
  }
  void compose(const Step& s, CCall& c, bool faults) {
    const std::string opn = cop_names[c.op];
    Fit f = F_IN;
    if (c.op == CC_GROUP) {
      bool v = false;
      for (int i = 0; i < c.ng; i++) {
        Fit x = fits(cur[c.ki][c.group[i]].now);
        if (x == F_OUT) f = F_OUT;
        if (x == F_VAGUE) v = true;
      }
      if (f != F_OUT && v) f = F_VAGUE;
    } else {
      f = fits(cur[c.ki][c.i].now);
    }
    // (a vector-valued outer spline of one parameter has no group version)
    const Snap o0 = cur[c.ko][c.o].now;
    Snap before_inner[CSL];
    for (int i = 0; i < CSL; i++) before_inner[i] = cur[c.ki][i].now;
    if (c.op == CC_GROUP ? !std::all_of(c.group, c.group + c.ng, [&](int i) { return allowed(o0, cur[c.ki][i].now); })
                         : !allowed(o0, cur[c.ki][c.i].now)) {
      S->count[K_SKIP]++;
      note(0);
      return;
    }
    if (f != F_IN && no_reject) {
      note(0);
      return;
    }
    std::string what = opn + " of " + show(o0) + " with ";
    if (c.op == CC_GROUP) what += std::to_string(c.ng) + " inner splines";
    else what += show(cur[c.ki][c.i].now);
    if (f == F_VAGUE) S->count[K_VAGUE]++;
    const bool rel = m.judge || (m.reject && f == F_OUT);
    auto check = [&](const COut& o, const char* when) {
      bool ok = f == F_OUT ? o.status == ST_REJECT : f == F_IN ? o.status == ST_OK : o.status == ST_REJECT || o.status == ST_OK;
      if (!ok) {
        if (rel || (m.recover && (*when || S->nontrivial)))
          bad("exception", what + (f == F_OUT ? " outside the unit cube " : " inside the unit cube ") + status_text(o) + when);
        other();
      }
      if (o.status == ST_REJECT && m.reject && o.what.size() < 10)
        bad("text", opn + ": the explanation '" + o.what + "' is incomplete");
      if (o.status == ST_OK && m.judge) {
        std::string why = judge(c, o, s.ds ^ 0x31);
        if (!why.empty()) bad("wrong", what + ": " + why + when);
      }
      if (o.status == ST_REJECT) S->count[K_REJ]++;
    };
    const int store = c.store;
    c.store = -1;
    S->phase = 1;
    c.garbage = ~g;
    // sometimes the very first attempt with these arguments fails
    const u64 pre = mix(s.ds ^ 0xF1257);
    if (faults && s.fk && pre % 3 != 0) {
      static const u32 early[8] = {1, 2, 4, 8, 20, 50, 150, 400};
      c.fk = s.fk;
      c.fpos = s.fk == F_ALLOC_SIZE ? s.fpos : s.fpos % early[pre / 3 % 8];
      c.fcnt = s.fcnt;
      COut p = api->exec(c);
      S->ticks += 1 + p.st.allocs;
      if (p.st.failed) {
        S->nontrivial = 1;
        S->count[K_PRE]++;
      }
      c.fk = 0;
    }
    COut t = api->exec(c);
    S->ticks += 1 + t.st.allocs;
    check(t, "");
    unchanged(opn, m.judge || (m.reject && t.status == ST_REJECT));
    u64 sig = c.op + 8 * c.ko + 64 * c.ki + 256 * u64(plan.get("dims")) + 4096 * t.status;
    for (int i = 0; i < po; i++) sig = sig * 13 + o0.deg[i];
    for (int i = 0; i < pi; i++) sig = sig * 13 + cur[c.ki][c.i].now.deg[i];
    COut o = t;
    S->phase = 2;
    if (faults && s.fk) {
      c.fk = s.fk;
      c.fpos = s.fk == F_ALLOC_SIZE ? s.fpos : s.fpos % (t.st.allocs ? t.st.allocs : 1);
      c.fcnt = s.fcnt;
      c.garbage = g;
      o = api->exec(c);
      S->ticks += 1 + o.st.allocs;
      if (o.st.failed) {
        S->nontrivial = 1;
        S->count[s.fk == F_ALLOC_ONE ? K_F1 : s.fk == F_ALLOC_RUN ? K_F2 : s.fk == F_ALLOC_ALL ? K_F3 : K_F4] += o.st.failed;
      }
      sig = sig * 3 + o.status;
      if (o.status == ST_OOM) {
        if (!o.st.failed) {
          if (rel) bad("exception", what + " reported exhausted memory although no allocation failed");
          other();
        }
        S->count[f == F_OUT ? K_REJOOM : K_OOM]++;
        unchanged(opn + " that ran out of memory", m.judge || m.reject);
        if (o.leak && m.judge) {
          S->count[K_LEAK]++;
          COut o2 = api->exec(c);
          if (o2.status == ST_OOM && o2.leak) bad("leak", opn + " keeps memory each time it runs out of memory");
        } else {
          S->count[K_LEAK]++;
        }
      } else {
        check(o, " (an allocation had failed)");
        unchanged(opn, m.judge);
      }
      c.fk = 0;
      c.garbage = mix(g);
      c.store = store;
      o = api->exec(c);
      S->count[K_RETRY]++;
      S->ticks += 1 + o.st.allocs;
      check(o, " when repeated after a failure");
    } else if (store >= 0) {
      c.store = store;
      o = api->exec(c);
      S->ticks += 1 + o.st.allocs;
      check(o, " when repeated");
    }
    if (m.bits && mix(s.ds ^ 0xC09135) % 2) {
      // the same request with copies (not always, as it would refresh whatever
      // the library remembers of its last call)
      CCall q = c;
      q.w = api->make();
      q.store = -1;
      api->set(q.w, c.ko, c.o, o0);
      for (int i = 0; i < CSL; i++) api->set(q.w, c.ki, i, before_inner[i]);
      COut x = api->exec(q);
      api->destroy(q.w);
      S->count[K_COPIES]++;
      S->ticks += 1 + x.st.allocs;
      bool same = x.status == t.status && x.res.size() == t.res.size();
      for (std::size_t i = 0; same && i < x.res.size(); i++) same = same_bits(x.res[i], t.res[i]);
      if (!same) bad("differs", what + " differs from the one with copies of these splines");
    }
    if (m.bits) {
      bool same = o.status == t.status && o.res.size() == t.res.size();
      for (std::size_t i = 0; same && i < o.res.size(); i++) same = same_bits(o.res[i], t.res[i]);
      if (!same) bad("differs", what + " differs when repeated");
    }
    if (o.kstore >= 0 && c.store >= 0) {
      sync(o.kstore, c.store);
      const Snap& q = cur[o.kstore][c.store].now;
      S->count[K_STORED]++;
      std::string why;
      if (!consistent(q, why) || q.cmax() / (q.rat ? q.wmax() : 1) > 100 || sumdeg(q) > (po == 1 ? 8u : po == 2 ? 6u : 3u) ||
          (q.rat && (q.wmin() < 0.05 * q.wmax() || q.wmin() < 1e-15 || q.wmax() > 1e15)))
        fill(o.kstore, c.store, s.ds ^ 9, false);
    }
    unchanged(opn, m.judge);
    signature(S, mix(sig));
    Hash hs;
    hs.add(c.op);
    hs.add(o.status);
    for (auto& q : o.res) hs.add(q.hash());
    note(hs.h);
  }
  void refine(const Step& s, CCall& c, bool faults) {
    const std::string opn = cop_names[c.op];
    Geo& q = cur[c.ko][c.o];
    const Snap before = q.now;
    const int P = before.P;
    const int d = c.dim % P;
    if (c.op == CC_ELEVATE && (before.deg[d] >= 6 || sumdeg(before) >= (P == 1 ? 8u : 6u))) {
      S->count[K_SKIP]++;
      note(0);
      return;
    }
    // thin pieces make badly conditioned geometry
    if (c.op == CC_SPLIT && q.hi[d] - q.lo[d] < 0.02) {
      S->count[K_SKIP]++;
      note(0);
      return;
    }
    S->count[K_REF]++;
    S->phase = 3;
    c.garbage = g;
    if (faults && s.fk) {
      c.fk = s.fk;
      c.fpos = s.fk == F_ALLOC_SIZE ? s.fpos : s.fpos % 12;
      c.fcnt = s.fcnt;
    }
    COut o = api->exec(c);
    if (o.st.failed) {
      S->nontrivial = 1;
      S->count[s.fk == F_ALLOC_ONE ? K_F1 : s.fk == F_ALLOC_RUN ? K_F2 : s.fk == F_ALLOC_ALL ? K_F3 : K_F4] += o.st.failed;
    }
    if (o.status == ST_OOM && o.st.failed) {
      // what a failed refinement leaves is a matter of C01
      Snap now = api->snap(w, c.ko, c.o);
      std::string why;
      if (!consistent(now, why)) other();
      c.fk = 0;
      c.garbage = mix(g);
      S->count[K_RETRY]++;
      o = api->exec(c);
    }
    S->ticks += 1 + o.st.allocs;
    if (o.status != ST_OK) {
      if (m.judge || m.recover) bad("exception", opn + " of " + show(before) + " " + status_text(o));
      other();
    }
    q.now = api->snap(w, c.ko, c.o);
    std::string why;
    if (!consistent(q.now, why)) {
      if (m.judge) bad("wrong", opn + " of " + show(before) + ": " + why);
      other();
    }
    if (c.op == CC_SPLIT) {
      double l = q.lo[d], x = q.hi[d] - q.lo[d];
      if (c.part % 2 == 0) q.hi[d] = l + x * c.plane;
      else q.lo[d] = l + x * c.plane;
    } else if (c.op == CC_FIT) {
      for (double x : q.now.c)
        if (!(x >= 0 && x <= 1)) {
          if (m.judge) bad("wrong", opn + " of " + show(before) + " gives the coordinate " + num(x) + " outside the unit cube");
          other();
        }
      sync(c.ko, c.o);
    }
    signature(S, mix(c.op + 16 * c.ko + 128 * before.deg[d] + 4096 * u64(o.st.failed > 0) + 8192 * u64(plan.get("dims"))));
    note(q.now.hash());
  }
  void step(std::size_t idx, const Step& s, bool faults) {
    S->step = u32(idx);
    S->op = s.op % NCOP;
    g = mix(g + idx);
    Rng r(s.ds);
    CCall c;
    c.w = w;
    c.op = s.op % NCOP;
    c.dim = int(s.a[4]);
    c.plane = r.chance(0.3) ? 0.5 : r.range(0.1, 0.9);
    if (r.chance(0.05)) c.plane = r.range(0.001, 0.999);
    c.part = int(s.a[5]) % 2;
    c.o = int(s.a[1]) % CSL;
    if (c.op <= CC_GROUP) {
      c.ko = int(s.a[0]) % 4;
      c.ki = CI_P + int(s.a[2]) % 2;
      c.i = int(s.a[3]) % CSL;
      if (c.op == CC_GROUP) {
        if (!api->group) c.op = CC_COMPOSE;
        else c.ko %= 2;
        c.ng = int(s.a[6]) % 4;
        for (int i = 0; i < c.ng; i++) c.group[i] = int(s.a[7] >> i) & 1;
      }
      if (c.op == CC_COMPOSE) {
        c.post = int(s.a[6]) % 3;
        if (po == pi && s.a[7] & 1) c.store = int(s.a[7] >> 1) % CSL;
      }
      S->op = c.op;
      compose(s, c, faults);
      return;
    }
    c.ko = int(s.a[0]) % NCK;
    if (c.op == CC_NEW || c.op == CC_NEWOUT) {
      if (c.op == CC_NEWOUT) c.ko = CI_P + c.ko % 2;
      if (c.op == CC_NEW && r.chance(0.5)) {
        // a small change only
        api->set(w, c.ko, c.o, similar_spline(cur[c.ko][c.o].now, r, ck_inner(c.ko)));
        sync(c.ko, c.o);
      } else fill(c.ko, c.o, s.ds, c.op == CC_NEWOUT);
      note(1);
      return;
    }
    if (c.op == CC_FIT) c.ko = CI_P;
    refine(s, c, faults);
  }
  void go(bool faults) {
    for (std::size_t i = 0; i < plan.steps.size(); i++) step(i, plan.steps[i], faults);
  }
};
struct Extra {
  u32 n, complete;
  u64 v[2000];
};
struct CmpH : Harness {
  const char* const* counter_names() override { return counters; }
  std::string op_name(u32 op) override { return cop_names[op % NCOP]; }
  std::string describe(const Step& s) override {
    static const char* const kn[] = {"scalar", "vector", "rational-scalar", "rational-vector", "inner", "rational-inner"};
    const u32 op = s.op % NCOP;
    std::string t = cop_names[op];
    if (op <= CC_GROUP)
      t += std::string(" outer=") + kn[op == CC_GROUP ? s.a[0] % 2 : s.a[0] % 4] + std::to_string(s.a[1] % CSL) + " with " +
           kn[4 + s.a[2] % 2] + std::to_string(s.a[3] % CSL) + " args=" + std::to_string(s.a[4]) + "," +
           std::to_string(s.a[6]) + "," + std::to_string(s.a[7]);
    else
      t += std::string(" ") + kn[s.a[0] % NCK] + std::to_string(s.a[1] % CSL) + " dim=" + std::to_string(s.a[4]) +
           " part=" + std::to_string(s.a[5] % 2);
    t += " data=" + std::to_string(s.ds);
    static const char* const fk[] = {"", " FAULT allocation ", " FAULT allocations from ", " FAULT all allocations from ",
                                     " FAULT allocations of bytes >= "};
    if (s.fk >= 1 && s.fk <= 4) t += fk[s.fk] + std::to_string(s.fpos) + " (modulo the allocations of the call)";
    return t;
  }
  void simplify_header(const Plan& p, std::vector<Plan>& out) override {
    for (i64 d = 1; d < p.get("maxdeg", 6); d++) {
      Plan q = p;
      q.h["maxdeg"] = d;
      out.push_back(q);
    }
    for (i64 d = 0; d < p.get("dims"); d++) {
      Plan q = p;
      q.h["dims"] = d;
      out.push_back(q);
    }
  }
  Plan gen(const std::string& prop, u64 seed) override {
    Plan p;
    p.prop = prop;
    p.seed = seed;
    Rng r(seed);
    p.h["dims"] = i64(r.below(8));
    p.h["wseed"] = i64(r.below(1u << 30));
    p.h["garbage"] = i64(r.below(1u << 30));
    p.h["maxdeg"] = r.chance(0.3) ? 6 : r.chance(0.5) ? 3 : 2;
    if (r.chance(0.1)) p.h["maxdeg"] = 14;
    if (r.chance(0.1)) p.h["maxdeg"] = 29;
    const double fault = r.chance(0.75) ? 0.6 : 0.1;
    const double out = prop == "C07" ? 0.35 : 0.06;
    int n = 4 + int(r.below(10));
    // sometimes mostly the same operands
    const bool focus = r.chance(0.25);
    u32 fa[NA];
    for (u32& a : fa) a = u32(r.below(24));
    for (int i = 0; i < n; i++) {
      Step s;
      double x = r.uni();
      if (x < out) s.op = CC_NEWOUT;
      else if (r.chance(0.62)) s.op = r.chance(0.5) ? CC_COMPOSE : r.chance(0.6) ? CC_SENS : CC_GROUP;
      else s.op = CC_ELEVATE + u32(r.below(4));
      for (u32& a : s.a) a = u32(r.below(24));
      if (focus && r.chance(0.85)) {
        std::copy(fa, fa + 4, s.a);
        // changes hit one of the two operands
        if (s.op > CC_GROUP && r.chance(0.6)) s.a[0] = CI_P + fa[2] % 2, s.a[1] = fa[3];
      }
      s.ds = r.next() >> 8;
      if (r.chance(fault)) {
        s.fk = 1 + u32(r.below(4));
        s.fpos = s.fk == F_ALLOC_SIZE ? u32(16 << r.below(7)) : u32(r.below(1u << 16));
        s.fcnt = 1 + u32(r.below(3));
      }
      p.steps.push_back(s);
    }
    return p;
  }
  bool relevant_crash(const std::string& prop, const std::string& cls, u32 op, bool judged_reject) {
    if (prop == "C04") return op <= CC_GROUP || op == CC_FIT;
    if (prop == "C05") return cls != "memory";
    if (prop == "C07") return judged_reject;
    return false;
  }
  RunResult run(const Plan& p) override {
    const Mode m = mode_of(p.prop);
    heap_runaway = [](const char* w) {
      violation(S, "hang", std::string("a call exceeded its bound of ") + w);
      child_stop(3);
    };
    step_budget(2000000000ull);
    const bool hist = p.prop == "C03" || p.prop == "C07";
    const u64 garbage = u64(p.get("garbage"));
    Extra ea, eb;
    auto one = [&](int block, bool cold, u64 gb, Extra& e) {
      Shared* b = shared_block(block);
      S = b;
      ChildStatus st = in_child(b, [&](Shared*) {
        std::memset(S->extra, 0, 16);
        std::vector<u64> v;
        if (p.prop == "C03" && !cold) {
          Runner r(p, gb, m);
          r.go(true);
          v.clear();
        }
        Runner r(p, gb * 3 + 1, m);
        r.steps_out = &v;
        r.no_reject = cold && p.prop == "C07";
        r.go(!(p.prop == "C03"));
        S->hash[0] = r.h.h;
        Extra* x = reinterpret_cast<Extra*>(S->extra);
        x->n = u32(std::min<std::size_t>(v.size(), 2000));
        for (u32 i = 0; i < x->n; i++) x->v[i] = v[i];
        x->complete = 1;
      });
      RunResult r = collect(b, st);
      std::memcpy(&e, b->extra, sizeof e);
      S = shared_block(0);
      return r;
    };
    RunResult res = one(0, false, garbage, ea);
    Shared* a = shared_block(0);
    if (res.viol && (!a->viol || std::string(a->cls) == "hang")) {
      bool rel = relevant_crash(p.prop, res.cls, res.vop, false);
      if (!rel && p.prop == "C07") {
        // only if it takes the rejected requests
        RunResult rb = one(1, true, garbage, eb);
        rel = !rb.viol && eb.complete == 1;
      }
      if (!rel) {
        res.viol = false;
        res.skipped = true;
        res.count[K_OTHER]++;
      }
      return res;
    }
    if (res.viol || !hist || ea.complete != 1) return res;
    RunResult rb = one(1, true, p.prop == "C03" ? garbage * 7 + 5 : garbage, eb);
    if (rb.viol || eb.complete != 1) return res;
    res.count[K_HIST]++;
    res.ticks += rb.ticks;
    for (u32 i = 0; i < ea.n && i < eb.n; i++) {
      if (p.prop == "C07" && eb.v[i] == 0) continue;
      if (ea.v[i] != eb.v[i]) {
        res.viol = true;
        res.cls = "history";
        res.vstep = i;
        res.vop = p.steps[i].op % NCOP;
        res.msg = std::string(cop_names[res.vop]) +
                  (p.prop == "C03" ? " gives another result than in a fresh process without the preceding work"
                                   : " gives another result than without the preceding rejected requests");
        break;
      }
    }
    return res;
  }
};
}  // namespace
int main(int argc, char** argv) {
  CmpH h;
  return harness_main(h, argc, argv);
}
