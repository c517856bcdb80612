#include "thr_lib.hpp"

#include <cmath>
#include <stdexcept>

#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/point.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
#include "bezman/src/utils/algorithms/bernstein_polynomial.hpp"
#include "bezman/src/utils/algorithms/int_power.hpp"
#include "bezman/src/utils/algorithms/recursive_combine.hpp"
#include "bezman/src/utils/algorithms/sort.hpp"
#include "bezman/src/utils/base64.hpp"
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
#include "bezman/src/utils/logger.hpp"

namespace sim {
namespace {
using namespace bezman;
using utils::Logger;
using P2 = Point<2, double>;
using P3 = Point<3, double>;
using B1 = BezierSpline<1, P2, double>;
using R1 = RationalBezierSpline<1, P2, double>;
using B2 = BezierSpline<2, P2, double>;
using R2 = RationalBezierSpline<2, P2, double>;
using AD = utils::computational_differentiation::AlgoDiffType<double>;
using AS = utils::computational_differentiation::AlgoDiffType<double, 2>;

struct OwnError : std::exception {
  std::string t;
  explicit OwnError(const std::string& s) : t(s) {}
  const char* what() const noexcept override { return t.c_str(); }
};
template <class F>
LibOut call(u32 fk, u64 fpos, u64 fcnt, F&& f) {
  LibOut o;
  Armed arm(fk, fpos, fcnt);
  try {
    f(o, arm);
  } catch (const std::bad_alloc&) {
    o.status = 1;
  } catch (const std::invalid_argument& e) {
    arm.end();
    o.status = 2, o.type = "invalid_argument", o.what = e.what();
  } catch (const std::runtime_error& e) {
    arm.end();
    o.status = 2, o.type = "runtime_error", o.what = e.what();
  } catch (const OwnError& e) {
    arm.end();
    o.status = 2, o.type = "own", o.what = e.what();
  } catch (const std::exception& e) {
    arm.end();
    o.status = 3, o.what = e.what();
  } catch (...) {
    arm.end();
    o.status = 3, o.what = "no standard exception";
  }
  o.st = arm.end();
  if (o.status) o.vals.clear(), o.text.clear();
  return o;
}
double num(Rng& r) { return r.range(-2, 2); }
void put(LibOut& o, double x) { o.vals.push_back(x); }
template <std::size_t D>
void put(LibOut& o, const Point<D, double>& p) {
  for (std::size_t i = 0; i < D; i++) o.vals.push_back(p[i]);
}
template <std::size_t P, class Pt>
void put(LibOut& o, const BezierSpline<P, Pt, double>& s) {
  for (auto d : s.GetDegrees()) o.vals.push_back(double(d));
  for (auto& c : s.GetControlPoints()) put(o, c);
}
template <std::size_t P, class Pt>
void put(LibOut& o, const RationalBezierSpline<P, Pt, double>& s) {
  put(o, s.GetNumeratorSpline());
  put(o, s.GetWeightFunctionSpline());
}
template <std::size_t P>
std::vector<P2> points(Rng& r, const std::array<std::size_t, P>& d, double lo, double hi) {
  std::size_t n = 1;
  for (auto x : d) n *= x + 1;
  std::vector<P2> c;
  for (std::size_t i = 0; i < n; i++) c.push_back(P2{r.range(lo, hi), r.range(lo, hi)});
  return c;
}
std::vector<double> weights(Rng& r, std::size_t n) {
  std::vector<double> w;
  for (std::size_t i = 0; i < n; i++) w.push_back(r.range(0.4, 2));
  return w;
}
struct SharedSplines {
  std::vector<B2> outer;
  std::vector<R2> router;
  std::vector<B1> inner;
  std::vector<R1> rinner;
};
SharedSplines* sh;
template <class S>
void group(LibOut& o, const std::vector<S>& g) {
  for (auto& s : g) put(o, s);
}
}  // namespace

LibOut lib_log(int what, u32 a, u32 level, const std::string& text, u32 fk, u64 fpos, u64 fcnt) {
  return call(fk, fpos, fcnt, [&](LibOut&, Armed&) {
    using O = Logger::OutputLevel;
    switch (what) {
      case 0: Logger::Warning(text); break;
      case 1: Logger::UserInfo(text); break;
      case 2: Logger::Logging(text); break;
      case 3: Logger::ExtendedInformation(text); break;
      case 4: Logger::Error(text); break;
      case 5:
        switch (a % 4) {
          case 0: Logger::TerminatingError<std::invalid_argument>(text); break;
          case 1: Logger::TerminatingError<OwnError>(text); break;
          default: Logger::TerminatingError(text);
        }
        break;
      case 6: Logger::SetOutputLevel(level); break;
      default:
        switch (a % 6) {
          case 0: Logger::SetOutputLevel({}); break;
          case 1: Logger::SetOutputLevel({O::log_file, O::warning_file, O::error_file, O::time_stamp}); break;
          case 2: Logger::SetOutputLevel({O::all}); break;
          case 3: Logger::SetOutputLevel({O::errors, O::error_file}); break;
          case 4: Logger::SetOutputLevel({O::log_file, O::logging_verbose, O::logging, O::userinfo}); break;
          default: Logger::SetOutputLevel({O::warnings, O::warnings, O::warning_file}); break;
        }
    }
  });
}
LibOut lib_b64(u64 seed, u32 fk, u64 fpos, u64 fcnt) {
  Rng r(seed);
  std::vector<double> d;
  std::vector<P3> p;
  std::vector<unsigned short> u;
  for (u64 n = r.below(20); n--;) d.push_back(num(r));
  for (u64 n = r.below(9); n--;) p.push_back(P3{num(r), num(r), num(r)});
  for (u64 n = r.below(31); n--;) u.push_back((unsigned short)r.next());
  const u64 which = r.below(3);
  return call(fk, fpos, fcnt, [&](LibOut& o, Armed& arm) {
    if (which == 0) {
      std::string t = utils::Base64::Encode(d);
      auto x = utils::Base64::Decode<double>(t);
      arm.end();
      o.text = t;
      o.vals = x;
    } else if (which == 1) {
      std::string t = utils::Base64::Encode(p);
      auto x = utils::Base64::Decode<P3>(t);
      arm.end();
      o.text = t;
      for (auto& q : x) put(o, q);
    } else {
      std::string t = utils::Base64::Encode(u);
      auto x = utils::Base64::Decode<unsigned short>(t);
      arm.end();
      o.text = t;
      for (auto q : x) o.vals.push_back(q);
    }
  });
}
LibOut lib_ad(u64 seed, u32 fk, u64 fpos, u64 fcnt) {
  Rng r(seed);
  const double a = num(r), b = num(r), c = r.range(0.2, 0.9);
  const u64 which = r.below(4);
  return call(fk, fpos, fcnt, [&](LibOut& o, Armed& arm) {
    if (which < 2) {
      AD x(a, 3), y(b, 3), z(c, 3);
      x.SetActiveComponent(0);
      y.SetActiveComponent(1);
      z.SetActiveComponent(2);
      AD f = which ? sin(x * y) + exp(z) / (z * z + 1.) - sqrt(z) * x : (x + y) * (x - 2. * y) + log(z) * cos(x) - atan(y);
      f += x;
      f *= y;
      f -= z;
      AD g = f;
      g = g * f;
      arm.end();
      put(o, g.GetValue());
      for (auto v : g.GetDerivatives()) put(o, v);
      put(o, f.GetValue());
      for (auto v : f.GetDerivatives()) put(o, v);
    } else {
      AS x(a), y(c);
      x.SetActiveComponent(0);
      y.SetActiveComponent(1);
      AS f = which == 2 ? x * exp(y) + tan(y) : pow(y, 2.5) - acos(y) * x + asin(y);
      arm.end();
      put(o, f.GetValue());
      for (auto v : f.GetDerivatives()) put(o, v);
    }
  });
}
LibOut lib_misc(u64 seed, u32 fk, u64 fpos, u64 fcnt) {
  Rng r(seed);
  const u64 which = r.below(5);
  std::vector<double> v;
  for (u64 n = 1 + r.below(12); n--;) v.push_back(std::floor(num(r) * 3));
  P3 p{num(r), num(r), num(r)}, q{num(r), num(r), num(r)};
  std::array<std::vector<double>, 3> f;
  for (auto& x : f)
    for (u64 n = 1 + r.below(4); n--;) x.push_back(num(r));
  const std::size_t deg = r.below(12), der = r.below(4);
  const double u = r.uni();
  return call(fk, fpos, fcnt, [&](LibOut& o, Armed& arm) {
    switch (which) {
      case 0: {
        auto x = utils::algorithms::IndexListSort(v);
        arm.end();
        for (auto i : x) put(o, double(i));
        break;
      }
      case 1: {
        std::string t = (p + q * 2. - p / 3.).toString(4);
        double n = p.EuclidianNorm() + p * q;
        arm.end();
        o.text = t;
        put(o, n);
        break;
      }
      case 2: {
        auto x = utils::algorithms::RecursiveCombine(f);
        arm.end();
        o.vals = x;
        break;
      }
      case 3: {
        auto x = utils::algorithms::BernsteinPolynomial<double>::Evaluate(deg, u);
        arm.end();
        o.vals = x;
        break;
      }
      default: {
        auto x = utils::algorithms::BernsteinPolynomial<double>::EvaluateDerivative(deg, u, der);
        arm.end();
        o.vals = x;
        break;
      }
    }
  });
}
void lib_shared(u64 seed) {
  sh = new SharedSplines;
  Rng r(seed);
  for (int i = 0; i < 2; i++) {
    std::array<std::size_t, 2> d{1 + r.below(2), 1 + r.below(2)};
    auto c = points<2>(r, d, -1, 1);
    sh->outer.push_back(B2(d, c));
    sh->router.push_back(R2(d, c, weights(r, c.size())));
    std::array<std::size_t, 1> e{1 + r.below(2)};
    auto k = points<1>(r, e, 0.05, 0.95);
    sh->inner.push_back(B1(e, k));
    sh->rinner.push_back(R1(e, k, weights(r, k.size())));
  }
}
LibOut lib_compose(u64 seed, u32 fk, u64 fpos, u64 fcnt) {
  Rng r(seed);
  const u64 which = r.below(8);
  // own or shared operands
  std::array<std::size_t, 2> d{1 + r.below(2), 1};
  auto c = points<2>(r, d, -1, 1);
  const B2 own(d, c);
  const R2 rown(d, c, weights(r, c.size()));
  std::array<std::size_t, 1> e{1 + r.below(2)};
  const bool outside = r.chance(0.15);
  auto k = points<1>(r, e, 0.05, outside ? 2.5 : 0.95);
  const B1 iown(e, k);
  const R1 riown(e, k, weights(r, k.size()));
  const std::size_t si = r.below(2), so = r.below(2);
  const B2& o2 = r.chance(0.7) ? sh->outer[so] : own;
  const R2& ro2 = r.chance(0.7) ? sh->router[so] : rown;
  const B1& i1 = r.chance(0.6) ? sh->inner[si] : iown;
  const R1& ri1 = r.chance(0.6) ? sh->rinner[si] : riown;
  const std::vector<B1> grp{iown, sh->inner[si]};
  return call(fk, fpos, fcnt, [&](LibOut& o, Armed& arm) {
    switch (which) {
      case 0: { auto x = o2.Compose(i1); arm.end(); put(o, x); break; }
      case 1: { auto x = o2.Compose(ri1); arm.end(); put(o, x); break; }
      case 2: { auto x = ro2.Compose(i1); arm.end(); put(o, x); break; }
      case 3: { auto x = ro2.Compose(ri1); arm.end(); put(o, x); break; }
      case 4: { auto x = o2.ComposeSensitivity(i1); arm.end(); group(o, x); break; }
      case 5: { auto x = o2.ComposeSensitivity(ri1); arm.end(); group(o, x); break; }
      case 6: { auto x = ro2.ComposeSensitivity(i1); arm.end(); group(o, x); break; }
      default: { auto x = o2.Compose(grp); arm.end(); group(o, x); break; }
    }
  });
}
}  // namespace sim
