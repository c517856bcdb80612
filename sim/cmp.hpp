// Executes compositions of the real library (CMP_PO, CMP_PI, CMP_D1 = inner
// values are plain numbers).
#include <array>
#include <stdexcept>
#include <type_traits>

#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
#include "cmp_api.hpp"
#include "ops_api.hpp"

namespace sim {
namespace CMP_NS {
constexpr std::size_t PO = CMP_PO, PI = CMP_PI;
using bezman::BezierSpline;
using bezman::Point;
using bezman::RationalBezierSpline;
#ifdef CMP_D1
using IPt = double;
#else
using IPt = Point<PO, double>;
#endif
using P2 = Point<2, double>;
template <int K>
struct CT;
template <> struct CT<CO_S> { using T = BezierSpline<PO, double, double>; };
template <> struct CT<CO_V> { using T = BezierSpline<PO, P2, double>; };
template <> struct CT<CO_RS> { using T = RationalBezierSpline<PO, double, double>; };
template <> struct CT<CO_RV> { using T = RationalBezierSpline<PO, P2, double>; };
template <> struct CT<CI_P> { using T = BezierSpline<PI, IPt, double>; };
template <> struct CT<CI_R> { using T = RationalBezierSpline<PI, IPt, double>; };
struct World {
  std::tuple<std::array<CT<0>::T, CSL>, std::array<CT<1>::T, CSL>, std::array<CT<2>::T, CSL>,
             std::array<CT<3>::T, CSL>, std::array<CT<4>::T, CSL>, std::array<CT<5>::T, CSL>>
      s;
};
template <int K>
typename CT<K>::T& at(void* w, int i) {
  return std::get<K>(static_cast<World*>(w)->s)[i % CSL];
}
template <class F>
void visit(int k, F&& f) {
  switch (k) {
    case 0: f(std::integral_constant<int, 0>{}); break;
    case 1: f(std::integral_constant<int, 1>{}); break;
    case 2: f(std::integral_constant<int, 2>{}); break;
    case 3: f(std::integral_constant<int, 3>{}); break;
    case 4: f(std::integral_constant<int, 4>{}); break;
    default: f(std::integral_constant<int, 5>{}); break;
  }
}
template <class F>
void visit_outer(int k, F&& f) {
  switch (k) {
    case 0: f(std::integral_constant<int, 0>{}); break;
    case 1: f(std::integral_constant<int, 1>{}); break;
    case 2: f(std::integral_constant<int, 2>{}); break;
    default: f(std::integral_constant<int, 3>{}); break;
  }
}
inline double comp(double x, int) { return x; }
template <std::size_t D>
double comp(const Point<D, double>& p, int i) { return p[i]; }
template <class T>
struct PtOf {
  static constexpr int D = 1;
  static T of(const double* x) { return x[0]; }
};
template <std::size_t N>
struct PtOf<Point<N, double>> {
  static constexpr int D = N;
  static Point<N, double> of(const double* x) {
    Point<N, double> p{};
    for (std::size_t i = 0; i < N; i++) p[i] = x[i];
    return p;
  }
};
template <class Sp>
void snap_poly(const Sp& s, Snap& o) {
  constexpr int D = PtOf<typename Sp::PhysicalPointType_>::D;
  o.P = int(Sp::kParametricDimensions);
  o.D = D;
  for (int i = 0; i < o.P; i++) {
    o.deg[i] = s.GetDegrees()[i];
    o.off[i] = s.index_offsets[i];
  }
  o.ncp = s.GetNumberOfControlPoints();
  o.csz = s.control_points.size();
  for (const auto& p : s.control_points)
    for (int d = 0; d < D; d++) o.c.push_back(comp(p, d));
}
template <class Sp>
Snap snap_of(const Sp& s) {
  Snap o;
  if constexpr (bezman::utils::type_traits::isRationalBezierSpline_v<Sp>) {
    o.rat = true;
    snap_poly(s.GetNumeratorSpline(), o);
    const auto& w = s.GetWeightFunctionSpline();
    for (int i = 0; i < o.P; i++) {
      o.wdeg[i] = w.GetDegrees()[i];
      o.woff[i] = w.index_offsets[i];
    }
    o.wncp = w.GetNumberOfControlPoints();
    o.w = w.control_points;
    o.wsz = o.w.size();
  } else {
    snap_poly(s, o);
  }
  return o;
}
template <class S>
S spline_of(const Snap& s) {
  using Pt = typename S::PhysicalPointType_;
  constexpr std::size_t P = S::kParametricDimensions;
  std::array<std::size_t, P> d{};
  for (std::size_t i = 0; i < P; i++) d[i] = s.deg[i];
  std::vector<Pt> c;
  for (std::size_t i = 0; i < s.csz; i++) c.push_back(PtOf<Pt>::of(&s.c[i * s.D]));
  if constexpr (bezman::utils::type_traits::isRationalBezierSpline_v<S>)
    return S(BezierSpline<P, Pt, double>(d, c), BezierSpline<P, double, double>(d, s.w));
  else
    return S(d, c);
}
inline void* make() { return new World(); }
inline void destroy(void* w) { delete static_cast<World*>(w); }
inline void set(void* w, int kind, int slot, const Snap& s) {
  visit(kind, [&](auto k) {
    constexpr int K = decltype(k)::value;
    at<K>(w, slot) = spline_of<typename CT<K>::T>(s);
  });
}
inline Snap snap(const void* w, int kind, int slot) {
  Snap o;
  visit(kind, [&](auto k) { o = snap_of(at<decltype(k)::value>(const_cast<void*>(w), slot)); });
  return o;
}
template <class Opn, class Take>
void run(COut& o, const CCall& c, Opn&& op, Take&& take) {
  heap_garbage(c.garbage);
  {
    Armed arm(c.fk, c.fpos, c.fcnt);
    try {
      auto r = op();
      o.st = arm.end();
      take(r);
      return;
    } catch (const std::bad_alloc&) {
      arm.end();
      o.status = ST_OOM;
    } catch (const std::runtime_error& e) {
      arm.end();
      o.status = ST_REJECT;
      o.what = e.what();
    } catch (const std::exception& e) {
      arm.end();
      o.status = ST_OTHER;
      o.what = e.what();
    } catch (...) {
      arm.end();
      o.status = ST_OTHER;
      o.what = "not a standard exception";
    }
    o.st = arm.st;
  }
  o.leak = heap_live();
}
inline COut exec(const CCall& c) {
  COut o;
  if (c.op == CC_COMPOSE || c.op == CC_SENS || c.op == CC_GROUP) {
    visit_outer(c.ko, [&](auto kk) {
      constexpr int K = decltype(kk)::value;
      const auto& outer = at<K>(c.w, c.o);
      auto with = [&](auto ii) {
        constexpr int KI = decltype(ii)::value;
        const auto& inner = at<KI>(c.w, c.i);
        if (c.op == CC_COMPOSE) {
          run(o, c, [&] { return outer.Compose(inner); },
              [&](auto& r) {
                o.res.push_back(snap_of(r));
                if (c.post == 1) {
                  auto q = r;
                  q.OrderElevateAlongParametricDimension(c.dim % int(PI));
                  o.post.push_back(snap_of(q));
                } else if (c.post == 2) {
                  auto q = r.SplitAtPosition(c.plane, c.dim % int(PI));
                  for (auto& s : q) o.post.push_back(snap_of(s));
                }
                if constexpr (PO == PI) {
                  if (c.store >= 0) {
                    constexpr bool rat = bezman::utils::type_traits::isRationalBezierSpline_v<std::decay_t<decltype(r)>>;
                    constexpr int KR = rat ? (K == CO_S || K == CO_RS ? int(CO_RS) : int(CO_RV)) : K;
                    at<KR>(c.w, c.store) = std::move(r);
                    o.kstore = KR;
                  }
                }
              });
        } else if (c.op == CC_SENS) {
          run(o, c, [&] { return outer.ComposeSensitivity(inner); },
              [&](auto& r) {
                for (auto& s : r) o.res.push_back(snap_of(s));
              });
        } else {
#ifndef CMP_D1
          if constexpr (K == CO_S || K == CO_V) {
            std::vector<typename CT<KI>::T> g;
            for (int i = 0; i < c.ng; i++) g.push_back(at<KI>(c.w, c.group[i]));
            run(o, c, [&] { return outer.Compose(g); },
                [&](auto& r) {
                  for (auto& s : r) o.res.push_back(snap_of(s));
                });
            // the group is an operand as well
            for (int i = 0; i < c.ng; i++)
              if (!same_bits(snap_of(g[i]), snap_of(at<KI>(c.w, c.group[i])))) o.kstore = -2;
          }
#endif
        }
      };
      if (c.ki == CI_P) with(std::integral_constant<int, CI_P>{});
      else with(std::integral_constant<int, CI_R>{});
    });
    return o;
  }
  visit(c.ko, [&](auto kk) {
    constexpr int K = decltype(kk)::value;
    constexpr int P = int(CT<K>::T::kParametricDimensions);
    auto& t = at<K>(c.w, c.o);
    switch (c.op) {
      case CC_ELEVATE:
        run(o, c, [&] { t.OrderElevateAlongParametricDimension(c.dim % P); return 0; }, [](int) {});
        break;
      case CC_SPLIT:
        run(o, c, [&] { return t.SplitAtPosition(c.plane, c.dim % P); },
            [&](auto& r) { t = r[std::size_t(c.part) % r.size()]; });
        break;
      case CC_FIT:
        if constexpr (K == CI_P) run(o, c, [&] { t.FitIntoUnitCube(); return 0; }, [](int) {});
        break;
    }
  });
  return o;
}
inline const CApi& api() {
#ifdef CMP_D1
  static const CApi a{int(PO), int(PI), false, make, destroy, set, snap, exec};
#else
  static const CApi a{int(PO), int(PI), true, make, destroy, set, snap, exec};
#endif
  return a;
}
}  // namespace CMP_NS
const CApi* CMP_NAME() { return &CMP_NS::api(); }
}  // namespace sim
