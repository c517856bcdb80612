// Executes one operation of the real library for splines of OPS_P parametric
// dimensions; everything around the library call is outside the armed section.
#include <array>
#include <stdexcept>
#include <tuple>
#include <type_traits>

#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
#include "ops_api.hpp"

namespace sim {
namespace OPS_NS {
constexpr std::size_t P = OPS_P;
using bezman::BezierSpline;
using bezman::Point;
using bezman::RationalBezierSpline;
template <int K>
struct SplOf;
template <> struct SplOf<PS> { using T = BezierSpline<P, double, double>; };
template <> struct SplOf<PV2> { using T = BezierSpline<P, Point<2, double>, double>; };
template <> struct SplOf<PV3> { using T = BezierSpline<P, Point<3, double>, double>; };
template <> struct SplOf<RS> { using T = RationalBezierSpline<P, double, double>; };
template <> struct SplOf<RV2> { using T = RationalBezierSpline<P, Point<2, double>, double>; };
template <> struct SplOf<RV3> { using T = RationalBezierSpline<P, Point<3, double>, double>; };
template <int K>
using Spl = typename SplOf<K>::T;
using Deg = std::array<std::size_t, P>;
template <class T>
struct KindOf;
template <> struct KindOf<Spl<PS>> { static constexpr int k = PS; };
template <> struct KindOf<Spl<PV2>> { static constexpr int k = PV2; };
template <> struct KindOf<Spl<PV3>> { static constexpr int k = PV3; };
template <> struct KindOf<Spl<RS>> { static constexpr int k = RS; };
template <> struct KindOf<Spl<RV2>> { static constexpr int k = RV2; };
template <> struct KindOf<Spl<RV3>> { static constexpr int k = RV3; };
struct World {
  std::tuple<std::array<Spl<PS>, NSL>, std::array<Spl<PV2>, NSL>,
             std::array<Spl<PV3>, NSL>, std::array<Spl<RS>, NSL>,
             std::array<Spl<RV2>, NSL>, std::array<Spl<RV3>, NSL>>
      s;
};
template <int K>
Spl<K>& at(void* w, int i) {
  return std::get<K>(static_cast<World*>(w)->s)[i % NSL];
}
template <int K>
const Spl<K>& cat(const void* w, int i) {
  return std::get<K>(static_cast<const World*>(w)->s)[i % NSL];
}
template <class F>
void visit(int k, F&& f) {
  switch (k) {
    case PS: f(std::integral_constant<int, PS>{}); break;
    case PV2: f(std::integral_constant<int, PV2>{}); break;
    case PV3: f(std::integral_constant<int, PV3>{}); break;
    case RS: f(std::integral_constant<int, RS>{}); break;
    case RV2: f(std::integral_constant<int, RV2>{}); break;
    default: f(std::integral_constant<int, RV3>{}); break;
  }
}
inline double comp(double x, int) { return x; }
template <std::size_t D>
double comp(const Point<D, double>& p, int i) { return p[i]; }
template <class T>
struct MakePt;
template <>
struct MakePt<double> {
  static double of(const double* x) { return x[0]; }
};
template <std::size_t D>
struct MakePt<Point<D, double>> {
  static Point<D, double> of(const double* x) {
    Point<D, double> p{};
    for (std::size_t i = 0; i < D; i++) p[i] = x[i];
    return p;
  }
};
template <class Sp>
void snap_poly(const Sp& s, Snap& o, int D) {
  o.P = P;
  o.D = D;
  for (std::size_t i = 0; i < P; i++) {
    o.deg[i] = s.GetDegrees()[i];
    o.off[i] = s.index_offsets[i];
  }
  o.ncp = s.GetNumberOfControlPoints();
  o.csz = s.control_points.size();
  o.c.reserve(o.csz * D);
  for (const auto& p : s.control_points)
    for (int d = 0; d < D; d++) o.c.push_back(comp(p, d));
}
template <class Sp>
Snap snap_of(const Sp& s) {
  constexpr int K = KindOf<Sp>::k;
  Snap o;
  if constexpr (K < RS) {
    snap_poly(s, o, dim_of(K));
  } else {
    o.rat = true;
    snap_poly(s.GetNumeratorSpline(), o, dim_of(K));
    const auto& w = s.GetWeightFunctionSpline();
    for (std::size_t i = 0; i < P; i++) {
      o.wdeg[i] = w.GetDegrees()[i];
      o.woff[i] = w.index_offsets[i];
    }
    o.wncp = w.GetNumberOfControlPoints();
    o.w = w.control_points;
    o.wsz = o.w.size();
  }
  return o;
}
template <int K>
Spl<K> spline_of(const Snap& s) {
  using S = Spl<K>;
  using Pt = typename S::PhysicalPointType_;
  Deg d{};
  for (std::size_t i = 0; i < P; i++) d[i] = s.deg[i];
  std::vector<Pt> c;
  for (std::size_t i = 0; i < s.csz; i++)
    c.push_back(MakePt<Pt>::of(&s.c[i * s.D]));
  if constexpr (K < RS) {
    return S(d, c);
  } else {
    return S(BezierSpline<P, Pt, double>(d, c),
             BezierSpline<P, double, double>(d, s.w));
  }
}
inline void* make() { return new World(); }
inline void destroy(void* w) { delete static_cast<World*>(w); }
inline void set(void* w, int kind, int slot, const Snap& s) {
  visit(kind, [&](auto k) { at<decltype(k)::value>(w, slot) = spline_of<decltype(k)::value>(s); });
}
inline Snap snap(const void* w, int kind, int slot) {
  Snap o;
  visit(kind, [&](auto k) { o = snap_of(cat<decltype(k)::value>(w, slot)); });
  return o;
}

// Runs op() armed; take(result) runs afterwards, unarmed.
template <class Opn, class Take>
void run(Out& o, const Call& c, Opn&& op, Take&& take) {
  heap_garbage(c.garbage);
  {
    Armed arm(c.fk, c.fpos, c.fcnt);
    try {
      auto r = op();
      o.st = arm.end();
      o.edges = steps_used();
      take(r);
      return;
    } catch (const std::bad_alloc&) {
      arm.end();
      o.status = ST_OOM;
    } catch (const std::runtime_error& e) {
      arm.end();
      o.status = ST_REJECT;
      o.what = e.what();
    } catch (const std::exception& e) {
      arm.end();
      o.status = ST_OTHER;
      o.what = e.what();
    } catch (...) {
      arm.end();
      o.status = ST_OTHER;
      o.what = "not a standard exception";
    }
    o.st = arm.st;
    o.edges = steps_used();
  }
  o.leak = heap_live();
}
template <class Sp>
void take_spline(const Call& c, Out& o, Sp& r) {
  o.res.push_back(snap_of(r));
  if (c.store >= 0 && c.w) {
    constexpr int K = KindOf<std::decay_t<Sp>>::k;
    if (c.store_copy)
      at<K>(c.w, c.store) = r;
    else
      at<K>(c.w, c.store) = std::move(r);
  }
}
template <class Sp>
void take_group(const Call& c, Out& o, std::vector<Sp>& r, int part) {
  for (auto& s : r) o.res.push_back(snap_of(s));
  if (c.store >= 0 && c.w && !r.empty()) {
    constexpr int K = KindOf<Sp>::k;
    at<K>(c.w, c.store) = r[std::size_t(part) % r.size()];
  }
}
inline void take_num(Out& o, double v) { o.vals.push_back(v); }
template <std::size_t D>
void take_num(Out& o, const Point<D, double>& v) {
  for (std::size_t i = 0; i < D; i++) o.vals.push_back(v[i]);
}
inline Point<P, double> par_pt(const double* u) {
  return MakePt<Point<P, double>>::of(u);
}

template <int K>
void exec_k(const Call& c, const Par& p, Out& o) {
  using S = Spl<K>;
  using Pt = typename S::PhysicalPointType_;
  constexpr bool R = K >= RS;
  constexpr bool SC = std::is_same_v<Pt, double>;
  constexpr int PART = K % 3;
  Deg ord{}, deg{};
  for (std::size_t i = 0; i < P; i++) {
    ord[i] = p.ord[i];
    deg[i] = p.deg[i];
  }
  const Pt pt = MakePt<Pt>::of(p.pt);
  const Pt pt2 = MakePt<Pt>::of(p.pt2);
  // first operand, second operand of the same kind
  const bool sa = c.a >= NSL && c.shared, sb = c.b >= NSL && c.shared;
  const S& a = sa ? cat<K>(c.shared, c.a) : cat<K>(c.w, c.a);
  const S& b = sb ? cat<K>(c.shared, c.b) : cat<K>(c.w, c.b);
  auto none = [](int) {};
  auto spl = [&](auto& r) { take_spline(c, o, r); };
  auto num = [&](auto& r) { take_num(o, r); };
  auto nums = [&](std::vector<double>& r) { o.vals = r; };
  auto contrib = [&](std::array<std::vector<double>, P>& r) {
    for (auto& v : r) {
      o.vals.push_back(double(v.size()));
      o.vals.insert(o.vals.end(), v.begin(), v.end());
    }
  };
  if (op_inplace(c.op)) {
    S& t = at<K>(c.w, c.a);
    auto cps = [&]() -> std::vector<Pt>& {
      if constexpr (R) return t.GetWeightedControlPoints();
      else return t.GetControlPoints();
    };
    switch (c.op) {
      case O_ELEVATE:
        run(o, c, [&] { t.OrderElevateAlongParametricDimension(p.dim); return 0; }, none);
        break;
      case O_UPDATEDEG:
        run(o, c, [&] { t.UpdateDegrees(deg); return 0; }, none);
        break;
      case O_ASSIGN:
        run(o, c, [&] { t = b; return 0; }, none);
        break;
      case O_MOVEASSIGN:
        run(o, c, [&] { t = std::move(at<K>(c.w, c.b)); return 0; }, none);
        break;
      case O_ADDIN:
        run(o, c, [&] { t += b; return 0; }, none);
        break;
      case O_SUBIN:
        run(o, c, [&] { t -= b; return 0; }, none);
        break;
      case O_ADDPT:
        if (c.alias) run(o, c, [&] { t += cps()[p.cp % cps().size()]; return 0; }, none);
        else run(o, c, [&] { t += pt; return 0; }, none);
        break;
      case O_SUBPT:
        if (c.alias) run(o, c, [&] { t -= cps()[p.cp % cps().size()]; return 0; }, none);
        else run(o, c, [&] { t -= pt; return 0; }, none);
        break;
      case O_SCALEIN:
        if (c.alias) {
          double* x;
          if constexpr (SC) x = &cps()[p.cp % cps().size()];
          else x = &cps()[p.cp % cps().size()][p.comp];
          run(o, c, [&] { t *= *x; return 0; }, none);
        } else {
          run(o, c, [&] { t *= p.sc; return 0; }, none);
        }
        break;
      case O_SETCP:
        // p.deg holds the index of the control point
        run(o, c, [&] {
              auto set = [&](auto... i) {
                if constexpr (R) {
                  t.WeightedControlPoint(i...) = pt;
                  t.Weight(i...) = p.sc;
                } else {
                  t.ControlPoint(i...) = pt;
                }
              };
              if (p.variant & 1) set(deg);
              else if constexpr (P == 1) set(p.deg[0]);
              else if constexpr (P == 2) set(p.deg[0], p.deg[1]);
              else set(p.deg[0], p.deg[1], p.deg[2]);
              return 0;
            }, none);
        break;
      case O_TRANSSCALE:
        if constexpr (!R) {
          if (c.alias)
            run(o, c, [&] { t.TransposeAndScale(cps()[p.cp % cps().size()], cps()[p.cp2 % cps().size()]); return 0; }, none);
          else
            run(o, c, [&] { t.TransposeAndScale(pt, pt2); return 0; }, none);
        }
        break;
      case O_FITCUBE:
        if constexpr (!R) run(o, c, [&] { t.FitIntoUnitCube(); return 0; }, none);
        break;
    }
    return;
  }
  switch (c.op) {
    case O_ADD: run(o, c, [&] { return a + b; }, spl); break;
    case O_SUB: run(o, c, [&] { return a - b; }, spl); break;
    case O_MUL:
      if (PART == 0) {
        // scalar times the kind given by kb (same family)
        auto go = [&](auto kk) {
          constexpr int KB = decltype(kk)::value;
          if constexpr (PART == 0) {
            const auto& q = sb ? cat<KB>(c.shared, c.b) : cat<KB>(c.w, c.b);
            if (p.variant & 1) run(o, c, [&] { return q * a; }, spl);
            else run(o, c, [&] { return a * q; }, spl);
          }
        };
        if constexpr (R) {
          if (dim_of(c.kb) == 1) go(std::integral_constant<int, RS>{});
          else if (dim_of(c.kb) == 2) go(std::integral_constant<int, RV2>{});
          else go(std::integral_constant<int, RV3>{});
        } else {
          if (dim_of(c.kb) == 1) go(std::integral_constant<int, PS>{});
          else if (dim_of(c.kb) == 2) go(std::integral_constant<int, PV2>{});
          else go(std::integral_constant<int, PV3>{});
        }
      } else {
        run(o, c, [&] { return a * b; }, spl);
      }
      break;
    case O_SCALED:
      if (p.variant & 1) run(o, c, [&] { return p.sc * a; }, spl);
      else run(o, c, [&] { return a * p.sc; }, spl);
      break;
    case O_SHIFTED:
      switch (p.variant & 3) {
        case 0: run(o, c, [&] { return a + pt; }, spl); break;
        case 1: run(o, c, [&] { return pt + a; }, spl); break;
        case 2: run(o, c, [&] { return a - pt; }, spl); break;
        default:
          if constexpr (!R) run(o, c, [&] { return pt - a; }, spl);
          else run(o, c, [&] { return a - pt; }, spl);
      }
      break;
    case O_NEG: run(o, c, [&] { return -a; }, spl); break;
    case O_POWER:
    case O_REJ_POWER:
      if constexpr (!R) run(o, c, [&] { return a.RaisePower(p.power); }, spl);
      break;
    case O_DERIV:
      run(o, c, [&] { return a.DerivativeWRTParametricDimension(ord); }, spl);
      break;
    case O_SPLIT:
    case O_REJ_SPLIT:
      if (p.dim == 0 && (p.variant & 1))
        run(o, c, [&] { return a.SplitAtPosition(p.planes[0]); }, [&](auto& r) { take_group(c, o, r, p.part); });
      else
        run(o, c, [&] { return a.SplitAtPosition(p.planes[0], p.dim); }, [&](auto& r) { take_group(c, o, r, p.part); });
      break;
    case O_SPLITV:
    case O_REJ_SPLITV:
      run(o, c, [&] { return a.SplitAtPosition(p.planes, p.dim); }, [&](auto& r) { take_group(c, o, r, p.part); });
      break;
    case O_EXTRACT:
    case O_REJ_EXTRACT:
      run(o, c, [&] { return a.ExtractDimension(p.extract); }, spl);
      break;
    case O_TORAT:
      if constexpr (!R) run(o, c, [&] { return RationalBezierSpline<P, Pt, double>(a); }, spl);
      break;
    case O_COPY: run(o, c, [&] { return S(a); }, spl); break;
    case O_CTOR: {
      std::vector<Pt> cp;
      for (std::size_t i = 0; i * dim_of(K) < p.data.size(); i++)
        cp.push_back(MakePt<Pt>::of(&p.data[i * dim_of(K)]));
      if constexpr (R) run(o, c, [&] { return S(deg, cp, p.wdata); }, spl);
      else run(o, c, [&] { return S(deg, cp); }, spl);
      break;
    }
    case O_RATPAIR:
      if constexpr (R) run(o, c, [&] { return S(a.GetNumeratorSpline(), a.GetWeightFunctionSpline()); }, spl);
      break;
    case O_EMPTYCTOR: run(o, c, [&] { return S(deg); }, spl); break;
    case O_EVAL:
      if (p.variant & 1) {
        if constexpr (P == 1) run(o, c, [&] { return a.Evaluate(p.u[0]); }, num);
        else if constexpr (P == 2) run(o, c, [&] { return a.Evaluate(p.u[0], p.u[1]); }, num);
        else run(o, c, [&] { return a.Evaluate(p.u[0], p.u[1], p.u[2]); }, num);
      } else {
        run(o, c, [&] { return a.Evaluate(par_pt(p.u)); }, num);
      }
      break;
    case O_FEVAL:
      if (p.variant & 1) {
        if constexpr (P == 1) run(o, c, [&] { return a.ForwardEvaluate(p.u[0]); }, num);
        else if constexpr (P == 2) run(o, c, [&] { return a.ForwardEvaluate(p.u[0], p.u[1]); }, num);
        else run(o, c, [&] { return a.ForwardEvaluate(p.u[0], p.u[1], p.u[2]); }, num);
      } else {
        run(o, c, [&] { return a.ForwardEvaluate(par_pt(p.u)); }, num);
      }
      break;
    case O_EVDER: run(o, c, [&] { return a.EvaluateDerivative(par_pt(p.u), ord); }, num); break;
    case O_BASIS:
      if (p.variant & 1) {
        if constexpr (P == 1) run(o, c, [&] { return a.BasisFunctions(p.u[0]); }, nums);
        else if constexpr (P == 2) run(o, c, [&] { return a.BasisFunctions(p.u[0], p.u[1]); }, nums);
        else run(o, c, [&] { return a.BasisFunctions(p.u[0], p.u[1], p.u[2]); }, nums);
      } else {
        run(o, c, [&] { return a.BasisFunctions(par_pt(p.u)); }, nums);
      }
      break;
    case O_UNWBASIS:
      if constexpr (R) {
        if (!(p.variant & 1)) run(o, c, [&] { return a.UnweightedBasisFunctions(par_pt(p.u)); }, nums);
        else if constexpr (P == 1) run(o, c, [&] { return a.UnweightedBasisFunctions(p.u[0]); }, nums);
        else if constexpr (P == 2) run(o, c, [&] { return a.UnweightedBasisFunctions(p.u[0], p.u[1]); }, nums);
        else run(o, c, [&] { return a.UnweightedBasisFunctions(p.u[0], p.u[1], p.u[2]); }, nums);
      }
      break;
    case O_CONTRIB:
      if (!(p.variant & 1)) run(o, c, [&] { return a.BasisFunctionContributions(par_pt(p.u)); }, contrib);
      else if constexpr (P == 1) run(o, c, [&] { return a.BasisFunctionContributions(p.u[0]); }, contrib);
      else if constexpr (P == 2) run(o, c, [&] { return a.BasisFunctionContributions(p.u[0], p.u[1]); }, contrib);
      else run(o, c, [&] { return a.BasisFunctionContributions(p.u[0], p.u[1], p.u[2]); }, contrib);
      break;
    case O_BDERIV: run(o, c, [&] { return a.BasisFunctionsDerivatives(par_pt(p.u), ord); }, nums); break;
    case O_BDCONTRIB:
      if constexpr (!R) run(o, c, [&] { return a.BasisFunctionsDerivativeContributions(par_pt(p.u), ord); }, contrib);
      break;
    case O_EQ:
      if constexpr (!R) run(o, c, [&] { return a == b; }, [&](bool& r) { o.vals.push_back(r); });
      break;
    case O_CORNERS:
      run(o, c, [&] { return std::make_pair(a.MinimumCorner(), a.MaximumCorner()); },
          [&](auto& r) { take_num(o, r.first); take_num(o, r.second); });
      break;
    case O_FITS:
      run(o, c, [&] { return a.FitsIntoUnitCube(); }, [&](bool& r) { o.vals.push_back(r); });
      break;
    case O_CPACCESS:
      // p.deg holds the index of a control point
      if (p.variant / 2 % 5 == 1) {
        run(o, c, [&] {
              auto get = [&](auto... i) {
                if constexpr (R) return std::pair<Pt, double>(a.WeightedControlPoint(i...), a.Weight(i...));
                else return std::pair<Pt, double>(const_cast<S&>(a).ControlPoint(i...), 0.);
              };
              if (p.variant & 1) return get(deg);
              if constexpr (P == 1) return get(p.deg[0]);
              else if constexpr (P == 2) return get(p.deg[0], p.deg[1]);
              else return get(p.deg[0], p.deg[1], p.deg[2]);
            },
            [&](std::pair<Pt, double>& r) {
              take_num(o, r.first);
              if (R) o.vals.push_back(r.second);
            });
        break;
      }
      if (p.variant / 2 % 5 == 2) {
        run(o, c, [&] {
              const std::size_t i = a.GlobalToLocalIndex(deg);
              return std::make_pair(i, a.LocalToGlobalIndex(i));
            },
            [&](auto& r) {
              o.vals.push_back(double(r.first));
              for (std::size_t x : r.second) o.vals.push_back(double(x));
            });
        break;
      }
      if (p.variant / 2 % 5 == 3) {
        run(o, c, [&] {
              std::vector<double> v;
              if constexpr (R) v = const_cast<S&>(a).GetWeights();
              else v.push_back(double(const_cast<S&>(a).GetControlPoints().size()));
              v.push_back(double(a.GetNumberOfControlPoints()));
              for (std::size_t x : a.GetDegrees()) v.push_back(double(x));
              for (std::size_t x : const_cast<S&>(a).GetDegrees()) v.push_back(double(x));
              return v;
            }, nums);
        break;
      }
      if (p.variant / 2 % 5 == 4) {
        if constexpr (!std::is_arithmetic_v<Pt>) {
          static const double two[] = {2, 4, 8};
          const Pt bits = MakePt<Pt>::of(two);
          std::string text;
          const Pt x = MakePt<Pt>::of(p.pt), y = MakePt<Pt>::of(p.pt2);
          run(o, c, [&] {
                std::vector<double> v;
                auto take = [&](const Pt& q) { for (double e : q) v.push_back(e); };
                Pt q = x;
                take(q += q);
                q = y;
                take(q *= q[p.comp]);
                q = y;
                take(q -= x);
                take(-x);
                take(x / 1.25);
                take(1.5 / (y * y + 1.) * x);
                v.push_back(x * y);
                v.push_back(x.SquaredEuclidianNorm());
                v.push_back(y.EuclidianNorm());
                take(1.5 / (y * 0. + bits));
                v.push_back(-1);
                text = x.toString(12);
                return v;
              },
              [&](std::vector<double>& v) {
                nums(v);
                // the numbers in the text, in place of the -1
                o.vals.pop_back();
                if (text.front() != '[' || text.back() != ']') o.vals.push_back(1e99);
                for (char& ch : text)
                  if (ch == '[' || ch == ',' || ch == ']') ch = ' ';
                const char* t = text.c_str();
                for (char* e;; t = e) {
                  const double y = std::strtod(t, &e);
                  if (e == t) break;
                  o.vals.push_back(y);
                }
              });
        }
        break;
      }
      run(o, c, [&] {
            if (p.variant & 1) return Pt(a.ControlPoint(deg));
            if constexpr (P == 1) return Pt(a.ControlPoint(p.deg[0]));
            else if constexpr (P == 2) return Pt(a.ControlPoint(p.deg[0], p.deg[1]));
            else return Pt(a.ControlPoint(p.deg[0], p.deg[1], p.deg[2]));
          }, num);
      break;
    case O_REJ_CORNER: {
      S e;
      if constexpr (!R) {
        if ((p.variant & 3) == 3) {
          run(o, c, [&] { e.FitIntoUnitCube(); return 0; }, none);
          break;
        }
      }
      switch (p.variant & 3) {
        case 0: run(o, c, [&] { return e.MinimumCorner(); }, num); break;
        case 1: run(o, c, [&] { return e.MaximumCorner(); }, num); break;
        default: run(o, c, [&] { return e.FitsIntoUnitCube(); }, [&](bool& r) { o.vals.push_back(r); });
      }
      break;
    }
  }
}
inline Out exec(const Call& c, const Par& p) {
  Out o;
  visit(c.ka, [&](auto k) { exec_k<decltype(k)::value>(c, p, o); });
  return o;
}
}  // namespace OPS_NS
const Api* OPS_NAME() {
  static const Api a = {OPS_P, OPS_NS::make, OPS_NS::destroy, OPS_NS::set, OPS_NS::snap, OPS_NS::exec};
  return &a;
}
}  // namespace sim
