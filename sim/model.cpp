#include "model.hpp"

#include <sstream>

namespace sim {
u64 Snap::hash() const {
  Hash h;
  h.add(u64(rat) + 2 * P + 16 * D);
  for (int i = 0; i < P; i++) {
    h.add(deg[i]);
    h.add(off[i]);
  }
  h.add(ncp);
  h.add(csz);
  h.bytes(c.data(), c.size() * 8);
  if (rat) {
    for (int i = 0; i < P; i++) {
      h.add(wdeg[i]);
      h.add(woff[i]);
    }
    h.add(wncp);
    h.bytes(w.data(), w.size() * 8);
  }
  return h.h;
}
double Snap::cmax() const {
  double m = 0;
  for (double x : c) m = !(std::fabs(x) <= m) ? std::fabs(x) : m;
  return m;
}
double Snap::wmin() const {
  if (!rat) return 1;
  double m = 1e300;
  for (double x : w) m = !(x >= m) ? x : m;
  return m;
}
double Snap::wmax() const {
  if (!rat) return 1;
  double m = 0;
  for (double x : w) m = !(std::fabs(x) <= m) ? std::fabs(x) : m;
  return m;
}
std::size_t Snap::count() const {
  std::size_t n = 1;
  for (int i = 0; i < P; i++) n *= deg[i] + 1;
  return n;
}
static bool veq(const std::vector<double>& a, const std::vector<double>& b) {
  return a.size() == b.size() &&
         (a.empty() || std::memcmp(a.data(), b.data(), a.size() * 8) == 0);
}
bool same_bits(const Snap& a, const Snap& b) {
  if (a.rat != b.rat || a.P != b.P || a.D != b.D || a.ncp != b.ncp ||
      a.csz != b.csz)
    return false;
  for (int i = 0; i < a.P; i++)
    if (a.deg[i] != b.deg[i] || a.off[i] != b.off[i]) return false;
  if (!veq(a.c, b.c)) return false;
  if (a.rat) {
    if (a.wncp != b.wncp || a.wsz != b.wsz) return false;
    for (int i = 0; i < a.P; i++)
      if (a.wdeg[i] != b.wdeg[i] || a.woff[i] != b.woff[i]) return false;
    if (!veq(a.w, b.w)) return false;
  }
  return true;
}
static bool cons(int P, const std::size_t* deg, const std::size_t* off,
                 std::size_t ncp, std::size_t sz, const char* part,
                 std::string& why) {
  std::size_t n = 1;
  for (int i = 0; i < P; i++) {
    if (off[i] != n) {
      why = std::string(part) + "index offset " + std::to_string(i) + " is " +
            std::to_string(off[i]) + ", degrees imply " + std::to_string(n);
      return false;
    }
    n *= deg[i] + 1;
  }
  if (ncp != n) {
    why = std::string(part) + "number of control points is " +
          std::to_string(ncp) + ", degrees imply " + std::to_string(n);
    return false;
  }
  if (sz != n) {
    why = std::string(part) + "there are " + std::to_string(sz) +
          " control points, degrees imply " + std::to_string(n);
    return false;
  }
  return true;
}
bool consistent(const Snap& s, std::string& why) {
  if (!cons(s.P, s.deg, s.off, s.ncp, s.csz, s.rat ? "numerator: " : "", why))
    return false;
  if (s.rat) {
    for (int i = 0; i < s.P; i++)
      if (s.deg[i] != s.wdeg[i]) {
        why = "numerator and weights have different degrees";
        return false;
      }
    if (!cons(s.P, s.wdeg, s.woff, s.wncp, s.wsz, "weights: ", why))
      return false;
  }
  return true;
}
static ld binom(std::size_t n, std::size_t k) {
  if (k > n) return 0;
  ld r = 1;
  for (std::size_t i = 0; i < k; i++) r = r * ld(n - i) / ld(i + 1);
  return std::round(r);
}
static ld bern0(std::size_t p, std::size_t i, ld u) {
  ld r = binom(p, i);
  for (std::size_t j = 0; j < i; j++) r *= u;
  for (std::size_t j = i; j < p; j++) r *= 1 - u;
  return r;
}
ld bern(std::size_t p, std::size_t i, ld u, std::size_t k) {
  if (k == 0) return i > p ? 0 : bern0(p, i, u);
  if (k > p) return 0;
  // p!/(p-k)! sum_j (-1)^(k-j) C(k,j) B_{i-j,p-k}
  ld f = 1;
  for (std::size_t j = 0; j < k; j++) f *= ld(p - j);
  ld r = 0;
  for (std::size_t j = 0; j <= k; j++) {
    if (j > i || i - j > p - k) continue;
    ld t = binom(k, j) * bern0(p - k, i - j, u);
    r += ((k - j) & 1) ? t : -t;
  }
  return -r * f;
}
std::vector<ld> basis(const Snap& s, const double* u, const std::size_t* k) {
  std::vector<ld> r{1};
  for (int d = 0; d < s.P; d++) {
    std::vector<ld> n;
    n.reserve(r.size() * (s.deg[d] + 1));
    for (std::size_t i = 0; i <= s.deg[d]; i++) {
      ld b = bern(s.deg[d], i, u[d], k ? k[d] : 0);
      for (ld x : r) n.push_back(x * b);
    }
    r.swap(n);
  }
  return r;
}
void homog(const Snap& s, const double* u, const std::size_t* k, ld* num,
           ld* w) {
  std::vector<ld> b = basis(s, u, k);
  for (int d = 0; d < s.D; d++) num[d] = 0;
  *w = 0;
  for (std::size_t i = 0; i < b.size() && i * s.D < s.c.size(); i++) {
    for (int d = 0; d < s.D; d++) num[d] += b[i] * ld(s.c[i * s.D + d]);
    if (s.rat && i < s.w.size()) *w += b[i] * ld(s.w[i]);
  }
  if (!s.rat) {
    bool zero = true;
    for (int d = 0; d < s.P; d++) zero = zero && (!k || k[d] == 0);
    *w = zero ? 1 : 0;
  }
}
Val value(const Snap& s, const double* u) {
  Val v;
  homog(s, u, nullptr, v.num, &v.w);
  for (int d = 0; d < s.D; d++) v.v[d] = v.num[d] / v.w;
  return v;
}
// quotient recursion: D(k) = (A(k) - sum_{0<j<=k} C(k,j) w(j) D(k-j)) / w
template <typename A, typename W>
static void quotient(int P, int n, const std::size_t* k, A numer, W weight,
                     ld* out) {
  std::size_t dim[3] = {1, 1, 1};
  for (int d = 0; d < P; d++) dim[d] = k[d] + 1;
  std::size_t tot = dim[0] * dim[1] * dim[2];
  std::vector<std::vector<ld>> D(tot, std::vector<ld>(n));
  std::vector<ld> wv(tot);
  auto unpack = [&](std::size_t i, std::size_t* o) {
    o[0] = i % dim[0];
    o[1] = i / dim[0] % dim[1];
    o[2] = i / dim[0] / dim[1];
  };
  for (std::size_t i = 0; i < tot; i++) {
    std::size_t o[3];
    unpack(i, o);
    wv[i] = weight(o);
  }
  for (std::size_t i = 0; i < tot; i++) {
    std::size_t o[3];
    unpack(i, o);
    numer(o, D[i].data());
    for (std::size_t j = 1; j <= i; j++) {
      std::size_t q[3];
      unpack(j, q);
      if (q[0] > o[0] || q[1] > o[1] || q[2] > o[2]) continue;
      std::size_t r = (o[0] - q[0]) + dim[0] * ((o[1] - q[1]) + dim[1] * (o[2] - q[2]));
      ld f = binom(o[0], q[0]) * binom(o[1], q[1]) * binom(o[2], q[2]) * wv[j];
      for (int d = 0; d < n; d++) D[i][d] -= f * D[r][d];
    }
    for (int d = 0; d < n; d++) D[i][d] /= wv[0];
  }
  for (int d = 0; d < n; d++) out[d] = D[tot - 1][d];
}
void derivative(const Snap& s, const double* u, const std::size_t* k, ld* out) {
  if (!s.rat) {
    ld w;
    homog(s, u, k, out, &w);
    return;
  }
  quotient(
      s.P, s.D, k,
      [&](const std::size_t* o, ld* r) {
        ld w;
        homog(s, u, o, r, &w);
      },
      [&](const std::size_t* o) {
        ld n[3], w;
        homog(s, u, o, n, &w);
        return w;
      },
      out);
}
std::vector<ld> rational_basis(const Snap& s, const double* u,
                               const std::size_t* k, bool weighted) {
  std::size_t n = s.count();
  std::vector<ld> out(n);
  quotient(
      s.P, int(n), k,
      [&](const std::size_t* o, ld* r) {
        auto b = basis(s, u, o);
        for (std::size_t i = 0; i < n; i++)
          r[i] = b[i] * (weighted && s.rat ? ld(s.w[i]) : 1);
      },
      [&](const std::size_t* o) {
        ld nn[3], w;
        homog(s, u, o, nn, &w);
        return w;
      },
      out.data());
  return out;
}
std::string show(const Snap& s) {
  std::ostringstream o;
  o << (s.rat ? "rational" : "polynomial") << " degrees ";
  for (int i = 0; i < s.P; i++) o << (i ? "x" : "") << s.deg[i];
  o << " dim " << s.D << " ncp " << s.ncp << "/" << s.csz;
  return o.str();
}
Snap similar_spline(const Snap& from, Rng r, bool keep) {
  Snap s = from;
  const std::size_t n = s.csz, i = r.below(n), D = std::size_t(s.D);
  const double delta = (r.chance(0.5) ? 1 : -1) * std::pow(10., -1 - double(r.below(8)));
  auto weigh = [&](std::size_t k, double w) {
    if (keep || r.chance(0.5))
      for (std::size_t d = 0; d < D; d++) s.c[k * D + d] *= w / s.w[k];
    s.w[k] = w;
  };
  switch (s.rat ? r.below(5) : keep ? 5 : 4) {
    case 0: weigh(i, s.w[i] * (1 + delta)); break;
    case 1:  // the last control points have other weights
      for (std::size_t k = i; k < n; k++) weigh(k, s.w[k] * (1 + delta));
      break;
    case 2:  // the same weights in another order
      for (std::size_t k = 0; k < n; k++) weigh(k, from.w[n - 1 - k]);
      break;
    case 3:  // all weights larger
      for (std::size_t k = 0; k < n; k++) weigh(k, 2 * s.w[k]);
      break;
    case 4:
      if (!keep) {
        s.c[i * D + r.below(D)] += delta * (1 + s.cmax());
        break;
      }
      [[fallthrough]];
    default:  // the same points in another order
      if (!s.rat)
        for (std::size_t k = 0; k < n; k++)
          for (std::size_t d = 0; d < D; d++) s.c[k * D + d] = from.c[(n - 1 - k) * D + d];
  }
  return s;
}
}  // namespace sim
