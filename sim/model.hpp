// Independent model of splines: plain data plus evaluation in long double.
#pragma once
#include <cmath>
#include <cstring>
#include <string>
#include <vector>

#include "core.hpp"

namespace sim {
using ld = long double;
struct Snap {
  bool rat = false;
  int P = 0, D = 0;
  std::size_t deg[3] = {0, 0, 0}, off[3] = {0, 0, 0};
  std::size_t ncp = 0, csz = 0;
  std::vector<double> c;  // csz * D coordinates (of the numerator)
  std::size_t wdeg[3] = {0, 0, 0}, woff[3] = {0, 0, 0};
  std::size_t wncp = 0, wsz = 0;
  std::vector<double> w;
  u64 hash() const;
  double cmax() const;
  double wmin() const;
  double wmax() const;
  std::size_t count() const;
};
bool same_bits(const Snap& a, const Snap& b);
bool consistent(const Snap& s, std::string& why);
struct Val {
  ld v[3] = {0, 0, 0};  // physical value
  ld num[3] = {0, 0, 0};
  ld w = 1;
};
Val value(const Snap& s, const double* u);
// numerator/weight derivative of the given orders
void homog(const Snap& s, const double* u, const std::size_t* k, ld* num,
           ld* w);
// derivative of the physical value
void derivative(const Snap& s, const double* u, const std::size_t* k, ld* out);
// basis function (poly) derivative of all control points, first index fastest
std::vector<ld> basis(const Snap& s, const double* u, const std::size_t* k);
// derivative of w_i B_i / w (weighted) for all i
std::vector<ld> rational_basis(const Snap& s, const double* u,
                               const std::size_t* k, bool weighted);
ld bern(std::size_t p, std::size_t i, ld u, std::size_t k);
std::string show(const Snap& s);
// differs a little from another spline (keep: its points stay where they are)
Snap similar_spline(const Snap& from, Rng r, bool keep);
}  // namespace sim
