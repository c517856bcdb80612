// Opaque interface to compositions of an outer spline of po parameters with
// inner splines of pi parameters.
#pragma once
#include "alloc.hpp"
#include "model.hpp"

namespace sim {
// outer: double, Point<2>, rational double, rational Point<2>; inner:
// polynomial, rational
enum CKind { CO_S, CO_V, CO_RS, CO_RV, CI_P, CI_R, NCK };
constexpr int CSL = 2;
inline bool ck_rat(int k) { return k == CO_RS || k == CO_RV || k == CI_R; }
inline bool ck_inner(int k) { return k >= CI_P; }
enum COp : u32 { CC_COMPOSE, CC_SENS, CC_GROUP, CC_ELEVATE, CC_SPLIT, CC_FIT, CC_NEW, CC_NEWOUT, NCOP };
struct CCall {
  void* w = nullptr;
  u32 op = 0;
  int ko = 0, o = 0;       // outer (or the refined spline)
  int ki = CI_P, i = 0;    // inner
  int group[4] = {0, 0, 0, 0};
  int ng = 0;
  int dim = 0;
  double plane = 0.5;
  int part = 0;
  int post = 0;            // refinement of the result: 1 elevate, 2 split
  int store = -1;          // outer slot receiving the result
  u32 fk = 0;
  u64 fpos = 0, fcnt = 0, garbage = 1;
};
struct COut {
  int status = 0;
  std::string what;
  std::vector<Snap> res;   // results
  std::vector<Snap> post;  // the first result after its refinement
  int kstore = -1;
  ArmStats st;
  u64 leak = 0;
};
struct CApi {
  int po, pi;
  bool group;
  void* (*make)();
  void (*destroy)(void*);
  void (*set)(void*, int kind, int slot, const Snap&);
  Snap (*snap)(const void*, int kind, int slot);
  COut (*exec)(const CCall&);
};
}  // namespace sim
