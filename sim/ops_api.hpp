// Opaque interface to the spline operations of one parametric dimension.
#pragma once
#include "alloc.hpp"
#include "model.hpp"

namespace sim {
// kinds of splines: double, Point<2>, Point<3>; polynomial then rational
enum { PS, PV2, PV3, RS, RV2, RV3, NKIND };
constexpr int NSL = 3;  // slots of each kind
inline bool is_rat(int k) { return k >= RS; }
inline int dim_of(int k) { return k % 3 + 1; }
enum Op : u32 {
  // in place
  O_ELEVATE, O_UPDATEDEG, O_ASSIGN, O_MOVEASSIGN, O_ADDIN, O_SUBIN, O_ADDPT,
  O_SUBPT, O_SCALEIN, O_SETCP, O_TRANSSCALE, O_FITCUBE,
  // new splines
  O_ADD, O_SUB, O_MUL, O_SCALED, O_SHIFTED, O_NEG, O_POWER, O_DERIV, O_SPLIT,
  O_SPLITV, O_EXTRACT, O_TORAT, O_COPY, O_CTOR, O_RATPAIR, O_EMPTYCTOR,
  // values
  O_EVAL, O_FEVAL, O_EVDER, O_BASIS, O_UNWBASIS, O_CONTRIB, O_BDERIV,
  O_BDCONTRIB, O_EQ, O_CORNERS, O_FITS, O_CPACCESS,
  // rejected
  O_REJ_SPLIT, O_REJ_SPLITV, O_REJ_EXTRACT, O_REJ_POWER, O_REJ_CORNER,
  NOPS
};
inline bool op_inplace(u32 o) { return o <= O_FITCUBE; }
inline bool op_new(u32 o) { return o >= O_ADD && o <= O_EMPTYCTOR; }
inline bool op_value(u32 o) { return o >= O_EVAL && o <= O_CPACCESS; }
inline bool op_reject(u32 o) { return o >= O_REJ_SPLIT && o < NOPS; }
extern const char* const op_names[];

struct Par {
  int dim = 0;              // parametric dimension concerned
  std::size_t ord[3] = {0, 0, 0};
  double u[3] = {0, 0, 0};
  double sc = 1;
  double pt[3] = {0, 0, 0}, pt2[3] = {1, 1, 1};
  std::vector<double> planes;
  u32 power = 1, variant = 0, extract = 0;
  std::size_t deg[3] = {0, 0, 0};
  std::vector<double> data, wdata;
  std::size_t cp = 0, cp2 = 0;
  int comp = 0;
  int part = 0;             // which part of a split to keep
};
enum { ST_OK, ST_OOM, ST_REJECT, ST_OTHER };
struct Out {
  int status = ST_OK;
  std::string what;
  std::vector<Snap> res;     // resulting splines
  std::vector<double> vals;  // resulting numbers
  ArmStats st;
  u64 leak = 0;   // blocks kept by a failed attempt
  u64 edges = 0;
};
struct Call {
  void* w = nullptr;              // world of the caller
  const void* shared = nullptr;   // world nobody modifies
  u32 op = 0;
  int ka = 0, a = 0;   // target / first operand
  int kb = 0, b = 0;   // second operand; slots >= NSL are shared ones
  bool alias = false;  // pass a control point of the target as argument
  int store = -1;      // slot that receives the result, -1: none
  bool store_copy = false;
  u32 fk = 0;
  u64 fpos = 0, fcnt = 0;
  u64 garbage = 1;
};
struct Api {
  int P;
  void* (*make)();
  void (*destroy)(void*);
  void (*set)(void*, int kind, int slot, const Snap&);
  Snap (*snap)(const void*, int kind, int slot);
  Out (*exec)(const Call&, const Par&);
};
}  // namespace sim
