// Turns a plan step into an admissible call and judges results against the
// model; shared by the simulators that run programs of spline operations.
#pragma once
#include "ops_api.hpp"

namespace sim {
struct Limits {
  std::size_t slot_deg, prod_deg, max_cp;
};
// big: 1: degrees up to the largest supported one, 2: thousands of control points
inline int size_class(i64 maxdeg) { return maxdeg > 29 ? 2 : maxdeg > 9; }
inline Limits limits(int P, int big) {
  if (big == 2) return Limits{P == 3 ? 15u : 29u, 29, 4096};
  if (big) return Limits{29, 29, 400};
  return P == 1 ? Limits{10, 24, 400} : P == 2 ? Limits{5, 12, 169} : Limits{3, 6, 343};
}
bool admissible(const Snap& s, int P, int big = 0);
// maxdeg above 9: degrees up to it in one direction, above 29: in all
Snap random_spline(int P, int kind, u64 seed, int maxdeg);
// State of the slots as seen by the planner
struct View {
  int P = 1;
  int big = 0;
  u64 pool = 0;  // parameters some evaluations of the run have in common
  const Snap* own[NKIND][NSL] = {};
  const Snap* shared[NKIND][NSL] = {};
};
struct Job {
  Call c;
  Par p;
  const Snap* A = nullptr;
  const Snap* B = nullptr;
  bool uses_b = false;
  int dest = 0;
  bool want_store = false;
  bool lasting = false;
};
// false: outside the domain the check covers (nothing is executed)
bool plan_op(const Step& s, const View& v, Job& j);
// "" or what is wrong; out is the result of the call on A and B, post the
// target afterwards (in-place operations)
std::string judge(const Job& j, const Snap& A, const Snap& B, const Out& out,
                  const Snap& post, u64 seed);
bool same_geometry(const Snap& a, const Snap& b, u64 seed, std::string& why);
// argument that an aliased call takes from its own target
void alias_values(const Job& j, const Snap& A, Par& p);
enum OpFamily { FAM_INPLACE = 1, FAM_NEW = 2, FAM_VALUE = 4, FAM_REJECT = 8 };
inline int family(u32 op) {
  return op_inplace(op) ? FAM_INPLACE : op_new(op) ? FAM_NEW : op_value(op) ? FAM_VALUE : FAM_REJECT;
}
Step random_step(Rng& r, const double w[4], double alias, double fault);
// the same few requests over and over, mostly about one spline
std::vector<Step> focused_steps(Rng& r, const double w[4], double alias, double fault, int n);
}  // namespace sim
