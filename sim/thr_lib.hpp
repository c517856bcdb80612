// Library calls of the thread simulator that are no spline operations of
// ops.hpp; this unit is instrumented like the library itself.
#pragma once
#include "alloc.hpp"

namespace sim {
struct LibOut {
  int status = 0;  // 0 ok, 1 out of memory, 2 the library's exception, 3 other
  std::string what;
  const char* type = "";
  std::vector<double> vals;
  std::string text;
  ArmStats st;
};
// kind 0..5 message (5: terminating error), 6 level, 7 level list
LibOut lib_log(int what, u32 a, u32 level, const std::string& text, u32 fk, u64 fpos, u64 fcnt);
LibOut lib_b64(u64 seed, u32 fk, u64 fpos, u64 fcnt);
LibOut lib_ad(u64 seed, u32 fk, u64 fpos, u64 fcnt);
LibOut lib_misc(u64 seed, u32 fk, u64 fpos, u64 fcnt);
// compositions of shared and own splines
void lib_shared(u64 seed);
LibOut lib_compose(u64 seed, u32 fk, u64 fpos, u64 fcnt);
}  // namespace sim
