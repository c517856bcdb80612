#define OPS_P 1
#ifndef OPS_NS
#define OPS_NS ops_ns_p1
#define OPS_NAME ops_p1
#endif
#include "ops.hpp"
