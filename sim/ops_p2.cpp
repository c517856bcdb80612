#define OPS_P 2
#ifndef OPS_NS
#define OPS_NS ops_ns_p2
#define OPS_NAME ops_p2
#endif
#include "ops.hpp"
