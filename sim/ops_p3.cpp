#define OPS_P 3
#ifndef OPS_NS
#define OPS_NS ops_ns_p3
#define OPS_NAME ops_p3
#endif
#include "ops.hpp"
