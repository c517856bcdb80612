// The library without logging, under another name
#define bezman bezman_plain
#define OPS_P 3
#define OPS_NS ops_ns_plain_p3
#define OPS_NAME plain_p3
#include "ops.hpp"
