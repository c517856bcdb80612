// The library without logging, under another name
#define bezman bezman_plain
#define OPS_P 1
#define OPS_NS ops_ns_plain_p1
#define OPS_NAME plain_p1
#include "ops.hpp"
