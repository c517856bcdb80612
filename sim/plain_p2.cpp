// The library without logging, under another name
#define bezman bezman_plain
#define OPS_P 2
#define OPS_NS ops_ns_plain_p2
#define OPS_NAME plain_p2
#include "ops.hpp"
