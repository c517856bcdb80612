#define CMP_PO 1
#define CMP_PI 2
#define CMP_NS c12
#define CMP_NAME cmp_12
#include "cmp.hpp"
