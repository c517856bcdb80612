#define CMP_PO 2
#define CMP_PI 3
#define CMP_NS c23
#define CMP_NAME cmp_23
#include "cmp.hpp"
