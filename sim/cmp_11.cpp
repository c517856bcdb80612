#define CMP_PO 1
#define CMP_PI 1
#define CMP_D1
#define CMP_NS c11
#define CMP_NAME cmp_11
#include "cmp.hpp"
