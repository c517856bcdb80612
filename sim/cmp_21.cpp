#define CMP_PO 2
#define CMP_PI 1
#define CMP_NS c21
#define CMP_NAME cmp_21
#include "cmp.hpp"
