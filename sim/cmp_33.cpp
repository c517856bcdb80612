#define CMP_PO 3
#define CMP_PI 3
#define CMP_NS c33
#define CMP_NAME cmp_33
#include "cmp.hpp"
