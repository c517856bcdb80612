#define CMP_PO 3
#define CMP_PI 2
#define CMP_NS c32
#define CMP_NAME cmp_32
#include "cmp.hpp"
