#define CMP_PO 3
#define CMP_PI 1
#define CMP_NS c31
#define CMP_NAME cmp_31
#include "cmp.hpp"
