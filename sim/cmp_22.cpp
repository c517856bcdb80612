#define CMP_PO 2
#define CMP_PI 2
#define CMP_NS c22
#define CMP_NAME cmp_22
#include "cmp.hpp"
