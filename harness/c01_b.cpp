#include "c01.h"
GEN(reals, RealMin, realOps(s, r, (unsigned)r.range(1, 8), -3, 5))
GEN(perms, Int, permOps(s, r, (unsigned)r.range(2, 12)))
