#include "c01.h"
GEN(ints, Int, intOps(s, r, (unsigned)r.range(2, 9), 7))
GEN(vlengths, Int, vlOps(s, r, 1, 9, 7))
