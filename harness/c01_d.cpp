#include "c01.h"
GEN(trees, Tree, treeOps(s, r, 30))
GEN(es_simple, Es1, esOps(s, r, (unsigned)r.range(1, 6), -3, 5))
