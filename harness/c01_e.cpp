#include "c01.h"
GEN(es_stdev, EsN, esOps(s, r, (unsigned)r.range(1, 6), -3, 5))
GEN(es_full, EsF, esOps(s, r, (unsigned)r.range(1, 6), -3, 5))
