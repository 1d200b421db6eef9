// Resets the global random generator of the library before every case.
#include <utils/eoRNG.h>
#include <utils/eoLogger.h>
#include "mon.h"
int mon_init_library(mon::u64 seed) {
    eo::rng.reseed((uint32_t)seed);
    eo::rng.clearCache();
    static bool once = ((eo::log << eo::setlevel(eo::quiet)), true);
    return once;
}
// where the generator stands after the case
mon::u64 mon_library_probe() {
    eo::rng.clearCache();
    return eo::rng.rand();
}
