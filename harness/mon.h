// Runtime-monitoring support shared by every harness.
//
// A harness is a set of named units.  A unit is a function that runs one
// generated case of a workload against the real library code while monitors
// observe it.  The case is a pure function of (seed, unit, case number), so a
// violation is replayed from these three values alone.
#ifndef VERIF_MON_H
#define VERIF_MON_H
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace mon {

typedef uint64_t u64;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline u64 mix(u64 a, u64 b) { return mix(a * 0x2545F4914F6CDD1DULL ^ mix(b)); }
inline u64 hstr(const std::string& s) {
    u64 h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}
inline u64 hdbl(double d) { u64 u; std::memcpy(&u, &d, 8); return mix(u); }
template <class V> u64 hvec(const V& v, u64 h = 17) {
    for (auto it = v.begin(); it != v.end(); ++it) h = mix(h, hdbl((double)*it));
    return h;
}

// Generator of the workload; independent of the generator of the library.
struct Rand {
    u64 s;
    explicit Rand(u64 seed) : s(seed) {}
    u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    // in [0,n)
    u64 below(u64 n) { return n ? next() % n : 0; }
    // in [a,b]
    long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }
    double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * u01(); }
    bool flip(double p = 0.5) { return u01() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    // sizes biased towards the small and the awkward
    long size(long lo, long hi) {
        switch (below(6)) {
        case 0: return lo;
        case 1: return range(lo, std::min(hi, lo + 3));
        case 2: return range(lo, std::min(hi, lo + 12));
        case 3: return hi;
        default: return range(lo, hi);
        }
    }
    template <class V> void shuffle(V& v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
};

// --- what the monitors observed -------------------------------------------
void event(const char* name, u64 n = 1);      // an observation was made
void state(u64 h);                            // a distinct observed state
void sample(const std::string& s);            // a case written out (few kept)
void fail(const std::string& key, const std::string& msg); // violation
u64 case_no();
u64 run_seed();
bool thorough();
const char* scratch(); // private directory of this process

struct Unit {
    const char* name;
    void (*fn)(Rand&, u64);
    u64 quick, thorough;
    int case_timeout;
    const char* needs; // comma separated events that must have been seen
};
struct Reg { Reg(const Unit& u); };

template <class... A> std::string cat(const A&... a) {
    std::ostringstream o;
    o.precision(17);
    int dummy[] = {0, ((void)(o << a), 0)...};
    (void)dummy;
    return o.str();
}
template <class V> std::string show(const V& v, size_t max = 40) {
    std::ostringstream o;
    o.precision(17);
    o << "[";
    size_t i = 0;
    for (auto it = v.begin(); it != v.end(); ++it, ++i) {
        if (i == max) { o << " ..."; break; }
        o << (i ? " " : "") << *it;
    }
    o << "]";
    return o.str();
}
inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-12) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return false;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
// Two-sided test of an observed count against n Bernoulli(p) draws: true when
// the deviation is beyond z standard deviations (continuity corrected).
inline bool deviates(double count, double n, double p, double z = 7.0) {
    double sd = std::sqrt(std::max(n * p * (1 - p), 0.0));
    return std::fabs(count - n * p) > z * sd + 3.0;
}

} // namespace mon

#define UNIT_T(NAME, Q, T, TIMEOUT, NEEDS)                                     \
    static void unit_##NAME(mon::Rand& r, mon::u64 idx);                       \
    static mon::Reg reg_##NAME(mon::Unit{#NAME, unit_##NAME, Q, T, TIMEOUT, NEEDS}); \
    static void unit_##NAME([[maybe_unused]] mon::Rand& r, [[maybe_unused]] mon::u64 idx)
#define UNIT(NAME, Q, T, NEEDS) UNIT_T(NAME, Q, T, 40, NEEDS)

// CHECK(condition, "short stable key", pieces of the message...)
#define CHECK(COND, KEY, ...)                                                  \
    do {                                                                       \
        if (!(COND)) mon::fail(KEY, mon::cat(__VA_ARGS__));                    \
    } while (0)

#endif
