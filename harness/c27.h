// Shared by the distribution checks: samples and normal laws over vectors.
#ifndef VERIF_C27_H
#define VERIF_C27_H
#include "mon.h"
#include "eoh.h"
#include <eo>
#include <es.h>
#include <edo>
#include <memory>
using namespace mon;
using mon::close;
namespace {
typedef eoReal<double> Vec;
typedef std::vector<double> D1;
typedef std::vector<D1> D2;
inline Vec vec(const D1& x) { Vec v; v.resize(x.size()); for (size_t i = 0; i < x.size(); ++i) v[i] = x[i]; return v; }
// probability that a standard normal deviate is below z
inline double phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
// a sample with the scale, offset and rank given
inline eoPop<Vec> drawn(Rand& r, size_t n, size_t d) {
    double off = r.pick(std::vector<double>{0, 0, 5, -300}), sc = r.pick(std::vector<double>{1, 0.01, 40});
    size_t rank = r.flip(0.3) ? (size_t)r.range(0, (long)d) : d;
    D2 base; for (size_t k = 0; k < rank; ++k) { base.emplace_back(); for (size_t i = 0; i < d; ++i) base.back().push_back(rank == d && r.flip(0.5) ? (i == k ? 1.0 : 0.0) : r.real(-1, 1)); }
    eoPop<Vec> pop;
    for (size_t j = 0; j < n; ++j) {
        D1 x(d, off);
        for (size_t k = 0; k < rank; ++k) { double t = r.real(-1, 1) * sc; for (size_t i = 0; i < d; ++i) x[i] += t * base[k][i]; }
        pop.push_back(vec(x));
        if (j && r.flip(0.05)) pop.back() = pop[j - 1];
    }
    return pop;
}
inline D1 meanOf(const eoPop<Vec>& p) {
    size_t d = p[0].size();
    std::vector<long double> s(d, 0);
    for (auto& x : p) for (size_t i = 0; i < d; ++i) s[i] += x[i];
    D1 m; for (auto v : s) m.push_back((double)(v / p.size()));
    return m;
}
inline D2 covOf(const eoPop<Vec>& p) {
    size_t d = p[0].size();
    D1 m = meanOf(p);
    D2 c(d, D1(d));
    for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) { long double s = 0; for (auto& x : p) s += ((long double)x[i] - m[i]) * ((long double)x[j] - m[j]); c[i][j] = (double)(s / p.size()); }
    return c;
}
inline double scaleOf(const eoPop<Vec>& p) { double s = 1e-9; for (auto& x : p) for (double v : x) s = std::max(s, std::fabs(v)); return s; }
// a sample of the same size, moved, stretched, reordered or with one point changed
inline eoPop<Vec> shifted(Rand& r, eoPop<Vec> p) {
    int how = (int)r.below(3);
    double k = r.real(0.3, 3), t = r.real(-9, 9);
    if (how == 0) for (auto& x : p) for (auto& v : x) v = v * k + t;
    else if (how == 1) for (auto& v : p[r.below(p.size())]) v += t;
    else for (auto& x : p) std::reverse(x.begin(), x.end());
    return p;
}
// the law with its components in another order, sometimes with another scale
inline void reordered(Rand& r, const D1& m, const D2& c, D1& m2, D2& c2) {
    std::vector<size_t> o; for (size_t i = 0; i < m.size(); ++i) o.push_back(i);
    r.shuffle(o);
    double k = r.flip() ? 1 : r.real(0.2, 3);
    m2 = m; c2 = c;
    for (size_t i = 0; i < m.size(); ++i) { m2[i] = m[o[i]]; for (size_t j = 0; j < m.size(); ++j) c2[i][j] = c[o[i]][o[j]] * k; }
}
struct NoRepair : public edoRepairer<Vec> { void operator()(Vec&) {} };

// covariance matrix, possibly of lower rank, possibly with a variable that dominates or is last
inline D2 covariance(Rand& r, size_t d, bool full) {
    size_t rank = full || d == 1 ? d : (size_t)r.range(1, (long)d);
    D2 a; for (size_t k = 0; k < rank; ++k) { a.emplace_back(); for (size_t i = 0; i < d; ++i) a.back().push_back(r.real(-1, 1)); }
    D1 sc; for (size_t i = 0; i < d; ++i) sc.push_back(r.pick(std::vector<double>{1, 1, 0.1, 8}));
    D2 c(d, D1(d, 0));
    for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) { for (size_t k = 0; k < rank; ++k) c[i][j] += a[k][i] * a[k][j]; c[i][j] *= sc[i] * sc[j]; if (i == j && full) c[i][j] += 0.05 * sc[i] * sc[i]; }
    return c;
}
// draws follow the normal law of the mean and covariance, along any direction
template <class F> void follows(Rand& r, const D1& m, const D2& c, F draw, const char* name) {
    size_t d = m.size(), N = 1500, dirs = 6;
    D2 w; D1 z, sd;
    for (size_t k = 0; k < dirs; ++k) {
        w.emplace_back(d, 0.0);
        if (k < 2) w.back()[r.below(d)] = 1; else if (k < 4) { w.back()[r.below(d)] += 1; w.back()[r.below(d)] -= r.pick(std::vector<double>{1, 0.5, -1}); } else for (auto& x : w.back()) x = r.real(-1, 1);
        double v = 0; for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) v += w.back()[i] * w.back()[j] * c[i][j];
        sd.push_back(std::sqrt(std::max(v, 0.0))); z.push_back(r.real(-1.5, 1.5));
    }
    double top = 0; for (size_t i = 0; i < d; ++i) top = std::max(top, std::fabs(c[i][i]));
    std::vector<size_t> below(dirs, 0), inside(dirs, 0);
    for (size_t n = 0; n < N; ++n) {
        D1 x = draw();
        CHECK(x.size() == d, "dimension", name, ": a draw has ", x.size(), " components, the law ", d);
        for (size_t k = 0; k < dirs; ++k) {
            double t = 0; for (size_t i = 0; i < d; ++i) t += w[k][i] * (x[i] - m[i]);
            CHECK(std::isfinite(t), "not-finite", name, ": a draw is not a number");
            if (sd[k] <= 1e-6 * std::sqrt(top)) { CHECK(std::fabs(t) <= 1e-5 * std::sqrt(top) + 1e-12, "flat", name, ": a draw leaves the hyperplane the law lives in, by ", t); if (!n) event("flat-direction"); continue; }
            if (t < z[k] * sd[k]) ++below[k];
            if (std::fabs(t) < sd[k]) ++inside[k];
        }
    }
    for (size_t k = 0; k < dirs; ++k) {
        if (sd[k] <= 1e-6 * std::sqrt(top)) continue;
        CHECK(!deviates((double)below[k], (double)N, phi(z[k])), "law", name, " in dimension ", d, ": ", below[k], " of ", N, " draws are below the ", phi(z[k]), " quantile in direction ", show(w[k]));
        CHECK(!deviates((double)inside[k], (double)N, phi(1) - phi(-1)), "spread", name, " in dimension ", d, ": ", inside[k], " of ", N, " draws are within one standard deviation in direction ", show(w[k]));
        event("direction");
    }
}
}
#endif
