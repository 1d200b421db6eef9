// C27: multivariate normal laws.
#include "c27.h"

namespace {
edoNormalMulti<Vec> multi(const D1& m, const D2& c) {
    typedef edoNormalMulti<Vec> N;
    N::Vector mean(m.size());
    N::Matrix v(m.size(), m.size());
    for (size_t i = 0; i < m.size(); ++i) { mean(i) = m[i]; for (size_t j = 0; j < m.size(); ++j) v(i, j) = c[std::max(i, j)][std::min(i, j)]; }
    return N(mean, v);
}
}

UNIT(multi_estimator, 800, 12000, "used-before,estimated,correlated,single,more-dimensions-than-points,large") {
    bool large = idx % 50 == 0;
    size_t d = large ? (size_t)r.range(20, 40) : (size_t)r.range(1, 6), n = large ? (size_t)r.range(260, 400) : r.size(1, 40);
    eoPop<Vec> pop = drawn(r, n, d);
    edoEstimatorNormalMulti<Vec> est;
    if (r.flip()) { eoPop<Vec> other = r.flip() ? drawn(r, n, d) : shifted(r, pop); est(other); event("used-before"); }
    edoNormalMulti<Vec> law = est(pop);
    D1 m = meanOf(pop); D2 c = covOf(pop);
    double sc = scaleOf(pop);
    CHECK(law.size() == d, "dimension", "the law estimated from points of dimension ", d, " has dimension ", law.size());
    auto lm = law.mean(); auto lc = law.varcovar();
    for (size_t i = 0; i < d; ++i) {
        CHECK(close(lm(i), m[i], 1e-9, 1e-10 * sc), "mean", "mean ", lm(i), " estimated for component ", i, " of ", n, " points, the points have ", m[i]);
        for (size_t j = 0; j < d; ++j) { CHECK(close(lc(i, j), c[i][j], 1e-8, 1e-11 * sc * sc), "covariance", "covariance ", lc(i, j), " estimated for components ", i, " and ", j, " of ", n, " points, the points have ", c[i][j]); if (i != j && std::fabs(c[i][j]) > 1e-3 * sc * sc) event("correlated"); }
    }
    event("estimated");
    if (n == 1) event("single");
    if (d > n) event("more-dimensions-than-points");
    if (large) event("large");
    state(mix(hvec(m), n));
}

UNIT(multi_sampler, 120, 2000, "used-before,large,direction,correlated,flat-direction") {
    bool large = idx % 60 == 0;
    size_t d = large ? (size_t)r.range(16, 22) : (size_t)r.range(1, 6);
    bool full = large || r.flip(0.7);
    D2 c = covariance(r, d, full);
    D1 m; for (size_t i = 0; i < d; ++i) m.push_back(r.real(-5, 5));
    edoNormalMulti<Vec> law = multi(m, c);
    NoRepair no;
    edoSamplerNormalMulti<Vec> sampler(no);
    rng.reseed((uint32_t)r.below(1u << 30));
    if (r.flip()) { // the law has changed since the sampler last drew from it
        D1 m0; D2 c0;
        reordered(r, m, c, m0, c0);
        edoNormalMulti<Vec> mine = law;
        law = multi(m0, c0);
        for (long k = r.range(1, 5); k > 0; --k) sampler(law);
        law = mine;
        event("used-before");
    }
    if (large) event("large");
    follows(r, m, c, [&] { Vec v = sampler(law); return D1(v.begin(), v.end()); }, "multivariate normal sampler");
    if (d > 1) event("correlated");
    state(mix(hvec(m), d));
}

UNIT(multi_center, 300, 4000, "moved") {
    size_t d = (size_t)r.range(1, 6);
    D2 c = covariance(r, d, true);
    D1 m, t; for (size_t i = 0; i < d; ++i) { m.push_back(r.real(-5, 5)); t.push_back(r.real(-5, 5)); }
    edoNormalMulti<Vec> law = multi(m, c);
    edoNormalMultiCenter<Vec> move;
    Vec x = vec(t);
    move(law, x);
    auto lm = law.mean(); auto lc = law.varcovar();
    for (size_t i = 0; i < d; ++i) {
        CHECK(lm(i) == t[i], "center", "a multivariate normal law moved to ", show(t), " has mean ", lm(i), " in component ", i);
        for (size_t j = 0; j < d; ++j) CHECK(lc(i, j) == c[std::max(i, j)][std::min(i, j)], "center-spread", "moving a law changes its covariance");
    }
    event("moved");
    state(hvec(t));
}
