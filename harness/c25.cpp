// Set metrics: hypervolume, hypervolume difference, epsilon indicators.
#include "c25.h"
using namespace mob;

namespace {
struct HV {
    // 0 normalised by coefficient, 1 raw by coefficient, 2 normalised with a point, 3 raw with a point, 4 point and bounds
    int how;
    double rho = 0;
    OV ref;
    std::vector<eoRealInterval> bounds;
    HV(Rand& r, const Setup& s, const std::vector<V>& all) : how((int)r.below(5)) {
        rho = r.pick(std::vector<double>{1, 1.1, 1.5, 2});
        for (unsigned i = 0; i < s.n; ++i) {
            double lo = all[0][i], hi = lo;
            for (auto& v : all) { lo = std::min(lo, v[i]); hi = std::max(hi, v[i]); }
            double far = r.pick(std::vector<double>{0, 0.5, 3});
            if (how == 2) ref[i] = s.mins[i] ? 1 + far : -far;
            if (how == 3) ref[i] = s.mins[i] ? hi + far : lo - far;
            if (how == 4) {
                bounds.push_back(eoRealInterval(std::floor(lo) - 1, std::ceil(hi) + 2));
                ref[i] = s.mins[i] ? 1 + far : -far;
            }
        }
    }
    std::shared_ptr<moeoHyperVolumeMetric<OV>> make() {
        if (how < 2) return std::make_shared<moeoHyperVolumeMetric<OV>>(how == 0, rho);
        if (how < 4) return std::make_shared<moeoHyperVolumeMetric<OV>>(how == 2, ref);
        return std::make_shared<moeoHyperVolumeMetric<OV>>(ref, bounds);
    }
    // extents (from the points of the reference space to the reference point) of a set, scaled with "all"
    double volume(const Setup& s, const std::vector<V>& set, const std::vector<V>& all) const {
        std::vector<V> e;
        for (auto& v : set) {
            V x;
            for (unsigned i = 0; i < s.n; ++i) {
                double lo = all[0][i], hi = lo;
                for (auto& w : all) { lo = std::min(lo, w[i]); hi = std::max(hi, w[i]); }
                double point = how == 0 ? (s.mins[i] ? rho : 1 - rho) : how == 1 ? (s.mins[i] ? hi * rho : hi * (1 - rho)) : (double)ref[i];
                double a = 0, b = 1;
                if (how == 0 || how == 2) { a = lo; b = hi; if (lo == hi) { a = lo - 1e-6; b = hi + 1e-6; } }
                if (how == 4) { a = bounds[i].minimum(); b = bounds[i].maximum(); }
                double y = (v[i] - a) / (b - a);
                x.push_back(s.mins[i] ? point - y : y - point);
            }
            e.push_back(x);
        }
        return hyper(e, s.n);
    }
    const char* name() const { return how == 0 ? "normalised, coefficient" : how == 1 ? "coefficient" : how == 2 ? "normalised, reference point" : how == 3 ? "reference point" : "reference point and bounds"; }
};
double flatTol(const Setup& s, const std::vector<V>& all) {
    for (unsigned i = 0; i < s.n; ++i) {
        bool flat = true;
        for (auto& v : all) flat = flat && v[i] == all[0][i];
        if (flat) return 1e-2;
    }
    return 1e-8;
}
// values of a kind the metric accepts: the raw coefficient needs positive objectives
std::vector<V> points(Rand& r, const Setup& s, size_t lo, size_t hi, bool positive) {
    Pop p(r, s, lo, hi);
    std::vector<V> v = p.v;
    if (positive) for (auto& x : v) for (auto& y : x) y = std::fabs(y) + 0.25;
    return v;
}
// what a metric has computed before: a few other points, or the very points with one moved or all of them stretched
std::vector<V> before(Rand& r, const Setup& s, const std::vector<V>& set, bool positive) {
    if (r.flip(0.4)) return points(r, s, 1, 6, positive);
    std::vector<V> v = set;
    if (r.flip()) { V& x = v[r.below(v.size())]; for (auto& y : x) y = positive ? y * 1.5 + 1 : y + r.real(-3, 3); }
    else { double k = r.real(0.3, 3), d = positive ? 1 : r.real(-4, 4); for (auto& x : v) for (auto& y : x) y = y * k + d; }
    return v;
}
}

UNIT(hypervolume, 2500, 60000, "raw,normalised,coefficient,point,two,three,more,dominated-point,duplicate,order,grown,single,mixed,crossed") {
    Setup s(r, 2, 5);
    size_t most = s.n == 2 ? 40 : s.n == 3 ? 24 : s.n == 4 ? 12 : 8;
    bool positive = r.flip();
    std::vector<V> set = points(r, s, 1, most, positive);
    // points that may be added later: they stay inside the extent already known
    std::vector<V> more;
    for (int k = 0; k < 3; ++k) { V v; for (unsigned i = 0; i < s.n; ++i) v.push_back(set[r.below(set.size())][i]); more.push_back(v); }
    std::vector<V> all = set;
    for (auto& v : more) all.push_back(v);
    HV h(r, s, all);
    if (h.how == 1 && !positive) h.how = 3, h = HV(r, s, all);
    while (h.how == 1 && !positive) h = HV(r, s, all);
    auto m = h.make();
    Quiet q;
    if (r.flip(0.3)) { (*m)(vectors(before(r, s, set, positive))); event("reused"); } // a metric may be used again
    double got = (*m)(vectors(set)), want = h.volume(s, set, set), tol = flatTol(s, set);
    CHECK(close(got, want, tol, tol * 1e-3), "hypervolume", "hypervolume (", h.name(), ", ", s.dirs(), ") of ", set.size(), " points is ", got, ", expected ", want, list(set));
    if (set.size() <= 7) {
        // the same by inclusion and exclusion, only for the plain variant
        if (h.how == 3) {
            std::vector<V> e;
            for (auto& v : set) { V x; for (unsigned i = 0; i < s.n; ++i) x.push_back(s.mins[i] ? h.ref[i] - v[i] : v[i] - h.ref[i]); e.push_back(x); }
            double ie = crossed(e, s.n);
            CHECK(close(got, ie, 1e-7, 1e-7), "hypervolume", "hypervolume of ", set.size(), " points is ", got, ", by inclusion-exclusion ", ie, list(set));
            event("crossed");
        }
    }
    auto sh = set;
    r.shuffle(sh);
    double again = (*m)(vectors(sh));
    CHECK(close(again, got, tol, tol * 1e-3), "hypervolume-order", "the hypervolume depends on the order of the points: ", got, " and ", again, list(set));
    event("order");
    auto dup = sh;
    dup.insert(dup.begin() + (long)r.below(dup.size() + 1), set[r.below(set.size())]);
    again = (*m)(vectors(dup));
    CHECK(close(again, got, tol, tol * 1e-3), "hypervolume-duplicate", "a duplicate point changes the hypervolume from ", got, " to ", again, list(set));
    event("duplicate");
    bool fixed = h.how >= 3;
    for (auto& v : more) {
        if (!fixed && h.how != 2) break;
        if (h.how == 2) break;
        bool beaten = false;
        for (auto& w : set) beaten = beaten || s.weak(w, v);
        auto grown = set;
        grown.insert(grown.begin() + (long)r.below(grown.size() + 1), v);
        double g = (*m)(vectors(grown));
        if (beaten) { CHECK(close(g, got, tol, tol * 1e-3), "hypervolume-dominated", "a dominated point changes the hypervolume from ", got, " to ", g, list(grown)); event("dominated-point"); }
        else { CHECK(g >= got - 1e-9 * (1 + std::fabs(got)), "hypervolume-shrinks", "a non-dominated point shrinks the hypervolume from ", got, " to ", g, list(grown)); event("grown"); }
    }
    event(h.how == 0 || h.how == 2 ? "normalised" : "raw");
    event(h.how < 2 ? "coefficient" : "point");
    event(s.n == 2 ? "two" : s.n == 3 ? "three" : "more");
    if (set.size() == 1) event("single");
    if (s.mixed()) event("mixed");
    state(mix(hdbl(got), s.n * 8 + h.how));
}

UNIT(hypervolume_large, 12, 200, "two,three,above-256") {
    Setup s(r, 2, 3);
    size_t n = s.n == 2 ? (size_t)r.range(300, 700) : (size_t)r.range(60, 110);
    std::vector<V> set;
    for (size_t i = 0; i < n; ++i) set.push_back(plain(grid(onFront(r, s, r.flip(0.8) ? 0 : r.u01()))));
    HV h(r, s, set);
    while (h.how == 1) h = HV(r, s, set);
    Quiet q;
    double got = (*h.make())(vectors(set)), want = h.volume(s, set, set);
    CHECK(close(got, want, 1e-8, 1e-8), "hypervolume", "hypervolume (", h.name(), ", ", s.dirs(), ") of ", n, " points is ", got, ", expected ", want);
    event(s.n == 2 ? "two" : "three");
    if (n > 256) event("above-256");
    state(hdbl(got));
}

UNIT(difference, 1500, 30000, "raw,normalised,positive-result,negative-result,same-set,unequal-sizes") {
    Setup s(r, 2, 4);
    size_t most = s.n == 2 ? 30 : s.n == 3 ? 14 : 8;
    std::vector<V> a = points(r, s, 1, most, true), b = r.flip(0.1) ? a : points(r, s, 1, most, true);
    std::vector<V> all = a;
    all.insert(all.end(), b.begin(), b.end());
    HV h(r, s, all);
    while (h.how == 4) h = HV(r, s, all);
    std::shared_ptr<moeoHyperVolumeDifferenceMetric<OV>> m;
    if (h.how < 2) m = std::make_shared<moeoHyperVolumeDifferenceMetric<OV>>(h.how == 0, h.rho);
    else m = std::make_shared<moeoHyperVolumeDifferenceMetric<OV>>(h.how == 2, h.ref);
    Quiet q;
    if (r.flip(0.4)) (*m)(vectors(before(r, s, a, true)), vectors(r.flip() ? b : before(r, s, b, true)));
    double got = (*m)(vectors(a), vectors(b));
    double va = h.volume(s, a, all), vb = h.volume(s, b, all), tol = flatTol(s, all);
    CHECK(std::fabs(got - (va - vb)) <= tol * (1e-3 + std::fabs(va) + std::fabs(vb)), "hypervolume-difference", "hypervolume difference (", h.name(), ", ", s.dirs(), ") is ", got, ", expected ", va, " - ", vb, list(a), list(b));
    double back = (*m)(vectors(b), vectors(a));
    CHECK(std::fabs(got + back) <= tol * (1e-3 + std::fabs(va) + std::fabs(vb)), "hypervolume-antisymmetry", "hypervolume difference is ", got, " one way and ", back, " the other way", list(a), list(b));
    event(h.how == 0 || h.how == 2 ? "normalised" : "raw");
    if (a == b) event("same-set");
    if (a.size() != b.size()) event("unequal-sizes");
    if (got > 0) event("positive-result");
    if (got < 0) event("negative-result");
    state(mix(hdbl(got), s.n));
}

UNIT(epsilon, 3000, 60000, "additive,normalised,multiplicative,refused,flat,better,worse,large") {
    Setup s(r, 1, 6);
    bool mult = r.flip(0.4), norm = !mult && r.flip();
    bool large = idx % 50 == 0;
    size_t most = large ? 300 : 20;
    std::vector<V> a = points(r, s, large ? 257 : 1, most, mult), b = points(r, s, 1, large ? 40 : 20, mult);
    if (r.flip(0.2)) b = a;
    if (r.flip(0.2)) for (auto& v : b) for (unsigned i = 0; i < s.n; ++i) v[i] *= 1.5;
    std::vector<V> all = a;
    all.insert(all.end(), b.begin(), b.end());
    std::shared_ptr<moeoVecVsVecEpsilonBinaryMetric<OV>> m;
    if (mult) m = std::make_shared<moeoVecVsVecMultiplicativeEpsilonBinaryMetric<OV>>();
    else m = std::make_shared<moeoVecVsVecAdditiveEpsilonBinaryMetric<OV>>(norm);
    V lo = all[0], hi = all[0];
    for (auto& v : all) for (unsigned i = 0; i < s.n; ++i) { lo[i] = std::min(lo[i], v[i]); hi[i] = std::max(hi[i], v[i]); }
    double tol = 1e-9;
    if (norm) for (unsigned i = 0; i < s.n; ++i) if (lo[i] == hi[i]) { event("flat"); tol = 1e-3; lo[i] -= 1e-6; hi[i] += 1e-6; }
    auto one = [&](const V& x, const V& y, unsigned i) {
        if (mult) return s.mins[i] ? x[i] / y[i] : y[i] / x[i];
        double g = s.mins[i] ? x[i] - y[i] : y[i] - x[i];
        return norm ? g / (hi[i] - lo[i]) : g;
    };
    Quiet q;
    if (r.flip(0.4)) (*m)(vectors(before(r, s, a, mult)), vectors(r.flip() ? b : before(r, s, b, mult)));
    double got = (*m)(vectors(a), vectors(b)), want = -1e300;
    for (auto& y : b) {
        double best = 1e300;
        for (auto& x : a) { double w = -1e300; for (unsigned i = 0; i < s.n; ++i) w = std::max(w, one(x, y, i)); best = std::min(best, w); }
        want = std::max(want, best);
    }
    CHECK(close(got, want, tol, tol), "epsilon", mult ? "multiplicative" : norm ? "normalised additive" : "additive", " epsilon (", s.dirs(), ") of ", a.size(), " against ", b.size(), " points is ", got, ", expected ", want, list(a), list(b));
    if (norm) {
        auto bd = m->getBounds();
        for (unsigned i = 0; i < s.n; ++i) CHECK(close(bd[i].minimum(), lo[i], 1e-9, 1e-9) && close(bd[i].maximum(), hi[i], 1e-9, 1e-9), "epsilon-bounds", "the bounds of objective ", i, " are reported as [", bd[i].minimum(), ",", bd[i].maximum(), "], expected [", lo[i], ",", hi[i], "]");
    }
    double neutral = mult ? 1 : 0;
    event(got < neutral ? "better" : "worse");
    if (mult) {
        // values of different signs cannot be compared by a factor
        auto bad = b;
        unsigned k = (unsigned)r.below(s.n);
        bad[r.below(bad.size())][k] = r.flip() ? 0 : -1;
        bool threw = false;
        try { (*m)(vectors(a), vectors(bad)); } catch (const char*) { threw = true; } catch (const std::exception&) { threw = true; }
        CHECK(threw, "epsilon-signs", "multiplicative epsilon accepts values of different signs");
        event("refused");
    }
    event(mult ? "multiplicative" : "additive");
    if (norm) event("normalised");
    if (large) event("large");
    state(mix(hdbl(got), s.n * 3 + mult * 2 + norm));
}
