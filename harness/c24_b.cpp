// C24: scalarising fitness, distances and diversity.
#include "c24.h"
#include <fitness/moeoConstraintFitnessAssignment.h>
#include <fitness/moeoAggregationFitnessAssignment.h>
using namespace mob;

struct CountingEval : public eoEvalFunc<RInd> {
    size_t calls = 0;
    V to;
    void operator()(RInd& x) { ++calls; OV o; for (size_t i = 0; i < o.size(); ++i) o[i] = to[i]; x.objectiveVector(o); }
};
typedef moeoObjectiveVectorNormalizer<RInd> Norm;

// a normaliser and its effect by hand
struct Normalised {
    int how;
    std::shared_ptr<Norm> n;
    V mul, sub;
    Normalised(Rand& r, const Setup& s, Pop& p) : how((int)r.below(4)), mul(s.n, 1), sub(s.n, 0) {
        double top = r.pick(std::vector<double>{1, 10, 100});
        V lo = p.v[0], hi = p.v[0];
        for (auto& x : p.v) for (unsigned i = 0; i < s.n; ++i) { lo[i] = std::min(lo[i], x[i]); hi[i] = std::max(hi[i], x[i]); }
        if (how == 0) { n = std::make_shared<Norm>(); return; }
        if (how == 1) n = std::make_shared<Norm>(p.p, top);
        else if (how == 2) { OV a, b; for (unsigned i = 0; i < s.n; ++i) { a[i] = lo[i]; b[i] = hi[i]; } n = std::make_shared<Norm>(a, b, top); }
        else { std::vector<eoRealInterval> b; for (unsigned i = 0; i < s.n; ++i) { if (lo[i] == hi[i]) hi[i] += 2; b.push_back(eoRealInterval(lo[i], hi[i])); } n = std::make_shared<Norm>(b, top); }
        for (unsigned i = 0; i < s.n; ++i) { mul[i] = lo[i] == hi[i] ? 1 : top / (hi[i] - lo[i]); sub[i] = lo[i]; }
    }
    V operator()(const V& x) const { V u; for (size_t i = 0; i < x.size(); ++i) u.push_back((x[i] - sub[i]) * mul[i]); return u; }
};

UNIT(scalarising, 1500, 30000, "aggregation,constraint,achievement,asf,augmented_asf,augmented_chebychev,chebychev,mixed,dominated,normalised,evaluated,flat") {
    Setup s(r, 1, 5);
    Quiet q;
    if (s.mixed()) event("mixed");
    Pop p(r, s, 1, 12);
    std::vector<double> w;
    for (unsigned i = 0; i < s.n; ++i) w.push_back(r.pick(std::vector<double>{0.25, 0.5, 1, 2, 3.5}));
    OV wo, ref;
    for (unsigned i = 0; i < s.n; ++i) { wo[i] = w[i]; ref[i] = std::round(r.real(-10, 10) * 16) / 16; }
    V rv = plain(ref);
    Normalised nm(r, s, p);
    if (nm.how) event("normalised");
    for (unsigned i = 0; i < s.n; ++i) { bool flat = true; for (auto& x : p.v) if (x[i] != p.v[0][i]) flat = false; if (flat && p.v.size() > 1) event("flat"); }
    for (auto& x : p.v) { OV o; for (unsigned i = 0; i < s.n; ++i) o[i] = x[i]; V u = plain((*nm.n)(o)), h = nm(x); for (unsigned i = 0; i < s.n; ++i) CHECK(close(u[i], h[i], 1e-9, 1e-9), "normalised", "normaliser: objective ", i, " of ", show(x), " becomes ", u[i], ", expected ", h[i]); }
    CountingEval ev;
    ev.to = p.v[r.below(p.v.size())];
    unsigned rho = (unsigned)r.range(1, 4);
    unsigned target = (unsigned)r.below(s.n);
    OV cons;
    for (unsigned i = 0; i < s.n; ++i) cons[i] = r.pick(p.v)[i];
    V cv = plain(cons);
    // signed and scaled gap to the reference point, positive when worse
    auto gap = [&](const V& x, const V& to, const Normalised* m, unsigned i) { V a = m ? (*m)(x) : x, b = m ? (*m)(to) : to; return s.mins[i] ? a[i] - b[i] : b[i] - a[i]; };
    int kind = (int)(idx % 7);
    bool withEval = r.flip(), withNorm = r.flip();
    const Normalised* m = withNorm ? &nm : nullptr;
    std::shared_ptr<moeoFitnessAssignment<RInd>> a;
    moeoSingleObjectivization<RInd>* so = nullptr;
    std::function<double(const V&)> want;
    const char* name = "";
    bool monotone = true, exact = true;
    double spn = 0.0001;
    auto make = [&](auto tag) {
        typedef typename decltype(tag)::type A;
        std::shared_ptr<A> x;
        if (withNorm) x = withEval ? std::make_shared<A>(rho, ref, wo, *nm.n, ev) : std::make_shared<A>(rho, ref, wo, *nm.n);
        else x = withEval ? std::shared_ptr<A>(new A(rho, ref, wo, ev)) : std::make_shared<A>(rho, ref, wo);
        a = x; so = x.get();
    };
    switch (kind) {
    case 0: {
        name = "aggregation"; event("aggregation");
        auto x = withEval ? std::make_shared<moeoAggregationFitnessAssignment<RInd>>(w, ev) : std::make_shared<moeoAggregationFitnessAssignment<RInd>>(w);
        a = x; so = x.get();
        want = [&](const V& x) { double t = 0; for (unsigned i = 0; i < s.n; ++i) t += (s.mins[i] ? -1 : 1) * x[i] * w[i]; return t; };
        break;
    }
    case 1: {
        name = "constraint"; event("constraint");
        auto x = withEval ? std::make_shared<moeoConstraintFitnessAssignment<RInd>>(w, cons, (int)target, *nm.n, ev) : std::make_shared<moeoConstraintFitnessAssignment<RInd>>(w, cons, (int)target, *nm.n);
        a = x; so = x.get();
        want = [&](const V& x) { double t = 0; V u = nm(x); for (unsigned i = 0; i < s.n; ++i) { if (i == target) t += (s.mins[i] ? -1 : 1) * u[i] * w[i]; else t -= std::max(0.0, gap(x, cv, &nm, i)) * w[i]; } return t; };
        break;
    }
    case 2: {
        name = "achievement"; event("achievement");
        bool weights = r.flip();
        if (r.flip()) spn = 0.25;
        auto x = weights ? std::make_shared<moeoAchievementFitnessAssignment<RInd>>(ref, w, spn) : std::make_shared<moeoAchievementFitnessAssignment<RInd>>(ref, spn);
        a = x; withEval = false;
        if (r.flip()) { ref[0] += 1; rv = plain(ref); x->setReference(ref); }
        want = [&, weights](const V& x) { double lo = 1e300, t = 0; for (unsigned i = 0; i < s.n; ++i) { double g = -(weights ? w[i] : 1.0 / s.n) * gap(x, rv, nullptr, i); lo = std::min(lo, g); t += g; } return lo + spn * t; };
        break;
    }
    case 3:
        name = "achievement scalarising metric"; event("asf");
        make(std::common_type<moeoAchievementScalarizingFunctionMetricFitnessAssignment<RInd>>());
        want = [&](const V& x) { double hi = -1e300; for (unsigned i = 0; i < s.n; ++i) hi = std::max(hi, w[i] * gap(x, rv, m, i)); return -hi; };
        break;
    case 4:
        name = "augmented achievement scalarising metric"; event("augmented_asf");
        make(std::common_type<moeoAugmentedAchievementScalarizingFunctionMetricFitnessAssignment<RInd>>());
        want = [&](const V& x) { double hi = -1e300, t = 0; for (unsigned i = 0; i < s.n; ++i) { double g = w[i] * gap(x, rv, m, i); hi = std::max(hi, g); t += g; } return -(t + rho * hi); };
        break;
    case 5:
        name = "augmented Chebychev metric"; event("augmented_chebychev");
        make(std::common_type<moeoAugmentedWeightedChebychevMetricFitnessAssignment<RInd>>());
        want = [&](const V& x) { double hi = -1e300, t = 0; for (unsigned i = 0; i < s.n; ++i) { double g = std::fabs(gap(x, rv, m, i)); hi = std::max(hi, w[i] * g); t += g; } return -(t * rho + hi); };
        monotone = false;
        break;
    default:
        name = "weighted Chebychev metric"; event("chebychev");
        exact = rho == 1;
        make(std::common_type<moeoWeightedChebychevMetricFitnessAssignment<RInd>>());
        want = [&](const V& x) { double t = 0; for (unsigned i = 0; i < s.n; ++i) t += w[i] * std::fabs(gap(x, rv, m, i)); return -t; };
        monotone = false;
    }
    (*a)(p.p);
    auto f = p.fitness(name);
    for (size_t k = 0; k < f.size() && exact; ++k) { double x = want(p.v[k]); CHECK(close(f[k], x, 1e-7, 1e-7), "scalarised", name, " fitness, ", label(s, p), withNorm ? ", normalised" : "", ": ", show(p.v[k]), " has fitness ", f[k], ", expected ", x, " (reference ", show(rv), ", weights ", show(w), ")"); }
    // a reference point nobody beats makes every distance worse for the dominated ones
    bool under = true;
    for (auto& x : p.v) for (unsigned i = 0; i < s.n; ++i) if (s.better(i, x[i], rv[i])) under = false;
    for (size_t i = 0; i < f.size(); ++i) for (size_t j = 0; j < f.size(); ++j) if (s.dom(p.v[i], p.v[j]) && (monotone || under)) { event("dominated"); CHECK(f[i] >= f[j] - 1e-7 * std::max(1.0, std::fabs(f[j])), "scalarised-order", name, " fitness, ", s.dirs(), ": ", show(p.v[i]), " dominates ", show(p.v[j]), ", fitness ", f[i], " against ", f[j]); }
    if (so) {
        size_t k = r.below(p.v.size());
        OV o; for (unsigned i = 0; i < s.n; ++i) o[i] = p.v[k][i];
        RInd one = tagged(o, k);
        (*so)(one);
        CHECK(close(one.fitness(), f[k], 1e-12, 1e-12), "one-by-one", name, ": an individual alone has fitness ", one.fitness(), ", in the population ", f[k]);
        CHECK(ev.calls == 0, "evaluated-again", name, ": an individual with a valid objective vector was evaluated");
        if (withEval) {
            RInd u(1, 0.0);
            (*so)(u);
            CHECK(ev.calls == 1 && !u.invalidObjectiveVector(), "evaluation", name, ": an individual without objective vector was evaluated ", ev.calls, " times");
            if (exact) CHECK(close(u.fitness(), want(ev.to), 1e-7, 1e-7), "evaluated", name, ": fitness after evaluation");
            event("evaluated");
        }
    }
    state(hvec(f, kind));
}

UNIT(distances, 800, 16000, "euclidean,manhattan,normalised,matrix,metric") {
    Setup s(r, 1, 6);
    Quiet q;
    Pop p(r, s, 1, 10);
    Normalised nm(r, s, p);
    bool norm = r.flip(), man = r.flip();
    if (norm) event("normalised");
    event(man ? "manhattan" : "euclidean");
    std::shared_ptr<moeoObjSpaceDistance<RInd>> d;
    if (man) d = norm ? std::make_shared<moeoManhattanDistance<RInd>>(*nm.n) : std::make_shared<moeoManhattanDistance<RInd>>();
    else d = norm ? std::make_shared<moeoEuclideanDistance<RInd>>(*nm.n) : std::make_shared<moeoEuclideanDistance<RInd>>();
    auto hand = [&](const V& a, const V& b) { V x = norm ? nm(a) : a, y = norm ? nm(b) : b; double t = 0; for (unsigned i = 0; i < s.n; ++i) t += man ? std::fabs(x[i] - y[i]) : (x[i] - y[i]) * (x[i] - y[i]); return man ? t : std::sqrt(t); };
    moeoDistanceMatrix<RInd, double> mx((unsigned)p.v.size(), *d);
    mx(p.p);
    event("matrix");
    for (size_t i = 0; i < p.v.size(); ++i) for (size_t j = 0; j < p.v.size(); ++j) {
        double w = hand(p.v[i], p.v[j]), g = (*d)(p.p[i], p.p[j]), h = (*d)(p.p[i].objectiveVector(), p.p[j].objectiveVector());
        CHECK(close(g, w, 1e-9, 1e-9) && close(h, w, 1e-9, 1e-9), "distance", man ? "Manhattan" : "Euclidean", " distance of ", show(p.v[i]), " and ", show(p.v[j]), ": ", g, " or ", h, ", expected ", w);
        CHECK(close(mx[i][j], w, 1e-9, 1e-9), "distance-matrix", "entry ", i, ",", j, " of the distance matrix: ", mx[i][j], ", expected ", w);
    }
    OV ref = grid(Draw(r).vec(r, s.n));
    moeoDistanceMetric<RInd> me(*d, ref);
    for (size_t i = 0; i < p.v.size(); ++i) { double w = hand(plain(ref), p.v[i]); CHECK(close(me(p.p[i].objectiveVector()), w, 1e-9, 1e-9), "distance-metric", "distance of ", show(p.v[i]), " to the reference ", str(ref)); }
    event("metric");
    state(hvec(p.v[0], p.v.size()));
}

static const double INF = std::numeric_limits<double>::max();
// what crowding may give to the members of one front; ties leave the order of equal values open
static void crowd(const Setup& s, const std::vector<V>& v, const std::vector<double>& d, const char* what) {
    size_t n = v.size();
    if (n <= 2) { for (double x : d) CHECK(x == INF, "crowding-small", what, ": ", n, " individuals, diversity ", x); event("small_front"); return; }
    std::vector<double> lo(n, 0), hi(n, 0);
    std::vector<bool> sure(n, false), may(n, false);
    for (unsigned k = 0; k < s.n; ++k) {
        std::vector<double> c;
        for (auto& x : v) c.push_back(x[k]);
        std::sort(c.begin(), c.end());
        double range = c.back() - c.front();
        bool loHit = false, hiHit = false;
        if (range == 0) event("flat");
        for (size_t i = 0; i < n; ++i) {
            double x = v[i][k];
            auto e = std::equal_range(c.begin(), c.end(), x);
            size_t mult = (size_t)(e.second - e.first);
            bool first = e.first == c.begin(), last = e.second == c.end();
            if (first || last) { (mult == 1 ? sure : may)[i] = true; if (d[i] == INF) { loHit = loHit || first; hiHit = hiHit || last; } }
            if (range > 0) {
                double below = first ? x : *(e.first - 1), above = last ? x : *e.second;
                if (mult == 1) { lo[i] += (above - below) / range; hi[i] += (above - below) / range; }
                else { event("tied_values"); hi[i] += std::max(above - x, x - below) / range; }
            }
        }
        CHECK(loHit && hiHit, "crowding-extreme", what, " ", s.dirs(), ": no individual with the ", loHit ? "largest" : "smallest", " value of objective ", k, " is preferred");
    }
    for (size_t i = 0; i < n; ++i) {
        if (sure[i]) { event("extreme"); CHECK(d[i] == INF, "crowding-boundary", what, " ", s.dirs(), ": boundary solution ", show(v[i]), " has diversity ", d[i]); }
        else if (d[i] == INF) CHECK(may[i], "crowding-inner", what, " ", s.dirs(), ": inner solution ", show(v[i]), " is preferred as if it were extreme");
        else { event("inner"); CHECK(d[i] >= lo[i] - 1e-9 && d[i] <= hi[i] + 1e-9, "crowding", what, " ", s.dirs(), ", ", n, " individuals: ", show(v[i]), " has diversity ", d[i], ", expected ", lo[i], lo[i] == hi[i] ? "" : cat(" to ", hi[i])); }
    }
}
UNIT(crowding, 1500, 30000, "extreme,inner,small_front,tied_values,flat,mixed,front_by_front,whole,several_fronts,tiny,changed") {
    Setup s(r, 1, 5);
    Quiet q;
    if (s.mixed()) event("mixed");
    Pop p(r, s, 0, 25);
    if (p.v.size() <= 1) event("tiny");
    if (r.flip(0.15) && !p.v.empty()) { // a front without extent in one objective
        unsigned k = (unsigned)r.below(s.n);
        for (size_t i = 0; i < p.v.size(); ++i) { p.v[i][k] = p.v[0][k]; OV o; for (unsigned j = 0; j < s.n; ++j) o[j] = p.v[i][j]; p.p[i].objectiveVector(o); }
    }
    bool fbf = r.flip();
    event(fbf ? "front_by_front" : "whole");
    std::vector<double> fit;
    int fronts = (int)r.range(1, 4);
    for (size_t i = 0; i < p.p.size(); ++i) { fit.push_back(fbf ? (double)r.range(0, fronts - 1) - 1 : 0); p.p[i].fitness(fit.back()); }
    std::shared_ptr<moeoCrowdingDiversityAssignment<RInd>> a;
    if (fbf) a = std::make_shared<moeoFrontByFrontCrowdingDiversityAssignment<RInd>>();
    else a = std::make_shared<moeoCrowdingDiversityAssignment<RInd>>();
    int turns = (int)r.range(1, 2);
    std::vector<double> d;
    for (int t = 0; t < turns; ++t) {
        if (t && r.flip(0.6)) { // the same individuals with other objectives or other fronts
            for (auto& x : p.p) {
                size_t k = (size_t)x[0];
                if (r.flip(0.4)) { OV o = grid(Draw(r).vec(r, s.n)); p.v[k] = plain(o); x.objectiveVector(o); x.fitness(fit[k]); }
                if (fbf && r.flip(0.3)) x.fitness(fit[k] = (double)r.range(0, fronts - 1) - 1);
            }
            event("changed");
        }
        (*a)(p.p); d = p.diversity("crowding");
    }
    auto at = p.places(p.p, "crowding");
    for (size_t i = 0; i < at.size(); ++i) CHECK(p.p[at[i]].fitness() == fit[i], "fitness-kept", "crowding altered a fitness");
    std::map<double, std::pair<std::vector<V>, std::vector<double>>> by;
    for (size_t i = 0; i < d.size(); ++i) { auto& e = by[fit[i]]; e.first.push_back(p.v[i]); e.second.push_back(d[i]); }
    if (by.size() > 1) event("several_fronts");
    if (p.v.size() <= 2) { for (double x : d) CHECK(x == INF, "crowding-small", "crowding of ", d.size(), " individuals: ", x); }
    else for (auto& e : by) crowd(s, e.second.first, e.second.second, fbf ? "front-by-front crowding" : "crowding");
    state(hvec(d, 0));
}
UNIT_T(crowding_large, 8, 40, 60, "large") {
    Quiet q;
    Setup s(r, 2, 2);
    static const size_t sizes[] = {66000, 66000, 257, 257, 258, 258, 65537, 65538};
    size_t n = sizes[idx % 8];
    Pop p;
    std::vector<double> gaps;
    double x = 0;
    std::vector<double> xs;
    for (size_t i = 0; i < n; ++i) { OV o; o[0] = s.mins[0] ? x : -x; o[1] = s.mins[1] ? -x : x; p.add(o); xs.push_back(x); x += 1 + (double)r.below(8); p.p[i].fitness(0); }
    p.shuffle(r);
    std::shared_ptr<moeoCrowdingDiversityAssignment<RInd>> a;
    if (idx % 2) a = std::make_shared<moeoFrontByFrontCrowdingDiversityAssignment<RInd>>();
    else a = std::make_shared<moeoCrowdingDiversityAssignment<RInd>>();
    (*a)(p.p);
    auto d = p.diversity("crowding of a large front");
    for (size_t i = 0; i < n; ++i) { double w = i == 0 || i + 1 == n ? INF : 2 * (xs[i + 1] - xs[i - 1]) / xs.back(); CHECK(close(d[i], w, 1e-9, 1e-15), "crowding-large", "large front: individual ", i, " of ", n, " has diversity ", d[i], ", expected ", w); }
    event("large");
    state(idx);
}
UNIT(neighbours, 900, 18000, "nearest,archive,sharing,front_sharing,single,none,duplicates,index,again,large") {
    Setup s(r, 1, 4);
    Quiet q;
    bool large = idx % 100 == 0;
    Pop p(r, s, large ? 150 : 0, large ? 300 : 14);
    if (large) event("large");
    if (p.v.empty()) event("none");
    if (p.v.size() == 1) event("single");
    if (p.dups) event("duplicates");
    std::vector<double> fit;
    for (size_t i = 0; i < p.p.size(); ++i) { fit.push_back((double)r.range(0, 2)); p.p[i].fitness(fit.back()); }
    moeoManhattanDistance<RInd> md;
    bool man = r.flip();
    auto dist = [&](const V& a, const V& b) { double t = 0; for (unsigned i = 0; i < s.n; ++i) t += man ? std::fabs(a[i] - b[i]) : (a[i] - b[i]) * (a[i] - b[i]); return man ? t : std::sqrt(t); };
    if (r.flip()) {
        event("nearest");
        bool arch = r.flip();
        moeoUnboundedArchive<RInd> ar;
        if (arch) { Pop x(r, s, 0, 8); ar(x.p); event("archive"); }
        unsigned index = (unsigned)r.range(1, 5);
        if (index > 1) event("index");
        typedef moeoNearestNeighborDiversityAssignment<RInd> N;
        std::shared_ptr<N> a;
        if (arch) a = man ? std::make_shared<N>(md, ar, index) : std::make_shared<N>(ar, index);
        else a = man ? std::make_shared<N>(md, index) : std::make_shared<N>(index);
        if (r.flip(0.4)) { Pop x(r, s, 1, 14); (*a)(r.flip() ? x.p : p.p); event("again"); }
        (*a)(p.p);
        auto d = p.diversity("nearest neighbour");
        std::vector<V> all = p.v;
        for (auto& x : ar) { all.push_back(plain(x.objectiveVector())); CHECK(!x.invalidDiversity(), "unassigned", "nearest neighbour: an archived individual has no diversity"); d.push_back(x.diversity()); }
        for (size_t i = 0; i < all.size(); ++i) {
            std::vector<double> o;
            for (size_t j = 0; j < all.size(); ++j) if (j != i) o.push_back(dist(all[i], all[j]));
            std::sort(o.begin(), o.end());
            if (o.empty()) { CHECK(d[i] <= 0 && d[i] >= -0.5, "nearest-alone", "nearest neighbour of a lone individual: diversity ", d[i]); continue; }
            double w = -1 / (2 + o[std::min<size_t>(index, o.size()) - 1]);
            CHECK(close(d[i], w, 1e-9, 1e-12), "nearest", "neighbour ", index, " of ", all.size() - 1, ": diversity ", d[i], ", expected ", w);
        }
        state(hvec(d, index));
    } else {
        bool front = r.flip();
        event(front ? "front_sharing" : "sharing");
        double niche = r.pick(std::vector<double>{0.5, 0.01, 2, 50}), alpha = r.pick(std::vector<double>{1, 2, 0.5});
        std::shared_ptr<moeoSharingDiversityAssignment<RInd>> a;
        if (front) a = man ? std::make_shared<moeoFrontByFrontSharingDiversityAssignment<RInd>>(md, niche, alpha) : std::make_shared<moeoFrontByFrontSharingDiversityAssignment<RInd>>(niche, alpha);
        else a = man ? std::make_shared<moeoSharingDiversityAssignment<RInd>>(md, niche, alpha) : std::make_shared<moeoSharingDiversityAssignment<RInd>>(niche, alpha);
        if (r.flip(0.4)) { Pop x(r, s, 1, 14); for (auto& y : x.p) y.fitness(1); (*a)(r.flip() ? x.p : p.p); event("again"); }
        (*a)(p.p);
        auto d = p.diversity("sharing");
        if (d.empty()) return;
        std::vector<double> w(d.size(), 0);
        for (size_t i = 0; i < d.size(); ++i) for (size_t j = 0; j < d.size(); ++j) { if (front && fit[i] != fit[j]) continue; double x = dist(p.v[i], p.v[j]); if (x < niche) w[i] += 1 - std::pow(x / niche, alpha); }
        double top = *std::max_element(w.begin(), w.end());
        for (size_t i = 0; i < d.size(); ++i) CHECK(close(d[i], top - w[i], 1e-9, 1e-9), "sharing", front ? "front-by-front " : "", "sharing, niche ", niche, ": diversity ", d[i], ", expected ", top - w[i]);
        state(hvec(d, 1));
    }
}
