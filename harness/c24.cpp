// C24: multi-objective fitness assignments.
#include "c24.h"
#include <utils/moeoDominanceMatrix.h>
#include <fitness/moeoConstraintFitnessAssignment.h>
#include <fitness/moeoReferencePointIndicatorBasedFitnessAssignment.h>
#include <fitness/moeoAggregationFitnessAssignment.h>
using namespace mob;

static void shape(const Setup& s, const Pop& p) {
    if (s.n == 1) event("one_objective");
    if (s.n == 2) event("two_objectives");
    if (s.n > 2) event("many_objectives");
    if (s.mixed()) event("mixed");
    if (p.ties) event("ties");
    if (p.dups) event("duplicates");
    if (p.v.size() <= 1) event("tiny");
}
// depth of every individual: 0 for those nobody dominates, else one more than the deepest dominator
static std::vector<unsigned> depths(const Setup& s, const std::vector<V>& v, const std::function<bool(const V&, const V&)>& dom) {
    std::vector<unsigned> d(v.size(), 0);
    for (bool again = true; again;) {
        again = false;
        for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) if (d[i] < d[j] + 1 && dom(v[j], v[i])) { d[i] = d[j] + 1; again = true; }
    }
    return d;
}

UNIT(depth, 1500, 30000, "one_objective,two_objectives,many_objectives,mixed,ties,duplicates,tiny,dominated,deep,again,strict") {
    Setup s(r, 1, 5);
    Quiet q;
    Pop p(r, s, 0, 30);
    shape(s, p);
    moeoParetoObjectiveVectorComparator<OV> pc;
    moeoStrictObjectiveVectorComparator<OV> sc;
    int how = (int)r.below(4);
    bool strict = how == 3 && s.n > 2; // the relation is only a parameter for three objectives or more
    if (strict) event("strict");
    bool remove = how == 1 || how == 2 || strict;
    std::shared_ptr<moeoDominanceDepthFitnessAssignment<RInd>> a;
    if (strict) a = std::make_shared<moeoDominanceDepthFitnessAssignment<RInd>>(sc);
    else if (how == 2) a = std::make_shared<moeoDominanceDepthFitnessAssignment<RInd>>(pc);
    else a = std::make_shared<moeoDominanceDepthFitnessAssignment<RInd>>(how == 1);
    auto dom = [&](const V& x, const V& y) { return strict ? s.strict(x, y) : s.dom(x, y); };
    int turns = (int)r.range(1, 2);
    for (int t = 0; t < turns; ++t) {
        if (t) { p = Pop(r, s, 0, 20); event("again"); }
        (*a)(p.p);
        auto f = p.fitness("dominance depth");
        if (f.empty()) continue;
        auto d = depths(s, p.v, dom);
        // of several equal vectors only the first served is sure to belong to its front when there are two objectives
        bool exact = s.n != 2 || !p.dups;
        std::map<V, double> best;
        for (size_t i = 0; i < f.size(); ++i) { auto it = best.find(p.v[i]); if (it == best.end() || it->second < f[i]) best[p.v[i]] = f[i]; }
        if (exact) {
            unsigned deepest = *std::max_element(d.begin(), d.end());
            if (deepest >= 3) event("deep");
            for (size_t i = 0; i < f.size(); ++i) CHECK(f[i] == (double)(deepest - d[i]), "depth", "dominance depth, ", label(s, p), ": ", show(p.v[i]), " lies on front ", d[i] + 1, " of ", deepest + 1, ", fitness ", f[i]);
        }
        for (size_t i = 0; i < f.size(); ++i) for (size_t j = 0; j < f.size(); ++j) if (dom(p.v[i], p.v[j])) {
            event("dominated");
            CHECK(best[p.v[i]] > best[p.v[j]], "depth-order", "dominance depth, ", label(s, p), ": ", show(p.v[i]), " dominates ", show(p.v[j]), ", fitness ", best[p.v[i]], " against ", best[p.v[j]]);
            if (!remove) CHECK(f[i] > f[j], "depth-order-all", "dominance depth, ", label(s, p), ": ", show(p.v[i]), " dominates ", show(p.v[j]), ", fitness ", f[i], " against ", f[j]);
        }
        if (remove && s.n == 2) for (auto& b : best) { size_t n = 0; for (size_t i = 0; i < f.size(); ++i) if (p.v[i] == b.first && f[i] == b.second) ++n; if (n > 1) CHECK(b.second == 0, "depth-equal", "dominance depth removing equals: several individuals ", show(b.first), " share fitness ", b.second); }
        for (double x : f) state(mix(hdbl(x), f.size()));
    }
}
UNIT_T(depth_large, 5, 60, 60, "grid2,grid3,chain") {
    Quiet q;
    if (idx % 5 < 2) {
        Setup s(r, 2, 2);
        unsigned m = 262 + (unsigned)r.below(10);
        Pop p;
        for (unsigned a = 0; a < m; ++a) for (unsigned b = 0; b < m; ++b) { OV o; o[0] = s.mins[0] ? a : -(double)a; o[1] = s.mins[1] ? b : -(double)b; p.add(o); }
        p.shuffle(r);
        moeoDominanceDepthFitnessAssignment<RInd> a;
        a(p.p);
        auto f = p.fitness("dominance depth of a large grid");
        for (unsigned i = 0; i < m; ++i) for (unsigned j = 0; j < m; ++j) CHECK(f[i * m + j] == 2 * (m - 1) - i - j, "depth-large", "dominance depth of a ", m, " x ", m, " grid ", s.dirs(), ": cell ", i, ",", j, " has fitness ", f[i * m + j]);
        event("grid2");
    } else if (idx % 5 < 4) {
        Setup s(r, 3, 3);
        unsigned m = 9;
        Pop p;
        for (unsigned a = 0; a < m; ++a) for (unsigned b = 0; b < m; ++b) for (unsigned c = 0; c < m; ++c) { OV o; unsigned w[3] = {a, b, c}; for (int k = 0; k < 3; ++k) o[k] = s.mins[k] ? w[k] : -(double)w[k]; p.add(o); }
        p.shuffle(r);
        moeoDominanceDepthFitnessAssignment<RInd> a;
        a(p.p);
        auto f = p.fitness("dominance depth of a large grid");
        for (unsigned i = 0; i < m * m * m; ++i) CHECK(f[i] == 3 * (m - 1) - (i / (m * m) + i / m % m + i % m), "depth-large", "dominance depth of a cubic grid ", s.dirs(), ": cell ", i, " has fitness ", f[i]);
        event("grid3");
    } else {
        Setup s(r, 1, 1);
        Pop p;
        size_t n = 66000;
        for (size_t i = 0; i < n; ++i) { OV o; o[0] = s.mins[0] ? (double)i : -(double)i; p.add(o); }
        p.shuffle(r);
        moeoDominanceDepthFitnessAssignment<RInd> a;
        a(p.p);
        auto f = p.fitness("dominance depth of a long chain");
        for (size_t i = 0; i < n; ++i) CHECK(f[i] == (double)(n - 1 - i), "depth-large", "dominance depth of a chain: individual ", i, " has fitness ", f[i]);
        event("chain");
    }
    state(idx);
}

// rank, count and count-ranking, alone or together with an archive
UNIT(counts, 1500, 30000, "one_objective,two_objectives,many_objectives,mixed,ties,duplicates,tiny,dominated,archive,copies,penalised,again,strict,rank,count,countranking") {
    Setup s(r, 1, 5);
    Quiet q;
    bool nocopy = r.flip(), arch = r.flip(), strict = r.flip(0.3);
    if (strict) event("strict");
    int kind = (int)(idx % 3);
    moeoStrictObjectiveVectorComparator<OV> sc;
    moeoUnboundedArchive<RInd> ar;
    double start = r.pick(std::vector<double>{1.0, 0.0, 2.5});
    std::shared_ptr<moeoFitnessAssignment<RInd>> a;
    typedef moeoDominanceRankFitnessAssignment<RInd> R;
    typedef moeoDominanceCountFitnessAssignment<RInd> C;
    typedef moeoDominanceCountRankingFitnessAssignment<RInd> CR;
    if (kind == 0) a = arch ? strict ? std::make_shared<R>(sc, ar, start, nocopy) : std::make_shared<R>(ar, start, nocopy) : strict ? std::make_shared<R>(sc, start, nocopy) : std::make_shared<R>(start, nocopy);
    else if (kind == 1) a = arch ? strict ? std::make_shared<C>(sc, ar, nocopy) : std::make_shared<C>(ar, nocopy) : strict ? std::make_shared<C>(sc, nocopy) : std::make_shared<C>(nocopy);
    else a = arch ? strict ? std::make_shared<CR>(sc, ar, nocopy) : std::make_shared<CR>(ar, nocopy) : strict ? std::make_shared<CR>(sc, nocopy) : std::make_shared<CR>(nocopy);
    const char* name = kind == 0 ? "dominance rank" : kind == 1 ? "dominance count" : "dominance count ranking";
    event(kind == 0 ? "rank" : kind == 1 ? "count" : "countranking");
    auto base = [&](const V& x, const V& y) { return strict ? s.strict(x, y) : s.dom(x, y); };
    int turns = (int)r.range(1, 3);
    for (int t = 0; t < turns; ++t) {
        Pop p(r, s, 0, 20);
        shape(s, p);
        if (t) event("again");
        if (arch) { Pop x(r, s, 0, 8); ar(x.p); if (r.flip()) ar(p.p); event("archive"); }
        std::vector<V> all;
        for (auto& x : ar) all.push_back(plain(x.objectiveVector()));
        for (auto& x : p.p) all.push_back(plain(x.objectiveVector()));
        std::vector<V> arBefore;
        for (auto& x : ar) arBefore.push_back(plain(x.objectiveVector()));
        size_t n = all.size();
        // copies: equal to an earlier one and, when penalised, dominated by everyone who is not one
        std::vector<bool> copy(n, false);
        size_t copies = 0;
        if (nocopy) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (all[i] == all[j]) { if (!copy[i]) ++copies; copy[i] = true; }
        if (copies) event("penalised");
        if (p.dups) event("copies");
        auto dom = [&](size_t i, size_t j) { return i == j ? false : copy[i] ? false : copy[j] ? true : base(all[i], all[j]); };
        std::vector<double> rank(n, 0), count(n, 0), cr(n, 0);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (dom(i, j)) { ++count[i]; ++rank[j]; }
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (dom(i, j)) cr[j] += count[i];
        (*a)(p.p);
        p.places(p.p, name);
        auto want = [&](size_t i) { return kind == 0 ? -(rank[i] + start) : kind == 1 ? count[i] : -cr[i]; };
        CHECK(ar.size() == arBefore.size(), "archive-kept", name, ": the archive was resized");
        std::vector<double> got;
        for (size_t i = 0; i < ar.size(); ++i) { CHECK(plain(ar[i].objectiveVector()) == arBefore[i], "archive-kept", name, ": the archive was altered"); got.push_back(ar[i].fitness()); }
        for (size_t i = 0; i < p.p.size(); ++i) { CHECK(!p.p[i].invalidFitness(), "unassigned", name, ": an individual has no fitness"); got.push_back(p.p[i].fitness()); }
        for (size_t i = 0; i < n; ++i) CHECK(got[i] == want(i), "dominance-count", name, ", ", label(s, p), ", ", ar.size(), " archived", nocopy ? ", copies penalised" : "", ": ", show(all[i]), " has fitness ", got[i], ", expected ", want(i));
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (!copy[i] && !copy[j] && base(all[i], all[j])) { event("dominated"); CHECK(got[i] > got[j] || (kind == 2 && got[i] >= got[j] && count[i] == 0), "count-order", name, ": ", show(all[i]), " dominates ", show(all[j]), ", fitness ", got[i], " against ", got[j]); }
        state(mix(n, hvec(got, t)));
    }
}
UNIT_T(counts_large, 3, 30, 60, "grid") {
    Quiet q;
    Setup s(r, 2, 2);
    unsigned m = 24;
    Pop p;
    for (unsigned a = 0; a < m; ++a) for (unsigned b = 0; b < m; ++b) { OV o; o[0] = s.mins[0] ? a : -(double)a; o[1] = s.mins[1] ? b : -(double)b; p.add(o); }
    p.shuffle(r);
    std::shared_ptr<moeoFitnessAssignment<RInd>> a;
    if (idx % 2) a = std::make_shared<moeoDominanceRankFitnessAssignment<RInd>>();
    else a = std::make_shared<moeoDominanceCountFitnessAssignment<RInd>>();
    (*a)(p.p);
    auto f = p.fitness("counts over a large grid");
    for (unsigned i = 0; i < m; ++i) for (unsigned j = 0; j < m; ++j) {
        double want = idx % 2 ? -(double)((i + 1) * (j + 1)) : (double)((m - i) * (m - j) - 1);
        CHECK(f[i * m + j] == want, "count-large", "grid ", s.dirs(), ": cell ", i, ",", j, " has fitness ", f[i * m + j], ", expected ", want);
    }
    event("grid");
    state(idx);
}

// binary indicators by hand, objectives scaled to [0,1] and minimised
struct Scale {
    V lo, hi;
    Scale(const Setup& s, const std::vector<V>& v) {
        for (unsigned i = 0; i < s.n; ++i) {
            double a = v[0][i], b = v[0][i];
            for (auto& x : v) { a = std::min(a, x[i]); b = std::max(b, x[i]); }
            if (a == b) { a -= 1e-6; b += 1e-6; }
            lo.push_back(a); hi.push_back(b);
        }
    }
    V operator()(const Setup& s, const V& x) const { V u; for (unsigned i = 0; i < s.n; ++i) { double t = (x[i] - lo[i]) / (hi[i] - lo[i]); u.push_back(s.mins[i] ? t : 1 - t); } return u; }
};
static double indicator(bool hyper, double rho, const Setup& s, const Scale& sc, const V& a, const V& b) {
    V x = sc(s, a), y = sc(s, b);
    if (!hyper) { double m = x[0] - y[0]; for (unsigned i = 1; i < s.n; ++i) m = std::max(m, x[i] - y[i]); return m; }
    double vx = 1, vy = 1, both = 1;
    for (unsigned i = 0; i < s.n; ++i) { vx *= 1 - x[i] / rho; vy *= 1 - y[i] / rho; both *= 1 - std::max(x[i], y[i]) / rho; }
    return s.dom(a, b) ? -(vx - both) : vy - both;
}
UNIT(indicators, 1200, 24000, "one_objective,two_objectives,many_objectives,mixed,ties,duplicates,tiny,hypervolume,epsilon,dominated,added,deleted,flat,large,changed") {
    Setup s(r, 1, 5);
    Quiet q;
    bool large = idx % 100 == 0;
    Pop p(r, s, large ? 140 : 1, large ? 300 : 14);
    if (large) event("large");
    shape(s, p);
    bool hyper = r.flip();
    event(hyper ? "hypervolume" : "epsilon");
    double rho = hyper ? r.pick(std::vector<double>{1.0, 1.1, 2.0}) : 1.0;
    double kappa = r.pick(std::vector<double>{0.05, 0.5, 1.0});
    moeoHypervolumeBinaryMetric<OV> hm(rho);
    moeoAdditiveEpsilonBinaryMetric<OV> em;
    moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>& m = hyper ? (moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>&)hm : em;
    moeoExpBinaryIndicatorBasedFitnessAssignment<RInd> a(m, kappa);
    const char* name = hyper ? "hypervolume indicator fitness" : "epsilon indicator fitness";
    int turns = (int)r.range(1, 3);
    for (int t = 0; t < turns; ++t) {
        if (t && r.flip(0.4)) { // the same individuals, one of them with other objectives
            size_t k = r.below(p.v.size());
            OV o = Draw(r).vec(r, s.n);
            p.v[k] = plain(o);
            for (auto& x : p.p) if ((size_t)x[0] == k) x.objectiveVector(o);
            event("changed");
        } else if (t) p = Pop(r, s, 1, 14);
        Scale sc(s, p.v);
        double tol = 1e-6; // scaling an objective without extent cancels most digits
        for (unsigned i = 0; i < s.n; ++i) if (sc.hi[i] - sc.lo[i] < 1e-5) { event("flat"); tol = 1e-2; }
        a(p.p);
        auto f = p.fitness(name);
        auto full = [&](const std::vector<V>& pop, size_t k) { double t = 0; for (size_t i = 0; i < pop.size(); ++i) if (i != k) t -= std::exp(-indicator(hyper, rho, s, sc, pop[i], pop[k]) / kappa); return t; };
        auto near = [&](double got, double want) { return std::fabs(got - want) <= tol * std::max(1.0, std::fabs(want)); };
        for (size_t k = 0; k < f.size(); ++k) { double w = full(p.v, k); CHECK(near(f[k], w), "indicator", name, ", ", label(s, p), ": ", show(p.v[k]), " has fitness ", f[k], ", expected ", w); }
        for (size_t i = 0; i < f.size(); ++i) for (size_t j = 0; j < f.size(); ++j) if (s.dom(p.v[i], p.v[j])) { event("dominated"); CHECK(f[i] >= f[j] - tol * std::max(1.0, std::fabs(f[j])), "indicator-order", name, ": ", show(p.v[i]), " dominates ", show(p.v[j]), ", fitness ", f[i], " against ", f[j]); }
        // incremental updates keep the scale of the last full assignment
        if (r.flip()) {
            V nv = r.pick(p.v);
            for (unsigned i = 0; i < s.n; ++i) nv[i] = sc.lo[i] + (sc.hi[i] - sc.lo[i]) * (double)r.below(5) / 4;
            OV no; for (unsigned i = 0; i < s.n; ++i) no[i] = nv[i];
            auto pop2 = p.v; pop2.push_back(nv);
            double w = full(pop2, pop2.size() - 1), got = a.updateByAdding(p.p, no);
            CHECK(near(got, w), "indicator-added", name, ": the added vector is given fitness ", got, ", expected ", w);
            auto g = p.fitness(name);
            for (size_t k = 0; k < g.size(); ++k) { double x = full(pop2, k); CHECK(near(g[k], x), "indicator-adding", name, ": after an addition fitness ", g[k], ", expected ", x); }
            event("added");
            if (r.flip()) {
                a.updateByDeleting(p.p, no);
                auto h = p.fitness(name);
                for (size_t k = 0; k < h.size(); ++k) CHECK(std::fabs(h[k] - f[k]) <= tol * std::max({1.0, std::fabs(f[k]), std::fabs(g[k])}), "indicator-deleting", name, ": after adding and deleting a vector fitness ", h[k], ", it was ", f[k]);
                event("deleted");
            }
        }
        state(hvec(f, t));
    }
    // distance to a reference point
    OV ref = grid(Draw(r).vec(r, s.n));
    moeoReferencePointIndicatorBasedFitnessAssignment<RInd> rp(ref, m);
    auto all = p.v; all.push_back(plain(ref));
    Scale sc(s, all);
    double tol = 1e-7;
    for (unsigned i = 0; i < s.n; ++i) if (sc.hi[i] - sc.lo[i] < 1e-5) tol = 1e-2;
    rp(p.p);
    auto f = p.fitness("reference point fitness");
    for (size_t k = 0; k < f.size(); ++k) { double w = -indicator(hyper, rho, s, sc, p.v[k], plain(ref)); CHECK(close(f[k], w, tol, tol), "reference-point", "reference point fitness, ", label(s, p), ": ", show(p.v[k]), " has fitness ", f[k], ", expected ", w); }
}
