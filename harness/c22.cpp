// C22: dominance relations and comparators.
#include "c22.h"
#include <comparator/moeoGDominanceObjectiveVectorComparator.h>
#include <comparator/moeoPtrComparator.h>
#include <core/moeoDualRealObjectiveVector.h>
#include <comparator/moeoParetoDualObjectiveVectorComparator.h>
#include <utils/moeoDominanceMatrix.h>
using namespace mob;

template <class C, class X> void strictLaws(C&& lt, const std::vector<X>& v, const char* what) {
    for (size_t i = 0; i < v.size(); ++i) {
        CHECK(!lt(v[i], v[i]), "irreflexive", what, ": a vector is related to itself");
        for (size_t j = 0; j < v.size(); ++j) {
            if (!lt(v[i], v[j])) continue;
            event("related");
            CHECK(!lt(v[j], v[i]), "asymmetric", what, ": two vectors are related both ways");
            for (size_t k = 0; k < v.size(); ++k) if (lt(v[j], v[k])) { event("chain"); CHECK(lt(v[i], v[k]), "transitive", what, ": not transitive"); }
        }
    }
}
template <class C, class X> void weakLaws(C&& lt, const std::vector<X>& v, const char* what) {
    strictLaws(lt, v, what);
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) for (size_t k = 0; k < v.size(); ++k)
        if (!lt(v[i], v[j]) && !lt(v[j], v[i]) && !lt(v[j], v[k]) && !lt(v[k], v[j])) CHECK(!lt(v[i], v[k]) && !lt(v[k], v[i]), "equivalence", what, ": being equivalent is not transitive");
}

UNIT(relations, 4000, 80000, "related,chain,dominates,incomparable,equal,mixed,near") {
    Setup s(r, 1, r.flip(0.04) ? 40 : 6);
    Draw d(r, true);
    if (s.mixed()) event("mixed");
    if (d.near) event("near");
    size_t m = (size_t)r.range(2, 8);
    std::vector<OV> v;
    for (size_t i = 0; i < m; ++i) v.push_back(r.flip(0.15) && i ? v[r.below(i)] : d.vec(r, s.n));
    if (s.n > 6) for (size_t i = 1; i < m; ++i) { v[i] = v[r.below(i)]; for (size_t k = r.range(1, 3); k; --k) v[i][r.below(s.n)] += r.flip() ? 1 : -1; } // differ in few
    if (r.flip(0.3)) { OV x = v[0]; unsigned k = (unsigned)r.below(s.n); x[k] += r.flip() ? 1 : -1; v.push_back(x); }
    moeoParetoObjectiveVectorComparator<OV> pareto;
    moeoWeakObjectiveVectorComparator<OV> weak;
    moeoStrictObjectiveVectorComparator<OV> strict;
    moeoObjectiveObjectiveVectorComparator<OV> lex;
    double eps = r.pick(std::vector<double>{1.0, 1.1, 0.5, 2.0, 0.9});
    moeoEpsilonObjectiveVectorComparator<OV> epsc(eps);
    OV ref = r.flip(0.3) ? v[r.below(v.size())] : d.vec(r, s.n);
    moeoGDominanceObjectiveVectorComparator<OV> gdom(ref);
    for (auto& a : v) for (auto& b : v) {
        bool want = s.dom(b, a);
        CHECK(pareto(a, b) == want, "pareto", s.dirs(), ": ", str(b), want ? " dominates " : " does not dominate ", str(a), ", the comparator disagrees");
        CHECK(b.dominates(a) == want, "dominates", s.dirs(), ": ", str(b), want ? " dominates " : " does not dominate ", str(a));
        if (want) event("dominates");
        else if (!s.dom(a, b) && !s.same(a, b)) event("incomparable");
        else if (s.same(a, b)) event("equal");
        CHECK(weak(a, b) == s.weak(b, a), "weak", s.dirs(), ": weak dominance of ", str(b), " over ", str(a));
        CHECK(strict(a, b) == s.strict(b, a), "strict", s.dirs(), ": strict dominance of ", str(b), " over ", str(a));
        bool first = false;
        for (unsigned i = 0; i < s.n; ++i) if (std::fabs(a[i] - b[i]) > TOL) { first = a[i] < b[i]; break; }
        CHECK(lex(a, b) == first && (a < b) == first, "objective-order", "lexicographic order of ", str(a), " and ", str(b));
        CHECK((b > a) == first, "greater", str(b), " > ", str(a));
        CHECK((a == b) == s.same(a, b) && (a != b) == !s.same(a, b), "equality", "equality of ", str(a), " and ", str(b));
        CHECK((a <= b) == (first || s.same(a, b)) && (b >= a) == (first || s.same(a, b)), "order-or-equal", str(a), " <= ", str(b));
        bool e = true;
        for (unsigned i = 0; i < s.n; ++i) { double x = a[i] / eps; if (std::fabs(x - b[i]) > TOL && (s.mins[i] ? x < b[i] : x > b[i])) e = false; }
        CHECK(epsc(a, b) == e, "epsilon", s.dirs(), ": with factor ", eps, " ", str(b), e ? " dominates " : " does not dominate ", str(a));
        auto flag = [&](const OV& x) { bool g = true, w = true; for (unsigned i = 0; i < s.n; ++i) { if (x[i] == ref[i]) continue; (s.mins[i] ? x[i] < ref[i] : x[i] > ref[i]) ? w = false : g = false; } return g || w; };
        bool g = !flag(b) ? false : !flag(a) ? true : s.dom(b, a); // a vector out of the reference region dominates nothing
        CHECK(gdom(a, b) == g, "g-dominance", s.dirs(), ": reference ", str(ref), ", ", str(b), g ? " dominates " : " does not dominate ", str(a));
        state(hvec(plain(a), hvec(plain(b), s.n)));
    }
    if (!d.near) {
        strictLaws([&](const OV& a, const OV& b) { return pareto(a, b); }, v, "Pareto dominance");
        strictLaws([&](const OV& a, const OV& b) { return strict(a, b); }, v, "strict dominance");
        strictLaws([&](const OV& a, const OV& b) { return gdom(a, b); }, v, "g-dominance");
        weakLaws([&](const OV& a, const OV& b) { return lex(a, b); }, v, "lexicographic order");
        for (auto& a : v) { CHECK(weak(a, a), "weak-reflexive", "weak dominance is not reflexive"); for (auto& b : v) for (auto& c : v) if (weak(a, b) && weak(b, c)) CHECK(weak(a, c), "weak-transitive", "weak dominance is not transitive"); }
    }
}
// other scalar types
template <class T> void scalars(Rand& r, const char* what) {
    Setup s(r, 1, 5);
    typedef moeoScalarObjectiveVector<TR, T> SV;
    std::vector<SV> v;
    for (int i = 0; i < 6; ++i) { SV o; for (unsigned k = 0; k < s.n; ++k) o[k] = (T)r.range(-3, 3); v.push_back(o); }
    moeoParetoObjectiveVectorComparator<SV> pareto;
    moeoWeakObjectiveVectorComparator<SV> weak;
    moeoStrictObjectiveVectorComparator<SV> strict;
    for (auto& a : v) for (auto& b : v) {
        CHECK(pareto(a, b) == s.dom(b, a) && b.dominates(a) == s.dom(b, a), "scalar-pareto", what, " ", s.dirs(), ": dominance of ", str(b), " over ", str(a));
        CHECK(weak(a, b) == s.weak(b, a) && strict(a, b) == s.strict(b, a), "scalar-weak", what, " ", s.dirs(), ": weak or strict dominance of ", str(b), " over ", str(a));
        bool first = false;
        for (unsigned i = 0; i < s.n; ++i) if (a[i] != b[i]) { first = a[i] < b[i]; break; }
        CHECK((a < b) == first && (b > a) == first && (a == b) == s.same(a, b) && (a != b) == !s.same(a, b) && (a <= b) == (first || s.same(a, b)) && (b >= a) == (first || s.same(a, b)), "scalar-order", what, ": order of ", str(a), " and ", str(b));
        event("scalar");
    }
    strictLaws([&](const SV& a, const SV& b) { return pareto(a, b); }, v, what);
}
UNIT(scalar_vectors, 1000, 20000, "scalar,related,chain") {
    if (idx % 2) scalars<double>(r, "double");
    else scalars<float>(r, "float");
}
// vectors with a feasibility
typedef moeoDualRealObjectiveVector<TR> DV;
UNIT(dual_vectors, 1000, 20000, "dual,both,one") {
    Setup s(r, 1, 4);
    std::vector<DV> v;
    std::vector<bool> ok;
    for (int i = 0; i < 6; ++i) {
        bool f = r.flip();
        DV o;
        for (unsigned k = 0; k < s.n; ++k) o[k] = eoMaximizingDualFitness((double)r.range(-3, 3), f);
        o.is_feasible(f);
        v.push_back(o);
        ok.push_back(f);
    }
    moeoParetoDualObjectiveVectorComparator<DV> cmp;
    std::vector<V> pl;
    for (auto& o : v) { V p; for (unsigned k = 0; k < s.n; ++k) p.push_back(o[k].value()); pl.push_back(p); }
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) {
        bool want = ok[i] != ok[j] ? ok[j] : s.dom(pl[j], pl[i]);
        CHECK(cmp(v[i], v[j]) == want, "dual-pareto", s.dirs(), ": ", show(pl[j]), ok[j] ? " feasible" : " infeasible", want ? " dominates " : " does not dominate ", show(pl[i]), ok[i] ? " feasible" : " infeasible");
        CHECK(v[i].is_feasible() == ok[i], "feasible", "feasibility lost");
        event(ok[i] == ok[j] ? "both" : "one");
    }
    std::vector<size_t> id{0, 1, 2, 3, 4, 5};
    strictLaws([&](size_t a, size_t b) { return cmp(v[a], v[b]); }, id, "dominance with feasibility");
    event("dual");
    state(hvec(pl[0], s.n));
}

// comparators of individuals
UNIT(individuals, 2000, 40000, "related,chain,tied_fitness,tied_diversity,refused") {
    Setup s(r, 1, 5);
    Draw d(r);
    std::vector<RInd> v;
    int how = (int)r.below(3);
    auto num = [&] { return how == 0 ? (double)r.range(0, 2) : how == 1 ? (double)r.range(-2, 2) : r.real(-1, 1); };
    for (int i = 0; i < 7; ++i) { RInd x = indiv<RInd>(d.vec(r, s.n)); x.fitness(num()); x.diversity(num()); v.push_back(x); }
    double wf = r.pick(std::vector<double>{1, 0, 2, 0.5, -1}), wd = r.pick(std::vector<double>{1, 0, 3, 0.25, -2});
    moeoFitnessComparator<RInd> fit;
    moeoFitnessThenDiversityComparator<RInd> fd;
    moeoDiversityThenFitnessComparator<RInd> df;
    moeoAggregativeComparator<RInd> ag(wf, wd), one;
    unsigned k = (unsigned)r.below(s.n);
    moeoOneObjectiveComparator<RInd> obj(k);
    moeoPtrComparator<RInd> ptr(fd);
    for (auto& a : v) for (auto& b : v) {
        double fa = a.fitness(), fb = b.fitness(), da = a.diversity(), db = b.diversity();
        if (&a != &b && fa == fb) event("tied_fitness");
        if (&a != &b && da == db) event("tied_diversity");
        CHECK(fit(a, b) == (fa < fb), "fitness", "comparison by fitness of ", fa, " and ", fb);
        bool w = fa < fb || (fa == fb && da < db);
        CHECK(fd(a, b) == w, "fitness-diversity", "comparison of fitness ", fa, " diversity ", da, " with fitness ", fb, " diversity ", db);
        CHECK(ptr(&a, &b) == w && ptr((const RInd*)&a, (const RInd*)&b) == w, "pointers", "comparison through pointers differs");
        w = da < db || (da == db && fa < fb);
        CHECK(df(a, b) == w, "diversity-fitness", "comparison of diversity ", da, " fitness ", fa, " with diversity ", db, " fitness ", fb);
        CHECK(ag(a, b) == (wf * fa + wd * da < wf * fb + wd * db), "aggregate", "weights ", wf, " and ", wd, ": comparison of fitness ", fa, " diversity ", da, " with fitness ", fb, " diversity ", db);
        CHECK(one(a, b) == (fa + da < fb + db), "aggregate-default", "comparison of fitness ", fa, " diversity ", da, " with fitness ", fb, " diversity ", db);
        CHECK(obj(a, b) == (a.objectiveVector()[k] < b.objectiveVector()[k]), "one-objective", "comparison by objective ", k);
        bool first = false;
        for (unsigned i = 0; i < s.n; ++i) if (std::fabs(a.objectiveVector()[i] - b.objectiveVector()[i]) > TOL) { first = a.objectiveVector()[i] < b.objectiveVector()[i]; break; }
        CHECK((a < b) == first, "less", "order of individuals with ", str(a.objectiveVector()), " and ", str(b.objectiveVector()));
        CHECK((b > a) == first, "more", "order of individuals with ", str(a.objectiveVector()), " and ", str(b.objectiveVector()));
    }
    weakLaws([&](const RInd& a, const RInd& b) { return fit(a, b); }, v, "fitness");
    weakLaws([&](const RInd& a, const RInd& b) { return fd(a, b); }, v, "fitness then diversity");
    weakLaws([&](const RInd& a, const RInd& b) { return df(a, b); }, v, "diversity then fitness");
    weakLaws([&](const RInd& a, const RInd& b) { return ag(a, b); }, v, "aggregation");
    weakLaws([&](const RInd& a, const RInd& b) { return obj(a, b); }, v, "one objective");
    bool thrown = false;
    try { moeoOneObjectiveComparator<RInd> bad(s.n + (unsigned)r.below(2)); } catch (...) { thrown = true; }
    CHECK(thrown, "objective-index", "an objective that does not exist can be compared");
    event("refused");
    RInd inv;
    auto throws = [&](std::function<void()> f) { try { f(); } catch (...) { return true; } return false; };
    CHECK(throws([&] { inv.objectiveVector(); }) && throws([&] { inv.fitness(); }) && throws([&] { inv.diversity(); }), "invalid", "values of an individual never evaluated can be read");
    state(mix(hdbl(v[0].fitness()), hdbl(v[1].diversity())));
}
// setting up objectives
UNIT(directions, 300, 4000, "set,refused") {
    Setup s(r, 1, 8);
    CHECK(OV::nObjectives() == s.n && TR::nObjectives() == s.n && OV().size() == s.n, "number", OV::nObjectives(), " objectives instead of ", s.n);
    for (unsigned i = 0; i < s.n; ++i) CHECK(OV::minimizing(i) == s.mins[i] && OV::maximizing(i) != s.mins[i], "direction", "direction of objective ", i);
    auto throws = [&](std::function<void()> f) { try { f(); } catch (...) { return true; } return false; };
    CHECK(throws([&] { OV::minimizing(s.n); }), "direction-index", "direction of an objective that does not exist");
    std::vector<bool> bad(s.n + 1, true);
    Quiet q;
    CHECK(throws([&] { OV::setup(s.n, bad); }), "direction-count", "directions of ", s.n + 1, " objectives accepted for ", s.n);
    event("refused");
    event("set");
    state(hstr(s.dirs()));
}
