// C23: archives against a record of everything ever offered to them.
#include "c22.h"
#include <archive/moeo2DMinHypervolumeArchive.h>
#include <archive/moeoEpsilonHyperboxArchive.h>
#include <archive/moeoSPEA2Archive.h>
#include <archive/moeoFitDivBoundedArchive.h>
#include <archive/moeoImprOnlyBoundedArchive.h>
#include <comparator/moeoGDominanceObjectiveVectorComparator.h>
using namespace mob;

typedef std::function<bool(const V&, const V&)> Dom; // the first one dominates the second one
// gene 0 of an individual is the number under which it was offered
static RInd made(const OV& o, size_t id) { RInd i(1, (double)id); i.objectiveVector(o); return i; }

struct Record {
    std::vector<V> offered;
    RInd offer(const OV& o) { offered.push_back(plain(o)); return made(o, offered.size() - 1); }
    // everything archived was offered, unaltered
    template <class A> void genuine(const A& arch, const char* what) {
        std::set<size_t> ids;
        for (auto& x : arch) {
            CHECK(x.size() == 1 && x[0] >= 0 && x[0] < (double)offered.size() && !x.invalidObjectiveVector(), "foreign", what, ": an archived solution was never offered");
            size_t id = (size_t)x[0];
            CHECK(plain(x.objectiveVector()) == offered[id], "altered", what, ": archived ", str(x.objectiveVector()), ", offered ", show(offered[id]));
            CHECK(ids.insert(id).second, "twice", what, ": the same solution is archived twice");
        }
    }
};
template <class A> void mutual(const A& arch, const Setup& s, const Dom& dom, const char* what) {
    std::vector<V> v;
    for (auto& x : arch) v.push_back(plain(x.objectiveVector()));
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) if (i != j) {
        CHECK(!dom(v[i], v[j]), "holds-dominated", what, " ", s.dirs(), ": ", show(v[i]), " and the dominated ", show(v[j]), " are both archived");
        CHECK(!s.same(v[i], v[j]), "holds-equal", what, ": two archived solutions have the objective vector ", show(v[i]));
    }
}
template <class A> void covers(const A& arch, const Record& rec, const Setup& s, const Dom& dom, const char* what) {
    for (auto& o : rec.offered) {
        bool ok = false;
        for (auto& x : arch) { V v = plain(x.objectiveVector()); if (s.same(v, o) || dom(v, o)) { ok = true; break; } }
        CHECK(ok, "lost", what, " ", s.dirs(), ": ", show(o), " was offered, no archived solution equals or dominates it");
    }
}
// a solution to offer: fresh, close to the front, a repetition, or a variation of an earlier one
struct Gen {
    Draw d;
    bool front;
    double back;
    Gen(Rand& r) : d(r), front(r.flip(0.4)), back(r.flip() ? 0 : 3) {}
    // coordinates on a grid much coarser than the equality tolerance
    OV operator()(Rand& r, const Setup& s, const Record& rec) {
        OV o = draw(r, s, rec);
        for (unsigned i = 0; i < s.n; ++i) o[i] = std::round(o[i] * 1048576) / 1048576;
        return o;
    }
    OV draw(Rand& r, const Setup& s, const Record& rec) {
        if (!rec.offered.empty() && r.flip(0.25)) {
            const V& v = r.pick(rec.offered);
            OV o;
            for (unsigned i = 0; i < s.n; ++i) o[i] = v[i];
            if (r.flip(0.6)) { unsigned k = (unsigned)r.below(s.n); o[k] += (r.flip() ? 1 : -1) * (d.how < 3 ? 1 : 0.01); event("variation"); }
            else event("repetition");
            return o;
        }
        if (front) return onFront(r, s, r.u01() * back);
        return d.vec(r, s.n);
    }
};

// hand model of one dominance-based insertion; members are offer numbers
struct Model {
    const Setup& s;
    const Dom& dom;
    const Record& rec;
    bool replace;
    size_t cap;
    std::vector<size_t> in;
    bool operator()(size_t id) {
        const V& v = rec.offered[id];
        std::vector<size_t> left;
        for (size_t m : in) if (!dom(v, rec.offered[m]) && !(replace && s.same(v, rec.offered[m]))) left.push_back(m); else event("evicted");
        in = left;
        for (size_t m : in) if (dom(rec.offered[m], v) || s.same(rec.offered[m], v)) { event("refused"); return false; }
        if (in.size() >= cap) { event("full"); return false; }
        in.push_back(id);
        event("accepted");
        return true;
    }
    template <class A> void same(const A& arch, const char* what) const {
        std::set<size_t> want(in.begin(), in.end()), got;
        for (auto& x : arch) got.insert((size_t)x[0]);
        CHECK(want == got, "content", what, " ", s.dirs(), ": holds ", got.size(), " solutions, expected ", want.size(), replace ? " (replacing equals)" : " (keeping equals)");
    }
};

template <class A> void history(Rand& r, A& arch, const Setup& s, const Dom& dom, bool replace, size_t cap, size_t steps, const char* what, bool big = false) {
    Record rec;
    Gen gen(r);
    if (big && r.flip(0.85)) { gen.front = true; gen.back = 0; } // archives of hundreds of solutions
    Model m{s, dom, rec, replace, cap, {}};
    for (size_t t = 0; t < steps; ++t) {
        if (r.flip(0.6)) {
            RInd x = rec.offer(gen(r, s, rec));
            bool want = m((size_t)x[0]), got = arch(x);
            CHECK(got == want, "report", what, " ", s.dirs(), ": insertion of ", str(x.objectiveVector()), " reported ", got, ", expected ", want);
        } else {
            eoPop<RInd> p;
            size_t n = big ? 300 + r.below(400) : r.size(0, 12);
            bool want = false;
            for (size_t i = 0; i < n; ++i) { p.push_back(rec.offer(gen(r, s, rec))); if (m((size_t)p.back()[0])) want = true; }
            bool got = arch(p);
            event("population");
            CHECK(got == want, "report-population", what, ": insertion of a population of ", n, " reported ", got, ", expected ", want);
        }
        m.same(arch, what);
        if (arch.size() > 256) event("above-256");
        CHECK(arch.size() <= cap, "capacity", what, ": ", arch.size(), " solutions, capacity ", cap);
        if (!big || t + 1 == steps) rec.genuine(arch, what);
        if (cap == (size_t)-1 && !big) covers(arch, rec, s, dom, what);
        OV probe = gen(r, s, rec);
        bool cont = false, domi = false;
        for (auto& x : arch) { if (s.same(x.objectiveVector(), probe)) cont = true; if (dom(plain(x.objectiveVector()), plain(probe))) domi = true; }
        CHECK(arch.contains(probe) == cont, "contains", what, ": asked about ", str(probe));
        CHECK(arch.dominates(probe) == domi, "dominates", what, " ", s.dirs(), ": asked about ", str(probe));
        state(mix(arch.size(), hvec(plain(probe), t)));
    }
    mutual(arch, s, dom, what);
    if (cap == (size_t)-1) { event("covered"); covers(arch, rec, s, dom, what); }
}

UNIT(unbounded, 700, 14000, "accepted,refused,evicted,population,repetition,variation,covered,pareto,strict,gdom,replace,keep,mixed") {
    Setup s(r, 1, 5);
    if (s.mixed()) event("mixed");
    Quiet q;
    int how = (int)r.below(4);
    bool rep = r.flip();
    event(rep ? "replace" : "keep");
    size_t steps = r.size(1, 25);
    Dom pareto = [&](const V& a, const V& b) { return s.dom(a, b); };
    if (how < 2) {
        event("pareto");
        moeoParetoObjectiveVectorComparator<OV> c;
        if (how == 0) { moeoUnboundedArchive<RInd> a(rep); history(r, a, s, pareto, rep, -1, steps, "unbounded archive"); }
        else { moeoUnboundedArchive<RInd> a(c, rep); history(r, a, s, pareto, rep, -1, steps, "unbounded archive"); }
    } else if (how == 2) {
        event("strict");
        moeoStrictObjectiveVectorComparator<OV> c;
        moeoUnboundedArchive<RInd> a(c, rep);
        history(r, a, s, [&](const V& x, const V& y) { return s.strict(x, y); }, rep, -1, steps, "unbounded archive with strict dominance");
    } else {
        event("gdom");
        OV ref = Draw(r).vec(r, s.n);
        V rv = plain(ref);
        moeoGDominanceObjectiveVectorComparator<OV> c(ref);
        moeoUnboundedArchive<RInd> a(c, rep);
        auto flag = [&](const V& x) { bool g = true, w = true; for (unsigned i = 0; i < s.n; ++i) { if (x[i] == rv[i]) continue; (s.mins[i] ? x[i] < rv[i] : x[i] > rv[i]) ? w = false : g = false; } return g || w; };
        history(r, a, s, [&](const V& x, const V& y) { return flag(x) && (!flag(y) || s.dom(x, y)); }, rep, -1, steps, "unbounded archive with g-dominance");
    }
}
UNIT_T(large, 12, 100, 60, "accepted,refused,evicted,population,above-256") {
    Setup s(r, 2, 4);
    Quiet q;
    bool rep = idx % 4 < 2;
    Dom pareto = [&](const V& a, const V& b) { return s.dom(a, b); };
    if (idx % 2) { moeoUnboundedArchive<RInd> a(rep); history(r, a, s, pareto, rep, -1, 5, "large unbounded archive", true); }
    else { size_t cap = 260 + r.below(100); moeoImprOnlyBoundedArchive<RInd> a((unsigned)cap, rep); history(r, a, s, pareto, rep, cap, 5, "large bounded archive", true); }
}
UNIT(bounded, 500, 10000, "accepted,refused,evicted,population,full,replace,keep") {
    Setup s(r, 1, 5);
    Quiet q;
    bool rep = r.flip();
    event(rep ? "replace" : "keep");
    size_t cap = r.size(0, 12);
    Dom pareto = [&](const V& a, const V& b) { return s.dom(a, b); };
    moeoParetoObjectiveVectorComparator<OV> c;
    if (r.flip()) { moeoImprOnlyBoundedArchive<RInd> a((unsigned)cap, rep); history(r, a, s, pareto, rep, cap, r.size(1, 25), "improvement-only archive"); }
    else { moeoImprOnlyBoundedArchive<RInd> a(c, (unsigned)cap, rep); history(r, a, s, pareto, rep, cap, r.size(1, 25), "improvement-only archive"); }
}

// assignments whose values are known: computed from the offer number
static double fitOf(double id) { return (double)((long)id * 7 % 5); }
static double divOf(double id) { return (double)((long)id * 13 % 11); }
struct FitById : public moeoFitnessAssignment<RInd> {
    size_t calls = 0;
    void operator()(eoPop<RInd>& p) { ++calls; for (auto& x : p) x.fitness(fitOf(x[0])); }
    void updateByDeleting(eoPop<RInd>&, OV&) {}
};
struct DivById : public moeoDiversityAssignment<RInd> {
    void operator()(eoPop<RInd>& p) { for (auto& x : p) x.diversity(divOf(x[0])); }
    void updateByDeleting(eoPop<RInd>&, OV&) {}
};
UNIT(fitness_bounded, 500, 10000, "accepted,refused,evicted,population,cut,replace,keep") {
    Setup s(r, 1, 5);
    Quiet q;
    bool rep = r.flip(), divFirst = r.flip();
    event(rep ? "replace" : "keep");
    size_t cap = r.size(1, 10);
    FitById fit;
    DivById div;
    moeoFitnessThenDiversityComparator<RInd> fd;
    moeoDiversityThenFitnessComparator<RInd> df;
    moeoComparator<RInd>& ic = divFirst ? (moeoComparator<RInd>&)df : fd;
    moeoParetoObjectiveVectorComparator<OV> c;
    Dom pareto = [&](const V& a, const V& b) { return s.dom(a, b); };
    std::shared_ptr<moeoFitDivBoundedArchive<RInd>> a;
    if (r.flip()) a = std::make_shared<moeoFitDivBoundedArchive<RInd>>(ic, fit, div, (unsigned)cap, rep);
    else a = std::make_shared<moeoFitDivBoundedArchive<RInd>>(ic, c, fit, div, (unsigned)cap, rep);
    Record rec;
    Gen gen(r);
    Model m{s, pareto, rec, rep, (size_t)-1, {}};
    auto key = [&](size_t id) { auto f = fitOf((double)id), d = divOf((double)id); return divFirst ? std::make_pair(d, f) : std::make_pair(f, d); };
    size_t steps = r.size(1, 25);
    for (size_t t = 0; t < steps; ++t) {
        m.in.clear();
        for (auto& x : *a) m.in.push_back((size_t)x[0]);
        bool want = false, got;
        if (r.flip()) { RInd x = rec.offer(gen(r, s, rec)); want = m((size_t)x[0]); got = (*a)(x); }
        else {
            eoPop<RInd> p;
            for (size_t n = r.size(0, 12); n--;) { p.push_back(rec.offer(gen(r, s, rec))); if (m((size_t)p.back()[0])) want = true; }
            got = (*a)(p);
            event("population");
        }
        CHECK(got == want, "report-nondominated", "fitness-bounded archive: reported ", got, ", a non-dominated solution was ", want ? "" : "not ", "offered");
        CHECK(a->size() == std::min(cap, m.in.size()), "capacity", "fitness-bounded archive of capacity ", cap, ": ", a->size(), " solutions out of ", m.in.size(), " non-dominated ones");
        rec.genuine(*a, "fitness-bounded archive");
        mutual(*a, s, pareto, "fitness-bounded archive");
        std::set<size_t> cand(m.in.begin(), m.in.end()), kept;
        for (auto& x : *a) { CHECK(cand.count((size_t)x[0]), "content", "fitness-bounded archive: a dominated or refused solution was archived"); kept.insert((size_t)x[0]); }
        if (m.in.size() > cap) {
            event("cut");
            for (size_t k : kept) for (size_t d : cand) if (!kept.count(d))
                CHECK(!(key(d) > key(k)), "cut-better", "fitness-bounded archive: dropped a solution with fitness ", fitOf((double)d), " and diversity ", divOf((double)d), ", kept one with ", fitOf((double)k), " and ", divOf((double)k), divFirst ? " (diversity first)" : " (fitness first)");
        }
        state(mix(mix(a->size(), t), cap));
    }
}

// two minimised objectives, least hypervolume contribution leaves
UNIT(hypervolume_2d, 1200, 24000, "accepted,refused,evicted,cut,extreme,interior,rejected_full,population") {
    Setup s(r, 2, 2, 0);
    Quiet q;
    unsigned asked = (unsigned)r.size(0, 9);
    size_t cap = std::max(2u, asked);
    const double MAXV = 1e15; // above any possible contribution
    typedef RInd I;
    moeo2DMinHypervolumeArchive<I> a(asked, MAXV);
    Record rec;
    Gen gen(r);
    auto byHand = [&](const std::vector<V>& v, size_t i) { return i == 0 || i + 1 == v.size() ? MAXV : (v[i - 1][0] - v[i][0]) * (v[i + 1][1] - v[i][1]); };
    size_t steps = r.size(1, 40);
    for (size_t t = 0; t < steps; ++t) {
        std::vector<V> before;
        for (auto& x : a) before.push_back(plain(x.objectiveVector()));
        I x = rec.offer(gen(r, s, rec));
        V v = plain(x.objectiveVector());
        bool beaten = false;
        std::vector<V> merged;
        for (auto& b : before) { if (s.dom(b, v) || b == v) beaten = true; if (!s.dom(v, b)) merged.push_back(b); else event("evicted"); }
        merged.push_back(v);
        std::sort(merged.begin(), merged.end(), [](const V& p, const V& q) { return p[1] < q[1]; });
        bool got;
        if (r.flip(0.3)) { eoPop<I> p; p.push_back(x); got = a(p); event("population"); } else got = a(x);
        std::vector<V> after;
        for (auto& y : a) after.push_back(plain(y.objectiveVector()));
        CHECK(after.size() <= cap, "capacity", "two-objective archive: ", after.size(), " solutions, capacity ", cap);
        rec.genuine(a, "two-objective archive");
        mutual(a, s, [&](const V& p, const V& q) { return s.dom(p, q); }, "two-objective archive");
        bool in = std::find(after.begin(), after.end(), v) != after.end();
        if (beaten) { event("refused"); CHECK(!got && after == before, "dominated-changes", "two-objective archive: a dominated or equal solution changed the archive or was reported as accepted"); }
        else if (merged.size() <= cap) { event("accepted"); CHECK(got && after == merged, "accept", "two-objective archive with room: ", show(v), " non-dominated, reported ", got, ", ", after.size(), " solutions, expected ", merged.size()); }
        else {
            CHECK(after.size() == cap, "accept-full", "two-objective archive: holds ", after.size(), " instead of ", cap);
            for (auto& y : after) CHECK(std::find(merged.begin(), merged.end(), y) != merged.end(), "content", "two-objective archive: unexpected solution");
            size_t gone = 0;
            double least = MAXV;
            for (size_t i = 0; i < merged.size(); ++i) { if (std::find(after.begin(), after.end(), merged[i]) == after.end()) gone = i; least = std::min(least, byHand(merged, i)); }
            CHECK(gone != 0 && gone + 1 != merged.size(), "extreme-lost", "two-objective archive: an extreme solution was dropped");
            if (merged.front() == v || merged.back() == v) { event("extreme"); CHECK(in && got, "extreme-new", "two-objective archive: a new extreme solution was not kept"); }
            else event("interior");
            if (in) event("cut"); else event("rejected_full");
            CHECK(got == in, "report", "two-objective archive: reported ", got, ", the solution is ", in ? "" : "not ", "archived");
            CHECK(close(byHand(merged, gone), least, 1e-9, 1e-9), "contribution", "two-objective archive: dropped a solution contributing ", byHand(merged, gone), ", the least contribution is ", least);
        }
        size_t i = 0;
        for (auto& y : a) { CHECK(!y.invalidFitness() && close(y.fitness(), byHand(after, i), 1e-9, 1e-9), "fitness", "two-objective archive: solution ", i, " of ", after.size(), " has fitness ", y.fitness(), ", its contribution is ", byHand(after, i)); ++i; }
        state(hvec(v, after.size()));
    }
}

UNIT(epsilon_boxes, 400, 8000, "offered,held,population,mixed") {
    Setup s(r, 1, 4);
    if (s.mixed()) event("mixed");
    Quiet q;
    std::vector<double> eps;
    for (unsigned i = 0; i < s.n; ++i) eps.push_back(r.pick(std::vector<double>{0.01, 0.1, 1, 5, 30}));
    moeoEpsilonHyperboxArchive<RInd> a(eps);
    Record rec;
    Gen gen(r);
    Dom pareto = [&](const V& x, const V& y) { return s.dom(x, y); };
    size_t steps = r.size(1, 30);
    for (size_t t = 0; t < steps; ++t) {
        std::vector<V> before;
        for (auto& x : a) before.push_back(plain(x.objectiveVector()));
        if (r.flip(0.7)) { a(rec.offer(gen(r, s, rec))); }
        else { eoPop<RInd> p; for (size_t n = r.size(0, 6); n--;) p.push_back(rec.offer(gen(r, s, rec))); bool got = a(p); CHECK(!got || !p.empty(), "report-empty", "epsilon-box archive: accepted something out of an empty population"); event("population"); if (rec.offered.empty()) continue; }
        event("offered");
        CHECK(!a.empty(), "empty", "epsilon-box archive: empty after an insertion");
        rec.genuine(a, "epsilon-box archive");
        mutual(a, s, pareto, "epsilon-box archive");
        if (a.size() > 1) event("held");
        state(mix(a.size(), t));
    }
}
// solutions carry the fitness and diversity assigned to the population they come from
UNIT(spea2, 400, 8000, "offered,full,front,dominated,population") {
    Setup s(r, 1, 4);
    Quiet q;
    unsigned cap = (unsigned)r.size(1, 10);
    moeoFitnessThenDiversityComparator<RInd> ic;
    moeoEuclideanDistance<RInd> dist;
    moeoParetoObjectiveVectorComparator<OV> pc;
    std::shared_ptr<moeoSPEA2Archive<RInd>> a;
    switch (r.below(3)) {
    case 0: a = std::make_shared<moeoSPEA2Archive<RInd>>(cap); break;
    case 1: a = std::make_shared<moeoSPEA2Archive<RInd>>(dist, cap); break;
    default: a = std::make_shared<moeoSPEA2Archive<RInd>>(ic, dist, pc, cap);
    }
    Record rec;
    Gen gen(r);
    auto give = [&](RInd x) {
        bool front = r.flip();
        event(front ? "front" : "dominated");
        x.fitness(front ? 0 : -(double)r.range(1, 6));
        x.diversity(-0.5 * r.u01());
        return x;
    };
    size_t steps = r.size(1, 25), total = 0;
    for (size_t t = 0; t < steps; ++t) {
        if (r.flip(0.3)) { (*a)(give(rec.offer(gen(r, s, rec)))); ++total; }
        else { eoPop<RInd> p; for (size_t n = r.size(0, 12); n--;) { p.push_back(give(rec.offer(gen(r, s, rec)))); ++total; } (*a)(p); event("population"); }
        event("offered");
        CHECK(a->size() <= cap, "capacity", "fixed-size archive of capacity ", cap, ": ", a->size());
        CHECK(a->size() == std::min<size_t>(cap, total), "fixed-size", "fixed-size archive of capacity ", cap, ": ", a->size(), " solutions after ", total, " offers");
        if (a->size() == cap) event("full");
        rec.genuine(*a, "fixed-size archive");
        state(mix(mix(a->size(), cap), t));
    }
}
UNIT(equality, 300, 6000, "equal,different") {
    Setup s(r, 1, 4);
    Quiet q;
    moeoUnboundedArchive<RInd> a, b;
    Draw d(r);
    std::vector<OV> v;
    for (size_t n = r.size(0, 12); n--;) v.push_back(d.vec(r, s.n));
    for (size_t i = 0; i < v.size(); ++i) a(made(v[i], i));
    bool drop = r.flip();
    std::vector<size_t> ord(v.size());
    for (size_t i = 0; i < ord.size(); ++i) ord[i] = i;
    r.shuffle(ord);
    size_t n = ord.size();
    if (drop && n) n = r.below(n);
    for (size_t i = 0; i < n; ++i) b(made(v[ord[i]], ord[i]));
    std::set<V> sa, sb;
    for (auto& x : a) sa.insert(plain(x.objectiveVector()));
    for (auto& x : b) sb.insert(plain(x.objectiveVector()));
    event(sa == sb ? "equal" : "different");
    CHECK(a.equals(b) == (sa == sb) && b.equals(a) == (sa == sb), "equals", "archives of ", sa.size(), " and ", sb.size(), " objective vectors");
    state(mix(mix(sa.size(), sb.size()), idx));
}
