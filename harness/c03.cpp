// C03: replacement, reduction, merge and split conserve individuals and sizes.
#include "eoh.h"
#include <eoG3Replacement.h>
#include <eoMGGReplacement.h>
#include <eoReduceMergeReduce.h>
#include <eoReduceSplit.h>
#include <eoSurviveAndDie.h>
using namespace eoh;
typedef Ind<double> MaxI;
typedef Ind<MinF> MinI;

static unsigned popSize(Rand& r, unsigned lo) { return r.flip(0.05) ? (unsigned)r.range(257, 400) : (unsigned)r.size(lo, 30); }
template <class E> std::unique_ptr<eoReduce<E>> mkReduce(Rand& r, int kind) {
    switch (kind) {
    case 0: return std::unique_ptr<eoReduce<E>>(new eoTruncate<E>);
    case 1: return std::unique_ptr<eoReduce<E>>(new eoLinearTruncate<E>);
    case 2: return std::unique_ptr<eoReduce<E>>(new eoRandomReduce<E>);
    case 3: return std::unique_ptr<eoReduce<E>>(new eoEPReduce<E>((unsigned)r.range(2, 12)));
    case 4: return std::unique_ptr<eoReduce<E>>(new eoDetTournamentTruncate<E>((unsigned)r.range(2, 6)));
    default: return std::unique_ptr<eoReduce<E>>(new eoStochTournamentTruncate<E>(r.real(0.51, 1.0)));
    }
}
static const char* reduceName[] = {"truncate", "linear-truncate", "random", "ep", "det-tournament", "stoch-tournament"};

template <class E> void reduceCase(Rand& r, u64 idx) {
    int kind = (int)(idx % 6);
    auto red = mkReduce<E>(r, kind);
    Quiet q;
    for (int k = 0; k < 4; ++k) { // the same object several times: no memory between calls
        unsigned n = popSize(r, 1), m = r.flip(0.2) ? n : (unsigned)r.range(0, n);
        eoPop<E> pop = makePop<E>(r, n, 100 * k), before = pop;
        std::map<int, std::pair<int, double>> pool;
        addTo(pool, pop);
        bool tooBig = r.flip(0.1);
        if (tooBig) {
            bool thrown = false;
            try { (*red)(pop, n + 1 + (unsigned)r.below(3)); } catch (std::exception&) { thrown = true; }
            event("reduce_refused");
            CHECK(thrown && hpop(pop) == hpop(before), cat("reduce-larger-", reduceName[kind]), "reducing to a larger size was not refused cleanly, n=", n);
            continue;
        }
        (*red)(pop, m);
        event("reduce");
        state(mix(hpop(pop), mix(kind, hpop(before))));
        CHECK(pop.size() == m, cat("reduce-size-", reduceName[kind]), "size ", pop.size(), " instead of ", m, " from ", n);
        std::string w = notSubset(pop, pool);
        CHECK(w.empty(), cat("reduce-conserve-", reduceName[kind]), w, "; ", showPop(before), " -> ", showPop(pop));
        if (kind < 2) CHECK(quals(pop) == firstn(quals(before), m), cat("reduce-best-", reduceName[kind]), showPop(before), " -> ", showPop(pop));
        if (kind == 4 && m > 0) { // a unique best can never lose a tournament of two or more distinct contestants
            auto all = quals(before);
            if (n == 1 || all[0] != all[1]) { event("det_best"); CHECK(bestQ(pop) == all[0], "det-tournament-truncate-best", showPop(before), " -> ", showPop(pop)); }
        }
    }
}
UNIT(reduce, 900, 12000, "reduce,reduce_refused,det_best") { if (r.flip()) reduceCase<MaxI>(r, idx); else reduceCase<MinI>(r, idx); }

// who is eliminated: frequencies for one elimination out of distinct fitnesses
template <class E> void pressureCase(Rand& r, u64 idx) {
    Quiet q;
    unsigned n = (unsigned)r.range(2, 6);
    const int N = 4000;
    eoPop<E> base;
    for (unsigned i = 0; i < n; ++i) base.push_back(E((int)i, 0));
    r.shuffle(base);
    for (auto& e : base) e.fitness(good(typename E::Fitness(1.0)) > 0 ? (double)e.id : -(double)e.id); // id = quality rank from worst
    std::vector<double> gone(n, 0);
    int kind = (int)(idx % 4);
    double rate = r.real(0.51, 1.0);
    std::unique_ptr<eoReduce<E>> red;
    if (kind == 0) red.reset(new eoRandomReduce<E>);
    else if (kind == 1) red.reset(new eoDetTournamentTruncate<E>(2));
    else if (kind == 2) red.reset(new eoStochTournamentTruncate<E>(rate));
    else red.reset(new eoEPReduce<E>(3000));
    int T = kind == 3 ? 5 : N;
    for (int k = 0; k < T; ++k) {
        eoPop<E> p = base;
        (*red)(p, n - 1);
        std::set<int> left;
        for (auto& e : p) left.insert(e.id);
        for (unsigned i = 0; i < n; ++i) if (!left.count((int)i)) ++gone[i];
        event("pressure_draws");
    }
    state(hvec(gone, kind * 10 + n));
    for (unsigned i = 0; i < n; ++i) {
        double p = 0;
        if (kind == 0) p = 1.0 / n;
        else if (kind == 1) p = n == 1 ? 1 : 2.0 * (n - 1 - i) / (n * (n - 1.0));
        // two independent draws, the worse eliminated with probability rate
        else if (kind == 2) p = 1.0 / (n * (double)n) + 2.0 / (n * (double)n) * (rate * (n - 1 - i) + (1 - rate) * i);
        else p = i == 0;
        CHECK(!deviates(gone[i], T, p), cat("pressure-", kind), "rank ", i, " of ", n, " eliminated ", gone[i], " times of ", T, ", expected ", p * T);
    }
}
// random elimination spares nobody: every position of the population is equally likely to go
template <class E> void randomCase(Rand& r, u64 idx) {
    Quiet q;
    unsigned n = (unsigned)r.range(2, 9), k = 1 + (unsigned)r.below(n - 1);
    const int N = 3000;
    std::unique_ptr<eoReduceSplit<E>> s;
    std::unique_ptr<eoReduce<E>> red(new eoRandomReduce<E>);
    int kind = (int)(idx % 3);
    if (kind == 0) s.reset(new eoRandomSplit<E>(eoHowMany((int)k), true));
    else if (kind == 1) s.reset(new eoLinearRandomSplit<E>(eoHowMany((int)k), true));
    eoPop<E> base = makePop<E>(r, n, 0);
    std::map<int, double> kept;
    for (int t = 0; t < N; ++t) {
        eoPop<E> p = base, out;
        if (s) (*s)(p, out); else (*red)(p, n - k);
        for (auto& e : p) ++kept[e.id];
        event("random_draws");
    }
    for (auto& e : base) CHECK(!deviates(kept[e.id], N, 1 - k / (double)n), cat("random-elimination-", kind), "individual ", e.id, " of ", n, " kept ", kept[e.id], " times of ", N, " when ", k, " go");
}
UNIT(random_elimination, 24, 240, "random_draws") { if (r.flip()) randomCase<MaxI>(r, idx); else randomCase<MinI>(r, idx); }
UNIT(pressure, 24, 240, "pressure_draws") { if (r.flip()) pressureCase<MaxI>(r, idx); else pressureCase<MinI>(r, idx); }

template <class E> void mergeCase(Rand& r) {
    unsigned np = popSize(r, 1), no = popSize(r, 0);
    eoPop<E> par = makePop<E>(r, np, 0), off = makePop<E>(r, no, 1000), p0 = par, o0 = off;
    if (r.flip(0.3)) {
        eoPlus<E> plus;
        plus(par, off);
        event("plus");
        std::vector<int> want = idseq(o0);
        for (int i : idseq(p0)) want.push_back(i);
        CHECK(hpop(par) == hpop(p0), "plus-source", "the source of a merge changed");
        std::map<int, std::pair<int, double>> pool;
        addTo(pool, p0); addTo(pool, o0);
        CHECK(off.size() == np + no && notSubset(off, pool).empty(), "plus-merge", showPop(off));
        return;
    }
    bool asRate = r.flip();
    double rate = asRate ? (r.flip(0.2) ? (double)r.below(2) : r.u01()) : (double)r.range(0, np + 1);
    unsigned want = asRate ? (unsigned)(rate * np) : (unsigned)rate;
    eoElitism<E> elite(rate, asRate);
    bool thrown = false;
    try { elite(par, off); } catch (std::exception&) { thrown = true; }
    if (want > np) { event("elite_refused"); CHECK(thrown, "elitism-too-large", "elite of ", want, " out of ", np, " accepted"); return; }
    event("elitism");
    CHECK(!thrown && hpop(par) == hpop(p0), "elitism-source", "parents changed or exception");
    CHECK(off.size() == no + want, "elitism-count", "elite of ", want, " parents out of ", np, " grew the offspring from ", no, " to ", off.size());
    if (off.size() < no) return;
    eoPop<E> head, tail;
    for (unsigned i = 0; i < off.size(); ++i) (off[i].id >= 1000 ? head : tail).push_back(off[i]);
    CHECK(ids(head) == ids(o0), "elitism-offspring", "offspring altered by the merge");
    std::map<int, std::pair<int, double>> pool;
    addTo(pool, p0);
    CHECK(notSubset(tail, pool).empty(), "elitism-foreign", showPop(tail));
    if (tail.size() == want) CHECK(quals(tail) == firstn(quals(p0), want), "elitism-best", "the elite ", showPop(tail), " is not the best of ", showPop(p0));
    state(mix(hpop(off), hpop(p0)));
}
UNIT(merge, 900, 12000, "plus,elitism,elite_refused") { if (r.flip()) mergeCase<MaxI>(r); else mergeCase<MinI>(r); }

template <class E> void splitCase(Rand& r, u64 idx) {
    int kind = (int)(idx % 6);
    unsigned n = popSize(r, 1), k = (unsigned)r.range(0, n);
    bool ret = r.flip(0.7);
    if (kind >= 4 && k == n && n > 0) k = n - 1; // a tournament needs two individuals
    // eoHowMany: 0 means "rate 0"
    eoHowMany hm = k ? eoHowMany((int)k) : eoHowMany(0.0);
    std::unique_ptr<eoReduceSplit<E>> s;
    switch (kind) {
    case 0: s.reset(new eoTruncateSplit<E>(hm, ret)); break;
    case 1: s.reset(new eoLinearTruncateSplit<E>(hm, ret)); break;
    case 2: s.reset(new eoRandomSplit<E>(hm, ret)); break;
    case 3: s.reset(new eoLinearRandomSplit<E>(hm, ret)); break;
    case 4: s.reset(new eoDetTournamentTruncateSplit<E>((unsigned)r.range(2, 5), hm, ret)); break;
    default: s.reset(new eoStochTournamentTruncateSplit<E>(r.real(0.51, 1.0), hm, ret));
    }
    eoPop<E> pop = makePop<E>(r, n, 0), before = pop, out = makePop<E>(r, (unsigned)r.below(3), 1000), out0 = out;
    (*s)(pop, out);
    event("split");
    state(mix(hpop(pop), hpop(before) + kind));
    std::string where = cat("-", kind);
    CHECK(pop.size() == n - k, "split-size" + where, "left ", pop.size(), " of ", n, " after eliminating ", k);
    CHECK(out.size() == out0.size() + (ret ? k : 0), "split-eliminated-size" + where, "eliminated ", out.size() - out0.size(), " wanted ", k, " returned: ", ret);
    for (unsigned i = 0; i < out0.size() && i < out.size(); ++i) CHECK(out[i].id == out0[i].id, "split-eliminated-old" + where, "earlier contents lost");
    std::map<int, std::pair<int, double>> pool;
    addTo(pool, before); addTo(pool, out0);
    eoPop<E> all = pop;
    for (auto& e : out) all.push_back(e);
    std::string w = notSubset(all, pool);
    CHECK(w.empty(), "split-conserve" + where, w);
    if (kind < 2 && pop.size() == n - k) CHECK(quals(pop) == firstn(quals(before), n - k), "split-best" + where, showPop(before), " -> ", showPop(pop));
    if (r.flip(0.1)) { // more than there are: refused
        eoPop<E> p2 = before;
        std::unique_ptr<eoReduceSplit<E>> big;
        eoHowMany h2((int)(n + 1 + r.below(3)));
        switch (kind) {
        case 0: big.reset(new eoTruncateSplit<E>(h2, ret)); break;
        case 1: big.reset(new eoLinearTruncateSplit<E>(h2, ret)); break;
        case 2: big.reset(new eoRandomSplit<E>(h2, ret)); break;
        case 3: big.reset(new eoLinearRandomSplit<E>(h2, ret)); break;
        case 4: big.reset(new eoDetTournamentTruncateSplit<E>(2, h2, ret)); break;
        default: big.reset(new eoStochTournamentTruncateSplit<E>(0.8, h2, ret));
        }
        bool thrown = false;
        try { (*big)(p2, out); } catch (std::exception&) { thrown = true; }
        event("split_refused");
        CHECK(thrown, "split-larger" + where, "eliminating more than ", n, " was accepted");
    }
}
UNIT(split, 900, 12000, "split,split_refused") { if (r.flip()) splitCase<MaxI>(r, idx); else splitCase<MinI>(r, idx); }

template <class E> void surviveCase(Rand& r) {
    unsigned n = popSize(r, 1);
    bool asRate = r.flip();
    double s = asRate ? r.u01() : (double)r.range(0, n), d = asRate ? r.u01() : (double)r.range(0, n);
    eoDeterministicSurviveAndDie<E> sad(s, d, asRate);
    eoPop<E> pop = makePop<E>(r, n, 0), before = pop, lucky;
    unsigned ns = asRate ? (unsigned)std::ceil(s * n) : (unsigned)s, nd = asRate ? (unsigned)std::ceil(d * n) : (unsigned)d;
    nd = std::min(nd, n - ns);
    if (ns == n && nd == 0 && false) return;
    sad(pop, lucky);
    event("survive");
    state(mix(hpop(pop), hpop(before)));
    std::map<int, std::pair<int, double>> pool;
    addTo(pool, before);
    eoPop<E> all = pop;
    for (auto& e : lucky) all.push_back(e);
    CHECK(notSubset(all, pool).empty(), "sad-conserve", notSubset(all, pool));
    CHECK(lucky.size() == ns && pop.size() == n - ns - nd, "sad-size", "n=", n, " survive=", ns, " die=", nd, " got ", lucky.size(), " and ", pop.size());
    CHECK(quals(all) == firstn(quals(before), std::min<size_t>(all.size(), n)), "sad-dead-not-worst", showPop(before), " -> ", showPop(pop), showPop(lucky));
    CHECK(quals(lucky) == firstn(quals(before), std::min<size_t>(lucky.size(), n)), "sad-survivors-not-best", showPop(before), " -> ", showPop(lucky));
}
UNIT(survive, 500, 6000, "survive") { if (r.flip()) surviveCase<MaxI>(r); else surviveCase<MinI>(r); }

template <class E> void replaceCase(Rand& r, u64 idx) {
    Quiet q;
    int kind = (int)(idx % 12);
    static const char* names[] = {"generational", "plus", "comma", "ep", "ssga-worse", "ssga-det", "ssga-stoch", "weak-elitist", "rmr", "mgg", "g3", "sad"};
    std::string where = cat("-", names[kind]);
    unsigned np = popSize(r, 1), no = popSize(r, 1);
    std::unique_ptr<eoReplacement<E>> rep, inner;
    std::unique_ptr<eoReduce<E>> r1, r2, r3;
    unsigned want = np;      // announced size
    bool mayThrow = false;
    switch (kind) {
    case 0: rep.reset(new eoGenerationalReplacement<E>); want = no; break;
    case 1: rep.reset(new eoPlusReplacement<E>); break;
    case 2: rep.reset(new eoCommaReplacement<E>); mayThrow = no < np; break;
    case 3: rep.reset(new eoEPReplacement<E>((int)r.range(2, 9))); break;
    case 4: rep.reset(new eoSSGAWorseReplacement<E>); mayThrow = no > np; break;
    case 5: rep.reset(new eoSSGADetTournamentReplacement<E>((unsigned)r.range(2, 5))); mayThrow = no > np; break;
    case 6: rep.reset(new eoSSGAStochTournamentReplacement<E>(r.real(0.51, 1))); mayThrow = no > np; break;
    case 7:
        if (r.flip()) { inner.reset(new eoGenerationalReplacement<E>); want = no; }
        else { inner.reset(new eoCommaReplacement<E>); no = np + (unsigned)r.below(20); }
        rep.reset(new eoWeakElitistReplacement<E>(*inner));
        break;
    case 8: {
        r1 = mkReduce<E>(r, (int)r.below(6)); r2 = mkReduce<E>(r, (int)r.below(6)); r3 = mkReduce<E>(r, (int)r.below(6));
        double e = r.flip(0.3) ? 0 : r.u01(), rp = r.flip(0.3) ? 0 : r.u01(), ro = r.flip(0.3) ? 1 : r.real(0.05, 1);
        bool strong = r.flip();
        rep.reset(new eoReduceMergeReduce<E>(eoHowMany(e), strong, eoHowMany(rp), *r1, eoHowMany(ro), *r2, *r3));
        unsigned ne = (unsigned)std::ceil(e * np), left = (unsigned)std::ceil(rp * (np - ne)), offs = (unsigned)std::ceil(ro * no);
        mayThrow = left + offs < np - (strong ? ne : 0);
        break;
    }
    case 9: { // at least two parents leave, at least one offspring
        np = std::max(2u, np);
        unsigned k = (unsigned)r.range(2, np);
        rep.reset(new eoMGGReplacement<E>(eoHowMany((int)k), (unsigned)r.range(2, 5)));
        want = np;
        break;
    }
    case 10: {
        np = std::max(1u, np);
        unsigned k = (unsigned)r.range(1, np);
        rep.reset(new eoG3Replacement<E>(eoHowMany((int)k)));
        break;
    }
    default: {
        double sp = r.flip(0.3) ? 0 : r.u01(), so = r.flip(0.3) ? 0 : r.u01() * 0.5, dp = r.u01() * 0.7, dof = r.u01() * 0.5;
        rep.reset(new eoDeterministicSaDReplacement<E>(sp, dp, so, dof));
        mayThrow = true;
    }
    }
    if (want != no) want = np;
    if (kind == 0 || (kind == 7 && dynamic_cast<eoGenerationalReplacement<E>*>(inner.get()))) want = no;
    for (int rnd = 0; rnd < 3; ++rnd) {
        eoPop<E> par = makePop<E>(r, np, 0), off = makePop<E>(r, no, 1000), p0 = par, o0 = off;
        std::map<int, std::pair<int, double>> pool;
        addTo(pool, p0); addTo(pool, o0);
        bool thrown = false;
        std::string what;
        try { (*rep)(par, off); } catch (std::exception& e) { thrown = true; what = e.what(); }
        event(names[kind]);
        state(mix(hpop(par), hpop(p0) + kind));
        if (thrown) {
            event("refused");
            CHECK(mayThrow, "replace-throws" + where, "exception on ", np, " parents and ", no, " offspring: ", what);
            continue;
        }
        CHECK(par.size() == want, "replace-size" + where, "population of ", par.size(), " instead of ", want, " (parents ", np, ", offspring ", no, ")");
        std::string w = notSubset(par, pool);
        CHECK(w.empty(), "replace-conserve" + where, w, "; parents ", showPop(p0), " offspring ", showPop(o0), " -> ", showPop(par));
        eoPop<E> both = p0;
        for (auto& e : o0) both.push_back(e);
        switch (kind) {
        case 0: CHECK(ids(par) == ids(o0), "replace-generational", "not the offspring: ", showPop(par)); break;
        case 1: CHECK(quals(par) == firstn(quals(both), np), "replace-plus-best", "not the best of all: ", showPop(both), " -> ", showPop(par)); break;
        case 2:
            for (auto& e : par) CHECK(e.id >= 1000, "replace-comma-parent", "parent #", e.id, " survived a comma replacement");
            CHECK(quals(par) == firstn(quals(o0), np), "replace-comma-best", showPop(o0), " -> ", showPop(par));
            break;
        case 4: { // all offspring enter, the best parents stay
            eoPop<E> kp, ko;
            for (auto& e : par) (e.id >= 1000 ? ko : kp).push_back(e);
            CHECK(ids(ko) == ids(o0), "replace-ssga-offspring", "offspring missing: ", showPop(par));
            if (kp.size() == np - no) CHECK(quals(kp) == firstn(quals(p0), np - no), "replace-ssga-worst", showPop(p0), " -> ", showPop(kp));
            break;
        }
        case 5: case 6: {
            unsigned k = 0;
            for (auto& e : par) k += e.id >= 1000;
            CHECK(k == no, "replace-ssga-offspring", k, " offspring of ", no, " entered");
            break;
        }
        case 9: CHECK(bestQ(par) >= bestQ(o0), "replace-mgg-best-offspring", "best offspring lost"); break;
        case 10: CHECK(bestQ(par) == std::max(bestQ(p0), bestQ(o0)), "replace-g3-best", "best of all lost: ", showPop(both), " -> ", showPop(par)); break;
        default: break;
        }
    }
}
UNIT(replace, 2400, 30000, "generational,plus,comma,ep,ssga-worse,ssga-det,ssga-stoch,weak-elitist,rmr,mgg,g3,sad,refused") { if (r.flip()) replaceCase<MaxI>(r, idx); else replaceCase<MinI>(r, idx); }

// Generations on end with one replacement object: sizes and identities stay right.
template <class E> void historyCase(Rand& r) {
    Quiet q;
    unsigned n = (unsigned)r.size(2, 20);
    int kind = (int)r.below(5);
    eoGenerationalReplacement<E> gen;
    std::unique_ptr<eoReplacement<E>> rep;
    unsigned no = n;
    switch (kind) {
    case 0: rep.reset(new eoPlusReplacement<E>); no = (unsigned)r.range(1, 2 * n); break;
    case 1: rep.reset(new eoCommaReplacement<E>); no = n + (unsigned)r.below(n); break;
    case 2: rep.reset(new eoEPReplacement<E>(4)); no = (unsigned)r.range(1, 2 * n); break;
    case 3: rep.reset(new eoSSGADetTournamentReplacement<E>(2)); no = (unsigned)r.range(1, n - 1); break;
    default: rep.reset(new eoWeakElitistReplacement<E>(gen));
    }
    eoPop<E> par = makePop<E>(r, n, 0), off;
    int next = 1000;
    for (int g = 0; g < 25; ++g) {
        off = makePop<E>(r, no, next);
        next += (int)no;
        std::map<int, std::pair<int, double>> pool;
        addTo(pool, par); addTo(pool, off);
        (*rep)(par, off);
        event("generations");
        std::string w = notSubset(par, pool);
        CHECK(par.size() == n && w.empty(), cat("history-", kind), "generation ", g, ": size ", par.size(), " ", w);
        if (g % 5 == 0) state(hpop(par));
    }
}
UNIT(history, 120, 2000, "generations") { if (r.flip()) historyCase<MaxI>(r); else historyCase<MinI>(r); }
