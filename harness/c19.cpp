// C19: hill climbers follow their rule, never get worse and stop at a local optimum.
#include "c19.h"
using namespace ls;

enum Rule { BEST, FIRST, RNDBEST, NEUTRAL };
template <class S> void judge(const Land& land, Around around, Trace& t, const S& out, Rule rule, unsigned nbStep, bool equalOk, bool complete, const char* what) {
    double cur = Q<S>(land, t.start.g);
    G g = t.start.g;
    CHECK(t.start.valid && t.start.q == cur, "start-fitness", what, ": the run starts with fitness ", t.start.q, " instead of ", cur);
    bool stuck = false;
    for (size_t k = 0; k < t.steps.size(); ++k) {
        Step& st = t.steps[k];
        std::vector<G> nb = around(g);
        CHECK(!stuck, "goes-on", what, ": goes on after a step without a move");
        double top = -INFINITY, realTop = -INFINITY;
        for (auto& x : nb) realTop = std::max(realTop, Q<S>(land, x));
        for (auto& p : st.tried) {
            CHECK(p.valid && p.q == Q<S>(land, p.g), "neighbour-fitness", what, ": neighbour ", show(p.g), " has fitness ", p.q);
            top = std::max(top, p.q);
        }
        if (complete && rule != FIRST) CHECK(top == realTop || nb.empty(), "not-all-tried", what, ": the best neighbour (", realTop, ") was not evaluated, best evaluated ", top);
        double aq = Q<S>(land, st.after.g);
        CHECK(st.after.valid && st.after.q == aq, "fitness", what, ": after step ", k, " fitness is ", st.after.q, " instead of ", aq);
        CHECK(aq >= cur, "worse", what, ": step ", k, " goes from ", cur, " to ", aq);
        bool moved = st.after.g != g;
        if (moved) {
            CHECK(contains(nb, st.after.g), "no-neighbour", what, ": step ", k, " goes from ", show(g), " to ", show(st.after.g));
            if (rule != NEUTRAL && !equalOk) CHECK(aq > cur, "not-better", what, ": step ", k, " accepts an equal neighbour");
            if (rule == FIRST) {
                for (auto& p : st.tried) { if (p.g == st.after.g) break; CHECK(!(p.q > cur || (equalOk && p.q == cur)), "not-first", what, ": an acceptable neighbour of quality ", p.q, " was passed over for one of ", aq); }
            } else
                CHECK(aq == top, "not-best", what, ": step ", k, " takes quality ", aq, ", the best neighbour has ", top);
            event("move");
        } else {
            stuck = true;
            bool take = rule == NEUTRAL || equalOk;
            CHECK(!(top > cur || (take && top == cur)), "missed", what, ": no move although a neighbour has ", top, " and the current solution ", cur);
            event("stop");
        }
        g = st.after.g;
        cur = aq;
    }
    CHECK(vals(out) == g, "returned", what, ": returns ", show(vals(out)), " instead of the last solution ", show(g));
    CHECK(!out.invalid() && qual(out) == cur, "returned-fitness", what, ": returns fitness ", out.invalid() ? NAN : qual(out), " for ", cur);
    CHECK(t.inits == 1 && t.lasts == 1, "calls", what, ": ", t.inits, " initialisations and ", t.lasts, " last calls");
    if (!t.ended) {
        double top = -INFINITY;
        for (auto& x : around(g)) top = std::max(top, Q<S>(land, x));
        if (rule == NEUTRAL) {
            CHECK(!complete || top <= cur || t.steps.size() >= nbStep, "not-optimal", what, ": stops by itself with quality ", cur, " next to ", top, " after ", t.steps.size(), " steps of ", nbStep);
            CHECK(t.steps.size() <= std::max(1u, nbStep), "too-long", what, ": ", t.steps.size(), " steps instead of at most ", nbStep);
        } else if (complete) {
            CHECK(top <= cur, "not-optimal", what, ": stops by itself with quality ", cur, " next to ", top);
            event("local_optimum");
        }
    }
    state(hvec(vals(out), mix((u64)rule, t.steps.size())));
}
template <class S, class N> void climb(Rand& r, moNeighborhood<N>& nh, Around around, unsigned n, bool perm, bool complete, const char* nhName) {
    Land land(r);
    Full<S> full(land, r.flip());
    moFullEvalByModif<N> modif(full);
    moFullEvalByCopy<N> copy(full);
    Trace t;
    RecEval<N> ev(r.flip() ? (moEval<N>&)modif : (moEval<N>&)copy, t);
    bool equalOk = r.flip(0.2);
    size_t limit = equalOk ? (size_t)r.range(1, 25) : r.flip(0.3) ? (size_t)r.range(1, 6) : n > 60 ? (size_t)r.range(10, 30) : 400;
    RecCont<N> cont(t, limit);
    moNeighborComparator<N> nc;
    moSolNeighborComparator<N> sc;
    moEqualSolNeighborComparator<N> esc;
    moEqualNeighborComparator<N> enc;
    moNeighborComparator<N>& cn = r.flip(0.2) ? (moNeighborComparator<N>&)enc : nc;
    moSolNeighborComparator<N>& cs = equalOk ? (moSolNeighborComparator<N>&)esc : sc;
    bool plain = !equalOk && r.flip();
    unsigned nbStep = (unsigned)r.range(0, 12);
    moSimpleHC<N> hc1(nh, full, ev, cont), hc2(nh, full, ev, cont, cn, cs);
    moFirstImprHC<N> fi1(nh, full, ev, cont), fi2(nh, full, ev, cont, cn, cs);
    moRandomBestHC<N> rb1(nh, full, ev, cont), rb2(nh, full, ev, cont, nc, cs);
    moNeutralHC<N> nt1(nh, full, ev, nbStep, cont), nt2(nh, full, ev, nbStep, cont, nc, cs);
    // the same climbers serve several starting points, evaluated or not
    for (int run = 0; run < 4; ++run) {
        int rule = (int)r.below(4);
        moLocalSearch<N>& a = rule == BEST ? (plain ? (moLocalSearch<N>&)hc1 : hc2) : rule == FIRST ? (plain ? (moLocalSearch<N>&)fi1 : fi2) : rule == RNDBEST ? (plain ? (moLocalSearch<N>&)rb1 : rb2) : (plain ? (moLocalSearch<N>&)nt1 : nt2);
        S s = make<S>(r, n, perm);
        if (r.flip()) full(s);
        t = Trace();
        a(s);
        static const char* names[] = {"best-improvement", "first-improvement", "random-best", "neutral"};
        std::string what = cat(names[rule], " on ", nhName);
        judge<S>(land, around, t, s, (Rule)rule, nbStep, equalOk, complete, what.c_str());
        static const char* evs[] = {"hc_best", "hc_first", "hc_rndbest", "hc_neutral"};
        event(evs[rule]);
    }
    // without any continuator
    if (!equalOk && n <= 12) {
        moSimpleHC<N> s0(nh, full, ev);
        moFirstImprHC<N> f0(nh, full, ev);
        moRandomBestHC<N> b0(nh, full, ev);
        moLocalSearch<N>* all[] = {&s0, &f0, &b0};
        for (auto a : all) {
            S s = make<S>(r, n, perm);
            if (r.flip()) full(s);
            double q0 = Q<S>(land, vals(s));
            (*a)(s);
            CHECK(!s.invalid() && qual(s) == Q<S>(land, vals(s)), "returned-fitness", nhName, ": wrong fitness returned");
            CHECK(qual(s) >= q0, "worse", nhName, ": ends worse than it started");
            if (complete) for (auto& x : around(vals(s))) CHECK(Q<S>(land, x) <= qual(s), "not-optimal", nhName, ": ", a->className(), " returns no local optimum");
        }
        moNeutralHC<N> n0(nh, full, ev, nbStep);
        S s = make<S>(r, n, perm);
        double q0 = Q<S>(land, vals(s));
        n0(s);
        CHECK(!s.invalid() && qual(s) == Q<S>(land, vals(s)) && qual(s) >= q0, "returned-fitness", nhName, ": neutral climber returns a wrong or worse fitness");
        event("free_run");
    }
}
template <class B> void bitCase(Rand& r) {
    unsigned n = r.flip(0.04) ? (unsigned)r.range(257, 300) : (unsigned)r.size(1, 14);
    typedef moBitNeighbor<typename B::Fitness> N;
    moOrderNeighborhood<N> order(n);
    moRndWithoutReplNeighborhood<N> without(n);
    moRndWithReplNeighborhood<N> with(n);
    int k = (int)r.below(5);
    if (k < 2) climb<B, N>(r, order, flips, n, false, true, "ordered bit flips");
    else if (k < 4) climb<B, N>(r, without, flips, n, false, true, "shuffled bit flips");
    else { moRndWithReplNeighborhood<N> limited(n, (unsigned)r.range(1, 30)); climb<B, N>(r, limited, flips, n, false, false, "drawn bit flips"); }
    event(std::is_same<typename B::Fitness, MinF>::value ? "minimising" : "maximising");
}
UNIT(climb_bits, 700, 9000, "move,stop,local_optimum,hc_best,hc_first,hc_rndbest,hc_neutral,free_run,minimising,maximising") { if (r.flip()) bitCase<Bit>(r); else bitCase<BitMin>(r); }
template <class P> void permCase(Rand& r) {
    unsigned n = r.flip(0.03) ? (unsigned)r.range(20, 26) : (unsigned)r.size(1, 8);
    int k = (int)r.below(5);
    unsigned pairs = n * (n - 1) / 2;
    if (k == 0) { moSwapNeighborhood<P> nh; climb<P, moSwapNeighbor<P>>(r, nh, swaps, n, true, true, "swaps"); }
    else if (k == 1) { moTwoOptExNeighborhood<P> nh; climb<P, moTwoOptExNeighbor<P>>(r, nh, reversals, n, true, true, "reversals"); }
    else if (k == 2) { moOrderNeighborhood<moIndexedSwapNeighbor<P>> nh(pairs); climb<P, moIndexedSwapNeighbor<P>>(r, nh, swaps, n, true, true, "indexed swaps"); }
    else if (k == 3) { moRndWithoutReplNeighborhood<moIndexedSwapNeighbor<P>> nh(pairs); climb<P, moIndexedSwapNeighbor<P>>(r, nh, swaps, n, true, true, "shuffled swaps"); }
    else { moOrderNeighborhood<moShiftNeighbor<P>> nh(n * (n - 1)); climb<P, moShiftNeighbor<P>>(r, nh, shifts, n, true, true, "shifts"); }
    event("permutations");
    if (n == 1) event("no_neighbour");
}
UNIT(climb_permutations, 700, 9000, "permutations,no_neighbour,local_optimum") { if (r.flip()) permCase<Perm>(r); else permCase<PermMin>(r); }

// among several best neighbours the random climbers choose uniformly
template <class B> void tieCase(Rand& r, bool neutral) {
    unsigned n = (unsigned)r.range(3, 6), N_ = 6000;
    typedef moBitNeighbor<typename B::Fitness> N;
    Land land;
    land.kind = 0; land.range = 1;
    struct Tie : public eoEvalFunc<B> {
        unsigned good;
        void operator()(B& b) { int ones = 0; bool g = false; for (unsigned i = 0; i < b.size(); ++i) { ones += b[i]; if (b[i] && i < good) g = true; } double f = ones == 0 ? 0 : g ? 1 : -1; b.fitness(std::is_same<typename B::Fitness, MinF>::value ? -f : f); }
    } full;
    full.good = (unsigned)r.range(2, (int)n);
    moFullEvalByModif<N> ev(full);
    moOrderNeighborhood<N> order(n);
    moRndWithoutReplNeighborhood<N> without(n);
    moNeighborhood<N>& nh = r.flip() ? (moNeighborhood<N>&)order : without;
    moIterContinuator<N> one(1, false);
    moRandomBestHC<N> rb(nh, full, ev, one);
    moNeutralHC<N> nt(nh, full, ev, 1, one);
    std::vector<size_t> c(n);
    for (unsigned k = 0; k < N_; ++k) {
        B b(n, false);
        full(b);
        if (neutral) nt(b); else rb(b);
        for (unsigned i = 0; i < n; ++i) if (b[i]) ++c[i];
    }
    for (unsigned i = 0; i < n; ++i)
        if (i < full.good) CHECK(!deviates(c[i], N_, 1.0 / full.good), "ties", "best neighbour ", i, " of ", full.good, " chosen ", c[i], " times of ", N_);
        else CHECK(c[i] == 0, "ties", "a worse neighbour was chosen");
    event("ties");
}
UNIT(ties, 16, 60, "ties") { if (r.flip()) tieCase<Bit>(r, r.flip()); else tieCase<BitMin>(r, r.flip()); }

// comparators
template <class B> void cmpCase(Rand& r) {
    typedef moBitNeighbor<typename B::Fitness> N;
    double v[] = {0, 1, -1, 1e-12, 1e300, -1e300, 2.5, 2.5000000001};
    B a(3), b(3);
    N n, m;
    double x = r.pick(std::vector<double>(v, v + 8)), y = r.pick(std::vector<double>(v, v + 8));
    a.fitness(x); b.fitness(y); n.fitness(x); m.fitness(y);
    bool lt = std::is_same<typename B::Fitness, MinF>::value ? x > y : x < y, eq = x == y;
    moSolComparator<B> s; moEqualSolComparator<B> es;
    moNeighborComparator<N> c; moEqualNeighborComparator<N> ec;
    moSolNeighborComparator<N> sn; moEqualSolNeighborComparator<N> esn;
    CHECK(s(a, b) == lt && c(n, m) == lt && sn(a, m) == lt, "comparator", "comparing ", x, " and ", y);
    CHECK(es(a, b) == (lt || eq) && ec(n, m) == (lt || eq) && esn(a, m) == (lt || eq), "comparator", "comparing with equality ", x, " and ", y);
    CHECK(s.equals(a, b) == eq && es.equals(a, b) == eq && c.equals(n, m) == eq && ec.equals(n, m) == eq && sn.equals(a, m) == eq && esn.equals(a, m) == eq, "comparator", "equality of ", x, " and ", y);
    event("compared");
}
UNIT(comparators, 400, 2000, "compared") { if (r.flip()) cmpCase<Bit>(r); else cmpCase<BitMin>(r); }
