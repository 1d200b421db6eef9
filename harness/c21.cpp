// C21: neighbourhood statistics, trajectory statistics and samplings describe exactly what happened.
#include "c21.h"
#include <continuator/moVectorMonitor.h>
#include <continuator/moBestSoFarStat.h>
#include <continuator/moValueStat.h>
#include <continuator/moUnsignedStat.h>
#include <continuator/moBooleanStat.h>
#include <continuator/moStatFromStat.h>
#include <continuator/moMinusOneCounterStat.h>
#include <continuator/moCounterMonitorSaver.h>
#include <continuator/moQuartilesNeighborStat.h>
#include <sampling/moStatistics.h>

template <class S, class N> void around(Rand& r, moNeighborhood<N>& nh, Around hand, unsigned n, bool perm, const char* name) {
    Land land(r);
    Full<S> full(land, false);
    moFullEvalByCopy<N> ev(full);
    moNeighborhoodStat<N> st(nh, ev);
    moAverageFitnessNeighborStat<N> avg(st);
    moStdFitnessNeighborStat<N> sd(st);
    moMinNeighborStat<N> mn(st);
    moMaxNeighborStat<N> mx(st);
    moNbSupNeighborStat<N> sup(st);
    moNbInfNeighborStat<N> inf(st);
    moNeutralDegreeNeighborStat<N> nd(st);
    moSizeNeighborStat<N> sz(st);
    moQ1NeighborStat<N> q1(st);
    moMedianNeighborStat<N> q2(st);
    moQ3NeighborStat<N> q3(st);
    moSecondMomentNeighborStat<N> m2(st);
    moQuartilesNeighborStat<N> qu(st);
    moNeighborBestStat<N> nb(nh, ev);
    Quiet q;
    moNeighborFitnessStat<N> nf(nh, ev);
    moTrueContinuator<N> tc;
    moCheckpoint<N> cp(tc);
    cp.add(st); cp.add(avg); cp.add(sd); cp.add(mn); cp.add(mx); cp.add(sup); cp.add(inf); cp.add(nd); cp.add(sz); cp.add(q1); cp.add(q2); cp.add(q3); cp.add(m2); cp.add(qu); cp.add(nb); cp.add(nf);
    for (int k = 0; k < 4; ++k) {
        S s = make<S>(r, n, perm);
        full(s);
        G g = vals(s);
        double before = val(s);
        if (k == 0 || r.flip(0.3)) cp.init(s);
        else cp(s);
        CHECK(vals(s) == g && !s.invalid() && val(s) == before, "touched", name, ": the statistics changed the solution");
        Hand<S> h(land, hand, g);
        if (h.n == 0) {
            CHECK(!st.value(), "no-neighbour", name, ": a solution of size ", n, " without neighbour is reported to have some");
            event("no_neighbour");
            continue;
        }
        CHECK(st.value(), "has-neighbour", name, ": a solution with ", h.n, " neighbours is reported to have none");
        CHECK(sz.value() == h.n && st.getSize() == h.n, "size", name, ": ", sz.value(), " neighbours instead of ", h.n);
        CHECK(sup.value() == h.sup && st.getNbSup() == h.sup, "better", name, ": ", sup.value(), " better neighbours instead of ", h.sup, " of ", h.n);
        CHECK(inf.value() == h.inf && st.getNbInf() == h.inf, "worse", name, ": ", inf.value(), " worse neighbours instead of ", h.inf, " of ", h.n);
        CHECK(nd.value() == h.eq && st.getNbEqual() == h.eq, "neutral", name, ": ", nd.value(), " neutral neighbours instead of ", h.eq, " of ", h.n);
        CHECK((double)mx.value() == h.best && (double)st.getMax() == h.best, "best", name, ": best neighbour ", (double)mx.value(), " instead of ", h.best);
        CHECK((double)mn.value() == h.worst && (double)st.getMin() == h.worst, "worst", name, ": worst neighbour ", (double)mn.value(), " instead of ", h.worst);
        CHECK((double)nb.value() == h.best, "neighbour-best", name, ": best neighbour statistic ", (double)nb.value(), " instead of ", h.best);
        CHECK(std::binary_search(h.raw.begin(), h.raw.end(), (double)nf.value()), "neighbour-fitness", name, ": no neighbour has fitness ", (double)nf.value());
        CHECK(h.near(avg.value(), h.mean) && h.near(st.getMean(), h.mean) && h.near(m2.value().first, h.mean), "mean", name, ": mean ", avg.value(), " instead of ", h.mean, " over ", h.n);
        CHECK(h.near(sd.value(), h.sd) && h.near(st.getSD(), h.sd) && h.near(m2.value().second, h.sd), "deviation", name, ": deviation ", sd.value(), " instead of ", h.sd, " over ", h.n);
        CHECK((double)q1.value() == h.q1 && (double)st.getQ1() == h.q1 && qu.value().first == h.q1, "q1", name, ": first quartile ", (double)q1.value(), " instead of ", h.q1, " over ", h.n);
        CHECK((double)q2.value() == h.q2 && (double)st.getMedian() == h.q2, "median", name, ": median ", (double)q2.value(), " instead of ", h.q2, " over ", h.n);
        CHECK((double)q3.value() == h.q3 && (double)st.getQ3() == h.q3 && qu.value().second == h.q3, "q3", name, ": third quartile ", (double)q3.value(), " instead of ", h.q3, " over ", h.n);
        event("neighbourhood");
        if (h.n > 256) event("large_neighbourhood");
        if (h.eq) event("neutral");
        state(hvec(h.raw, h.n));
        if (k == 1) {
            // other comparators: reversed among neighbours, everything equal to the solution
            Rev<N> rev;
            Flat<N> flat;
            moNeighborhoodStat<N> other(nh, ev, rev, flat);
            other(s);
            CHECK((double)other.getMax() == h.worst && (double)other.getMin() == h.best, "comparator", name, ": the neighbour comparator is not used: ", (double)other.getMax(), " ", (double)other.getMin());
            CHECK(other.getNbEqual() == h.n && other.getNbSup() == 0 && other.getNbInf() == 0, "sol-comparator", name, ": the solution comparator is not used");
            moNeighborBestStat<N> ob(nh, ev, rev, flat);
            ob(s);
            CHECK((double)ob.value() == h.worst, "best-comparator", name, ": the neighbour comparator is not used for the best neighbour");
            unsigned kk = (unsigned)r.range(1, h.n + 2);
            struct Seen : public moEval<N> {
                moEval<N>& in; std::vector<typename N::EOT::Fitness> got;
                Seen(moEval<N>& e) : in(e) {}
                void operator()(typename N::EOT& x, N& y) { in(x, y); got.push_back(y.fitness()); }
            } seen(ev);
            moNeighborBestStat<N> part(nh, seen, kk);
            part(s);
            CHECK(seen.got.size() == std::min<size_t>(kk, h.n), "best-of-k", name, ": visits ", seen.got.size(), " neighbours instead of ", kk, " of ", h.n);
            if (!seen.got.empty()) CHECK(part.value() == *std::max_element(seen.got.begin(), seen.got.end()), "best-of-k", name, ": not the best of the ", kk, " visited neighbours");
            CHECK(std::binary_search(h.raw.begin(), h.raw.end(), (double)part.value()), "best-of-k", name, ": best of ", kk, " neighbours is ", (double)part.value());
            if (kk >= h.n) CHECK((double)part.value() == h.best, "best-of-all", name, ": best of ", kk, " neighbours out of ", h.n, " is ", (double)part.value(), " instead of ", h.best);
            event("comparator");
        }
    }
}
UNIT(neighbourhood_bits, 500, 12000, "neighbourhood,neutral,comparator,large_neighbourhood") {
    unsigned n = idx % 12 == 0 ? (unsigned)r.range(257, 400) : idx % 5 == 0 ? 1 : (unsigned)r.range(1, 40);
    int k = (int)r.below(4);
    if (r.flip()) {
        typedef moBitNeighbor<double> N;
        if (k == 0) { moRndWithoutReplNeighborhood<N> nh(n); around<Bit, N>(r, nh, flips, n, false, "shuffled flips"); }
        else { moOrderNeighborhood<N> nh(n); around<Bit, N>(r, nh, flips, n, false, "flips"); }
    } else {
        typedef moBitNeighbor<MinF> N;
        if (k == 0) { moRndWithoutReplNeighborhood<N> nh(n); around<BitMin, N>(r, nh, flips, n, false, "shuffled flips (min)"); }
        else { moOrderNeighborhood<N> nh(n); around<BitMin, N>(r, nh, flips, n, false, "flips (min)"); }
    }
}
UNIT(neighbourhood_perms, 250, 6000, "neighbourhood,neutral,comparator") {
    unsigned n = idx % 15 == 0 ? (unsigned)r.range(24, 34) : (unsigned)r.range(2, 10);
    int k = (int)r.below(2);
    if (r.flip()) {
        if (k == 0) { moSwapNeighborhood<Perm> nh; around<Perm, moSwapNeighbor<Perm>>(r, nh, swaps, n, true, "swaps"); }
        else { moOrderNeighborhood<moIndexedSwapNeighbor<Perm>> nh(n * (n - 1) / 2); around<Perm, moIndexedSwapNeighbor<Perm>>(r, nh, swaps, n, true, "indexed swaps"); }
    } else {
        if (k == 0) { moSwapNeighborhood<PermMin> nh; around<PermMin, moSwapNeighbor<PermMin>>(r, nh, swaps, n, true, "swaps (min)"); }
        else { moRndWithoutReplNeighborhood<moIndexedSwapNeighbor<PermMin>> nh(n * (n - 1) / 2); around<PermMin, moIndexedSwapNeighbor<PermMin>>(r, nh, swaps, n, true, "shuffled swaps (min)"); }
    }
}

// ------------------------------------------------------------------ statistics along a run
struct Up : public eoUpdater { int* log; std::vector<int>* order; int id; int lasts = 0, n = 0; Up(std::vector<int>& o, int i) : order(&o), id(i) {} void operator()() { ++n; order->push_back(id); } void lastCall() { ++lasts; } };
struct MUp : public moUpdater { std::vector<int>* order; int id; int inits = 0, lasts = 0, n = 0; MUp(std::vector<int>& o, int i) : order(&o), id(i) {} void init() { ++inits; } void operator()() { ++n; order->push_back(id); } void lastCall() { ++lasts; } };
struct Mon : public eoMonitor { std::vector<int>* order; int id; int lasts = 0, n = 0; Mon(std::vector<int>& o, int i) : order(&o), id(i) {} eoMonitor& operator()() { ++n; order->push_back(id); return *this; } void lastCall() { ++lasts; } };
template <class S> struct St : public moStat<S, unsigned> { std::vector<int>* order; int id; int inits = 0, lasts = 0, n = 0; std::vector<G> seen; St(std::vector<int>& o, int i) : moStat<S, unsigned>(0, "st"), order(&o), id(i) {} void init(S& s) { ++inits; seen.push_back(vals(s)); } void operator()(S& s) { ++n; seen.push_back(vals(s)); order->push_back(id); } void lastCall(S&) { ++lasts; } };
template <class N> struct Co : public moContinuator<N> { std::vector<int>* order; int id; int inits = 0, n = 0, stop; Co(std::vector<int>& o, int i, int s) : order(&o), id(i), stop(s) {} void init(typename N::EOT&) { ++inits; n = 0; } bool operator()(typename N::EOT&) { ++n; order->push_back(id); return n < stop; } };
template <class S, class N> void checkpoint(Rand& r) {
    std::vector<int> order;
    unsigned interval = r.flip() ? 1 : (unsigned)r.range(2, 7);
    int ns = (int)r.below(5), nu = (int)r.below(4), nm = (int)r.below(4), nk = (int)r.below(4), nc = (int)r.range(1, 4);
    std::vector<std::shared_ptr<St<S>>> st;
    std::vector<std::shared_ptr<Up>> up;
    std::vector<std::shared_ptr<MUp>> mu;
    std::vector<std::shared_ptr<Mon>> mo;
    std::vector<std::shared_ptr<Co<N>>> co;
    int stop = 1 << 30;
    for (int i = 0; i < nc; ++i) { int s = (int)r.range(1, 30); stop = std::min(stop, s); co.push_back(std::make_shared<Co<N>>(order, 400 + i, s)); }
    moCheckpoint<N> cp(*co[0], interval);
    std::vector<std::function<void()>> adds;
    for (int i = 1; i < nc; ++i) cp.add(*co[i]);
    for (int i = 0; i < nu; ++i) { up.push_back(std::make_shared<Up>(order, 100 + i)); cp.add(*up[i]); }
    for (int i = 0; i < nm; ++i) { mu.push_back(std::make_shared<MUp>(order, 200 + i)); cp.add(*mu[i]); }
    for (int i = 0; i < nk; ++i) { mo.push_back(std::make_shared<Mon>(order, 300 + i)); cp.add(*mo[i]); }
    for (int i = 0; i < ns; ++i) { st.push_back(std::make_shared<St<S>>(order, i)); cp.add(*st[i]); }
    Land land(r);
    Full<S> full(land, false);
    for (int run = 0; run < 2; ++run) {
        S s = make<S>(r, (unsigned)r.range(1, 9), false);
        full(s);
        for (auto& x : st) { x->seen.clear(); x->n = 0; }
        order.clear();
        cp.init(s);
        std::vector<int> want;
        for (int i = 0; i < nk; ++i) want.push_back(300 + i);
        CHECK(order == want, "init-calls", "initialisation of a checkpoint calls ", show(order), " instead of the monitors ", show(want));
        for (auto& x : co) CHECK(x->inits == run + 1, "init-continuators", x->inits, " initialisations of a continuator in run ", run);
        for (auto& x : mu) CHECK(x->inits == run + 1, "init-updaters", x->inits, " initialisations of an updater in run ", run);
        for (auto& x : st) CHECK(x->inits == run + 1, "init-stats", x->inits, " initialisations of a statistic in run ", run);
        std::vector<G> seen(1, vals(s));
        int k = 0;
        for (bool go = true; go;) {
            ++k;
            s = make<S>(r, (unsigned)r.range(1, 9), false);
            full(s);
            order.clear();
            go = cp(s);
            CHECK(go == (k < stop), "continue", "call ", k, ": the checkpoint says ", go, ", the first stop is at ", stop);
            bool due = (unsigned)k % interval == 0;
            if (due) seen.push_back(vals(s));
            want.clear();
            if (due) for (int i = 0; i < ns; ++i) want.push_back(i);
            for (int i = 0; i < nu; ++i) want.push_back(100 + i);
            for (int i = 0; i < nm; ++i) want.push_back(200 + i);
            for (int i = 0; i < nk; ++i) want.push_back(300 + i);
            for (int i = 0; i < nc; ++i) want.push_back(400 + i);
            std::vector<int> got = order, w = want;
            std::stable_sort(got.begin(), got.end());
            CHECK(got == w, "calls", "call ", k, " with interval ", interval, " and ", ns, " statistics makes the calls ", show(order), " instead of ", show(want));
            for (size_t i = 1; i < order.size(); ++i) CHECK(order[i - 1] / 100 <= order[i] / 100 || (order[i - 1] / 100 != 0 && order[i] / 100 != 0 && order[i - 1] / 100 != 4), "order", "call ", k, ": calls in the order ", show(order));
            event("checkpoint_call");
            if (interval > 1 && ns > 1) event("interval_several");
        }
        for (auto& x : st) CHECK(x->seen == seen, "seen", "a statistic with interval ", interval, " among ", ns, " saw ", x->seen.size(), " solutions instead of ", seen.size(), " or others");
        cp.lastCall(s);
        for (auto& x : st) CHECK(x->lasts == run + 1, "last-stats", x->lasts, " last calls of a statistic");
        for (auto& x : up) CHECK(x->lasts == run + 1, "last-updaters", x->lasts, " last calls of an updater");
        for (auto& x : mu) CHECK(x->lasts == run + 1, "last-moupdaters", x->lasts, " last calls of an updater");
        for (auto& x : mo) CHECK(x->lasts == run + 1, "last-monitors", x->lasts, " last calls of a monitor");
    }
    {   // a monitor called every so often
        unsigned iv = (unsigned)r.range(1, 9);
        std::vector<int> o;
        Mon a(o, 1), b(o, 2);
        moCounterMonitorSaver cs(iv, a);
        cs.add(b);
        unsigned n = (unsigned)r.range(1, 40);
        for (unsigned i = 0; i < n; ++i) {
            cs();
            int want = (int)(i / iv) + 1;
            CHECK(a.n == want && b.n == want, "saver", "monitors called ", a.n, " and ", b.n, " times after ", i + 1, " calls with interval ", iv);
        }
        cs.lastCall();
        CHECK(a.lasts == 1 && b.lasts == 1, "saver-last", "last calls ", a.lasts, " ", b.lasts);
    }
    state(mix((u64)interval * 100 + ns, (u64)stop));
}
UNIT(checkpoints, 400, 8000, "checkpoint_call,interval_several") {
    if (r.flip()) checkpoint<Bit, moBitNeighbor<double>>(r);
    else checkpoint<BitMin, moBitNeighbor<MinF>>(r);
}

template <class S, class N> void along(Rand& r) {
    Land land(r);
    Full<S> full(land, false);
    unsigned n = (unsigned)r.range(1, 20);
    S ref = make<S>(r, n, false);
    full(ref);
    G refG = vals(ref);
    moCounterStat<S> counter;
    moMinusOneCounterStat<S> minus;
    moFitnessStat<S> fit;
    moBestFitnessStat<S> bestRe, bestKeep(false);
    moBestSoFarStat<S> solRe, solKeep(false);
    eoHammingDistance<S> ham;
    eoL1Distance<S> l1;
    moDistanceStat<S> dist(ham, ref);
    moDistanceStat<S, unsigned> distU(l1, ref);
    moSolutionStat<S> sol;
    bool flag = false;
    unsigned uns = 3;
    moBooleanStat<S> bst(&flag);
    moUnsignedStat<S> ust(&uns);
    eoValueParam<unsigned long> par(17, "p");
    moValueStat<S, unsigned long> vRe(par, true), vAbs(par);
    moStatFromStat<S, double> copy(vRe);
    moStatFromStat<S, unsigned> copyC(counter);
    moTrueContinuator<N> tc;
    moCheckpoint<N> cp(tc);
    moVectorMonitor<S> mFit(fit), mCounter(counter), mSol(sol), mDist(dist), mV(vRe), mPar(par);
    cp.add(counter); cp.add(minus); cp.add(fit); cp.add(bestRe); cp.add(bestKeep); cp.add(solRe); cp.add(solKeep); cp.add(dist); cp.add(distU); cp.add(sol); cp.add(bst); cp.add(ust); cp.add(vRe); cp.add(vAbs); cp.add(copy); cp.add(copyC);
    cp.add(mFit); cp.add(mCounter); cp.add(mSol); cp.add(mDist); cp.add(mV); cp.add(mPar);
    for (unsigned i = 0; i < n; ++i) ref[i] = !ref[i]; // the reference was copied
    double everBest = -INFINITY;
    std::vector<double> wFit, wCounter, wDist, wV, wPar;
    std::vector<G> wSol;
    G everG;
    CHECK(mSol.solutionType() && !mFit.solutionType(), "solution-type", "wrong kind of monitor");
    for (int run = 0; run < 3; ++run) {
        unsigned steps = (unsigned)r.below(25);
        double runBest = -INFINITY;
        G runG;
        unsigned long start = par.value();
        for (unsigned k = 0; k <= steps; ++k) {
            S s = make<S>(r, n, false);
            full(s);
            flag = r.flip();
            uns = (unsigned)r.below(1000);
            if (k) par.value() += r.below(10);
            if (k == 0) cp.init(s);
            else cp(s);
            double q = qual(s);
            G g = vals(s);
            if (q > runBest) { runBest = q; runG = g; }
            if (q > everBest) { everBest = q; everG = g; }
            double h = 0;
            for (unsigned i = 0; i < n; ++i) h += g[i] != refG[i];
            CHECK(counter.value() == k && copyC.value() == k, "counter", counter.value(), " and copy ", copyC.value(), " after ", k, " iterations");
            CHECK(minus.value() == (k ? k - 1 : 0), "minus-counter", minus.value(), " after ", k, " iterations");
            CHECK(fit.value() == s.fitness(), "fitness", "fitness statistic ", (double)fit.value(), " instead of ", val(s));
            CHECK(good(bestRe.value()) == runBest, "best", "best fitness of the run ", (double)bestRe.value());
            CHECK(good(bestKeep.value()) == everBest, "best-ever", "best fitness of all runs ", (double)bestKeep.value(), " in run ", run);
            CHECK(qual(solRe.value()) == runBest && vals(solRe.value()) == runG, "best-solution", "best solution of the run ", show(vals(solRe.value())), " instead of ", show(runG));
            CHECK(qual(solKeep.value()) == everBest && vals(solKeep.value()) == everG, "best-solution-ever", "best solution of all runs ", show(vals(solKeep.value())), " instead of ", show(everG), " in run ", run);
            CHECK(dist.value() == h && distU.value() == (unsigned)h, "distance", "distance ", dist.value(), " and ", distU.value(), " instead of ", h);
            CHECK(vals(sol.value()) == g && sol.value().fitness() == s.fitness(), "solution", "solution statistic differs");
            CHECK(bst.value() == flag && ust.value() == uns, "variable", "boolean ", bst.value(), " unsigned ", ust.value());
            CHECK(vRe.value() == (double)(par.value() - start) && copy.value() == vRe.value(), "value-restart", vRe.value(), " copy ", copy.value(), " instead of ", par.value() - start);
            CHECK(vAbs.value() == (double)par.value(), "value", vAbs.value(), " instead of ", par.value());
            wFit.push_back(val(s)); wCounter.push_back(k); wDist.push_back(h); wV.push_back((double)(par.value() - start)); wPar.push_back((double)par.value()); wSol.push_back(g);
            event("iteration");
            if (run) event("later_run");
        }
    }
    CHECK(mFit.getValues() == wFit, "monitor-fitness", "recorded fitness values ", show(mFit.getValues()), " instead of ", show(wFit));
    CHECK(mCounter.getValues() == wCounter && mDist.getValues() == wDist && mV.getValues() == wV && mPar.getValues() == wPar, "monitor-values", "recorded values differ");
    CHECK(mSol.getSolutions().size() == wSol.size() && mFit.size() == wSol.size() && mSol.size() == wSol.size(), "monitor-size", mSol.size(), " solutions recorded instead of ", wSol.size());
    for (size_t i = 0; i < wSol.size(); ++i) CHECK(vals(mSol.getSolutions()[i]) == wSol[i], "monitor-solution", "recorded solution ", i, " differs");
    // export
    std::string f = std::string(scratch()) + "/vec.txt";
    unsigned prec = (unsigned)r.range(3, 17);
    mFit.precision(prec);
    mFit.fileExport(f);
    mCounter.fileExport(f, true);
    std::ifstream in(f);
    std::string line;
    std::vector<std::string> lines;
    while (std::getline(in, line)) lines.push_back(line);
    CHECK(lines.size() == 2 * wFit.size(), "export-lines", lines.size(), " exported lines for ", wFit.size(), " values exported twice");
    for (size_t i = 0; i < wFit.size(); ++i) {
        std::ostringstream os;
        os.precision(prec);
        os << wFit[i];
        CHECK(lines[i] == os.str() && mFit.getValue((unsigned)i) == os.str(), "export", "line ", i, " is '", lines[i], "' instead of '", os.str(), "'");
        CHECK(lines[wFit.size() + i] == cat(wCounter[i]), "export-append", "line ", i, " is '", lines[wFit.size() + i], "' instead of ", wCounter[i]);
    }
    mFit.clear();
    mSol.clear();
    CHECK(mFit.size() == 0 && mSol.size() == 0 && mFit.getValues().empty(), "clear", "values left after clearing");
    event("export");
    state(hvec(wFit, wFit.size()));
}
UNIT(along_runs, 400, 8000, "iteration,later_run,export") {
    if (r.flip()) along<Bit, moBitNeighbor<double>>(r);
    else along<BitMin, moBitNeighbor<MinF>>(r);
}

// ------------------------------------------------------------------ numerical summaries
UNIT(summaries, 800, 20000, "basic,distances,autocorrelation") {
    moStatistics st;
    {
        size_t n = idx % 20 == 0 ? 0 : idx % 7 == 0 ? 1 : (size_t)r.size(1, 400);
        std::vector<double> d(n);
        int how = (int)r.below(4);
        double off = how == 3 ? r.real(-1000, 1000) : 0;
        for (auto& x : d) x = how == 0 ? (double)r.range(-5, 5) : how == 1 ? off + 0.1 : off + r.real(-10, 10);
        double mn, mx, av, sd;
        st.basic(d, mn, mx, av, sd);
        long double s = 0, q = 0;
        double lo = n ? d[0] : 0, hi = lo, mag = 0;
        for (double x : d) { s += x; lo = std::min(lo, x); hi = std::max(hi, x); mag = std::max(mag, std::fabs(x)); }
        long double m = n ? s / n : 0;
        for (double x : d) q += (x - m) * (x - m);
        double var = n ? (double)(q / n) : 0;
        CHECK(mn == lo && mx == hi, "basic-extremes", "minimum ", mn, " maximum ", mx, " instead of ", lo, " ", hi, " over ", n);
        CHECK(close(av, (double)m, 1e-9, 1e-9 * (1 + mag)), "basic-mean", av, " instead of ", (double)m, " over ", n);
        CHECK(sd >= 0 && std::fabs(sd * sd - var) <= 1e-9 * (1 + mag * mag), "basic-deviation", "deviation ", sd, " instead of ", std::sqrt(var), " over ", n, " values");
        event("basic");
        state(hvec(d, n));
    }
    {
        typedef eoBit<double> B;
        size_t n = r.flip(0.1) ? 0 : (size_t)r.range(1, 25);
        std::vector<B> pts;
        for (size_t i = 0; i < n; ++i) pts.push_back(make<B>(r, 8, false));
        eoHammingDistance<B> h;
        std::vector<std::vector<double>> mat((size_t)r.below(5), std::vector<double>(3, 9.));
        st.distances(pts, h, mat);
        CHECK(mat.size() == n, "matrix-size", mat.size(), " rows for ", n, " solutions");
        for (size_t i = 0; i < n; ++i) {
            CHECK(mat[i].size() == n, "matrix-size", mat[i].size(), " columns for ", n, " solutions");
            for (size_t j = 0; j < n; ++j) { double w = 0; for (int k = 0; k < 8; ++k) w += pts[i][k] != pts[j][k]; CHECK(mat[i][j] == w, "matrix", "distance of ", i, " and ", j, ": ", mat[i][j], " instead of ", w); }
        }
        event("distances");
    }
    {
        size_t n = (size_t)r.range(6, 300);
        unsigned lag = (unsigned)r.below(std::min<size_t>(n - 4, 30));
        std::vector<double> d(n);
        double x = 0, a = r.real(-0.9, 0.9);
        for (auto& v : d) v = x = a * x + r.real(-1, 1);
        double scale = std::pow(10, r.real(-6, 6)), shift = r.flip() ? 0 : r.real(-20, 20), second = 0;
        for (auto& v : d) { v = (v + shift) * scale; second = std::max(second, v * v); }
        std::vector<double> rho, phi;
        st.autocorrelation(d, lag, rho, phi);
        CHECK(rho.size() == lag + 1 && phi.size() == lag + 1 && rho[0] == 1 && phi[0] == 1, "autocorrelation-size", rho.size(), " and ", phi.size(), " coefficients for lag ", lag);
        std::vector<double> want(1, 1.0);
        bool sound = true;
        for (unsigned s = 1; s <= lag; ++s) {
            size_t c = n - s;
            long double m0 = 0, m1 = 0, v0 = 0, v1 = 0, cv = 0;
            for (size_t i = 0; i < c; ++i) { m0 += d[i]; m1 += d[i + s]; }
            m0 /= c; m1 /= c;
            for (size_t i = 0; i < c; ++i) { v0 += (d[i] - m0) * (d[i] - m0); v1 += (d[i + s] - m1) * (d[i + s] - m1); cv += (d[i] - m0) * (d[i + s] - m1); }
            want.push_back((double)(cv / sqrtl(v0 * v1)));
            if (v0 / c < 1e-6 * second || v1 / c < 1e-6 * second) sound = false;
            if (sound) CHECK(close(rho[s], want[s], 1e-7, 1e-7), "autocorrelation", "lag ", s, " of ", n, " values: ", rho[s], " instead of ", want[s]);
        }
        // partial autocorrelations by solving the Yule-Walker equations
        for (unsigned k = 1; k <= lag && k <= 6 && sound; ++k) {
            std::vector<std::vector<long double>> A(k, std::vector<long double>(k + 1));
            for (unsigned i = 0; i < k; ++i) { for (unsigned j = 0; j < k; ++j) A[i][j] = want[i > j ? i - j : j - i]; A[i][k] = want[i + 1]; }
            bool ok = true;
            for (unsigned i = 0; i < k && ok; ++i) {
                unsigned p = i;
                for (unsigned j = i; j < k; ++j) if (fabsl(A[j][i]) > fabsl(A[p][i])) p = j;
                std::swap(A[i], A[p]);
                if (fabsl(A[i][i]) < 0.02) { ok = false; break; }
                for (unsigned j = 0; j < k; ++j) if (j != i) { long double f = A[j][i] / A[i][i]; for (unsigned c = i; c <= k; ++c) A[j][c] -= f * A[i][c]; }
            }
            if (!ok) break;
            double w = (double)(A[k - 1][k] / A[k - 1][k - 1]);
            CHECK(close(phi[k], w, 1e-4, 1e-4), "partial", "partial autocorrelation ", k, " of ", n, " values: ", phi[k], " instead of ", w);
            event("partial");
        }
        event("autocorrelation");
    }
}
