// C18: incremental evaluation of a neighbour equals full evaluation of the moved solution.
#include "eoh.h"
#include <ga.h>
#include <eoInt.h>
#include <mo>
#include <eval/moFullEvalByCopy.h>
#include <eval/moFullEvalByModif.h>
#include <eval/moEvalCounter.h>
#include <eval/moDoubleIncrNeighborhoodEval.h>
#include <eval/oneMaxEval.h>
#include <eval/royalRoadEval.h>
#include <eval/nkLandscapesEval.h>
#include <eval/maxSATeval.h>
#include <eval/qapEval.h>
#include <eval/ubqpEval.h>
#include <problems/bitString/moBitNeighbor.h>
#include <problems/bitString/moBitsNeighbor.h>
#include <problems/bitString/moBitsWithReplNeighborhood.h>
#include <problems/bitString/moBitsWithoutReplNeighborhood.h>
#include <problems/permutation/moIndexedSwapNeighbor.h>
#include <problems/permutation/moShiftNeighbor.h>
#include <problems/permutation/moSwapNeighborhood.h>
#include <problems/permutation/moTwoOptExNeighborhood.h>
#include <problems/eval/moMaxSATincrEval.h>
#include <problems/eval/moNKlandscapesBitsIncrEval.h>
#include <problems/eval/moNKlandscapesIncrEval.h>
#include <problems/eval/moOneMaxBitsIncrEval.h>
#include <problems/eval/moOneMaxIncrEval.h>
#include <problems/eval/moQAPIncrEval.h>
#include <problems/eval/moRoyalRoadIncrEval.h>
#include <problems/eval/moUBQPBitsIncrEval.h>
#include <problems/eval/moUBQPSimpleIncrEval.h>
#include <problems/eval/moUBQPdoubleIncrEvaluation.h>
#include <fstream>
using namespace eoh;
typedef eoBit<double> Bit;
typedef eoBit<MinF> BitMin;
typedef eoInt<double> Perm;
typedef eoInt<MinF> PermMin;
template <class B> B bits(Rand& r, unsigned n) { B b(n); int how = (int)r.below(4); for (unsigned i = 0; i < n; ++i) b[i] = how == 0 ? false : how == 1 ? true : r.flip(); return b; }
template <class P> P perm(Rand& r, unsigned n) { P p(n); for (unsigned i = 0; i < n; ++i) p[i] = i; r.shuffle(p); return p; }
template <class V> std::vector<long> vals(const V& v) { std::vector<long> o; for (size_t i = 0; i < v.size(); ++i) o.push_back((long)v[i]); return o; }
static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }

// one neighbour: incremental value against full evaluation of a moved copy
template <class S, class N> void agree(S& s, N& n, moEval<N>& incr, eoEvalFunc<S>& full, const char* what) {
    std::vector<long> before = vals(s);
    double f = val(s);
    incr(s, n);
    CHECK(vals(s) == before, "solution-changed", what, ": evaluating a neighbour changes the solution ", show(before), " -> ", show(vals(s)));
    CHECK(!s.invalid() && val(s) == f, "solution-fitness-changed", what, ": evaluating a neighbour changes the fitness ", f, " -> ", s.invalid() ? NAN : val(s));
    if (n.invalid()) { fail("not-evaluated", cat(what, ": the neighbour has no fitness")); return; }
    S m(s);
    n.move(m);
    m.invalidate();
    full(m);
    CHECK(near(val(n), val(m)), "incremental", what, ": incremental ", val(n), " full ", val(m), " from ", show(before), " to ", show(vals(m)));
    event("evaluated");
    state(hvec(vals(m), hdbl(val(m))));
}
// a history: enumerate or draw neighbours, apply some with the incremental value
template <class S, class N, class NH> void history(Rand& r, S s, NH& nh, moEval<N>& incr, eoEvalFunc<S>& full, const char* what) {
    full(s);
    N n;
    size_t budget = s.size() > 100 ? 60 : 120;
    for (int step = 0; step < 6 && budget; ++step) {
        if (!nh.hasNeighbor(s)) return;
        nh.init(s, n);
        size_t pick = r.below(s.size() + 1), k = 0;
        while (true) {
            agree(s, n, incr, full, what);
            if (budget) --budget;
            if (k == pick || !nh.cont(s) || !budget) break;
            nh.next(s, n);
            ++k;
        }
        n.move(s);
        s.fitness(n.fitness());
        event("applied");
    }
    double f = val(s);
    s.invalidate();
    full(s);
    CHECK(near(val(s), f), "drift", what, ": after several moves the carried fitness is ", f, ", the real one ", val(s));
}
template <class B> void bitHistories(Rand& r, unsigned n, moEval<moBitNeighbor<typename B::Fitness>>& incr, eoEvalFunc<B>& full, const char* what) {
    typedef moBitNeighbor<typename B::Fitness> N;
    moOrderNeighborhood<N> order(n);
    moRndWithoutReplNeighborhood<N> without(n);
    history<B, N>(r, bits<B>(r, n), order, incr, full, what);
    history<B, N>(r, bits<B>(r, n), without, incr, full, what);
}
template <class B> void bitsHistories(Rand& r, unsigned n, moEval<moBitsNeighbor<B>>& incr, eoEvalFunc<B>& full, const char* what) {
    typedef moBitsNeighbor<B> N;
    unsigned d = (unsigned)r.range(1, (int)std::min(n, 3u));
    bool exact = r.flip(0.3);
    moBitsWithReplNeighborhood<N> with(n, d, 30, exact);
    history<B, N>(r, bits<B>(r, n), with, incr, full, what);
    if (n <= 20) { moBitsWithoutReplNeighborhood<N> without(n, d, 0, exact); history<B, N>(r, bits<B>(r, n), without, incr, full, what); }
}
static unsigned len(Rand& r) { return r.flip(0.05) ? (unsigned)r.range(260, 400) : (unsigned)r.size(1, 20); }
template <class B> void onemaxCase(Rand& r) {
    unsigned n = len(r);
    oneMaxEval<B> full;
    moOneMaxIncrEval<moBitNeighbor<typename B::Fitness>> i1;
    bitHistories<B>(r, n, i1, full, "one-max");
    moOneMaxBitsIncrEval<moBitsNeighbor<B>> i2;
    bitsHistories<B>(r, n, i2, full, "one-max bits");
    event("onemax");
}
UNIT(onemax, 120, 2500, "evaluated,applied,onemax") { if (r.flip()) onemaxCase<Bit>(r); else onemaxCase<BitMin>(r); }
template <class B> void royalCase(Rand& r) {
    unsigned k = (unsigned)r.range(1, 6), n = k * (unsigned)r.range(1, 8) + (r.flip(0.4) ? (unsigned)r.below(k) : 0);
    RoyalRoadEval<B> full(k);
    moRoyalRoadIncrEval<moBitNeighbor<typename B::Fitness>> i(full);
    // nearly full blocks
    typedef moBitNeighbor<typename B::Fitness> N;
    moOrderNeighborhood<N> order(n);
    B s(n, true);
    for (int c = (int)r.below(4); c > 0; --c) s[r.below(n)] = false;
    history<B, N>(r, s, order, i, full, "royal road");
    bitHistories<B>(r, n, i, full, "royal road");
    event(n % k ? "royal_ragged" : "royal");
}
UNIT(royal, 120, 2500, "royal,royal_ragged") { if (r.flip()) royalCase<Bit>(r); else royalCase<BitMin>(r); }
template <class B> void nkCase(Rand& r) {
    unsigned n = r.flip(0.05) ? (unsigned)r.range(100, 200) : (unsigned)r.size(1, 18), k = (unsigned)r.range(0, (int)std::min(n - 1, 6u));
    if (r.flip(0.2) && n <= 8) k = n - 1;
    bool cons = r.flip();
    nkLandscapesEval<B> full((int)n, (int)k, cons);
    moNKlandscapesIncrEval<moBitNeighbor<typename B::Fitness>> i1(full);
    bitHistories<B>(r, n, i1, full, "NK");
    moNKlandscapesBitsIncrEval<moBitsNeighbor<B>> i2(full);
    bitsHistories<B>(r, n, i2, full, "NK bits");
    event(cons ? "nk_consecutive" : "nk_random");
}
UNIT(nk, 100, 2000, "nk_consecutive,nk_random") { if (r.flip()) nkCase<Bit>(r); else nkCase<BitMin>(r); }

static std::string ubqpFile(Rand& r, unsigned& n, unsigned& format, unsigned& inst) {
    std::string name = std::string(scratch()) + "/ubqp.txt";
    std::ofstream f(name);
    unsigned total = (unsigned)r.range(1, 3);
    inst = (unsigned)r.below(total);
    format = (unsigned)r.below(2);
    f << total << "\n";
    for (unsigned k = 0; k < total; ++k) {
        unsigned m = r.flip(0.04) ? (unsigned)r.range(260, 330) : (unsigned)r.size(1, 15);
        if (k == inst) n = m;
        if (format == 0) {
            std::vector<std::array<int, 3>> e;
            for (unsigned i = 1; i <= m; ++i) for (unsigned j = 1; j <= m; ++j) if (r.flip(0.4)) e.push_back({(int)i, (int)j, r.range(-100, 100)});
            f << m << " " << e.size() << "\n";
            for (auto& x : e) f << x[0] << " " << x[1] << " " << x[2] << "\n";
        } else {
            f << m << "\n";
            for (unsigned i = 0; i < m; ++i) { for (unsigned j = 0; j < m; ++j) f << r.range(-100, 100) << " "; f << "\n"; }
        }
    }
    return name;
}
template <class N> struct Checked : public moEval<N> {
    typedef typename N::EOT S;
    moEval<N>& in;
    eoEvalFunc<S>& full;
    const char* what;
    size_t calls = 0;
    Checked(moEval<N>& i, eoEvalFunc<S>& f, const char* w) : in(i), full(f), what(w) {}
    void operator()(S& s, N& n) { ++calls; agree(s, n, in, full, what); }
};
template <class B> void ubqpCase(Rand& r) {
    unsigned n, format, inst;
    std::string name = ubqpFile(r, n, format, inst);
    UbqpEval<B> full(name, format, inst);
    CHECK(full.getNbVar() == (int)n, "ubqp-size", full.getNbVar(), " variables instead of ", n);
    if (full.getNbVar() != (int)n) return;
    typedef moBitNeighbor<typename B::Fitness> N;
    moUBQPSimpleIncrEval<N> i1(full);
    bitHistories<B>(r, n, i1, full, "UBQP");
    moUBQPBitsIncrEval<moBitsNeighbor<B>> i2(full);
    bitsHistories<B>(r, n, i2, full, "UBQP bits");
    event("ubqp");
    if constexpr (std::is_same<B, Bit>::value) {
    // doubly incremental: table of all deltas updated after each move of a search
    moUBQPdoubleIncrEvaluation<N> table(n, i1);
    moDoubleIncrNeighborhoodEval<N> quick(table);
    Checked<N> ev(quick, full, "UBQP double");
    moOrderNeighborhood<N> order(n);
    moEvaluatedNeighborhood<N> nh(order, table);
    moNeighborComparator<N> nc;
    moSolNeighborComparator<N> sc;
    int how = (int)r.below(4);
    moSimpleHCexplorer<N> hc(nh, ev, nc, sc);
    moRandomBestHCexplorer<N> rb(nh, ev, nc, sc);
    moNeutralHCexplorer<N> nt(nh, ev, nc, sc, 8);
    moFirstImprHCexplorer<N> fi(nh, ev, nc, sc);
    moNeighborhoodExplorer<N>& ex = how == 0 ? (moNeighborhoodExplorer<N>&)hc : how == 1 ? (moNeighborhoodExplorer<N>&)rb : how == 2 ? (moNeighborhoodExplorer<N>&)nt : (moNeighborhoodExplorer<N>&)fi;
    table.neighborhoodExplorer(ex);
    for (int run = 0; run < 2; ++run) {
        B s = bits<B>(r, n);
        full(s);
        table.init();
        moIterContinuator<N> it(12, false);
        moLocalSearch<N> ls(ex, it, full);
        ls(s);
        B t(s);
        t.invalidate();
        full(t);
        CHECK(!s.invalid() && near(val(t), val(s)), "drift", "UBQP double: the search ends with fitness ", val(s), ", real ", val(t));
        event("double");
    }
    }
}
UNIT(ubqp, 120, 2500, "ubqp,double") { if (r.flip()) ubqpCase<Bit>(r); else ubqpCase<BitMin>(r); }

template <class B> void satCase(Rand& r) {
    bool large = r.flip(0.1);
    unsigned n = (unsigned)(large ? r.range(5, 60) : r.size(1, 15)), k = (unsigned)r.range(1, (int)std::min(n, 4u)), m = (unsigned)(large ? r.range(300, 900) : r.range(1, 25));
    MaxSATeval<B> full(n, m, k);
    moMaxSATincrEval<moBitNeighbor<typename B::Fitness>> i(full);
    bitHistories<B>(r, n, i, full, "max-SAT");
    std::string name = std::string(scratch()) + "/sat.cnf";
    full.save(name);
    MaxSATeval<B> again(name);
    CHECK(again.nbVar == n && again.nbClauses == m, "sat-size", again.nbVar, " ", again.nbClauses);
    moMaxSATincrEval<moBitNeighbor<typename B::Fitness>> j(again);
    bitHistories<B>(r, n, j, again, "max-SAT from a file");
    { // any formula: clauses of any length, where a variable may appear several times, with either sign
        std::ofstream f(name);
        f << "c any formula\np cnf " << n << " " << m << "\n";
        for (unsigned c = 0; c < m; ++c) {
            for (int l = (int)r.range(1, 6); l > 0; --l) f << (r.flip() ? "-" : "") << 1 + r.below(n) << " ";
            f << "0\n";
        }
    }
    MaxSATeval<B> any(name);
    moMaxSATincrEval<moBitNeighbor<typename B::Fitness>> ia(any);
    bitHistories<B>(r, n, ia, any, "max-SAT with repeated variables");
    event("sat");
}
UNIT(sat, 120, 2500, "sat") { if (r.flip()) satCase<Bit>(r); else satCase<BitMin>(r); }

template <class P, class T> void qapCase(Rand& r) {
    unsigned n = r.flip(0.05) ? (unsigned)r.range(40, 80) : (unsigned)r.size(2, 12);
    std::string name = std::string(scratch()) + "/qap.txt";
    {
        std::ofstream f(name);
        f << n << "\n\n";
        bool sym = r.flip(0.3);
        for (int k = 0; k < 2; ++k) {
            std::vector<std::vector<int>> a(n, std::vector<int>(n));
            for (auto& x : a) for (int& y : x) y = r.range(0, 60);
            if (sym) for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < i; ++j) a[i][j] = a[j][i];
            for (auto& x : a) { for (int y : x) f << y << " "; f << "\n"; }
            f << "\n";
        }
    }
    QAPeval<P, T> full(name);
    typedef moIndexedSwapNeighbor<P> N;
    moQAPIncrEval<N, T> i(full);
    moOrderNeighborhood<N> order(n * (n - 1) / 2);
    moRndWithoutReplNeighborhood<N> without(n * (n - 1) / 2);
    history<P, N>(r, perm<P>(r, n), order, i, full, "QAP");
    history<P, N>(r, perm<P>(r, n), without, i, full, "QAP");
    // no incremental form: through full evaluation
    QAPeval<P, T>& q = full;
    moFullEvalByCopy<moSwapNeighbor<P>> c1(q);
    moFullEvalByModif<moSwapNeighbor<P>> m1(q);
    moSwapNeighborhood<P> nh1;
    history<P, moSwapNeighbor<P>>(r, perm<P>(r, n), nh1, c1, full, "by copy, swap");
    history<P, moSwapNeighbor<P>>(r, perm<P>(r, n), nh1, m1, full, "by modification, swap");
    moFullEvalByCopy<moTwoOptExNeighbor<P>> c2(q);
    moFullEvalByModif<moTwoOptExNeighbor<P>> m2(q);
    moTwoOptExNeighborhood<P> nh2;
    history<P, moTwoOptExNeighbor<P>>(r, perm<P>(r, n), nh2, c2, full, "by copy, two-opt");
    history<P, moTwoOptExNeighbor<P>>(r, perm<P>(r, n), nh2, m2, full, "by modification, two-opt");
    moFullEvalByCopy<moShiftNeighbor<P>> c3(q);
    moFullEvalByModif<moShiftNeighbor<P>> m3(q);
    moRndWithoutReplNeighborhood<moShiftNeighbor<P>> nh3(n * (n - 1));
    history<P, moShiftNeighbor<P>>(r, perm<P>(r, n), nh3, c3, full, "by copy, shift");
    history<P, moShiftNeighbor<P>>(r, perm<P>(r, n), nh3, m3, full, "by modification, shift");
    event("qap");
}
UNIT(qap, 100, 2000, "qap") { if (r.flip()) qapCase<Perm, long int>(r); else if (r.flip()) qapCase<PermMin, long int>(r); else qapCase<PermMin, int>(r); }

// a full evaluation that skips solutions whose fitness is valid, as many user functions do
template <class B> struct Lazy : public eoEvalFunc<B> {
    std::vector<double> w;
    void operator()(B& b) {
        if (!b.invalid()) return;
        double f = 0;
        for (size_t i = 0; i < b.size(); ++i) if (b[i]) f += w[i % w.size()] * (i && b[i - 1] ? 2 : 1);
        b.fitness(f);
    }
};
template <class B> void fullCase(Rand& r) {
    unsigned n = len(r);
    Lazy<B> full;
    for (unsigned i = 0; i < n; ++i) full.w.push_back(r.range(-20, 20));
    typedef moBitNeighbor<typename B::Fitness> N;
    moFullEvalByCopy<N> c(full);
    moFullEvalByModif<N> m(full);
    bitHistories<B>(r, n, c, full, "by copy");
    bitHistories<B>(r, n, m, full, "by modification");
    moFullEvalByCopy<moBitsNeighbor<B>> c2(full);
    moFullEvalByModif<moBitsNeighbor<B>> m2(full);
    bitsHistories<B>(r, n, c2, full, "by copy, bits");
    bitsHistories<B>(r, n, m2, full, "by modification, bits");
    moEvalCounter<N> count(m);
    Checked<N> ck(count, full, "counted");
    bitHistories<B>(r, n, ck, full, "counted");
    CHECK(count.value() == ck.calls && ck.calls, "neighbour-count", count.value(), " evaluations counted, ", ck.calls, " made");
    event("counted");
}
UNIT(full_eval, 120, 2500, "counted") { if (r.flip()) fullCase<Bit>(r); else fullCase<BitMin>(r); }
