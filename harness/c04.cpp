// C04: elitist schemes never lose the best individual.
#include "eoh.h"
#include <eoG3Replacement.h>
#include <eoMGGReplacement.h>
#include <eoReduceMergeReduce.h>
#include <eoSurviveAndDie.h>
using namespace eoh;
typedef Ind<double> MaxI;
typedef Ind<MinF> MinI;

template <class E> struct Schemes {
    eoGenerationalReplacement<E> gen;
    eoCommaReplacement<E> comma;
    eoTruncate<E> trunc;
    eoLinearTruncate<E> ltrunc;
    eoRandomReduce<E> rnd;
    std::unique_ptr<eoReduce<E>> ep;
    std::unique_ptr<eoElitism<E>> elite;
    eoPlus<E> plus;
    eoEPReplacement<E> eprep;
    eoSSGAWorseReplacement<E> ssga;
    eoSSGADetTournamentReplacement<E> ssgad;
    std::unique_ptr<eoReplacement<E>> rep, inner;
    unsigned offLo, offHi;
    Schemes() : eprep(2), ssgad(2) {}
};
static const int KINDS = 9;
static const char* names[] = {"plus", "weak-elitist", "elitism-merge", "rmr-strong", "rmr-weak", "g3", "sad", "merge-plus-linear", "weak-nested"};
// builds scheme `kind` for n parents
template <class E> void build(Schemes<E>& s, Rand& r, int kind, unsigned n) {
    s.offLo = 1;
    s.offHi = 2 * n + 1;
    switch (kind) {
    case 0: s.rep.reset(new eoPlusReplacement<E>); break;
    case 1: { // weak elitism around any scheme
        eoReplacement<E>* in = &s.gen;
        switch (r.below(4)) {
        case 0: s.offLo = s.offHi = n; break;
        case 1: in = &s.comma; s.offLo = n; s.offHi = 3 * n; break;
        case 2: in = &s.eprep; break;
        default: in = &s.ssgad; s.offHi = std::max(1u, n - 1);
        }
        s.rep.reset(new eoWeakElitistReplacement<E>(*in));
        break;
    }
    case 2: // elite merged into the offspring, then truncated
        s.elite.reset(new eoElitism<E>((double)r.range(1, n), false));
        s.rep.reset(new eoMergeReduce<E>(*s.elite, s.trunc));
        s.offLo = n; s.offHi = 2 * n;
        break;
    case 3: case 4: {
        double e = r.flip(0.3) ? 1.0 / n : r.flip(0.2) ? 1.0 : r.real(0.01, 1);
        eoReduce<E>& fin = kind == 3 && r.flip() ? (eoReduce<E>&)s.rnd : (eoReduce<E>&)s.trunc;
        double rp = r.flip(0.3) ? 0 : r.u01();
        s.rep.reset(new eoReduceMergeReduce<E>(eoHowMany(e), kind == 3, eoHowMany(rp), r.flip() ? (eoReduce<E>&)s.rnd : (eoReduce<E>&)s.trunc, eoHowMany(1.0),
                                               s.trunc, kind == 4 && r.flip() ? (eoReduce<E>&)s.rnd : fin));
        s.offLo = n; s.offHi = 2 * n;
        break;
    }
    case 5: s.rep.reset(new eoG3Replacement<E>(eoHowMany((int)r.range(1, n)))); break;
    case 6: // at least one surviving parent
        if (r.flip()) s.rep.reset(new eoDeterministicSaDReplacement<E>(s.rnd, 1.0, 1.0 * (double)r.below(n), 0.0, 0.0, false));
        else s.rep.reset(new eoDeterministicSaDReplacement<E>((double)r.range(1, n), 0.0, 0.0, 0.0, false));
        s.offLo = n;
        break;
    case 7: s.rep.reset(new eoMergeReduce<E>(s.plus, s.ltrunc)); break;
    default:
        s.inner.reset(new eoWeakElitistReplacement<E>(s.gen));
        s.rep.reset(new eoWeakElitistReplacement<E>(*s.inner));
        s.offLo = s.offHi = n;
    }
}
template <class E> void elitistCase(Rand& r, u64 idx) {
    Quiet q;
    int kind = (int)(idx % KINDS);
    unsigned n = r.flip(0.04) ? (unsigned)r.range(250, 300) : (unsigned)r.size(1, 20);
    Schemes<E> s;
    build(s, r, kind, n);
    eoPop<E> par = makePop<E>(r, n, 0);
    double best = bestQ(par);
    int next = 1000;
    for (int g = 0; g < 12; ++g) {
        unsigned no = (unsigned)r.range(s.offLo, s.offHi);
        eoPop<E> off = makePop<E>(r, no, next);
        if (r.flip(0.5)) // all offspring worse than the champion
            for (auto& e : off) e.fitness(good(typename E::Fitness(1.0)) > 0 ? best - r.real(0.1, 10) : -(best - r.real(0.1, 10)));
        next += (int)no;
        eoPop<E> p0 = par, o0 = off;
        (*s.rep)(par, off);
        event(names[kind]);
        double now = par.empty() ? -INFINITY : bestQ(par);
        CHECK(now >= best, cat("best-lost-", names[kind]), "generation ", g, ": best went from ", best, " to ", now, " (qualities); parents ", showPop(p0), " offspring ", showPop(o0), " -> ", showPop(par));
        if (par.size() != n) { fail(cat("size-", names[kind]), cat(par.size(), " instead of ", n)); return; }
        if (now > best) event("improved"); else event("kept");
        best = now;
        state(mix(hpop(par), kind));
    }
}
UNIT(elitist, 1800, 25000, "plus,weak-elitist,elitism-merge,rmr-strong,rmr-weak,g3,sad,merge-plus-linear,weak-nested,improved,kept") { if (r.flip()) elitistCase<MaxI>(r, idx); else elitistCase<MinI>(r, idx); }

// strong elitism: exactly the requested number of best parents is in the result, unaltered
template <class E> void strongCase(Rand& r) {
    Quiet q;
    unsigned n = (unsigned)r.size(1, 25);
    bool count = r.flip();
    double rate = r.u01();
    unsigned k = count ? (unsigned)r.range(1, n) : (unsigned)std::ceil(rate * n);
    eoRandomReduce<E> rnd;
    eoTruncate<E> tr;
    eoReduceMergeReduce<E> rmr(count ? eoHowMany((int)k) : eoHowMany(rate), true, eoHowMany(0.0), rnd, eoHowMany(1.0), rnd, r.flip() ? (eoReduce<E>&)rnd : (eoReduce<E>&)tr);
    eoPop<E> par = makePop<E>(r, n, 0), off = makePop<E>(r, (unsigned)r.range(n, 2 * n), 1000), p0 = par;
    rmr(par, off);
    eoPop<E> kept;
    for (auto& e : par) if (e.id < 1000) kept.push_back(e);
    std::map<int, std::pair<int, double>> pool;
    addTo(pool, p0);
    event("strong");
    state(mix(hpop(par), hpop(p0)));
    CHECK(kept.size() == k, "strong-count", kept.size(), " parents kept instead of ", k, " out of ", n);
    CHECK(notSubset(kept, pool).empty(), "strong-altered", notSubset(kept, pool));
    CHECK(quals(kept) == firstn(quals(p0), kept.size()), "strong-not-best", showPop(p0), " -> ", showPop(kept));
    CHECK(par.size() == n, "strong-size", par.size(), " instead of ", n);
    // merge alone
    eoElitism<E> el((double)k, false);
    eoPop<E> o2 = makePop<E>(r, (unsigned)r.below(8), 1000), o20 = o2;
    el(p0, o2);
    eoPop<E> moved;
    for (auto& e : o2) if (e.id < 1000) moved.push_back(e);
    CHECK(moved.size() == k && o2.size() == o20.size() + k, "elitism-count", "elite of ", k, " transferred ", moved.size());
    CHECK(notSubset(moved, pool).empty() && quals(moved) == firstn(quals(p0), moved.size()), "elitism-not-best", showPop(p0), " -> ", showPop(moved));
}
UNIT(strong, 600, 8000, "strong") { if (r.flip()) strongCase<MaxI>(r); else strongCase<MinI>(r); }

// Whole runs: bit strings, real algorithms, the best fitness seen by the continuator at each generation.
template <class E> struct Watch : public eoContinue<E> {
    double best;
    unsigned gens, max;
    bool bad;
    Watch(unsigned m) : best(-INFINITY), gens(0), max(m), bad(false) {}
    bool operator()(const eoPop<E>& p) {
        double b = bestQ(p);
        if (b < best) { bad = true; fail("run-best-lost", cat("generation ", gens, ": ", best, " -> ", b)); }
        if (b > best) event("run_improved");
        best = std::max(best, b);
        event("run_generations");
        return ++gens < max;
    }
    std::string className() const { return "Watch"; }
};
template <class B> void runCase(Rand& r) {
    Quiet q;
    unsigned len = (unsigned)r.range(4, 24), n = (unsigned)r.range(2, 12);
    std::vector<double> w(len);
    for (auto& x : w) x = (double)r.range(-3, 3);
    struct Ev : public eoEvalFunc<B> {
        std::vector<double>& w;
        Ev(std::vector<double>& w) : w(w) {}
        void operator()(B& b) { if (!b.invalid()) return; double s = 0; for (unsigned i = 0; i < b.size(); ++i) s += w[i] * b[i]; b.fitness(s); }
    } ev(w);
    eoUniformGenerator<bool> g(0, 2);
    eoInitFixedLength<B> init(len, g);
    eoPop<B> pop(n, init);
    apply<B>(ev, pop);
    Watch<B> cont((unsigned)r.range(2, 15));
    eoDetTournamentSelect<B> sel(2);
    eoBitMutation<B> mut(0.1);
    eo1PtBitXover<B> xo;
    eoSGATransform<B> tr(xo, 0.6, mut, 0.5);
    eoSelectMany<B> many(sel, r.flip() ? eoHowMany(1.0) : eoHowMany(r.real(1.0, 2.0)));
    eoPlusReplacement<B> plus;
    eoCommaReplacement<B> comma;
    eoWeakElitistReplacement<B> weak(comma);
    eoElitism<B> el(1.0, false);
    eoTruncate<B> trunc;
    eoMergeReduce<B> elm(el, trunc);
    eoReplacement<B>* reps[] = {&plus, &weak, &elm};
    eoEasyEA<B> ea(cont, ev, many, tr, *reps[r.below(3)]);
    ea(pop);
    CHECK(pop.size() == n, "run-size", pop.size(), " instead of ", n);
    u64 h = 0;
    for (auto& e : pop) h = hvec(e, h);
    state(h);
}
UNIT(run, 200, 2500, "run_generations,run_improved") { if (r.flip()) runCase<eoBit<double>>(r); else runCase<eoBit<MinF>>(r); }
