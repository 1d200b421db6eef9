// C01: the fitness carried by an individual is never stale.
#include "c01.h"
GEN(bits, Bit, bitOps(s, r, (unsigned)(r.flip(0.1) ? r.range(64, 300) : r.range(2, 14))))
// the one-fifth rule mutation evaluates by itself
UNIT(one_fifth, 60, 600, "mutation") {
    (void)idx;
    unsigned n = (unsigned)r.range(1, 6);
    double sigma = r.real(0.1, 2);
    HashEval<Real> ev;
    eoOneFifthMutation<Real> m(ev, sigma, (unsigned)r.range(1, 10));
    Real x(n);
    for (auto& v : x) v = r.real(-5, 5);
    for (int k = 0; k < 30; ++k) {
        bool said = m(x);
        event("mutation");
        CHECK(said || (!x.invalid() && (double)x.fitness() == value(x)), "stale-fitness", "one-fifth mutation");
        if (said) { x.invalidate(); ev(x); }
        if (r.flip(0.3)) m.update();
        state(hvec(geno(x), k));
    }
}
// restarts begin again from a fresh evaluated population
UNIT(restart, 100, 1500, "generation") {
    (void)idx; Quiet qq;
    Set<Bit> s; bitOps(s, r, (unsigned)r.range(2, 12));
    HashEval<Bit> ev;
    unsigned n = (unsigned)r.range(2, 10), runs = 0, max = (unsigned)r.range(1, 4);
    eoPop<Bit> pop(n, *s.init);
    for (auto& e : pop) ev(e);
    std::string d = "restart ";
    auto& q = quadOp(s, r, d); auto& m = monOp(s, r, d);
    Watch<Bit> w((unsigned)r.range(1, 5), n, d);
    eoSGA<Bit> a(sel(s, r), q, 0.8f, m, 0.5f, ev, w);
    struct Outer : public eoContinue<Bit> {
        unsigned &runs, max;
        Outer(unsigned& x, unsigned m) : runs(x), max(m) {}
        bool operator()(const eoPop<Bit>& p) {
            std::string e = stale(p);
            if (!e.empty()) fail("stale-fitness", "after a restarted run: " + e);
            event("restart");
            return ++runs < max;
        }
        std::string className() const { return "Outer"; }
    } o(runs, max);
    eoAlgoRestart<Bit> rs(*s.init, ev, a, o);
    rs(pop);
    CHECK(runs == max, "restart-count", runs, " runs instead of ", max);
}
