// C07: reproducibility. Every unit of this check (this file and the runs of the
// stale-fitness harness) is executed twice in a process and once in another
// one; the runner compares everything observed, in order. What is below adds
// workloads for components that other harnesses do not run as a whole, and the
// monitors on saved and restored generators.
#include "ops.h"
using namespace ops;

static u64 draw(eoRng& g, int kind, Rand& p) {
    switch (kind) {
    case 0: return g.rand();
    case 1: return hdbl(g.uniform());
    case 2: return hdbl(g.uniform(p.real(-5, 0), p.real(1, 5)));
    case 3: return g.random((uint32_t)p.range(1, 100000));
    case 4: return g.flip(p.u01());
    case 5: return hdbl(g.normal());
    case 6: return hdbl(g.normal(3, 0.5));
    case 7: return hdbl(g.negexp(2));
    case 8: return g.binomial(7, 0.4);
    case 9: return (u64)g.roulette_wheel(std::vector<double>{1, 2, 3.5});
    case 10: return (u64)g.choice(std::vector<int>{4, 5, 6, 7});
    default: return hdbl(g.powerlaw(1, 9, 1.5));
    }
}
// stop anywhere, save, and go on elsewhere
UNIT(restore, 1500, 20000, "restored") {
    (void)idx;
    eoRng a((uint32_t)r.below(1u << 30));
    u64 pseed = r.next();
    int before = r.flip(0.2) ? 0 : (int)r.size(0, 1500);
    Rand p(pseed);
    bool normalHalf;
    if (r.flip(0.25)) { // around the end of a block of numbers, one half of a normal pair pending
        normalHalf = true;
        a.normal();
        for (before = 624 * (int)r.range(1, 2) - 2 + (int)r.range(-2, 2), p = Rand(pseed); before > 0; --before) a.rand();
    } else {
        for (int i = 0; i < before; ++i) draw(a, (int)p.below(12), p);
        normalHalf = r.flip(0.4); // between the two halves of a normal pair
        if (normalHalf) { a.clearCache(); a.normal(); }
    }
    std::ostringstream os;
    switch (r.below(3)) { case 0: os.precision(2); break; case 1: os << std::scientific; break; default:; }
    os << a;
    std::string text = os.str();
    CHECK(text.size() > 600, "restore-empty", "saved generator is ", text.size(), " characters long");
    eoRng b((uint32_t)r.below(1000));
    for (int i = (int)r.below(5); i > 0; --i) b.normal();
    std::istringstream is(text + (r.flip() ? " 42" : "\n"));
    is >> b;
    CHECK(!is.fail(), "restore-unreadable", "reading back failed after ", before, " draws");
    Rand pa(pseed + 1), pb(pseed + 1);
    for (int i = 0; i < 1400; ++i) {
        u64 x = draw(a, (int)pa.below(12), pa), y = draw(b, (int)pb.below(12), pb);
        CHECK(x == y, "restore-differs", "draw ", i, " after restoring, ", before, " draws before saving, pending normal: ", normalHalf, ", saved: ", text.substr(text.size() > 80 ? text.size() - 80 : 0));
        if (x != y) break;
    }
    event("restored");
    state(mix(hstr(text), before));
}
// restoring the global generator replays a whole stretch of a run
UNIT(replay_run, 150, 2000, "replayed") {
    (void)idx;
    Set<Bit> s; bitOps(s, r, (unsigned)r.range(4, 20));
    std::ostringstream os;
    for (int i = (int)r.below(700); i > 0; --i) eo::rng.rand();
    if (r.flip()) eo::rng.normal();
    os << eo::rng;
    u64 trace[2];
    for (int k = 0; k < 2; ++k) {
        if (k) { std::istringstream is(os.str()); is >> eo::rng; }
        u64 h = 0;
        eoPop<Bit> pop(8, *s.init);
        for (auto& m : s.mon) for (auto& e : pop) { (*m.second)(e); h = mix(h, hvec(geno(e))); }
        pop.shuffle();
        for (auto& e : pop) h = mix(h, hvec(geno(e)));
        trace[k] = mix(h, eo::rng.rand());
    }
    event("replayed");
    CHECK(trace[0] == trace[1], "restore-differs", "replayed stretch differs");
    state(trace[0]);
}
UNIT(reseed, 300, 3000, "reseeded") {
    (void)idx;
    uint32_t s = (uint32_t)r.below(1u << 31), t = (uint32_t)r.below(1u << 31);
    eoRng a(s), b(t), c(s);
    u64 pseed = r.next();
    for (int i = (int)r.below(900); i > 0; --i) b.normal();
    b.reseed(s); b.clearCache();
    Rand p1(pseed), p2(pseed), p3(pseed);
    eoRng d(t);
    unsigned same = 0;
    for (int i = 0; i < 700; ++i) {
        u64 x = draw(a, (int)p1.below(12), p1), y = draw(b, (int)p2.below(12), p2), z = draw(c, (int)p3.below(12), p3);
        CHECK(x == y && x == z, "reseed-differs", "draw ", i, " with seed ", s);
        if (x != y || x != z) break;
    }
    eoRng e(s);
    for (int i = 0; i < 200; ++i) same += d.rand() == e.rand();
    if (s != t) CHECK(same < 100, "reseed-ignored", "seeds ", s, " and ", t, " give the same numbers");
    event("reseeded");
    state(mix(s, t));
}
// everything that shuffles or initialises
UNIT(shuffles, 200, 2000, "shuffled") {
    (void)idx;
    unsigned n = (unsigned)r.size(2, 60);
    eoPop<Real> pop;
    for (unsigned i = 0; i < n; ++i) { Real x(2, (double)i); x.fitness((double)(i % 7)); pop.push_back(x); }
    pop.shuffle();
    u64 h = 0; for (auto& e : pop) h = mix(h, hvec(e));
    std::vector<const Real*> ref; pop.shuffle(ref);
    for (auto* e : ref) h = mix(h, hvec(*e));
    event("shuffled"); state(h);
    eoInitPermutation<eoInt<double>> ip(n); eoInt<double> perm; ip(perm);
    state(hvec(perm));
    eoSequentialSelect<Real> sq(false); eoRandomSelect<Real> rs; eoDetTournamentSelect<Real> dt(3); eoStochTournamentSelect<Real> st(0.7); eoProportionalSelect<Real> ps; eoTruncatedSelectOne<Real> ts(dt, 0.5); eoBestSelect<Real> bs;
    for (eoSelectOne<Real>* s : std::vector<eoSelectOne<Real>*>{&sq, &rs, &dt, &st, &ps, &ts, &bs}) { s->setup(pop); for (int k = 0; k < 10; ++k) state(hvec((*s)(pop))); }
    eoEPReplacement<Real> ep(4); eoPlusReplacement<Real> pl; eoSSGADetTournamentReplacement<Real> sd(2); eoSSGAStochTournamentReplacement<Real> ss(0.8);
    for (eoReplacement<Real>* q : std::vector<eoReplacement<Real>*>{&ep, &pl, &sd, &ss}) { eoPop<Real> a = pop, b = pop; b.resize(n / 2 + 1); (*q)(a, b); for (auto& e : a) state(hvec(e)); }
    eoBucketBitMutation<Bit> bm(std::vector<std::vector<int>>{{1, 3}, {3, 6}, {2, 9}}, std::vector<double>{1, 2, 1});
    Bit bits(20, false); for (int k = 0; k < 6; ++k) { bm(bits); state(hvec(geno(bits))); }
}
