// C34: particle swarms
#include "eoh.h"
#include <eo>
#include <deque>
using namespace mon;

namespace {

typedef eoRealParticle<double> RP;
typedef eoRealParticle<eoMinimizingFitness> RPmin;
typedef eoBitParticle<double> BP;

template <class P> double q(const P& p) { return eoh::good(p.fitness()); }

// a topology whose answers are given by the harness
template <class P> struct Given : public eoTopology<P> {
    std::vector<P> b;
    P g;
    unsigned asked = 0;
    void setup(const eoPop<P>&) {}
    void updateNeighborhood(P&, unsigned) {}
    P& best(unsigned i) { ++asked; return b.at(i); }
    P& globalBest() { return g; }
};

struct Bnd { bool lo = false, hi = false; double min = 0, max = 0; };

struct Bounds {
    std::vector<Bnd> spec;
    std::deque<eoRealInterval> iv;
    std::deque<eoRealBelowBound> lo;
    std::deque<eoRealAboveBound> hi;
    eoRealNoBounds none;
    std::unique_ptr<eoRealVectorBounds> b;
    Bounds(Rand& r, unsigned n, double width)
    {
        b.reset(new eoRealVectorBounds(n, none));
        for (unsigned j = 0; j < n; ++j) {
            Bnd s;
            s.min = -r.real(.01, width), s.max = r.real(.01, width);
            if (r.flip(.1)) s.min = s.max - r.real(.01, width / 4); // zero outside
            switch (r.below(4)) {
            case 0: break;
            case 1: s.lo = true; lo.emplace_back(s.min); (*b)[j] = &lo.back(); break;
            case 2: s.hi = true; hi.emplace_back(s.max); (*b)[j] = &hi.back(); break;
            case 3: s.lo = s.hi = true; iv.emplace_back(s.min, s.max); (*b)[j] = &iv.back(); break;
            }
            spec.push_back(s);
        }
    }
    const Bnd& at(unsigned j) const { return j < spec.size() ? spec[j] : spec.back(); }
};

double clamp(const Bnd& b, double x)
{
    if (b.lo) x = std::max(x, b.min);
    if (b.hi) x = std::min(x, b.max);
    return x;
}

// narrows the bounds of each variable it is called for
struct Narrow : public eoRealBoundModifier {
    std::vector<Bnd> set;
    std::vector<unsigned> calls;
    std::deque<eoRealInterval> iv;
    explicit Narrow(Rand& r, unsigned n) : calls(n)
    {
        for (unsigned j = 0; j < n; ++j) {
            Bnd s;
            s.lo = s.hi = true, s.min = -r.real(.01, 3), s.max = r.real(.01, 3);
            set.push_back(s);
        }
    }
    void operator()(eoRealBaseVectorBounds& b, unsigned i)
    {
        ++calls.at(i);
        iv.emplace_back(set[i].min, set[i].max);
        b[i] = &iv.back();
    }
};

struct Weight : public eoWeightUpdater<double> {
    double next = 0;
    unsigned calls = 0;
    void operator()(double& w) { ++calls; w = next; }
};

enum Kind { Std, Ext, Int, Con, Fix, Var, ConVar, KINDS };
const char* kindName[] = { "standard", "extended", "integer", "constricted", "fixed-inertia", "variable-inertia", "constricted-variable" };

template <class P> struct Made {
    std::shared_ptr<eoVelocity<P>> v;
    double w, k, c1, c2, c3;
};

// coefficients are passed as temporaries, as users write them
template <class P, class... B> Made<P> make(Kind kd, eoTopology<P>& t, Weight& wu, double w, double k, double c1, double c2, double c3, B&... b)
{
    Made<P> m{ {}, w, 1, c1, c2, 0 };
    auto tmp = [](double x) { return x; };
    switch (kd) {
    case Std: m.v = std::make_shared<eoStandardVelocity<P>>(t, tmp(w), tmp(c1), tmp(c2), b...); break;
    case Ext: m.c3 = c3; m.v = std::make_shared<eoExtendedVelocity<P>>(t, tmp(w), tmp(c1), tmp(c2), tmp(c3), b...); break;
    case Int: m.v = std::make_shared<eoIntegerVelocity<P>>(t, tmp(w), tmp(c1), tmp(c2), b...); break;
    case Con: m.w = 1, m.k = k; m.v = std::make_shared<eoConstrictedVelocity<P>>(t, tmp(k), tmp(c1), tmp(c2), b...); break;
    case Fix: m.v = std::make_shared<eoFixedInertiaWeightedVelocity<P>>(t, tmp(w), tmp(c1), tmp(c2), b...); break;
    case Var: wu.next = w; m.v = std::make_shared<eoVariableInertiaWeightedVelocity<P>>(t, wu, tmp(c1), tmp(c2), b...); break;
    case ConVar: wu.next = w, m.k = k; m.v = std::make_shared<eoConstrictedVariableWeightVelocity<P>>(t, tmp(k), wu, tmp(c1), tmp(c2), b...); break;
    default: abort();
    }
    return m;
}

template <class P> double coord(Rand& r) { return std::is_same<P, BP>::value ? (double)r.flip() : r.flip(.15) ? 1.5 : r.real(-5, 5); }

template <class P> void velocities(Rand& r)
{
    eo::rng.reseed((uint32_t)r.next());
    Kind kd = (Kind)r.below(KINDS);
    unsigned n = 1 + r.below(r.flip(.05) ? 300 : 8), m = 1 + r.below(6);
    Given<P> topo;
    Weight wu;
    double w = r.flip(.2) ? 0 : r.real(-1, 1.5), k = r.real(.1, 1), c1 = r.flip(.15) ? 0 : r.real(0, 3), c2 = r.flip(.15) ? 0 : r.real(0, 3), c3 = r.flip(.15) ? 0 : r.real(0, 3);
    int mode = r.below(3);
    // bounds may be given for fewer variables: the last one then serves for the rest
    unsigned nb = r.flip(.2) ? 1 + r.below(n) : n;
    Bounds bd(r, mode == 2 ? n : nb, r.flip() ? 1 : 20);
    Narrow nar(r, n);
    bool narrowed = mode == 2;
    Made<P> mk = mode == 0 ? make(kd, (eoTopology<P>&)topo, wu, w, k, c1, c2, c3)
        : mode == 1        ? make(kd, (eoTopology<P>&)topo, wu, w, k, c1, c2, c3, *bd.b)
                           : make(kd, (eoTopology<P>&)topo, wu, w, k, c1, c2, c3, *bd.b, (eoRealBoundModifier&)nar);
    CHECK(&mk.v->getTopology() == &topo, "topology-of", kindName[kd], " velocity reports another topology");
    eoPop<P> pop;
    auto part = [&] {
        P p(n);
        for (unsigned j = 0; j < n; ++j) p[j] = coord<P>(r), p.bestPositions[j] = r.flip(.2) ? (typename P::AtomType)p[j] : (typename P::AtomType)coord<P>(r), p.velocities[j] = r.flip(.1) ? 0 : r.real(-4, 4);
        p.fitness(r.u01()), p.best(r.u01());
        return p;
    };
    for (unsigned i = 0; i < m; ++i) {
        pop.push_back(part());
        topo.b.push_back(r.flip(.2) ? pop.back() : part());
    }
    topo.g = part();
    eoPop<P> old = pop;
    unsigned from = 0, to = m;
    if (r.flip()) mk.v->apply(pop);
    else {
        from = r.below(m), to = from + 1;
        (*mk.v)(pop[from], from);
    }
    event(kindName[kd]);
    event(mode == 0 ? "unbounded" : mode == 1 ? "bounded" : "narrowed");
    if (kd == Var || kd == ConVar) CHECK(wu.calls == to - from, "weight-calls", kindName[kd], " velocity updated the weight ", wu.calls, " times for ", to - from, " particles");
    if (narrowed)
        for (unsigned j = 0; j < n; ++j)
            CHECK(nar.calls[j] > 0, "modifier-unused", kindName[kd], " velocity never applies the bounds modifier to variable ", j);
    for (unsigned i = 0; i < m; ++i) {
        const P &a = old[i], &b = pop[i];
        CHECK((std::vector<typename P::AtomType>&)a == (std::vector<typename P::AtomType>&)b && a.bestPositions == b.bestPositions && a.best() == b.best() && !b.invalid() && b.fitness() == a.fitness(), "velocity-moves", kindName[kd], " velocity changed more than the velocity of particle ", i);
        if (i < from || i >= to) {
            CHECK(a.velocities == b.velocities, "velocity-other", kindName[kd], " velocity changed another particle");
            continue;
        }
        for (unsigned j = 0; j < n; ++j) {
            double x = a[j], dp = (double)a.bestPositions[j] - x, dg = (double)topo.b[i][j] - x, dG = (double)topo.g[j] - x;
            double lo = mk.w * a.velocities[j], hi = lo;
            for (auto t : { mk.c1 * dp, mk.c2 * dg, mk.c3 * dG }) (t < 0 ? lo : hi) += t;
            lo *= mk.k, hi *= mk.k;
            if (kd == Int) {
                // rounding: exact halves may go either way after rounding errors
                lo = std::round(lo - 1e-9), hi = std::round(hi + 1e-9);
            }
            Bnd bb = mode == 0 ? Bnd() : narrowed ? nar.set[j] : bd.at(j);
            double clo = clamp(bb, lo), chi = clamp(bb, hi), v = b.velocities[j], eps = 1e-9 * (1 + std::fabs(lo) + std::fabs(hi));
            if (clo != lo || chi != hi) event("clamped");
            CHECK(v >= clo - eps && v <= chi + eps, "velocity-range", kindName[kd], " velocity ", v, " of variable ", j, " outside [", clo, ",", chi, "] (inertia ", mk.w, " factors ", mk.c1, " ", mk.c2, " ", mk.c3, " x=", x, " p-x=", dp, " g-x=", dg, " v=", a.velocities[j], ")");
            if (mode) CHECK(v == clamp(bb, v), "velocity-bounds", kindName[kd], " velocity ", v, " of variable ", j, " out of its bounds");
            if (kd == Int && v != bb.min && v != bb.max) CHECK(v == std::round(v), "velocity-integer", "integer velocity gives ", v);
            if (dp == 0 && dg == 0 && (!mk.c3 || dG == 0)) event("at-rest");
        }
        state(mix(hvec(b.velocities, kd), mode));
    }
}

} // namespace

UNIT(velocity_real, 500, 8000, "standard,extended,integer,constricted,fixed-inertia,variable-inertia,constricted-variable,unbounded,bounded,narrowed,clamped,at-rest") { velocities<RP>(r); }
UNIT(velocity_min, 250, 4000, "clamped") { velocities<RPmin>(r); }
UNIT(velocity_bits, 250, 4000, "clamped,at-rest") { velocities<BP>(r); }

UNIT(attraction_law, 21, 210, "drawn")
{
    // each attraction factor is uniform on [0, coefficient]: variable j of the particle feels one attractor only
    eo::rng.reseed((uint32_t)r.next());
    Kind kd = (Kind)(idx % KINDS);
    if (kd == Int) kd = Std;
    Given<RP> topo;
    Weight wu;
    double w = r.real(-1, 1), k = r.real(.2, 1), c[3] = { r.real(.5, 3), r.real(.5, 3), r.real(.5, 3) };
    auto mk = make(kd, (eoTopology<RP>&)topo, wu, w, k, c[0], c[1], c[2]);
    RP p(3), g(3), G(3);
    for (unsigned j = 0; j < 3; ++j) p[j] = p.bestPositions[j] = r.real(-2, 2), g[j] = G[j] = p[j];
    p.bestPositions[0] += 1, g[1] -= 2, G[2] += 3;
    p.fitness(1), p.best(1), g.fitness(1), G.fitness(1);
    topo.b.assign(1, g), topo.g = G;
    const double d[3] = { 1, -2, 3 };
    unsigned T = 2000, cnt[3][4] = {};
    double sxy = 0;
    for (unsigned t = 0; t < T; ++t) {
        double u[3] = { .5, .5, .5 };
        RP x = p;
        for (auto& v : x.velocities) v = r.real(-1, 1);
        RP y = x;
        (*mk.v)(y, 0);
        for (unsigned j = 0; j < (kd == Ext ? 3u : 2u); ++j) {
            u[j] = (y.velocities[j] / mk.k - mk.w * x.velocities[j]) / (d[j] * c[j]);
            CHECK(u[j] > -1e-9 && u[j] < 1 + 1e-9, "factor-range", kindName[kd], " attraction ", j, " has factor ", u[j], " of its coefficient");
            ++cnt[j][std::min(3, std::max(0, (int)(u[j] * 4)))];
        }
        if (kd != Ext) CHECK(close(y.velocities[2] / mk.k, mk.w * x.velocities[2], 1e-9, 1e-9), "factor-none", kindName[kd], " velocity of a variable at rest");
        sxy += (u[0] - .5) * (u[1] - .5);
    }
    for (unsigned j = 0; j < (kd == Ext ? 3u : 2u); ++j)
        for (unsigned b = 0; b < 4; ++b)
            CHECK(!deviates(cnt[j][b], T, .25), "factor-law", kindName[kd], " attraction ", j, ": quarter ", b, " got ", cnt[j][b], " of ", T);
    // independent draws: sum of products has variance T/144
    CHECK(std::fabs(sxy) < 8 * std::sqrt(T / 144.), "factor-independent", kindName[kd], " own and social factors are correlated: ", sxy);
    event("drawn");
    state(mix(cnt[0][0], cnt[1][1]));
}

namespace {
template <class P> void flight(Rand& r)
{
    unsigned n = 1 + r.below(r.flip(.05) ? 400 : 8);
    Bounds bd(r, r.flip(.2) ? 1 + r.below(n) : n, 6);
    int mode = r.below(3);
    double lo = -r.real(.1, 5), hi = r.real(.1, 5);
    std::unique_ptr<eoStandardFlight<P>> f(mode == 0 ? new eoStandardFlight<P>() : mode == 1 ? new eoStandardFlight<P>(*bd.b) : new eoStandardFlight<P>(n, lo, hi));
    eoPop<P> pop;
    for (unsigned i = 0, m = 1 + r.below(5); i < m; ++i) {
        P p(n);
        for (unsigned j = 0; j < n; ++j) p[j] = r.real(-6, 6), p.velocities[j] = r.flip(.2) ? 0 : r.real(-3, 3), p.bestPositions[j] = r.real(-1, 1);
        p.fitness(r.u01()), p.best(r.u01());
        pop.push_back(p);
    }
    eoPop<P> old = pop;
    if (r.flip()) f->apply(pop);
    else for (auto& p : pop) (*f)(p);
    for (unsigned i = 0; i < pop.size(); ++i) {
        P &a = old[i], &b = pop[i];
        CHECK(b.invalid(), "flight-valid", "a moved particle kept its fitness");
        b.fitness(0);
        CHECK(a.velocities == b.velocities && a.bestPositions == b.bestPositions && a.best() == b.best() && a.size() == b.size(), "flight-more", "the flight changed more than the position");
        for (unsigned j = 0; j < n; ++j) {
            Bnd bb;
            if (mode == 1) bb = bd.at(j);
            if (mode == 2) bb.lo = bb.hi = true, bb.min = lo, bb.max = hi;
            double want = clamp(bb, a[j] + a.velocities[j]);
            if (want != a[j] + a.velocities[j]) event("clamped");
            CHECK(b[j] == want, "flight-position", "variable ", j, " at ", a[j], " with velocity ", a.velocities[j], " moved to ", b[j], " instead of ", want);
        }
        state(hvec((std::vector<double>&)b, mode));
    }
    event(mode == 0 ? "free" : mode == 1 ? "bounds" : "interval");
}
}

UNIT(flights, 400, 6000, "free,bounds,interval,clamped")
{
    if (r.flip()) flight<RP>(r);
    else flight<RPmin>(r);
}

UNIT(bit_flights, 30, 300, "drawn,saturated")
{
    eo::rng.reseed((uint32_t)r.next());
    unsigned slope = 1 + r.below(4), n = 6, T = 1500;
    bool dflt = r.flip(.3);
    if (dflt) slope = 1;
    std::unique_ptr<eoSigBinaryFlight<BP>> f(dflt ? new eoSigBinaryFlight<BP>() : new eoSigBinaryFlight<BP>(slope));
    BP p(n);
    for (unsigned j = 0; j < n; ++j) p.velocities[j] = r.real(-4, 4);
    p.velocities[0] = 3000, p.velocities[1] = -3000, p.velocities[2] = 0;
    std::vector<unsigned> one(n);
    auto keep = p;
    for (unsigned t = 0; t < T; ++t) {
        p.fitness(1);
        (*f)(p);
        CHECK(p.invalid(), "bit-flight-valid", "a moved particle kept its fitness");
        CHECK(p.velocities == keep.velocities && p.bestPositions == keep.bestPositions && p.size() == n, "bit-flight-more", "the flight changed more than the position");
        for (unsigned j = 0; j < n; ++j) one[j] += p[j];
    }
    CHECK(one[0] == T && one[1] == 0, "bit-flight-saturated", "huge velocities give ", one[0], " and ", one[1], " ones of ", T);
    event("saturated");
    for (unsigned j = 2; j < n; ++j) {
        double pr = 1 / (1 + std::exp(-p.velocities[j] / slope));
        CHECK(!deviates(one[j], T, pr), "bit-flight-law", "velocity ", p.velocities[j], " slope ", slope, ": ", one[j], " ones of ", T, " expected ", pr * T);
        CHECK(close(f->sigmoid(p.velocities[j]), pr, 1e-12, 1e-12), "bit-flight-sigmoid", "sigmoid(", p.velocities[j], ") = ", f->sigmoid(p.velocities[j]));
    }
    event("drawn");
    state(hvec(one, slope));
}

UNIT(weights, 60, 600, "linear,random,gauss,refused")
{
    eo::rng.reseed((uint32_t)r.next());
    {
        unsigned stop = 1 + r.below(500);
        double a = r.real(-2, 2), b = r.real(-2, 2);
        eoValueParam<unsigned> gen(0, "g");
        auto tmp = [](double x) { return x; };
        std::unique_ptr<eoLinearDecreasingWeightUp<double, unsigned>> u(new eoLinearDecreasingWeightUp<double, unsigned>((unsigned)(stop + 0), tmp(a), tmp(b), gen));
        std::vector<double> junk(50, r.u01());
        for (int t = 0; t < 20; ++t) {
            unsigned g = t == 0 ? 0 : t == 1 ? stop : r.below(stop + 1);
            gen.value() = g;
            double w = 99, want = b + (a - b) * (double)(stop - g) / stop;
            (*u)(w);
            CHECK(close(w, want, 1e-12, 1e-12), "weight-linear", "weight ", w, " at ", g, " of ", stop, " from ", a, " to ", b, " instead of ", want);
        }
        event("linear");
        state(mix(stop, hdbl(a)));
    }
    {
        double lo = r.real(-3, 3), hi = r.flip(.1) ? lo : lo + r.real(0, 4);
        eoRandomRealWeightUp u(lo, hi);
        unsigned half = 0, T = 1000;
        for (unsigned t = 0; t < T; ++t) {
            double w = 99;
            u(w);
            CHECK(w >= lo && w <= hi + 1e-12, "weight-random-range", "weight ", w, " drawn in [", lo, ",", hi, "]");
            half += w < (lo + hi) / 2;
        }
        if (hi > lo) CHECK(!deviates(half, T, .5), "weight-random-law", half, " of ", T, " below the middle");
        event("random");
        bool thrown = false;
        try { eoRandomRealWeightUp bad(1, 0); } catch (std::exception&) { thrown = true; }
        CHECK(thrown, "weight-refused", "a minimum above the maximum was accepted");
        event("refused");
    }
    {
        double mu = r.real(-3, 3), sd = r.real(.1, 3);
        eoGaussRealWeightUp u(mu, sd), d;
        unsigned T = 1500, below = 0, in = 0, in0 = 0;
        for (unsigned t = 0; t < T; ++t) {
            double w = 99;
            u(w);
            below += w < mu, in += std::fabs(w - mu) < sd;
            d(w);
            in0 += std::fabs(w) < 1;
        }
        const double p1 = std::erf(1 / std::sqrt(2.));
        CHECK(!deviates(below, T, .5) && !deviates(in, T, p1) && !deviates(in0, T, p1), "weight-gauss", "mean ", mu, " deviation ", sd, ": ", below, " below, ", in, " within one deviation of ", T, " (default ", in0, ")");
        event("gauss");
    }
}

namespace {

// which particles inform each particle
std::vector<std::vector<unsigned>> members(int kind, unsigned N, unsigned s)
{
    std::vector<std::vector<unsigned>> m(N);
    for (unsigned i = 0; i < N; ++i) {
        if (kind == 0) for (unsigned j = 0; j < N; ++j) m[i].push_back(j);
        else if (kind == 1) for (unsigned j = 0; j < s; ++j) m[i].push_back((unsigned)(((long)i - (long)(s / 2) + j + N) % N));
        else {
            unsigned blocks = N / s, b = std::min(i / s, blocks - 1);
            for (unsigned j = b * s; j < (b + 1 == blocks ? N : (b + 1) * s); ++j) m[i].push_back(j);
        }
    }
    return m;
}

template <class P> std::shared_ptr<eoTopology<P>> topology(int kind, unsigned s)
{
    switch (kind) {
    case 0: return std::make_shared<eoStarTopology<P>>();
    case 1: return std::make_shared<eoRingTopology<P>>(s);
    default: return std::make_shared<eoLinearTopology<P>>(s);
    }
}

const char* topoName[] = { "star", "ring", "linear" };

// what the swarm must know: own, neighbourhood and swarm bests over the evaluations reported so far
template <class P> struct Knowledge {
    struct Seen { double q = -INFINITY; std::vector<typename P::AtomType> x; };
    std::vector<std::vector<unsigned>> nb; // informants of each particle
    std::vector<Seen> own;
    std::vector<std::vector<Seen>> log; // everything each particle reported
    void report(unsigned i, const P& p)
    {
        Seen s{ q(p), std::vector<typename P::AtomType>(p.begin(), p.end()) };
        log[i].push_back(s);
        if (s.q > own[i].q) own[i] = s;
    }
    double bestOf(const std::vector<unsigned>& m) const
    {
        double b = -INFINITY;
        for (unsigned i : m) b = std::max(b, own[i].q);
        return b;
    }
    bool known(const std::vector<unsigned>& m, double qq, const P& p) const
    {
        std::vector<typename P::AtomType> x(p.begin(), p.end());
        for (unsigned i : m) for (auto& s : log[i]) if (s.q == qq && s.x == x) return true;
        return false;
    }
    void start(const eoPop<P>& pop)
    {
        own.assign(pop.size(), Seen()), log.assign(pop.size(), {});
        for (unsigned i = 0; i < pop.size(); ++i) report(i, pop[i]);
    }
    void judge(eoTopology<P>& t, const eoPop<P>& pop, const char* what) const
    {
        std::vector<unsigned> all;
        for (unsigned i = 0; i < pop.size(); ++i) all.push_back(i);
        for (unsigned i = 0; i < pop.size(); ++i) judgeOne(t, i, what);
        P& g = t.globalBest();
        double b = bestOf(all);
        CHECK(q(g) == b && known(all, b, g), "swarm-best", what, " topology: swarm best has quality ", q(g), " but ", b, " was seen");
    }
    void judgeOne(eoTopology<P>& t, unsigned i, const char* what) const
    {
        P& g = t.best(i);
        double b = bestOf(nb[i]);
        CHECK(q(g) == b, "neighbourhood-best", what, " topology: best known to particle ", i, " of ", nb.size(), " has quality ", q(g), " but its informants reached ", b);
        CHECK(known(nb[i], b, g), "neighbourhood-position", what, " topology: best position known to particle ", i, " was never seen by its informants");
    }
};

template <class P> P randomParticle(Rand& r, unsigned n, bool ties)
{
    P p(n);
    for (unsigned j = 0; j < n; ++j) p[j] = coord<P>(r), p.bestPositions[j] = p[j], p.velocities[j] = r.real(-1, 1);
    p.fitness(ties ? r.below(6) : r.real(-5, 5));
    p.best(p.fitness());
    return p;
}

template <class P> void topologies(Rand& r)
{
    int kind = r.below(3);
    unsigned N = 1 + r.below(r.flip(.1) ? 120 : 12), n = 1 + r.below(5), s = 1;
    if (kind == 1) s = 1 + r.below(N);
    if (kind == 2) { ++N; s = 1 + r.below(N - 1); }
    bool ties = r.flip();
    eoPop<P> pop;
    for (unsigned i = 0; i < N; ++i) pop.push_back(randomParticle<P>(r, n, ties));
    auto t = topology<P>(kind, s);
    t->setup(pop);
    event(topoName[kind]);
    if (kind == 2 && N % s) event("remainder");
    Knowledge<P> k;
    k.nb = members(kind, N, s);
    k.start(pop);
    k.judge(*t, pop, topoName[kind]);
    for (int step = 0, T = 1 + r.below(30); step < T; ++step) {
        auto renew = [&](unsigned i) {
            P nw = randomParticle<P>(r, n, ties);
            for (unsigned j = 0; j < n; ++j) pop[i][j] = nw[j];
            pop[i].fitness(nw.fitness());
            if (q(pop[i]) > k.own[i].q) event("improved");
            else if (q(pop[i]) == k.own[i].q) event("tie");
            else event("worse");
            k.report(i, pop[i]);
        };
        if (r.flip(.3)) {
            for (unsigned i = 0; i < N; ++i) renew(i);
            t->eoTopology<P>::updateNeighborhood(pop);
        }
        else {
            unsigned i = r.below(N);
            renew(i);
            t->updateNeighborhood(pop[i], i);
        }
        for (unsigned i = 0; i < N; ++i) {
            CHECK(eoh::good(pop[i].best()) == k.own[i].q, "own-best", topoName[kind], " topology: particle ", i, " remembers quality ", eoh::good(pop[i].best()), " but reached ", k.own[i].q);
            P b = pop[i];
            for (unsigned j = 0; j < n; ++j) b[j] = b.bestPositions[j];
            CHECK(k.known({ i }, k.own[i].q, b), "own-position", topoName[kind], " topology: particle ", i, " remembers a position it never had with that fitness");
        }
        k.judge(*t, pop, topoName[kind]);
        state(mix(hdbl(k.bestOf(k.nb[0])), mix(kind, N)));
    }
}

} // namespace

UNIT(topologies_real, 250, 4000, "star,ring,linear,remainder,improved,tie,worse") { topologies<RP>(r); }
UNIT(topologies_min, 200, 3000, "star,ring,linear,remainder,improved,tie,worse") { topologies<RPmin>(r); }
UNIT(topologies_bits, 150, 2000, "star,ring,linear,improved,tie,worse") { topologies<BP>(r); }

UNIT(neighbourhoods, 60, 600, "members,refused,too-large")
{
    eoSocialNeighborhood<RP> nb;
    std::vector<unsigned> in;
    for (unsigned i = 0, m = r.below(40); i < m; ++i) { in.push_back(r.below(1000)); nb.put(in.back()); }
    CHECK(nb.size() == in.size() && nb.getInformatives() == in, "neighbourhood-list", "size ", nb.size(), " after ", in.size(), " insertions");
    for (unsigned i = 0; i < in.size(); ++i) CHECK(nb.get(i) == in[i] && nb.contains(in[i]), "neighbourhood-get", "member ", i);
    for (unsigned t = 0; t < 20; ++t) {
        unsigned x = r.below(1200);
        bool is = std::find(in.begin(), in.end(), x) != in.end();
        CHECK(nb.contains(x) == is, "neighbourhood-contains", x, " reported ", !is);
    }
    event("members");
    bool thrown = false;
    try { nb.get(in.size() + r.below(3)); } catch (std::exception&) { thrown = true; }
    CHECK(thrown, "neighbourhood-range", "an index past the end was accepted");
    event("refused");
    unsigned N = 1 + r.below(8);
    eoPop<RP> pop;
    for (unsigned i = 0; i < N; ++i) pop.push_back(randomParticle<RP>(r, 2, false));
    thrown = false;
    try { eoLinearTopology<RP> t(N + r.below(3)); t.setup(pop); } catch (std::exception&) { thrown = true; }
    CHECK(thrown, "linear-range", "blocks as large as the swarm were accepted");
    event("too-large");
    state(hvec(in, N));
}

UNIT(particles, 100, 1000, "best-kept,resized,ordered")
{
    eoPop<RPmin> two;
    unsigned n = 1 + r.below(9);
    RP p(n, 1.5, 2.5, 3.5);
    for (unsigned j = 0; j < n; ++j) CHECK(p[j] == 1.5 && p.velocities[j] == 2.5 && p.bestPositions[j] == 3.5, "particle-built", "built with ", p[j], " ", p.velocities[j], " ", p.bestPositions[j]);
    CHECK(p.invalid() && p.invalidBest(), "particle-fresh", "a new particle has a valid ", p.invalid() ? "best fitness" : "fitness");
    double f = r.real(-3, 3), b = r.real(-3, 3);
    p.fitness(f), p.best(b);
    CHECK(!p.invalid() && !p.invalidBest() && p.fitness() == f && p.best() == b, "particle-set", "fitness ", p.fitness(), " best ", p.best());
    RP c = p;
    CHECK(c.fitness() == f && c.best() == b && c.velocities == p.velocities && c.bestPositions == p.bestPositions, "particle-copied", "copy differs");
    std::vector<double> x(n + r.below(3));
    for (auto& v : x) v = r.u01();
    {
        eoh::Quiet quiet;
        p.position(x);
    }
    CHECK(p.invalid() && std::vector<double>(p.begin(), p.end()) == x && p.velocities.size() == x.size() && p.bestPositions.size() == x.size(), "particle-position", "position of ", x.size(), " variables gives ", p.size(), " / ", p.velocities.size(), " / ", p.bestPositions.size());
    CHECK(!p.invalidBest(), "particle-best-flag", "moving a particle lost its best fitness");
    double rb = 99;
    try { rb = p.best(); } catch (std::exception&) {}
    CHECK(rb == b, "particle-best-kept", "best fitness unreadable once the particle has moved");
    event("best-kept");
    unsigned m = r.below(12);
    p.resize(m);
    CHECK(p.size() == m && p.velocities.size() == m && p.bestPositions.size() == m, "particle-resize", "resized to ", m, ": ", p.size(), " / ", p.velocities.size(), " / ", p.bestPositions.size());
    event("resized");
    RPmin u(n), v(n);
    double bu = r.below(4), bv = r.below(4);
    u.fitness(r.u01()), v.fitness(r.u01()), u.best(bu), v.best(bv);
    CHECK((u < v) == (bu > bv), "particle-order", "particles with best ", bu, " and ", bv, " to minimise ordered wrongly");
    event("ordered");
    state(mix(m, hdbl(f)));
}

namespace {

struct Trace {
    std::vector<std::pair<char, unsigned>> ev;
    void add(char c, unsigned i) { ev.push_back({ c, i }); }
};

template <class P> struct Run {
    eoPop<P> pop;
    Trace tr;
    Knowledge<P> k;
    std::vector<double> evalOf;
    bool initDone = false;
    unsigned index(const P& p) const { return (unsigned)(&p - &pop[0]); }
};

template <class P> double objective(const P& p, int kind)
{
    double s = 0;
    for (unsigned j = 0; j < p.size(); ++j) s += ((double)p[j] - .3) * ((double)p[j] - .3);
    return kind ? std::floor(s) : s;
}

template <class P> struct Eval : public eoEvalFunc<P> {
    Run<P>& run;
    int kind;
    unsigned count = 0;
    Eval(Run<P>& r, int k) : run(r), kind(k) {}
    void operator()(P& p)
    {
        ++count;
        unsigned i = run.index(p);
        CHECK(i < run.pop.size(), "evaluated-elsewhere", "a particle outside the swarm was evaluated");
        run.tr.add('e', i);
        p.fitness(objective(p, kind));
    }
};

template <class P> struct Vel : public eoVelocity<P> {
    Run<P>& run;
    eoVelocity<P>& in;
    const char* name;
    Vel(Run<P>& r, eoVelocity<P>& v, const char* n) : run(r), in(v), name(n) {}
    void operator()(P& p, unsigned i)
    {
        run.tr.add('v', i);
        CHECK(&p == &run.pop[i], "velocity-index", "velocity of particle ", run.index(p), " asked with index ", i);
        run.k.judgeOne(in.getTopology(), i, name);
        in(p, i);
    }
    void updateNeighborhood(P& p, unsigned i)
    {
        run.tr.add('u', i);
        CHECK(&p == &run.pop[i], "inform-index", "particle ", run.index(p), " reported with index ", i);
        in.updateNeighborhood(p, i);
        run.k.report(i, p);
    }
    eoTopology<P>& getTopology() { return in.getTopology(); }
};

template <class P> struct Fly : public eoFlight<P> {
    Run<P>& run;
    eoFlight<P>& in;
    Fly(Run<P>& r, eoFlight<P>& f) : run(r), in(f) {}
    void operator()(P& p) { run.tr.add('f', run.index(p)); in(p); }
};

template <class P> struct Gens : public eoContinue<P> {
    Run<P>& run;
    eoTopology<P>& t;
    unsigned left, calls = 0;
    const char* name;
    Gens(Run<P>& r, eoTopology<P>& tt, unsigned n, const char* nm) : run(r), t(tt), left(n), name(nm) {}
    bool operator()(const eoPop<P>& pop)
    {
        ++calls;
        run.tr.add('c', 0);
        CHECK(&pop == &run.pop, "swarm-pop", "the continuator sees another population");
        for (unsigned i = 0; i < pop.size(); ++i) {
            CHECK(eoh::good(pop[i].best()) == run.k.own[i].q, "run-own-best", "particle ", i, " remembers quality ", eoh::good(pop[i].best()), " but reached ", run.k.own[i].q);
            std::vector<typename P::AtomType> b(pop[i].bestPositions);
            CHECK(b == run.k.own[i].x, "run-own-position", "particle ", i, " remembers another position than that of its best evaluation");
        }
        run.k.judge(t, pop, name);
        return calls < left;
    }
};

template <class P> struct Starter : public eoInit<P> {
    Rand& r;
    unsigned n;
    Starter(Rand& rr, unsigned nn) : r(rr), n(nn) {}
    void operator()(P& p)
    {
        p.resize(n);
        for (unsigned j = 0; j < n; ++j) p[j] = coord<P>(r);
        p.invalidate();
    }
};

template <class P> void swarmRun(Rand& r, std::shared_ptr<eoFlight<P>> flight)
{
    eo::rng.reseed((uint32_t)r.next());
    int kind = r.below(3);
    unsigned N = 2 + r.below(r.flip(.1) ? 60 : 8), n = 1 + r.below(5), s = 1 + r.below(N - 1), gens = 1 + r.below(8);
    bool sync = r.flip(), popInit = r.flip(), withInit = r.flip(.7);
    int variant = r.below(3);
    Run<P> run;
    Starter<P> st(r, n);
    run.pop = eoPop<P>(N, st);
    Eval<P> eval(run, r.below(2));
    auto topo = topology<P>(kind, s);
    Weight wu;
    auto mk = make((Kind)r.below(KINDS), *topo, wu, r.real(0, 1), r.real(.3, 1), r.real(0, 2), r.real(0, 2), r.real(0, 2));
    Vel<P> vel(run, *mk.v, topoName[kind]);
    Fly<P> fly(run, *flight);
    eoUniformGenerator<double> gen(-1, 1);
    eoVelocityInitFixedLength<P> vinit(n, gen);
    eoFirstIsBestInit<P> binit;
    eoPopLoopEval<P> loop(eval);
    std::unique_ptr<eoInitializer<P>> init(popInit ? new eoInitializer<P>((eoPopEvalFunc<P>&)loop, vinit, binit, *topo, run.pop) : new eoInitializer<P>((eoUF<P&, void>&)eval, vinit, binit, *topo, run.pop));
    struct First : public eoInitializerBase<P> {
        eoInitializer<P>& in;
        Run<P>& run;
        unsigned n, calls = 0;
        First(eoInitializer<P>& i, Run<P>& rr, unsigned nn) : in(i), run(rr), n(nn) {}
        void operator()()
        {
            ++calls;
            in();
            for (unsigned i = 0; i < run.pop.size(); ++i) {
                P& p = run.pop[i];
                CHECK(!p.invalid() && !p.invalidBest() && p.best() == p.fitness(), "init-best", "particle ", i, " starts without its best fitness");
                CHECK(p.bestPositions == std::vector<typename P::AtomType>(p.begin(), p.end()), "init-position", "particle ", i, " starts with another best position");
                CHECK(p.velocities.size() == n && p.size() == n, "init-size", "particle ", i, " starts with ", p.velocities.size(), " velocities");
                for (double v : p.velocities) CHECK(v >= -1 && v < 1, "init-velocity", "initial velocity ", v, " drawn in [-1,1)");
            }
            run.k.start(run.pop);
            run.tr.add('i', 0);
        }
    } first(*init, run, n);
    run.k.nb = members(kind, N, s);
    Gens<P> cont(run, *topo, gens, topoName[kind]);
    if (!withInit) first();
    if (sync) {
        if (withInit) {
            if (variant == 0) eoSyncEasyPSO<P>(first, cont, (eoEvalFunc<P>&)eval, vel, fly)(run.pop);
            else eoSyncEasyPSO<P>(first, cont, (eoPopEvalFunc<P>&)loop, vel, fly)(run.pop);
        }
        else if (variant == 0) eoSyncEasyPSO<P>(cont, (eoEvalFunc<P>&)eval, vel, fly)(run.pop);
        else eoSyncEasyPSO<P>(cont, (eoPopEvalFunc<P>&)loop, vel, fly)(run.pop);
    }
    else if (withInit) eoEasyPSO<P>(first, cont, eval, vel, fly)(run.pop);
    else eoEasyPSO<P>(cont, eval, vel, fly)(run.pop);
    event(sync ? "synchronous" : "asynchronous");
    event(topoName[kind]);
    event(withInit ? "initialised" : "prepared");

    CHECK(first.calls == 1, "init-once", "the initializer ran ", first.calls, " times");
    CHECK(eval.count == N * (gens + 1), "swarm-evaluations", eval.count, " evaluations for ", N, " particles, ", gens, " generations");
    // the order of events
    std::vector<std::pair<char, unsigned>> want;
    for (unsigned i = 0; i < N; ++i) want.push_back({ 'e', i });
    want.push_back({ 'i', 0 });
    for (unsigned g = 0; g < gens; ++g) {
        if (sync) for (char c : { 'v', 'f', 'e', 'u' }) for (unsigned i = 0; i < N; ++i) want.push_back({ c, i });
        else for (unsigned i = 0; i < N; ++i) for (char c : { 'v', 'f', 'e', 'u' }) want.push_back({ c, i });
        want.push_back({ 'c', 0 });
    }
    auto norm = [&](std::vector<std::pair<char, unsigned>> v) {
        // inside a phase of a synchronous generation the order of the particles is free
        if (!sync) return v;
        for (size_t a = 0; a < v.size();) {
            size_t b = a;
            while (b < v.size() && v[b].first == v[a].first) ++b;
            std::sort(v.begin() + a, v.begin() + b);
            a = b;
        }
        return v;
    };
    if (norm(run.tr.ev) != norm(want)) {
        std::string s1;
        for (size_t i = 0; i < run.tr.ev.size() && i < 80; ++i) s1 += cat(run.tr.ev[i].first, run.tr.ev[i].second, " ");
        fail("swarm-order", cat(sync ? "synchronous" : "asynchronous", " swarm of ", N, " went ", s1));
    }
    state(mix(hdbl(run.k.bestOf(run.k.nb[0])), mix(kind, N)));
}

} // namespace

UNIT(swarm_real, 150, 2500, "synchronous,asynchronous,star,ring,linear,initialised,prepared") { swarmRun<RP>(r, std::make_shared<eoStandardFlight<RP>>()); }
UNIT(swarm_min, 150, 2500, "synchronous,asynchronous,star,ring,linear,initialised,prepared") { swarmRun<RPmin>(r, std::make_shared<eoStandardFlight<RPmin>>(12, -5., 5.)); }
UNIT(swarm_bits, 100, 1500, "synchronous,asynchronous,star,ring,linear,initialised,prepared") { swarmRun<BP>(r, std::make_shared<eoSigBinaryFlight<BP>>()); }
