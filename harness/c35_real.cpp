// C35: command-line assembly for real vectors and evolution strategies.
#include "c35.h"
#include <es/make_es.h>
#include <cmath>
using namespace mon;
using namespace eoh;
namespace {
std::string bounds(Rand& r, unsigned n, std::vector<double>& lo, std::vector<double>& hi, double span) {
    std::string s; lo.clear(); hi.clear();
    if (r.flip()) { int a = (int)r.range(-9, 5), b = a + 1 + (int)r.range(0, (long)span); lo.assign(n, a); hi.assign(n, b); return cat(n, "[", a, ",", b, "]"); }
    for (unsigned i = 0; i < n; ++i) { int a = (int)r.range(-9, 5), b = a + 1 + (int)r.range(0, (long)span); lo.push_back(a); hi.push_back(b); s += cat("[", a, ",", b, "]"); }
    return s;
}
template <class F> void sigmas(const eoReal<F>&, const std::vector<double>&, const Line&) {}
template <class F> void sigmas(const eoEsSimple<F>& x, const std::vector<double>& s, const Line& l) { double m = 0; for (double v : s) m += v; CHECK(close(x.stdev, m / s.size(), 1e-9), "sigma", "'", l.str(), "' starts with the deviation ", x.stdev, " instead of ", m / s.size()); }
template <class X> void vecsig(const X& x, const std::vector<double>& s, const Line& l) {
    CHECK(x.stdevs.size() == s.size(), "sigma", "'", l.str(), "' makes ", x.stdevs.size(), " deviations for ", s.size(), " variables");
    for (size_t i = 0; i < s.size() && i < x.stdevs.size(); ++i) CHECK(close(x.stdevs[i], s[i], 1e-9), "sigma", "'", l.str(), "' starts with the deviation ", x.stdevs[i], " instead of ", s[i], " for variable ", i);
}
template <class F> void sigmas(const eoEsStdev<F>& x, const std::vector<double>& s, const Line& l) { vecsig(x, s, l); }
template <class F> void sigmas(const eoEsFull<F>& x, const std::vector<double>& s, const Line& l) {
    vecsig(x, s, l);
    CHECK(x.correlations.size() == s.size() * (s.size() - 1) / 2, "angles", x.correlations.size(), " rotation angles for ", s.size(), " variables");
    for (double c : x.correlations) CHECK(c >= -M_PI - 1e-9 && c <= M_PI + 1e-9, "angles", "rotation angle ", c);
}
template <class X> void genotype(Rand& r) {
    Quiet q;
    Line l; eoState st;
    unsigned n = (unsigned)r.size(1, 40);
    std::vector<double> lo(n, -1), hi(n, 1), sig(n, 0.3);
    l.set("vecSize", n);
    if (r.flip()) l.set("initBounds", bounds(r, n, lo, hi, 20));
    double s = r.range(1, 30) / 10.0;
    switch (r.below(3)) {
    case 0: l.set("sigmaInit", s); sig.assign(n, s); break;
    case 1: l.set("sigmaInit", cat(s, "%")); for (unsigned i = 0; i < n; ++i) sig[i] = s * (hi[i] - lo[i]); break;
    default: break;
    }
    eo::rng.reseed((uint32_t)r.next());
    auto& init = make_genotype(l.go(), st, X());
    std::vector<double> mn(n, 1e300), mx(n, -1e300);
    for (int k = 0; k < 50; ++k) {
        X x; x.fitness(1); init(x);
        CHECK(x.size() == n, "genotype-size", "'", l.str(), "' makes ", x.size(), " variables");
        CHECK(x.invalid(), "genotype-fitness", "a new individual has a fitness");
        if (x.size() != n) return;
        for (unsigned i = 0; i < n; ++i) {
            CHECK(x[i] >= lo[i] && x[i] <= hi[i], "initial-bounds", "'", l.str(), "': variable ", i, " starts at ", x[i]);
            mn[i] = std::min(mn[i], x[i]); mx[i] = std::max(mx[i], x[i]);
        }
        sigmas(x, sig, l);
        event("real_made"); state(hvec(x, n));
    }
    for (unsigned i = 0; i < n; ++i) CHECK(mx[i] - mn[i] > 0.4 * (hi[i] - lo[i]), "initial-range", "'", l.str(), "': 50 draws of variable ", i, " spread over ", mn[i], " .. ", mx[i], " of ", lo[i], " .. ", hi[i]);
}
UNIT(real_genotype, 100, 1200, "real_made") {
    switch (idx % 8) {
    case 0: genotype<eoReal<double>>(r); break; case 1: genotype<eoReal<eoMinimizingFitness>>(r); break;
    case 2: genotype<eoEsSimple<double>>(r); break; case 3: genotype<eoEsSimple<eoMinimizingFitness>>(r); break;
    case 4: genotype<eoEsStdev<double>>(r); break; case 5: genotype<eoEsStdev<eoMinimizingFitness>>(r); break;
    case 6: genotype<eoEsFull<double>>(r); break; default: genotype<eoEsFull<eoMinimizingFitness>>(r);
    }
}

template <class X> struct Bred { eoPop<X> parents, kids; };
template <class X> Bred<X> breed(Rand& r, Line& l, long count, unsigned n) {
    eoState st; Bred<X> b;
    l.set("vecSize", n);
    l.go();
    auto& init = make_genotype(*l.parser, st, X());
    eoGenOp<X>& op = make_op(*l.parser, st, init);
    eo::rng.reseed((uint32_t)r.next());
    for (long i = 0; i < count; ++i) { X x; init(x); x.fitness(2); b.parents.push_back(x); }
    eoSeqPopulator<X> it(b.parents, b.kids);
    it.reserve((unsigned)count);
    while ((long)b.kids.size() < count) { op(it); ++it; }
    return b;
}
template <class F> void realOps(Rand& r, u64 idx) {
    typedef eoReal<F> X;
    Quiet q;
    Line l; long n = r.range(20, 40), pairs = 200;
    std::vector<double> lo(n, -1), hi(n, 1);
    int mode = (int)(idx % 10);
    double pc = 0, pm = 0, alpha = r.flip() ? 0 : r.range(1, 10) / 10.0, eps = r.range(1, 50) / 100.0, sigma = r.range(1, 20) / 10.0, pn = r.flip() ? 1 : r.range(2, 9) / 10.0;
    double cs = 1, ch = 1, cu = 1, mu = 1, md = 1, mn = 1; bool bounded = r.below(3) == 0;
    if (mode == 0) {}
    else if (mode <= 3) { pc = r.flip() ? 1 : r.range(1, 9) / 10.0; cs = mode == 1; ch = mode == 2 ? 0.4 : 0; cu = mode == 3 ? 2 : 0; }
    else if (mode <= 6) { pm = r.flip() ? 1 : r.range(1, 9) / 10.0; mu = mode == 4 ? 0.4 : 0; md = mode == 5; mn = mode == 6 ? 3 : 0; }
    else if (mode == 7) { pc = 1; cs = (double)r.range(0, 4); ch = (double)r.range(0, 4); cu = (double)r.range(1, 4); bounded = false; }
    else if (mode == 8) { pc = r.u01(); cs = ch = cu = 0; pm = 1; mu = 0; mn = 0; } // no crossover at all
    else { pc = 1; cs = 0; ch = 0; pm = r.u01(); mu = md = mn = 0; } // no mutation at all
    l.set("pCross", pc).set("pMut", pm).set("segmentRate", cs).set("hypercubeRate", ch).set("uxoverRate", cu).set("uniformMutRate", mu).set("detMutRate", md).set("normalMutRate", mn)
        .set("alpha", alpha).set("epsilon", eps).set("sigma", sigma).set("pNormal", pn);
    if (bounded) l.set("objectBounds", cat(n, "[-1,1]"));
    Bred<X> b = breed<X>(r, l, 2 * pairs, (unsigned)n);
    long crossed = 0, mutated = 0, moved = 0, comp = 0, uni = 0, seg = 0; double sq = 0; double far = 0;
    bool xmode = (mode >= 1 && mode <= 3) || mode == 7 || mode == 9;
    CHECK(b.kids.size() == b.parents.size(), "bred-number", b.kids.size(), " offspring");
    if (b.kids.size() != b.parents.size()) return;
    for (size_t i = 0; i < b.kids.size(); ++i) {
        if ((long)b.kids[i].size() != n) { CHECK(false, "bred-length", "an offspring has ", b.kids[i].size(), " variables"); return; }
        if (bounded) for (double v : b.kids[i]) CHECK(v >= -1 && v <= 1, "bred-bounds", "'", l.str(), "': an offspring has a variable at ", v);
        bool diff = false; for (long k = 0; k < n; ++k) diff |= b.kids[i][k] != b.parents[i][k];
        if (diff) CHECK(b.kids[i].invalid(), "bred-fitness", "a modified offspring keeps the fitness of its parent");
        if (mode == 0) { CHECK(!diff && !b.kids[i].invalid(), "no-variation", "both rates are 0 but an offspring differs from its parent"); event("real_cloned"); }
    }
    if (xmode) for (long p = 0; p < pairs; ++p) {
        const X &a = b.parents[2 * p], &c = b.parents[2 * p + 1], &u = b.kids[2 * p], &v = b.kids[2 * p + 1];
        bool diff = false, swaps = true; long nswap = 0; double tmin = 1e300, tmax = -1e300;
        for (long k = 0; k < n; ++k) {
            if (u[k] != a[k] || v[k] != c[k]) diff = true;
            bool kept = u[k] == a[k] && v[k] == c[k], swapped = u[k] == c[k] && v[k] == a[k];
            if (!kept && !swapped) swaps = false;
            nswap += swapped;
            if (!bounded && (mode == 1 || mode == 3 || mode == 9)) CHECK(close(u[k] + v[k], a[k] + c[k], 1e-9, 1e-9), "crossover-balance", "variable ", k, ": parents ", a[k], " ", c[k], " offspring ", u[k], " ", v[k]);
            double w = c[k] - a[k]; if (std::fabs(w) < 1e-3) continue;
            double t = (u[k] - a[k]) / w; tmin = std::min(tmin, t); tmax = std::max(tmax, t);
        }
        event("real_crossed"); state(mix(hvec(u, 1), p));
        if (!diff) continue;
        ++crossed;
        bool line = tmax - tmin < 1e-6;
        if (swaps && nswap > 0 && nswap < n) ++uni; else if (line) ++seg;
        CHECK(tmin >= -alpha - 1e-6 && tmax <= 1 + alpha + 1e-6, "alpha", "'", l.str(), "': factors ", tmin, " .. ", tmax);
        far = std::max(far, std::max(-tmin, tmax - 1));
        if (mode == 1 && !bounded) CHECK(line, "segment", "offspring of the segment crossover leave the line of their parents");
        if (mode == 2) CHECK(!line && !swaps, "hypercube", "offspring of the hypercube crossover lie on a segment");
        if (mode == 3 || mode == 9) CHECK(swaps, "uniform", "uniform crossover makes new values");
    }
    if (mode >= 1 && mode <= 3) {
        CHECK(!deviates(crossed, pairs, pc), "pCross", crossed, " crossovers of ", pairs, " at rate ", pc);
        if ((mode == 1 || mode == 2) && !bounded && crossed > 60 && alpha > 0) CHECK(far > alpha * 0.1, "alpha", "'", l.str(), "': ", crossed, " crossovers never leave the parents by more than ", far);
    }
    if (mode == 9) CHECK(crossed > pairs * 9 / 10, "pCross", crossed, " crossovers of ", pairs, " at rate 1");
    if (mode == 7) {
        double s = cs + ch + cu;
        CHECK(!deviates(uni, pairs, cu / s) && !deviates(seg, pairs, cs / s), "mixture", "'", l.str(), "': ", uni, " uniform, ", seg, " segment crossovers of ", pairs);
        event("real_mixed");
    }
    const double reach = eps * (bounded ? 2 : 1); // the step is scaled to the range of the bounds
    if ((mode >= 4 && mode <= 6) || mode == 8) {
        double widest = 0;
        for (size_t i = 0; i < b.kids.size(); ++i) {
            long ch1 = 0; 
            for (long k = 0; k < n; ++k) {
                double d = b.kids[i][k] - b.parents[i][k];
                if (d != 0) ++ch1;
                if (mode == 4 || mode == 5 || mode == 8) CHECK(std::fabs(d) <= reach + 1e-9, "epsilon", "'", l.str(), "': uniform mutation moves a variable by ", d);
                sq += d * d; widest = std::max(widest, std::fabs(d));
            }
            if (b.kids[i].invalid()) { ++mutated; moved += ch1; comp += n; }
            if (mode == 4 && b.kids[i].invalid() && !bounded) CHECK(ch1 >= n - 1, "uniform-mutation", "uniform mutation moves ", ch1, " variables of ", n);
            if (mode == 5 || mode == 8) CHECK(ch1 <= 1, "det-mutation", "mutation of one variable moves ", ch1);
            event("real_mutated");
        }
        CHECK(!deviates(mutated, 2 * pairs, mode == 8 ? 1 : pm), "pMut", mutated, " mutations of ", 2 * pairs, " at rate ", pm);
        if (mode == 5 || mode == 8) CHECK(moved == mutated || bounded, "det-mutation", mutated, " mutations move ", moved, " variables");
        if (mode != 6 && moved > 200) CHECK(widest > 0.6 * reach, "epsilon", "'", l.str(), "': ", moved, " uniform steps never go further than ", widest);
        if (mode == 6 && !bounded) {
            CHECK(!deviates(moved, comp, pn), "pNormal", moved, " variables moved of ", comp, " at rate ", pn);
            double s = std::sqrt(sq / std::max(1L, moved));
            if (moved > 500) CHECK(std::fabs(s / sigma - 1) < 7 / std::sqrt(2.0 * moved), "sigma-fixed", "Gaussian mutation of deviation ", sigma, " has deviation ", s, " over ", moved, " moves");
        }
    }
}
UNIT(real_ops_max, 160, 2000, "real_crossed,real_mutated,real_cloned,real_mixed") { realOps<double>(r, idx); }
UNIT(real_ops_min, 160, 2000, "real_crossed,real_mutated,real_cloned,real_mixed") { realOps<eoMinimizingFitness>(r, idx); }

template <class X> std::vector<double> strategy(const X& x);
template <class F> std::vector<double> strategy(const eoEsSimple<F>& x) { return {x.stdev}; }
template <class F> std::vector<double> strategy(const eoEsStdev<F>& x) { return x.stdevs; }
template <class F> std::vector<double> strategy(const eoEsFull<F>& x) { std::vector<double> v = x.stdevs; v.insert(v.end(), x.correlations.begin(), x.correlations.end()); return v; }
template <class F> void spread(Rand& r, eoEsSimple<F>& x) { x.stdev = r.real(0.1, 2); }
template <class F> void spread(Rand& r, eoEsStdev<F>& x) { for (double& s : x.stdevs) s = r.real(0.1, 2); }
template <class F> void spread(Rand& r, eoEsFull<F>& x) { for (double& s : x.stdevs) s = r.real(0.1, 2); for (double& s : x.correlations) s = r.real(-3, 3); }

// what recombination may make of one component given the values in the population / in the two parents
template <class X> void esOps(Rand& r) {
    Quiet q;
    Line l; unsigned n = (unsigned)r.range(2, 8); long count = 60;
    static const char* const kinds[] = {"discrete", "intermediate", "none"};
    int ko = (int)r.below(4), ks = (int)r.below(4); bool global = r.flip();
    if (!global) l.set("crossType", "standard"); else if (r.flip()) l.set("crossType", "global");
    if (ko < 3) l.set("crossObj", kinds[ko]); else ko = 0;
    if (ks < 3) l.set("crossStdev", kinds[ks]); else ks = 1;
    double pc = r.flip() ? 1 : r.range(2, 8) / 10.0; bool dflt = pc == 1 && r.flip();
    if (!dflt) l.set("pCross", pc);
    double pm = r.below(3) ? 0 : r.flip() ? 1 : r.range(2, 8) / 10.0; l.set("pMut", pm);
    bool bounded = r.flip();
    if (bounded) l.set("objectBounds", cat(n, "[-1,1]"));
    eoState st;
    l.set("vecSize", n);
    l.go();
    auto& init = make_genotype(*l.parser, st, X());
    eoGenOp<X>& op = make_op(*l.parser, st, init);
    eo::rng.reseed((uint32_t)r.next());
    eoPop<X> par, kid;
    for (long i = 0; i < count; ++i) { X x; init(x); spread(r, x); x.fitness(2); par.push_back(x); }
    struct Two : public eoSelectOne<X> { size_t i = 0; std::vector<const X*> log; const X& operator()(const eoPop<X>& p) { const X& x = p[i++ % p.size()]; log.push_back(&x); return x; } } sel;
    std::vector<std::vector<const X*>> used;
    eoSelectivePopulator<X> it(par, kid, sel);
    it.reserve((unsigned)count);
    long calls = 0;
    while ((long)kid.size() < count) { size_t before = kid.size(); sel.log.clear(); op(it); ++it; ++calls; if (kid.size() > before) used.push_back(sel.log); }
    if ((long)used.size() != count) { CHECK(false, "es-number", "one application makes several offspring"); return; }
        for (long i = 0; i < count; ++i) {
        const X& k = kid[i];
        CHECK(k.size() == n, "es-size", "an offspring has ", k.size(), " variables");
        if (k.size() != n) return;
        if (bounded) for (double v : k) CHECK(v >= -1 && v <= 1, "es-bounds", "'", l.str(), "': an offspring has a variable at ", v);
        std::vector<double> s = strategy(k);
        CHECK(s.size() == strategy(par[0]).size(), "es-strategy", "an offspring has ", s.size(), " strategy parameters");
        for (size_t j = 0; j < s.size(); ++j) CHECK(std::isfinite(s[j]), "es-strategy", "a strategy parameter is ", s[j]);
        if (pm != 0 || s.size() != strategy(par[0]).size()) { event("es_mutated"); continue; }
        bool clone = true; const X& first = *used[i][0];
        for (unsigned j = 0; j < n; ++j) clone &= k[j] == first[j];
        if (!k.invalid()) { CHECK(clone && s == strategy(first), "es-clone", "'", l.str(), "': an offspring that was not recombined differs from its parent"); event("es_cloned"); continue; }
        // candidates: the whole population for the global recombination, the parents drawn for the standard one
        std::vector<const X*> cand;
        if (global) for (auto& x : par) cand.push_back(&x); else cand = used[i];
        if (!global) CHECK(cand.size() == 2, "es-parents", "standard recombination draws ", cand.size(), " parents");
        auto judge = [&](double v, int kind, auto get, const char* what, size_t j) {
            bool ok = false;
            std::vector<double> val; for (auto* c : cand) val.push_back(get(*c));
            if (kind == 0) for (double x : val) ok |= x == v;
            if (kind == 1) { auto m = std::minmax_element(val.begin(), val.end()); ok = v >= *m.first - 1e-12 && v <= *m.second + 1e-12; if (v != val[0]) event("es_between"); }
            if (kind == 2) { if (global) for (double x : val) ok |= x == v; else ok = val[0] == v; }
            CHECK(ok, "es-recombination", "'", l.str(), "': ", what, " ", j, " of an offspring is ", v, ", which is no ", kinds[kind], " recombination of its parents");
        };
        for (unsigned j = 0; j < n; ++j) judge(k[j], ko, [j](const X& x) { return x[j]; }, "variable", j);
        for (size_t j = 0; j < s.size(); ++j) judge(s[j], ks, [j](const X& x) { return strategy(x)[j]; }, "strategy parameter", j);
        event("es_crossed"); state(hvec(k, i));
    }
    double p = 1 - (1 - pc) * (1 - pm);
    CHECK(!deviates(count, calls, p), "es-rates", "'", l.str(), "': ", calls, " applications make ", count, " offspring");
    event("es_run");
}
UNIT(es_ops, 300, 4000, "es_run,es_crossed,es_between,es_mutated") {
    switch (idx % 6) {
    case 0: esOps<eoEsSimple<double>>(r); break; case 1: esOps<eoEsSimple<eoMinimizingFitness>>(r); break;
    case 2: esOps<eoEsStdev<double>>(r); break; case 3: esOps<eoEsStdev<eoMinimizingFitness>>(r); break;
    case 4: esOps<eoEsFull<double>>(r); break; default: esOps<eoEsFull<eoMinimizingFitness>>(r);
    }
}
UNIT(real_refused, 100, 600, "real_refused") {
    Quiet q;
    Line l; eoState st;
    static const char* const op[][2] = {{"operator", "GA"}, {"pCross", "1.5"}, {"pCross", "-0.1"}, {"pMut", "1.01"}, {"pMut", "-1"}, {"alpha", "-1"}, {"segmentRate", "-0.5"}, {"hypercubeRate", "-3"}, {"uxoverRate", "-1"},
        {"epsilon", "-0.1"}, {"uniformMutRate", "-1"}, {"detMutRate", "-1"}, {"normalMutRate", "-2"}, {"crossType", "local"}, {"crossObj", "mean"}, {"crossStdev", "mean"}, {"operator", "ES"}, {"pCross", "2"}, {"pMut", "-2"}, {"sigmaInit", "-1"}};
    int w = (int)r.below(20); bool thrown = false;
    l.set(op[w][0], op[w][1]);
    l.go();
    try {
        if (w < 13) { auto& in = make_genotype(*l.parser, st, eoReal<double>()); make_op(*l.parser, st, in); }
        else { auto& in = make_genotype(*l.parser, st, eoEsStdev<double>()); make_op(*l.parser, st, in); }
    } catch (std::exception&) { thrown = true; }
    CHECK(thrown, "refuse", "'", l.str(), "' is accepted");
    event("real_refused"); state(mix(w, r.next()));
}
} // namespace
