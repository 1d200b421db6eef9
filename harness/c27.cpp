// C27: laws with independent components, repairers and bounders.
#include "c27.h"
#include <utils/edoHyperVolume.h>
#include <utils/edoStatUniform.h>
#include <utils/edoStatNormalMono.h>

UNIT(uniform, 900, 12000, "many,used-before,estimated,single,large,drawn,moved,tight,dump") {
    bool large = idx % 50 == 0;
    size_t d = large ? (size_t)r.range(260, 400) : (size_t)r.range(1, 6), n = idx % 20 == 1 ? (size_t)r.range(257, 1200) : r.size(1, 40);
    eoPop<Vec> pop = drawn(r, n, d);
    if (n > 256) event("many");
    if (r.flip(0.2)) { // nearly converged: bounds a few representable numbers apart
        for (auto& x : pop) for (size_t i = 0; i < d; ++i) { double b = 1.0 + (double)i; for (long k = r.range(0, 3); k > 0; --k) b = std::nextafter(b, 1e9); x[i] = b; }
        event("tight");
    }
    edoEstimatorUniform<Vec> est;
    if (r.flip()) { eoPop<Vec> other = r.flip() ? drawn(r, n, d) : shifted(r, pop); est(other); event("used-before"); }
    edoUniform<Vec> law = est(pop);
    CHECK(law.size() == d, "dimension", "the law estimated from points of dimension ", d, " has dimension ", law.size());
    D1 lo(d, 1e300), hi(d, -1e300);
    for (auto& x : pop) for (size_t i = 0; i < d; ++i) { lo[i] = std::min(lo[i], x[i]); hi[i] = std::max(hi[i], x[i]); }
    Vec a = law.min(), b = law.max();
    for (size_t i = 0; i < d; ++i) CHECK(a[i] == lo[i] && b[i] == hi[i], "bounds", "uniform law [", a[i], ",", b[i], "] estimated for component ", i, " of ", n, " points, they span [", lo[i], ",", hi[i], "]");
    event("estimated");
    if (n == 1) event("single");
    if (large) event("large");
    NoRepair no;
    edoSamplerUniform<Vec> sampler(no);
    rng.reseed((uint32_t)r.below(1u << 30));
    if (r.flip()) { // the law has changed since the sampler last drew from it
        edoUniform<Vec> mine = law;
        eoPop<Vec> other = shifted(r, pop);
        law = est(other);
        for (long k = r.range(1, 5); k > 0; --k) sampler(law);
        law = mine;
    }
    size_t N = large ? 20 : 600, below = 0, k = r.below(d);
    double cut = r.u01(), at = lo[k] + cut * (hi[k] - lo[k]);
    for (size_t t = 0; t < N; ++t) {
        Vec x = sampler(law);
        CHECK(x.size() == d, "dimension", "a draw has ", x.size(), " components, the law ", d);
        for (size_t i = 0; i < d; ++i) CHECK(x[i] >= lo[i] && x[i] <= hi[i], "outside", "uniform draw ", x[i], " outside [", lo[i], ",", hi[i], "]");
        if (x[k] < at) ++below;
    }
    if (!large && hi[k] - lo[k] > 1e-9 * (1 + std::fabs(lo[k]))) { CHECK(!deviates((double)below, (double)N, cut), "law", "uniform law: ", below, " of ", N, " draws are below the ", cut, " quantile"); event("drawn"); }
    // the law moves as a whole
    D1 t; for (size_t i = 0; i < d; ++i) t.push_back(r.real(-5, 5));
    Vec c = vec(t);
    edoUniformCenter<Vec> move;
    move(law, c);
    a = law.min(); b = law.max();
    for (size_t i = 0; i < d; ++i) CHECK(close((a[i] + b[i]) / 2, t[i], 1e-9, 1e-9 * (1 + hi[i] - lo[i])) && close(b[i] - a[i], hi[i] - lo[i], 1e-9, 1e-9), "center", "a uniform law of width ", hi[i] - lo[i], " moved to ", t[i], " spans [", a[i], ",", b[i], "]");
    event("moved");
    edoStatUniform<Vec> dump;
    dump(law);
    std::ostringstream want; want << law.min() << " " << law.max();
    CHECK(dump.value().find(want.str()) != std::string::npos, "dump", "the dump of a uniform law does not show its bounds");
    event("dump");
    state(mix(hvec(lo), n));
}

UNIT(mono, 700, 10000, "used-before,estimated,single,large,moved,dump") {
    bool large = idx % 50 == 0;
    size_t d = large ? (size_t)r.range(260, 400) : (size_t)r.range(1, 6), n = large ? 300 : idx % 20 == 1 ? (size_t)r.range(257, 1200) : r.size(1, 40);
    eoPop<Vec> pop = drawn(r, n, d);
    double sc = scaleOf(pop);
    edoEstimatorNormalMono<Vec> est;
    if (r.flip()) { eoPop<Vec> other = r.flip() ? drawn(r, n, d) : shifted(r, pop); est(other); event("used-before"); }
    edoNormalMono<Vec> law = est(pop);
    CHECK(law.size() == d, "dimension", "the law estimated from points of dimension ", d, " has dimension ", law.size());
    D1 m = meanOf(pop);
    Vec lm = law.mean(), lv = law.variance();
    for (size_t i = 0; i < d; ++i) {
        long double s = 0; for (auto& x : pop) s += ((long double)x[i] - m[i]) * ((long double)x[i] - m[i]);
        double v = (double)(s / n);
        CHECK(close(lm[i], m[i], 1e-9, 1e-10 * sc), "mean", "mean ", lm[i], " estimated for component ", i, " of ", n, " points, they have ", m[i]);
        CHECK(close(lv[i], v, 1e-8, 1e-11 * sc * sc) && lv[i] >= 0, "variance", "variance ", lv[i], " estimated for component ", i, " of ", n, " points, they have ", v);
    }
    event("estimated");
    if (n == 1) event("single");
    if (large) event("large");
    D1 t; for (size_t i = 0; i < d; ++i) t.push_back(r.real(-5, 5));
    Vec c = vec(t);
    edoNormalMonoCenter<Vec> move;
    move(law, c);
    Vec nm = law.mean(), nv = law.variance();
    for (size_t i = 0; i < d; ++i) CHECK(nm[i] == t[i] && nv[i] == lv[i], "center", "a normal law moved to ", t[i], " has mean ", nm[i], " and variance ", nv[i], ", it had variance ", lv[i]);
    event("moved");
    edoStatNormalMono<Vec> dump;
    dump(law);
    std::ostringstream want; want << law.mean() << " " << law.variance();
    CHECK(dump.value().find(want.str()) != std::string::npos, "dump", "the dump of a normal law does not show its parameters");
    edoHyperVolume<Vec> hv;
    double prod = 1;
    for (int k = 0; k < 5; ++k) { double v = r.real(0.1, 4); hv.update(v); prod *= std::sqrt(v); }
    CHECK(close(hv.get_hypervolume(), prod), "hypervolume", "hypervolume ", hv.get_hypervolume(), ", expected ", prod);
    event("dump");
    state(mix(hvec(m), n));
}

UNIT(mono_sampler, 100, 1500, "direction,used-before") {
    size_t d = (size_t)r.range(1, 6);
    D1 m, v; D2 c(d, D1(d, 0));
    for (size_t i = 0; i < d; ++i) { m.push_back(r.real(-5, 5)); v.push_back(r.flip(0.1) ? 0 : r.pick(std::vector<double>{0.01, 1, 9, 0.25})); c[i][i] = v[i]; }
    Vec vm = vec(m), vv = vec(v);
    edoNormalMono<Vec> law(vm, vv);
    NoRepair no;
    edoSamplerNormalMono<Vec> sampler(no);
    rng.reseed((uint32_t)r.below(1u << 30));
    if (r.flip()) { // the law has changed since the sampler last drew from it
        D1 m0, v0; D2 c0;
        reordered(r, m, c, m0, c0);
        for (size_t i = 0; i < d; ++i) v0.push_back(c0[i][i]);
        Vec a = vec(m0), b = vec(v0);
        edoNormalMono<Vec> mine = law;
        law = edoNormalMono<Vec>(a, b);
        for (long k = r.range(1, 5); k > 0; --k) sampler(law);
        law = mine;
        event("used-before");
    }
    follows(r, m, c, [&] { Vec x = sampler(law); return D1(x.begin(), x.end()); }, "normal sampler");
    state(hvec(m));
}

namespace {
typedef eoBit<double> Bits;
struct Table : public std::vector<std::vector<bool>>, public EO<double> {
    typedef std::vector<bool> AtomType;
};
}
UNIT(binomial, 900, 12000, "estimated,single,large,drawn,certain") {
    bool large = idx % 50 == 0;
    size_t d = large ? (size_t)r.range(260, 700) : (size_t)r.range(1, 12), n = large ? 300 : r.size(1, 40);
    eoPop<Bits> pop;
    std::vector<size_t> ones(d, 0);
    double bias = r.pick(std::vector<double>{0, 0.1, 0.5, 1});
    for (size_t k = 0; k < n; ++k) { Bits b; b.resize(d); for (size_t i = 0; i < d; ++i) { b[i] = r.flip(bias); ones[i] += b[i]; } pop.push_back(b); }
    edoEstimatorBinomial<Bits> est;
    edoBinomial<Bits> law = est(pop);
    CHECK(law.size() == d, "dimension", "the law estimated from ", d, " bits has ", law.size());
    for (size_t i = 0; i < d; ++i) CHECK(close(law[i], (double)ones[i] / (double)n, 1e-9, 1e-12), "frequency", "frequency ", law[i], " estimated for bit ", i, " of ", n, " strings, it is ", (double)ones[i] / (double)n);
    event("estimated");
    if (n == 1) event("single");
    if (large) event("large");
    rng.reseed((uint32_t)r.below(1u << 30));
    edoSamplerBinomial<Bits> sampler;
    for (size_t i = 0; i < d; ++i) law[i] = r.flip(0.2) ? 0 : r.flip(0.2) ? 1 : r.u01();
    size_t N = large ? 20 : 800, k = r.below(d), hits = 0;
    for (size_t t = 0; t < N; ++t) {
        Bits b = sampler(law);
        CHECK(b.size() == d, "dimension", "a draw has ", b.size(), " bits, the law ", d);
        for (size_t i = 0; i < d; ++i) { if (law[i] == 0 || law[i] == 1) { CHECK(b[i] == (law[i] == 1), "certain", "a bit with probability ", law[i], " came out ", (bool)b[i]); event("certain"); } }
        hits += b[k];
    }
    if (!large) { CHECK(!deviates((double)hits, (double)N, law[k]), "law", "a bit with probability ", law[k], " was set ", hits, " times of ", N); event("drawn"); }
    state(mix(hvec(std::vector<double>(law.begin(), law.end())), n));
}

UNIT(binomial_table, 500, 8000, "estimated,single,drawn,constant") {
    size_t rows = (size_t)r.range(1, 5), cols = (size_t)r.range(1, 5), n = r.size(1, 30);
    eoPop<Table> pop;
    std::vector<std::vector<size_t>> ones(rows, std::vector<size_t>(cols, 0));
    double bias = r.pick(std::vector<double>{0.1, 0.5, 1});
    for (size_t k = 0; k < n; ++k) { Table t; for (size_t i = 0; i < rows; ++i) { t.emplace_back(); for (size_t j = 0; j < cols; ++j) { bool b = r.flip(bias); t.back().push_back(b); ones[i][j] += b; } } pop.push_back(t); }
    edoEstimatorBinomialMulti<Table> est;
    edoBinomialMulti<Table> law = est(pop);
    CHECK((size_t)law.rows() == rows && (size_t)law.cols() == cols, "dimension", "the law estimated from tables of ", rows, "x", cols, " has ", law.rows(), "x", law.cols());
    for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < cols; ++j) CHECK(close(law(i, j), (double)ones[i][j] / (double)n, 1e-9, 1e-12), "frequency", "frequency ", law(i, j), " estimated in a table, it is ", (double)ones[i][j] / (double)n);
    event("estimated");
    if (n == 1) event("single");
    rng.reseed((uint32_t)r.below(1u << 30));
    edoBinomialMulti<Table> flat((unsigned)rows, (unsigned)cols, 0.25);
    for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < cols; ++j) CHECK(flat(i, j) == 0.25, "constant", "a law made with one probability has another one");
    event("constant");
    edoSamplerBinomialMulti<Table> sampler;
    for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < cols; ++j) law(i, j) = r.flip(0.2) ? 0 : r.flip(0.2) ? 1 : r.u01();
    size_t N = 600, a = r.below(rows), b = r.below(cols), hits = 0;
    for (size_t t = 0; t < N; ++t) {
        Table x = sampler(law);
        bool shape = x.size() == rows; for (auto& row : x) shape = shape && row.size() == cols;
        CHECK(shape, "dimension", "a draw from a law of ", rows, "x", cols, " has another shape");
        hits += x[a][b];
    }
    CHECK(!deviates((double)hits, (double)N, law(a, b)), "law", "a cell with probability ", law(a, b), " was set ", hits, " times of ", N);
    event("drawn");
    state(mix(n, mix(rows, cols)));
}

namespace {
struct InBounds : public eoRndGenerator<double> {
    double lo, hi; size_t calls = 0;
    InBounds(double a, double b) : lo(a), hi(b) {}
    double operator()() { ++calls; return rng.uniform(lo, hi); }
};
struct Half : public edoRepairer<Vec> { size_t n = 0, seen = 0; void operator()(Vec& v) { ++n; seen += v.size(); for (auto& x : v) x *= 0.5; } };
}
UNIT(bounders, 3000, 40000, "clamp,uniform,generator,inside,changed,on-bound,infinite") {
    size_t d = r.size(1, 8);
    D1 lo, hi, x;
    double a = r.real(-5, 5), b = a + (r.flip(0.1) ? 0 : r.real(0, 5));
    int how = (int)r.below(3);
    for (size_t i = 0; i < d; ++i) {
        if (how == 2) { lo.push_back(a); hi.push_back(b); } else { lo.push_back(r.real(-5, 5)); hi.push_back(lo.back() + (r.flip(0.1) ? 0 : r.real(0, 5))); }
        switch (r.below(6)) { case 0: x.push_back(lo[i]); event("on-bound"); break; case 1: x.push_back(hi[i]); break; case 2: x.push_back(r.flip() ? -1e300 : 1e300); event("infinite"); break; case 3: x.push_back(r.flip() ? std::nextafter(lo[i], -1e9) : std::nextafter(hi[i], 1e9)); break; default: x.push_back(lo[i] + r.real(-0.5, 1.5) * (hi[i] - lo[i])); }
    }
    rng.reseed((uint32_t)r.below(1u << 30));
    Vec vl = vec(lo), vh = vec(hi), v = vec(x);
    v.fitness(3.5);
    InBounds gen(a, b);
    std::shared_ptr<edoRepairer<Vec>> bd;
    if (how == 0) bd = std::make_shared<edoBounderBound<Vec>>(vl, vh); else if (how == 1) bd = std::make_shared<edoBounderUniform<Vec>>(vl, vh); else bd = std::make_shared<edoBounderRng<Vec>>(vl, vh, gen);
    const char* name = how == 0 ? "clamp" : how == 1 ? "uniform" : "generator";
    (*bd)(v);
    CHECK(v.size() == d, "dimension", name, ": the bounder changes the dimension");
    size_t changed = 0;
    for (size_t i = 0; i < d; ++i) {
        CHECK(v[i] >= lo[i] && v[i] <= hi[i], "outside", name, ": component ", v[i], " is left outside [", lo[i], ",", hi[i], "]");
        bool in = x[i] >= lo[i] && x[i] <= hi[i];
        if (in) CHECK(v[i] == x[i], "touched", name, ": component ", x[i], " within [", lo[i], ",", hi[i], "] became ", v[i]);
        else { ++changed; if (how == 0) CHECK(v[i] == (x[i] < lo[i] ? lo[i] : hi[i]), "clamp", "component ", x[i], " was moved to ", v[i], ", not to the bound it crosses of [", lo[i], ",", hi[i], "]"); }
    }
    if (how == 2) CHECK(gen.calls == changed, "generator", "the generator was called ", gen.calls, " times for ", changed, " components outside");
    CHECK(changed ? v.invalid() : !v.invalid() && v.fitness() == 3.5, "fitness", name, ": after ", changed, " components changed the fitness is ", v.invalid() ? "invalid" : "still there");
    event(name); event(changed ? "changed" : "inside");
    edoBounderNo<Vec> none;
    Vec w = vec(x);
    none(w);
    CHECK(D1(w.begin(), w.end()) == x, "touched", "the bounder that does nothing does something");
    state(mix(hvec(x), how));
}

UNIT(repairers, 2500, 40000, "floor,ceil,round,decimals,modulo,dispatched,negative,halves,empty-list") {
    size_t d = r.size(1, 8);
    D1 x;
    for (size_t i = 0; i < d; ++i) { double t = r.flip(0.3) ? (double)r.range(-6, 6) + (r.flip() ? 0.5 : 0.0) : r.real(-6, 6); x.push_back(t); if (t < 0) event("negative"); if (t - std::floor(t) == 0.5) event("halves"); }
    Vec v = vec(x);
    v.fitness(1);
    switch (idx % 6) {
    case 0: { edoRepairerFloor<Vec> f; f(v); for (size_t i = 0; i < d; ++i) CHECK(v[i] == std::floor(x[i]), "floor", "floor of ", x[i], " is ", v[i]); event("floor"); break; }
    case 1: { edoRepairerCeil<Vec> f; f(v); for (size_t i = 0; i < d; ++i) CHECK(v[i] == std::ceil(x[i]), "ceil", "ceiling of ", x[i], " is ", v[i]); event("ceil"); break; }
    case 2: { edoRepairerRound<Vec> f; f(v); for (size_t i = 0; i < d; ++i) CHECK(v[i] == std::round(x[i]), "round", x[i], " rounded is ", v[i]); event("round"); break; }
    case 3: {
        int k = (int)r.range(0, 4);
        double step = std::pow(10.0, -k);
        edoRepairerRoundDecimals<Vec> f(step);
        f(v);
        for (size_t i = 0; i < d; ++i) CHECK(std::fabs(v[i] - x[i]) <= step * 0.5 + 1e-9 && std::fabs(v[i] / step - std::round(v[i] / step)) < 1e-6, "decimals", x[i], " rounded to ", step, " is ", v[i]);
        event("decimals"); break;
    }
    case 4: { double m = r.real(0.1, 4); edoRepairerModulo<Vec> f(m); f(v); for (size_t i = 0; i < d; ++i) CHECK(v[i] == std::fmod(x[i], m), "modulo", x[i], " modulo ", m, " is ", v[i]); event("modulo"); break; }
    default: {
        std::vector<unsigned> one, two, none;
        for (unsigned i = 0; i < d; ++i) { if (r.flip()) one.push_back(i); if (r.flip()) two.push_back(i); }
        r.shuffle(one); r.shuffle(two);
        edoRepairerFloor<Vec> f; Half h;
        bool both = r.flip();
        std::shared_ptr<edoRepairerDispatcher<Vec>> disp;
        if (both) disp = std::make_shared<edoRepairerDispatcher<Vec>>(one, &f); else { disp = std::make_shared<edoRepairerDispatcher<Vec>>(); eoh::Quiet q; disp->add(one, &f); }
        { eoh::Quiet q; disp->add(two, &h); disp->add(none, &h); }
        (*disp)(v);
        D1 want = x;
        for (unsigned i : one) want[i] = std::floor(want[i]);
        for (unsigned i : two) want[i] *= 0.5;
        CHECK(D1(v.begin(), v.end()) == want, "dispatch", "dispatched repairers give ", show(v), " for ", show(x), ", expected ", show(want));
        event("dispatched"); event("empty-list");
    }
    }
    CHECK(v.size() == d, "dimension", "a repairer changes the dimension");
    CHECK(v.invalid(), "fitness", "a repaired solution keeps its fitness");
    state(mix(hvec(x), idx % 6));
}
