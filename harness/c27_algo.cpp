// C27: the adaptive normal law, combined estimators, distribution criteria and whole algorithms.
#include "c27.h"
#include <fstream>
#include <functional>
#include <sys/stat.h>

namespace {
typedef edoNormalAdaptive<Vec> Law;
typedef Law::Vector EV;
typedef Law::Matrix EM;
bool near(const EM& a, const EM& b, double tol = 1e-7) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    double sc = std::max(1e-12, b.cwiseAbs().maxCoeff());
    return (a - b).cwiseAbs().maxCoeff() <= tol * sc;
}
bool finite(const EM& m) { for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) if (!std::isfinite(m(i, j))) return false; return true; }
}

// covariance matrix adaptation, as in the published algorithm
UNIT(adaptation, 500, 8000, "updated,decomposed,kept-decomposition,many-updates,one-dimension") {
    size_t n = (size_t)r.range(1, 6);
    Law law((unsigned)n);
    edoEstimatorNormalAdaptive<Vec> est(law);
    EV mean = EV::Zero(n), pc = EV::Zero(n), ps = EV::Zero(n), D = EV::Constant(n, 1);
    EM C = EM::Identity(n, n), B = EM::Identity(n, n);
    double sigma = 1;
    double lastDec = 0;
    size_t steps = (size_t)r.range(1, 12);
    for (size_t g = 1; g <= steps; ++g) {
        size_t mu = (size_t)r.range(2, 12);
        eoPop<Vec> pop;
        for (size_t k = 0; k < mu; ++k) { D1 x; for (size_t i = 0; i < n; ++i) x.push_back(mean(i) + sigma * r.real(-1.5, 1.5)); pop.push_back(vec(x)); }
        est(pop);
        // reference
        D1 w; double sw = 0, sq = 0;
        for (size_t k = 0; k < mu; ++k) { w.push_back(std::log((double)mu + 0.5) - std::log((double)k + 1)); sw += w.back(); }
        for (auto& t : w) { t /= sw; sq += t * t; }
        double N = (double)n, mueff = 1 / sq;
        double cc = (4 + mueff / N) / (N + 4 + 2 * mueff / N), cs = (mueff + 2) / (N + mueff + 5), c1 = 2 / (std::pow(N + 1.3, 2) + mueff), cmu = 2 * (mueff - 2 + 1 / mueff) / (std::pow(N + 2, 2) + mueff);
        double damps = 1 + 2 * std::max(0.0, std::sqrt((mueff - 1) / (N + 1)) - 1) + cs, chi = std::sqrt(N) * (1 - 1 / (4 * N) + 1 / (21 * N * N));
        EV old = mean, now = EV::Zero(n);
        for (size_t k = 0; k < mu; ++k) for (size_t i = 0; i < n; ++i) now(i) += w[k] * pop[k][i];
        EM inv = B * D.cwiseInverse().asDiagonal() * B.transpose();
        ps = (1 - cs) * ps + std::sqrt(cs * (2 - cs) * mueff) * (inv * (now - old)) / sigma;
        double left = ps.norm() / std::sqrt(1 - std::pow(1 - cs, 2.0 * (double)g)) / chi, right = 1.4 + 2 / (N + 1);
        if (std::fabs(left - right) < 1e-7) return;
        double h = left < right ? 1 : 0;
        pc = (1 - cc) * pc + h * std::sqrt(cc * (2 - cc) * mueff) * (now - old) / sigma;
        EM R = EM::Zero(n, n);
        for (size_t k = 0; k < mu; ++k) { EV a(n); for (size_t i = 0; i < n; ++i) a(i) = (pop[k][i] - old(i)) / sigma; R += w[k] * a * a.transpose(); }
        C = ((1 - c1 - cmu) * C + c1 * (pc * pc.transpose() + (1 - h) * cc * (2 - cc) * C) + cmu * R).eval();
        sigma *= std::exp((cs / damps) * (ps.norm() / chi - 1));
        mean = now;
        if (!finite(C) || !std::isfinite(sigma)) return;
        CHECK(near(law.mean(), mean), "mean", "adaptation step ", g, ": the mean is not the weighted mean of the ", mu, " points");
        CHECK(near(law.path_sigma(), ps), "path-sigma", "adaptation step ", g, " in dimension ", n, ": step-size path");
        CHECK(near(law.path_covar(), pc) || pc.norm() < 1e-9, "path-covar", "adaptation step ", g, " in dimension ", n, ": covariance path");
        CHECK(near(law.covar(), C), "covar", "adaptation step ", g, " in dimension ", n, ": the covariance matrix is not the one of the update rule");
        CHECK(close(law.sigma(), sigma, 1e-7), "sigma", "adaptation step ", g, " in dimension ", n, ": step size ", law.sigma(), ", expected ", sigma);
        event("updated");
        // the axes are those of the covariance, recomputed every so often
        bool due = (double)(g * mu) - lastDec > (double)mu / (c1 + cmu) / N / 10;
        EM again = law.coord_sys() * law.scaling().cwiseProduct(law.scaling()).asDiagonal() * law.coord_sys().transpose();
        if (!finite(again)) return;
        bool fresh = near(again, C, 1e-6);
        CHECK(!due || fresh, "axes", "adaptation step ", g, " in dimension ", n, ": axes and scaling do not factor the covariance matrix");
        CHECK(fresh || (near(law.coord_sys(), B) && near(law.scaling(), D)), "axes", "adaptation step ", g, ": axes and scaling are neither the old ones nor those of the covariance matrix");
        EM id = law.coord_sys().transpose() * law.coord_sys();
        CHECK(near(id, EM::Identity(n, n), 1e-7), "axes", "the axes are not orthonormal");
        if (fresh) lastDec = (double)(g * mu);
        event(due ? "decomposed" : "kept-decomposition");
        B = law.coord_sys(); D = law.scaling();
        if (D.minCoeff() < 1e-4 * D.maxCoeff()) return;
        if (g > 5) event("many-updates");
        if (n == 1) event("one-dimension");
    }
    state(mix(hdbl(sigma), n));
}

UNIT(adaptive_sampler, 80, 1500, "direction,made") {
    size_t n = (size_t)r.range(1, 5);
    EM A(n, n); EV m(n), pc = EV::Zero(n), ps = EV::Zero(n);
    for (size_t i = 0; i < n; ++i) { m(i) = r.real(-4, 4); for (size_t j = 0; j < n; ++j) A(i, j) = r.real(-1, 1); }
    EM C = A * A.transpose() + 0.05 * EM::Identity(n, n);
    Eigen::SelfAdjointEigenSolver<EM> es(C);
    EV D = es.eigenvalues().cwiseSqrt(); EM B = es.eigenvectors();
    double sigma = r.pick(std::vector<double>{0.1, 1, 3});
    Law made((unsigned)n, m, C, B, D, sigma, pc, ps);
    Law set((unsigned)n);
    set.mean(m); set.covar(C); set.coord_sys(B); set.scaling(D); set.sigma(sigma);
    Law& law = r.flip() ? made : set;
    CHECK(law.size() == n, "dimension", "a law of dimension ", n, " has size ", law.size());
    if (&law == &made) event("made");
    NoRepair no;
    edoSamplerNormalAdaptive<Vec> sampler(no);
    rng.reseed((uint32_t)r.below(1u << 30));
    D1 mm; D2 cc(n, D1(n));
    for (size_t i = 0; i < n; ++i) { mm.push_back(m(i)); for (size_t j = 0; j < n; ++j) cc[i][j] = sigma * sigma * C(i, j); }
    follows(r, mm, cc, [&] { Vec v = sampler(law); return D1(v.begin(), v.end()); }, "adaptive normal sampler");
    state(hvec(mm));
}

namespace {
struct Bad : public edoContinue<Law> { bool ok; size_t calls = 0; Bad(bool b) : ok(b) {} bool operator()(const Law&) { ++calls; return ok; } };
}
UNIT(criteria, 1500, 20000, "finite,not-finite,ill,well,combined,reset,edited") {
    eoh::Quiet q;
    size_t n = (size_t)r.range(1, 5);
    Law law((unsigned)n);
    EV v = EV::Constant(n, 1); EM m = EM::Identity(n, n);
    edoContAdaptiveFinite<Law> fin;
    CHECK(fin(law), "finite", "a fresh law is said not to be finite");
    double bad = r.pick(std::vector<double>{std::nan(""), INFINITY, -INFINITY});
    v(r.below(n)) = bad; m(r.below(n), r.below(n)) = bad;
    int where = (int)r.below(7);
    switch (where) { case 0: law.covar(m); break; case 1: law.coord_sys(m); break; case 2: law.scaling(v); break; case 3: law.sigma(bad); break; case 4: law.path_covar(v); break; case 5: law.path_sigma(v); break; default: break; }
    CHECK(fin(law) == (where == 6), "finite", "a law with parameter ", where, " of its seven set to ", bad, " is said to be ", where == 6 ? "not finite" : "finite");
    event(where == 6 ? "finite" : "not-finite");
    size_t dim = r.flip() ? 0 : (size_t)r.range(1, 5);
    eoPop<Vec> none;
    int how = (int)r.below(3);
    if (how == 0) { edoEstimatorAdaptiveReset<Law> e(law, dim); e(none); } else if (how == 1 && !dim) { edoDistribReset<Law> e(law); e(none); } else { edoDistribReset<Law> e(law, dim); e(none); }
    size_t want = dim ? dim : n;
    CHECK(law.size() == want && law.mean() == EV::Zero(want) && law.covar() == EM::Identity(want, want) && law.coord_sys() == EM::Identity(want, want) && law.scaling() == EV::Constant(want, 1) && law.sigma() == 1 && law.path_covar() == EV::Zero(want) && law.path_sigma() == EV::Zero(want), "reset", "a law that was reset is not the standard one of dimension ", want);
    event("reset");
    // condition number
    n = want;
    EV d(n); double lo = 1e300, hi = 0;
    for (size_t i = 0; i < n; ++i) { d(i) = std::pow(10.0, r.real(-4, 4)); lo = std::min(lo, d(i)); hi = std::max(hi, d(i)); }
    law.covar(d.asDiagonal());
    double thr = std::pow(10.0, r.real(0.5, 7));
    edoContAdaptiveIllCovar<Law> ill(thr);
    if (std::fabs(hi / lo - thr) > 1e-3 * thr) { CHECK(ill(law) == (hi / lo < thr), "condition", "a covariance matrix of condition ", hi / lo, " with threshold ", thr, ": the run ", ill(law) ? "goes on" : "stops"); event(hi / lo < thr ? "well" : "ill"); }
    Bad a(r.flip()), b(r.flip()), c(r.flip());
    edoCombinedContinue<Law> comb(a);
    comb.add(b); comb.add(c);
    CHECK(comb(law) == (a.ok && b.ok && c.ok), "combined", "combined criteria ", a.ok, b.ok, c.ok, " give ", comb(law));
    event("combined");
    std::function<Vec()> get = [&] { D1 t(n, 2.5); return vec(t); };
    std::function<void(Vec)> put = [&](Vec t) { law.mean(t); };
    edoEstimatorAdaptiveEdit<Law> edit(law, get, put);
    Law res = edit(none);
    CHECK(law.mean() == EV::Constant(n, 2.5) && res.mean() == law.mean(), "edited", "editing a law has no effect");
    event("edited");
    state(mix(where, mix(n, how)));
}

namespace {
typedef edoNormalMono<Vec> Mono;
struct Shift : public edoEstimator<Mono> { // a stage that adds to what the law has
    std::vector<int>& order; int id; double v;
    Shift(std::vector<int>& o, int i, double x) : order(o), id(i), v(x) {}
    Mono operator()(eoPop<Vec>& p) { order.push_back(id); D1 m(p[0].size(), v), s(p[0].size(), 1); return Mono(vec(m), vec(s)); }
};
struct CountStat : public edoStatBase<Mono> { size_t n = 0, last = 0; void operator()(const Mono&) { ++n; } void lastCall(const Mono&) { ++last; } };
struct CountUpd : public eoUpdater { size_t n = 0, last = 0; void operator()() { ++n; } void lastCall() { ++last; } };
struct CountMon : public eoMonitor { size_t n = 0, last = 0; eoMonitor& operator()() { ++n; return *this; } void lastCall() { ++last; } };
struct Upto : public edoContinue<Mono> { size_t max, n = 0; Upto(size_t m) : max(m) {} bool operator()(const Mono&) { return ++n < max; } };
}
UNIT(combined, 600, 8000, "adaptive,stateless,checkpoint,snapshot,skipped") {
    std::vector<int> order;
    Shift a(order, 1, 1.5), b(order, 2, -2), c(order, 3, 7);
    eoPop<Vec> pop = drawn(r, 4, (size_t)r.range(1, 4));
    std::vector<edoEstimator<Mono>*> list{&a, &b};
    Mono law;
    for (int k = 0; k < 2; ++k) {
        order.clear();
        bool st = k == 1, many = r.flip();
        std::shared_ptr<edoEstimatorCombinedAdaptive<Mono>> e;
        std::shared_ptr<edoEstimatorCombinedStateless<Mono>> s;
        if (st) { s = many ? std::make_shared<edoEstimatorCombinedStateless<Mono>>(list) : std::make_shared<edoEstimatorCombinedStateless<Mono>>(a); e = s; }
        else e = many ? std::make_shared<edoEstimatorCombinedAdaptive<Mono>>(law, list) : std::make_shared<edoEstimatorCombinedAdaptive<Mono>>(law, a);
        e->add(c);
        for (int t = 0; t < 3; ++t) {
            order.clear();
            Mono res = (*e)(pop);
            CHECK(order == (many ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 3}), "order", "combined estimators ran as ", show(order));
            CHECK(res.mean()[0] == 7, "combined", "combined estimators give mean ", res.mean()[0], ", the last one gives 7");
            if (!st) CHECK(law.mean()[0] == 7, "combined", "the shared law was not updated");
        }
        event(st ? "stateless" : "adaptive");
    }
    // checkpoint
    size_t max = (size_t)r.range(1, 6);
    Upto u(max), w(max + (size_t)r.range(0, 3));
    edoCheckPoint<Mono> cp(u);
    CountStat s1, s2; CountUpd up; CountMon mo;
    cp.add(w); cp.add(s1); cp.add(s2); cp.add(up); cp.add(mo);
    size_t calls = 0;
    bool go = true;
    while (go && calls < 20) { ++calls; go = cp(law); CHECK(s1.last == (go ? 0u : 1u), "last-call", "the last call of a statistic at call ", calls, " of ", max); }
    CHECK(calls == max && s1.n == max && s2.n == max && up.n == max && mo.n == max && s2.last == 1 && up.last == 1 && mo.last == 1 && w.n == max, "checkpoint", "a checkpoint that should stop after ", max, " calls stopped after ", calls, "; statistics ran ", s1.n, ", ", s2.n, ", updaters ", up.n, ", monitors ", mo.n, ", last calls ", s2.last, up.last, mo.last);
    event("checkpoint");
    if (idx % 10 == 0) {
        std::string dir = std::string(scratch()) + "/snap" + std::to_string(idx);
        unsigned freq = (unsigned)r.range(1, 3);
        std::vector<std::string> files;
        {
            edoFileSnapshot snap(dir, freq, "law", ";");
            eoValueParam<int> x(0, "x"), y(0, "y");
            snap.add(x); snap.add(y);
            for (unsigned g = 0; g < 7; ++g) {
                x.value() = (int)g; y.value() = (int)g * 10;
                snap();
                std::string f = dir + "/law" + std::to_string(g + 1);
                struct stat sb;
                bool there = ::stat(f.c_str(), &sb) == 0;
                CHECK(there == (g % freq == 0), "snapshot", "snapshot ", g, " every ", freq, ": the file is ", there ? "there" : "missing");
                CHECK(snap.hasChanged() == there, "snapshot", "snapshot ", g, " reports a change: ", snap.hasChanged());
                if (!there) { event("skipped"); continue; }
                std::ifstream in(f); std::string line; std::getline(in, line);
                CHECK(line == std::to_string(g) + ";" + std::to_string(g * 10), "snapshot", "snapshot ", g, " holds \"", line, "\"");
                files.push_back(f);
            }
        }
        std::ifstream in(dir + "/list_of_files.txt"); std::string line; std::vector<std::string> got;
        while (std::getline(in, line)) got.push_back(line);
        CHECK(got == files, "snapshot-list", "the list of snapshots has ", got.size(), " names, ", files.size(), " were written");
        event("snapshot");
    }
    state(mix(max, idx));
}

namespace {
typedef eoReal<eoMinimizingFitness> Min;
double sphere(const Min& x) { double s = 0; for (double v : x) s += (v - 0.3) * (v - 0.3); return s; }
struct MinEval : public eoEvalFunc<Min> { size_t n = 0; void operator()(Min& x) { ++n; CHECK(x.invalid(), "evaluated-again", "a solution just drawn already has a fitness"); x.fitness(sphere(x)); } };
template <class D> struct Run {
    D1 lo, hi;
    size_t size, gens = 0, max, estimated = 0, drawn = 0, stopAt;
    void right(const eoPop<Min>& p, const char* w) {
        for (auto& x : p) { CHECK(!x.invalid() && (double)x.fitness() == sphere(x), "fitness", w, ": an individual has a wrong or no fitness"); CHECK(x.size() == lo.size(), "dimension", w, ": an individual changed its dimension"); }
        event("population");
    }
};
template <class D> struct PopEval : public eoPopEvalFunc<Min> {
    Run<D>& o; MinEval& e;
    PopEval(Run<D>& o_, MinEval& e_) : o(o_), e(e_) {}
    void operator()(eoPop<Min>& par, eoPop<Min>& off) {
        o.right(par, "parents");
        CHECK(off.size() == par.size(), "drawn", "a population of ", par.size(), " draws ", off.size(), " new individuals");
        for (auto& x : off) { for (size_t i = 0; i < x.size(); ++i) CHECK(x[i] >= o.lo[i] && x[i] <= o.hi[i], "outside", "a drawn component ", x[i], " is outside the bounds"); e(x); event("drawn"); }
        ++o.drawn;
    }
};
template <class D> struct Cont : public eoContinue<Min> {
    Run<D>& o;
    Cont(Run<D>& o_) : o(o_) {}
    bool operator()(const eoPop<Min>& p) { o.right(p, "population"); CHECK(p.size() == o.size, "size", "a population of ", o.size, " has become one of ", p.size()); event("generation"); return ++o.gens < o.max; }
    std::string className() const { return "Cont"; }
};
template <class D> struct DCont : public edoContinue<D> {
    Run<D>& o; size_t n = 0;
    DCont(Run<D>& o_) : o(o_) {}
    bool operator()(const D&) { return ++n < o.stopAt; }
};
template <class D, class E> struct Est : public edoEstimator<D> {
    Run<D>& o; E& e;
    Est(Run<D>& o_, E& e_) : o(o_), e(e_) {}
    D operator()(eoPop<Min>& p) { o.right(p, "selected"); ++o.estimated; return e(p); }
};
template <class D, class E, class S> void eda(Rand& r, D& law, E& e0, S&& sampler, Run<D>& o, eoPop<Min>& pop, bool adaptive, const char* name) {
    MinEval ev;
    for (auto& x : pop) ev(x);
    PopEval<D> pe(o, ev);
    Cont<D> c(o);
    DCont<D> dc(o);
    Est<D, E> est(o, e0);
    eoRankMuSelect<Min> sel((unsigned)std::max<size_t>(2, o.size / 2));
    eoPlusReplacement<Min> plus; eoCommaReplacement<Min> comma;
    bool pl = r.flip(), useDc = r.flip();
    if (!useDc) o.stopAt = 1000000;
    eoReplacement<Min>& rep = pl ? (eoReplacement<Min>&)plus : (eoReplacement<Min>&)comma;
    double best = 1e300; for (auto& x : pop) best = std::min(best, (double)x.fitness());
    std::shared_ptr<edoAlgo<D>> algo;
    if (adaptive) { if (useDc && r.flip()) algo = std::make_shared<edoAlgoAdaptive<D>>(law, pe, sel, est, est, sampler, rep, c, dc); else if (useDc) algo = std::make_shared<edoAlgoAdaptive<D>>(law, pe, sel, est, sampler, rep, c, dc); else algo = std::make_shared<edoAlgoAdaptive<D>>(law, pe, sel, est, sampler, rep, c); }
    else if constexpr (std::is_default_constructible<D>::value) { if (useDc) algo = std::make_shared<edoAlgoStateless<D>>(pe, sel, est, sampler, rep, c, dc); else algo = std::make_shared<edoAlgoStateless<D>>(pe, sel, est, sampler, rep, c); }
    (*algo)(pop);
    o.right(pop, name);
    CHECK(pop.size() == o.size, "size", name, ": a population of ", o.size, " ends as ", pop.size());
    size_t want = std::min(o.max, o.stopAt - 1);
    CHECK(o.gens == want, "generations", name, ": ", o.gens, " generations, the criteria allow ", want);
    CHECK(o.drawn == o.gens, "drawn", name, ": ", o.drawn, " draws of a population in ", o.gens, " generations");
    CHECK(o.estimated == o.gens + 1 + (o.stopAt - 1 < o.max ? 1 : 0), "estimated", name, ": ", o.estimated, " estimations in ", o.gens, " generations");
    if (pl) { double now = 1e300; for (auto& x : pop) now = std::min(now, (double)x.fitness()); CHECK(now <= best, "best-lost", name, ": the best went from ", best, " to ", now, " although parents compete"); event("plus"); }
    if (useDc && o.stopAt - 1 < o.max) event("law-stops");
    event(adaptive ? "adaptive-run" : "stateless-run");
}
}
UNIT(algorithms, 400, 6000, "uniform,mono,multi,adaptive-law,adaptive-run,stateless-run,generation,drawn,plus,law-stops") {
    eoh::Quiet q;
    size_t d = (size_t)r.range(1, 5), n = (size_t)r.range(4, 20);
    D1 lo, hi; Min vl(d), vh(d);
    for (size_t i = 0; i < d; ++i) { lo.push_back(r.real(-3, 0)); hi.push_back(r.real(0.5, 3)); vl[i] = lo[i]; vh[i] = hi[i]; }
    rng.reseed((uint32_t)r.below(1u << 30));
    eoPop<Min> pop;
    for (size_t k = 0; k < n; ++k) { Min x(d); for (size_t i = 0; i < d; ++i) x[i] = r.real(lo[i], hi[i]); pop.push_back(x); }
    edoBounderBound<Min> clamp(vl, vh); edoBounderUniform<Min> uni(vl, vh);
    edoBounder<Min>& b = r.flip() ? (edoBounder<Min>&)clamp : (edoBounder<Min>&)uni;
    bool ad = r.flip();
    size_t max = (size_t)r.range(1, 15), stop = (size_t)r.range(2, 12);
    auto setup = [&](auto& o) { o.lo = lo; o.hi = hi; o.size = n; o.max = max; o.stopAt = stop; };
    switch (idx % 4) {
    case 0: { typedef edoUniform<Min> D; Run<D> o; setup(o); D law(vl, vh); edoEstimatorUniform<Min> e; edoSamplerUniform<Min> s(b); eda(r, law, e, s, o, pop, true, "uniform"); event("uniform"); break; }
    case 1: { typedef edoNormalMono<Min> D; Run<D> o; setup(o); D law; edoEstimatorNormalMono<Min> e; edoSamplerNormalMono<Min> s(b); eda(r, law, e, s, o, pop, ad, "mono"); event("mono"); break; }
    case 2: { typedef edoNormalMulti<Min> D; Run<D> o; setup(o); D law((unsigned)d); edoEstimatorNormalMulti<Min> e; edoSamplerNormalMulti<Min> s(b); eda(r, law, e, s, o, pop, ad, "multi"); event("multi"); break; }
    default: { typedef edoNormalAdaptive<Min> D; Run<D> o; setup(o); o.max = std::min<size_t>(o.max, 4); D law((unsigned)d); edoEstimatorNormalAdaptive<Min> e(law); edoSamplerNormalAdaptive<Min> s(b); eda(r, law, e, s, o, pop, true, "adaptive"); event("adaptive-law"); }
    }
    state(mix(n, mix(d, mix(max, stop))));
}
