// C15: statistics.
#include "c15.h"

static double sum(const std::vector<double>& v) { long double s = 0; for (double x : v) s += x; return (double)s; }
template <class F> double numberOf(const F& f) { return (double)f; }
template <class P> std::vector<double> vals(const P& p) { std::vector<double> v; for (auto& e : p) v.push_back(numberOf(e.fitness())); return v; }
template <class E> double howBig(const eoPop<E>& p) { return (double)p.size() * 3 + 0.5; }

template <class E> void statistics(Rand& r) {
    Quiet q; typedef typename E::Fitness F; eo::rng.reseed((uint32_t)r.next());
    unsigned n = someSize(r); eoPop<E> p = PopOf<E>()(r, n); auto before = idseq(p); auto v = vals(p); auto best = ranks(p);
    double mean = sum(v) / n; long double dev = 0; double big = 0; for (double x : v) { dev += ((long double)x - mean) * (x - mean); big = std::max(big, std::fabs(x)); }
    std::vector<const E*> sorted; p.sort(sorted);
    double tol = 1e-9 * big + 1e-12;
    { eoAverageStat<E> s; s(p); CHECK(std::fabs(numberOf(s.value()) - mean) <= tol, "average", numberOf(s.value()), " instead of ", mean, " of ", show(v)); event("average"); }
    { eoSecondMomentStats<E> s; s(p); double sd = n > 1 ? std::sqrt((double)(dev / (n - 1))) : 0; CHECK(std::fabs(s.value().first - mean) <= tol, "average", s.value().first, " instead of ", mean); CHECK(std::fabs(s.value().second - sd) <= 1e-6 * big + 1e-9 * sd + 1e-12, "deviation", s.value().second, " instead of ", sd, " of ", show(v)); event("deviation"); }
    { eoBestFitnessStat<E> s; s(p); CHECK(rank(s.value()) == best[0], "best", numberOf(s.value())); event("best"); }
    { eoBestIndividualStat<E> s; s(p); CHECK(rk(s.value()) == best[0], "best-individual", ""); eoPop<E> p2 = PopOf<E>()(r, (unsigned)r.range(1, 5)); s(p2); auto b2 = ranks(p2)[0]; CHECK(rk(s.value()) == std::max(best[0], b2), "best-individual", "best so far"); }
    for (int k = 0; k < 3; ++k) { unsigned w = k == 0 ? 0 : k == 1 ? n - 1 : (unsigned)r.below(n); eoNthElementFitnessStat<E> s(w); s(sorted); CHECK(rank(s.value()) == best[w], "nth", w, " of ", n); event("nth");
        eoNthElementStat<E> t((int)w); t(p); CHECK(rank(t.value()) == best[n - 1 - w], "nth-from-worst", w, " of ", n, ": ", numberOf(t.value())); }
    { eoNthElementFitnessStat<E> s(n + (unsigned)r.below(3)); bool told = false; try { s(sorted); } catch (eoException&) { told = true; } CHECK(told, "nth-outside", "element outside the population of ", n); event("outside"); }
    { double ratio = r.flip(0.4) ? 0.5 : r.u01(); eoNthElementStat<E> t(ratio); t(p); unsigned w = (unsigned)std::floor(n * ratio); if (w < n) { CHECK(rank(t.value()) == best[n - 1 - w], "quantile", ratio, " of ", n); event("median"); } }
    { eoFuncPtrStat<E, double> s(&howBig<E>); s(p); CHECK(s.value() == n * 3 + 0.5, "function", ""); struct Fn : eoUF<const eoPop<E>&, double> { double operator()(const eoPop<E>& x) { return howBig(x) + 1; } } fn; eoFunctorStat<E, double> t(fn); t(p); CHECK(t.value() == n * 3 + 1.5, "function", ""); }
    { unsigned many = r.flip(0.3) ? 0 : (unsigned)r.range(1, 2 * n); unsigned shown = many ? std::min(many, n) : n; if (n < 2000) {
        eoPopStat<E> s(many); s(p); std::string want; for (unsigned i = 0; i < shown; ++i) { std::ostringstream o; o << p[i]; want += o.str() + "\n"; } CHECK(s.value().size() >= want.size() && s.value().compare(s.value().size() - want.size(), want.size(), want) == 0, "dump", many, " of ", n);
        eoSortedPopStat<E> t(many); t(sorted); want = ""; for (unsigned i = 0; i < shown; ++i) { std::ostringstream o; o << *sorted[i]; want += o.str() + "\n"; } CHECK(t.value() == want, "dump", "sorted ", many, " of ", n); event("dump"); } }
    { eoFitnessStat<E> s; s(sorted); CHECK(s.value().size() == n, "all", ""); for (unsigned i = 0; i < s.value().size(); ++i) CHECK(rank(s.value()[i]) == best[i], "all", "rank ", i); }
    CHECK(idseq(p) == before, "moved", "a statistic moved individuals"); CHECK(ranks(p) == best, "changed", "a statistic changed fitness");
    state(mix(hvec(v), n)); sample(cat(n, " individuals, mean ", mean)); (void)sizeof(F);
}
// statistics that need plain numbers
template <class E> void numbers(Rand& r) {
    Quiet q; unsigned n = someSize(r); eoPop<E> p = PopOf<E>()(r, n); auto best = ranks(p); auto v = vals(p); std::vector<const E*> sorted; p.sort(sorted);
    { eoInterquartileRangeStat<E> s; s(p); std::vector<double> a = v; std::sort(a.begin(), a.end()); unsigned k = n / 4;
      // quartiles counted from either end, as the direction of the fitness goes
      double lo = a[3 * k] - a[k], hi = a[n - 1 - k] - a[n - 1 - 3 * k], got = (double)s.value(); bool minim = good(typename E::Fitness(1.0)) < 0;
      CHECK(got == (minim ? hi : lo), "iqr", got, " instead of ", minim ? hi : lo, " of ", show(v)); event("iqr"); }
    { eoScalarFitnessStat<E> s; s(sorted); CHECK(s.value().size() == n, "all", ""); for (unsigned i = 0; i < n; ++i) CHECK(s.value()[i] == val(*sorted[i]), "all", "rank ", i); double lo = (double)r.range(-5, 0), hi = (double)r.range(1, 6); eoRealVectorBounds b(1, lo, hi); eoScalarFitnessStat<E> t("x", b); t(sorted); for (unsigned i = 0; i < n; ++i) CHECK(t.value()[i] == std::min(hi, std::max(lo, val(*sorted[i]))), "truncated", i); event("all"); }
}
template <class D> void duals(Rand& r) {
    Quiet q; unsigned n = someSize(r); eoPop<Ind<D>> p = PopOf<Ind<D>>()(r, n); if (r.flip(0.1)) for (auto& e : p) e.fitness(D(e.fitness().value(), true)); if (r.flip(0.1)) for (auto& e : p) e.fitness(D(e.fitness().value(), false));
    unsigned f = 0; for (auto& e : p) f += e.fitness().is_feasible();
    { eoFeasibleRatioStat<Ind<D>> s; s(p); CHECK(close(s.value(), (double)f / n), "feasible", s.value(), " for ", f, " of ", n); event("feasible"); }
    { eoDualPopSplit<Ind<D>> s; s(p); CHECK(s.feasible().size() == f && s.unfeasible().size() == n - f, "split", f, " of ", n); for (auto& e : s.feasible()) CHECK(e.fitness().is_feasible(), "split", "feasible side"); for (auto& e : s.unfeasible()) CHECK(!e.fitness().is_feasible(), "split", "unfeasible side"); CHECK(ids(s.merge()) == ids(p), "split", "merged"); s(p); CHECK(s.feasible().size() == f, "split", "twice"); event("split"); }
    { typedef eoBestFitnessStat<Ind<D>> S; S a("A"), b("B"); eoDualStatSwitch<S> s(a, b, "|"); s(p); std::string want; for (int side = 1; side >= 0; --side) { bool any = false; std::pair<int, double> best; D bf; for (auto& e : p) if ((int)e.fitness().is_feasible() == side) if (!any || best < rk(e)) { any = true; best = rk(e); bf = e.fitness(); } if (side == 0) want += "|"; if (!any) want += "?"; else { std::ostringstream o; o << bf; want += o.str(); } } CHECK(s.value() == want, "switch", s.value(), " instead of ", want); event("switch"); }
}
UNIT(statistics, 1800, 30000, "average,deviation,best,nth,outside,median,dump,iqr,all,feasible,split,switch") {
    switch (idx % 4) { case 0: statistics<Ind<double>>(r); numbers<Ind<double>>(r); break; case 1: statistics<Ind<MinF>>(r); numbers<Ind<MinF>>(r); break; case 2: statistics<Ind<double>>(r); duals<DMax>(r); break; default: statistics<Ind<MinF>>(r); duals<DMin>(r); }
}

template <class E> double diff(const E& a, const E& b, unsigned i) { return (double)a[i] - (double)b[i]; }
template <class E> void distances(Rand& r, std::function<void(E&)> fill) {
    Quiet q; unsigned n = r.flip(0.03) ? (unsigned)r.range(100, 300) : (unsigned)r.size(1, 20); eoPop<E> p; auto f = fitnesses(r, n); for (unsigned i = 0; i < n; ++i) { E e; fill(e); e.fitness(f[i]); p.push_back(e); } unsigned d = (unsigned)p[0].size();
    eoQuadDistance<E> l2; eoL1Distance<E> l1; eoHammingDistance<E> hm; eoFitnessDistance<E> fd;
    for (int k = 0; k < 4; ++k) { E &a = p[r.below(n)], &b = p[r.below(n)]; double s2 = 0, s1 = 0, h = 0; for (unsigned i = 0; i < d; ++i) { double x = diff(a, b, i); s2 += x * x; s1 += std::fabs(x); h += a[i] != b[i]; } CHECK(close(l2(a, b), std::sqrt(s2)) && close(l1(a, b), s1) && hm(a, b) == h && close(fd(a, b), std::fabs(val(a) - val(b))), "distance", l2(a, b), " ", l1(a, b), " ", hm(a, b), " ", fd(a, b)); event("distance"); }
    { eoDistanceStat<E> s; s(p); double t = 0; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) for (unsigned k = 0; k < d; ++k) t += std::fabs(diff(p[i], p[j], k)); t /= (double)n * n * d; CHECK(close(s.value(), t), "mean-distance", s.value(), " instead of ", t); event("mean_distance"); }
    { eoAverageSizeStat<E> s; s(p); CHECK(close(s.value(), d), "size", s.value()); E longer = p[0]; longer.push_back(longer[0]); p.push_back(longer); s(p); CHECK(close(s.value(), ((double)n * d + d + 1) / (n + 1)), "size", s.value()); p.pop_back(); }
    for (int mode = 0; mode < 2; ++mode) { E opt; fill(opt); opt.fitness(0); eoDistance<E>* ds = mode ? (eoDistance<E>*)&l2 : (eoDistance<E>*)&hm; eoFDCStat<E>* s = mode ? new eoFDCStat<E>(*ds, opt) : new eoFDCStat<E>(*ds); (*s)(p); const E* ref = mode ? &opt : &p.best_element();
        std::vector<double> x, y; for (auto& e : p) { x.push_back((*ds)(e, *ref)); y.push_back(val(e)); } double mx = sum(x) / n, my = sum(y) / n, sxx = 0, syy = 0, sxy = 0; for (unsigned i = 0; i < n; ++i) { sxx += (x[i] - mx) * (x[i] - mx); syy += (y[i] - my) * (y[i] - my); sxy += (x[i] - mx) * (y[i] - my); }
        if (sxx > 1e-9 && syy > 1e-9) { CHECK(close(s->value(), sxy / std::sqrt(sxx * syy), 1e-6, 1e-6), "correlation", s->value(), " instead of ", sxy / std::sqrt(sxx * syy)); event("correlation"); }
        CHECK(s->theDist().value() == x && s->theFit().value() == y, "correlation", "recorded distances or fitness"); delete s; }
    state(mix(hvec(f), d));
}
typedef eoAssembledMaximizingFitness AMax; typedef eoAssembledMinimizingFitness AMin;
template <class A> void assembled(Rand& r) {
    Quiet q; A declared(3, 0.0); typedef eoBit<A> E; unsigned n = (unsigned)r.size(1, 30); eoPop<E> p; bool allFailed = true; double best = 0; double s = 0; unsigned c = 0, which = (unsigned)r.below(3); bool mx = std::is_same<A, AMax>::value;
    for (unsigned i = 0; i < n; ++i) { A f(3, 0.0); f = (double)r.range(-9, 9); for (int k = 0; k < 3; ++k) f[(unsigned)k] = (double)r.range(-50, 50) / 4 + 1000 * k; f.failed = r.flip(0.3); f.feasible = r.flip(); E e; e.push_back(i % 2); e.fitness(f); p.push_back(e); if (!f.failed) { allFailed = false; s += f[which]; ++c; } }
    (void)best; (void)mx;
    eoAssembledFitnessBestStat<E> b(which); b(p); CHECK(b.value() == p.best_element().fitness()[which], "term-best", which);
    if (!allFailed) { eoAssembledFitnessAverageStat<E> a(which); a(p); CHECK(close(a.value(), s / c), "term-average", a.value(), " instead of ", s / c); event("term"); }
    bool told = false; eoAssembledFitnessBestStat<E> o(3); try { o(p); } catch (eoException&) { told = true; } CHECK(told, "term-outside", ""); told = false; eoAssembledFitnessAverageStat<E> o2(3); try { o2(p); } catch (eoException&) { told = true; } CHECK(told, "term-outside", "");
}
UNIT(distances, 1500, 20000, "distance,mean_distance,correlation,term") {
    unsigned d = (unsigned)r.range(1, 12);
    switch (idx % 5) {
    case 0: distances<eoReal<double>>(r, [&](eoReal<double>& e) { e.clear(); for (unsigned i = 0; i < d; ++i) e.push_back((double)r.range(-80, 80) / 8); }); break;
    case 1: distances<eoBit<double>>(r, [&](eoBit<double>& e) { e.clear(); for (unsigned i = 0; i < d; ++i) e.push_back(r.flip()); }); break;
    case 2: distances<eoInt<double, int>>(r, [&](eoInt<double, int>& e) { e.clear(); for (unsigned i = 0; i < d; ++i) e.push_back((int)r.range(-9, 9)); }); break;
    case 3: assembled<AMax>(r); break; default: assembled<AMin>(r); }
}
