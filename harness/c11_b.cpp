// C11: laws of the real-valued variation operators.
#include "eoh.h"
#include <es.h>
#include <es/eoEsMutate.h>
#include <SBXCrossover.h>
#include <PolynomialMutation.h>
using namespace mon;
typedef eoReal<double> Real; typedef eoEsSimple<double> Es1; typedef eoEsStdev<double> EsN; typedef eoEsFull<double> EsF;
// a standard normal sample: mean, variance, quartiles and tail at 7 deviations
static void gauss(const std::vector<double>& z, const std::string& what, const char* key = "wrong-law") {
    double N = (double)z.size(), m = 0, v = 0; u64 half = 0, tail = 0, neg = 0;
    for (double x : z) { m += x; v += x * x; half += std::fabs(x) < 0.6744897501960817; tail += std::fabs(x) > 2; neg += x < 0; }
    m /= N; v /= N;
    CHECK(std::fabs(m) < 7 / std::sqrt(N), key, what, ": mean ", m, " of ", z.size(), " standardised values");
    CHECK(std::fabs(v - 1) < 7 * std::sqrt(2 / N), key, what, ": variance ", v, " of ", z.size(), " standardised values");
    CHECK(!deviates(half, z.size(), 0.5), key, what, ": ", half, " of ", z.size(), " within the quartiles");
    CHECK(!deviates(tail, z.size(), 0.04550026389635842), key, what, ": ", tail, " of ", z.size(), " beyond two deviations");
    CHECK(!deviates(neg, z.size(), 0.5), key, what, ": ", neg, " of ", z.size(), " negative");
    event("law"); state(hvec(std::vector<double>{m, v}));
}
// uniform in [0,1)
static void flat(const std::vector<double>& u, const std::string& what) {
    u64 c[4] = {0, 0, 0, 0};
    for (double x : u) { CHECK(x >= -1e-9 && x <= 1 + 1e-9, "wrong-law", what, ": ", x, " out of range"); c[std::min(3, std::max(0, (int)(x * 4)))]++; }
    for (int i = 0; i < 4; ++i) CHECK(!deviates(c[i], u.size(), 0.25), "wrong-law", what, ": ", c[i], " of ", u.size(), " in quarter ", i);
    event("law"); state(hvec(std::vector<double>(c, c + 4)));
}
static void none(const std::vector<double>& a, const std::vector<double>& b, const std::string& what) {
    double s = 0;
    for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i];
    CHECK(std::fabs(s / a.size()) < 7 / std::sqrt((double)a.size()), "correlated", what, ": correlation ", s / a.size(), " over ", a.size());
}
static eoRealVectorBounds& wide(unsigned n) {
    static std::map<unsigned, eoRealVectorBounds*> m; // bounds are referred to for ever
    if (!m[n]) m[n] = new eoRealVectorBounds(n, -1e9, 1e9);
    return *m[n];
}
// each gene is changed with its rate, independently of its place
static void rates(const std::vector<u64>& changed, u64 N, const std::vector<double>& p, const std::string& what) {
    for (size_t i = 0; i < changed.size(); ++i) CHECK(!deviates(changed[i], N, p[i]), "wrong-rate", what, ": gene ", i, " changed ", changed[i], " times of ", N, " at rate ", p[i]);
    event("rate");
}
UNIT_T(mutation_laws, 24, 240, 120, "law,rate") {
    const unsigned N = 4000;
    unsigned n = 1 + (unsigned)r.below(5);
    double p = r.pick(std::vector<double>{0.1, 0.5, 0.9, 1.0}), eps = r.pick(std::vector<double>{0.001, 0.2, 3.0});
    bool bounded = r.flip();
    std::vector<double> lo(n), hi(n), len(n);
    for (unsigned i = 0; i < n; ++i) { lo[i] = r.real(-5, 5); len[i] = r.real(0.5, 8); hi[i] = lo[i] + len[i]; }
    eoRealVectorBounds b(lo, hi);
    Real x0(n, 0.0);
    for (unsigned i = 0; i < n; ++i) if (bounded) x0[i] = lo[i] + len[i] * (r.flip(0.2) ? 0.0 : r.u01());
    std::vector<double> epsv(n), pv(n);
    for (unsigned i = 0; i < n; ++i) { epsv[i] = r.real(0.05, 2); pv[i] = r.pick(std::vector<double>{0.0, 0.3, 0.8, 1.0}); }
    double sg = bounded ? 0.005 : r.pick(std::vector<double>{0.01, 1, 40}); // bounded: folding must stay out of sight
    if (idx % 6 >= 3 && bounded) for (unsigned i = 0; i < n; ++i) x0[i] = lo[i] + len[i] / 2;
    eo::rng.reseed((uint32_t)r.next()); eo::rng.clearCache();
    // kinds: 0 uniform, 1 uniform by coordinate, 2 det uniform, 3 normal, 4 normal by coordinate, 5 polynomial
    int kind = idx % 6;
    std::unique_ptr<eoMonOp<Real>> op; std::vector<double> half(n), rate(n, p); const char* name = "";
    unsigned no = 1;
    double eta = r.pick(std::vector<double>{0.5, 1, 20});
    switch (kind) {
    case 0: name = "uniform"; op.reset(bounded ? new eoUniformMutation<Real>(b, eps, p) : new eoUniformMutation<Real>(eps, p)); for (unsigned i = 0; i < n; ++i) half[i] = bounded ? eps * len[i] : eps; break;
    case 1: name = "uniform by coordinate"; bounded = true; for (unsigned i = 0; i < n; ++i) x0[i] = lo[i] + len[i] * r.u01(); op.reset(new eoUniformMutation<Real>(b, epsv, pv)); half = epsv; rate = pv; break;
    case 2: name = "det uniform"; no = 1 + (unsigned)r.below(2); op.reset(bounded ? new eoDetUniformMutation<Real>(b, eps, no) : new eoDetUniformMutation<Real>(eps, no)); for (unsigned i = 0; i < n; ++i) { half[i] = bounded ? eps * len[i] : eps; rate[i] = 1 - std::pow(1 - 1.0 / n, (double)no); } break;
    case 3: name = "normal"; { static double keep; keep = sg; op.reset(bounded ? new eoNormalMutation<Real>(b, keep, p) : new eoNormalMutation<Real>(keep, p)); } for (unsigned i = 0; i < n; ++i) half[i] = sg; break;
    case 4: name = "normal by coordinate"; op.reset(bounded ? new eoNormalVecMutation<Real>(b, sg, p) : new eoNormalVecMutation<Real>(sg, p)); for (unsigned i = 0; i < n; ++i) half[i] = bounded ? sg * len[i] : sg; break;
    default: name = "polynomial"; bounded = true; for (unsigned i = 0; i < n; ++i) x0[i] = lo[i] + len[i] * r.u01(); op.reset(new PolynomialMutation<Real>(b, p, eta));
    }
    std::vector<std::vector<double>> got(n); std::vector<u64> changed(n, 0), less(n, 0);
    for (unsigned k = 0; k < N; ++k) {
        Real x(x0); x.fitness(1);
        bool said = (*op)(x), is = false;
        CHECK(x.size() == n, "length-changed", name);
        for (unsigned i = 0; i < n; ++i) {
            if (x[i] == x0[i]) continue;
            is = true; ++changed[i]; less[i] += x[i] < x0[i];
            if (bounded) CHECK(x[i] >= lo[i] && x[i] <= hi[i], "out-of-bounds", name, ": ", x[i], " in [", lo[i], ",", hi[i], "]");
            got[i].push_back(x[i]);
        }
        CHECK(said || !is, "silent-change", name, " reported no change");
    }
    rates(changed, N, rate, cat(name, bounded ? " bounded" : ""));
    for (unsigned i = 0; i < n; ++i) {
        std::string what = cat(name, bounded ? " bounded" : "", " gene ", i, " from ", x0[i], " step ", half[i]);
        if (got[i].size() < 100) continue;
        if (kind < 3 && no == 1) {
            double a = x0[i] - half[i], c = x0[i] + half[i];
            if (bounded) a = std::max(a, lo[i]), c = std::min(c, hi[i]);
            std::vector<double> u;
            for (double v : got[i]) u.push_back((v - a) / (c - a));
            flat(u, what);
        } else if (kind == 3 || kind == 4) {
            std::vector<double> z;
            for (double v : got[i]) z.push_back((v - x0[i]) / half[i]);
            gauss(z, what);
        } else if (kind == 5) {
            // symmetric, within the distance to the closest bound, and with the polynomial law in between
            double dm = std::min(x0[i] - lo[i], hi[i] - x0[i]) / len[i];
            CHECK(!deviates(less[i], got[i].size(), 0.5), "wrong-law", what, ": ", less[i], " of ", got[i].size(), " downwards");
            std::vector<double> u;
            double q = std::pow(1 - dm, eta + 1);
            for (double v : got[i]) {
                double d = std::fabs(v - x0[i]) / len[i];
                CHECK(d <= dm * (1 + 1e-9) + 1e-12, "step-too-long", what, ": ", v, " beyond the distance to the closest bound");
                u.push_back((1 - std::pow(1 - std::min(d, 1.0), eta + 1)) / (1 - q)); // distribution function of the step
            }
            if (dm > 1e-3) flat(u, what);
        }
    }
}
UNIT_T(crossover_laws, 20, 200, 120, "law,preserved") {
    const unsigned N = 4000;
    unsigned n = 1 + (unsigned)r.below(4);
    double eta = r.pick(std::vector<double>{0, 0.5, 2, 15});
    std::vector<double> lo(n), hi(n);
    Real p(n, 0.0), q(n, 0.0);
    for (unsigned i = 0; i < n; ++i) { lo[i] = r.real(-5, 5); hi[i] = lo[i] + r.real(1, 8); p[i] = r.real(lo[i], hi[i]); q[i] = r.real(lo[i], hi[i]); }
    if (r.flip(0.3)) q[0] = p[0];
    eoRealVectorBounds b(lo, hi);
    eo::rng.reseed((uint32_t)r.next()); eo::rng.clearCache();
    int kind = idx % 5; // 0 simulated binary without bounds, 1 with, 2 bounded law, 3 segment, 4 hypercube
    double alpha = r.pick(std::vector<double>{0, 0.5});
    eoSBXCrossover<Real> a0(eta), a1(b, eta); SBXCrossover<Real> a2(b, eta); eoSegmentCrossover<Real> a3(alpha); eoHypercubeCrossover<Real> a4(alpha);
    eoQuadOp<Real>& op = kind == 0 ? (eoQuadOp<Real>&)a0 : kind == 1 ? (eoQuadOp<Real>&)a1 : kind == 2 ? (eoQuadOp<Real>&)a2 : kind == 3 ? (eoQuadOp<Real>&)a3 : (eoQuadOp<Real>&)a4;
    std::vector<std::vector<double>> u(n); std::vector<u64> first(n, 0);
    for (unsigned k = 0; k < N; ++k) {
        Real x(p), y(q);
        bool said = op(x, y);
        double common = 0;
        for (unsigned i = 0; i < n; ++i) {
            double s = p[i] + q[i], d = q[i] - p[i], tol = 1e-9 * (std::fabs(p[i]) + std::fabs(q[i]) + 1);
            CHECK(said || (x[i] == p[i] && y[i] == q[i]), "silent-change", "crossover ", kind);
            if (kind == 1 || kind == 2) CHECK(x[i] >= lo[i] - 1e-12 && x[i] <= hi[i] + 1e-12 && y[i] >= lo[i] - 1e-12 && y[i] <= hi[i] + 1e-12, "out-of-bounds", "simulated binary crossover gave ", x[i], " and ", y[i], " in [", lo[i], ",", hi[i], "]");
            if (d == 0) { CHECK(std::fabs(x[i] - p[i]) <= tol && std::fabs(y[i] - p[i]) <= tol, "gene-lost", "crossover ", kind, " changed equal genes ", p[i], " to ", x[i], " and ", y[i]); continue; }
            if (kind == 0 || kind == 3) { CHECK(std::fabs(x[i] + y[i] - s) <= 1e-6 * (std::fabs(x[i]) + std::fabs(y[i])) + tol, "sum-changed", "crossover ", kind, " gene ", i, ": ", x[i], " + ", y[i], " from ", p[i], " and ", q[i]); event("preserved"); }
            if (kind == 0) { double beta = (y[i] - x[i]) / d; CHECK(beta >= 0, "wrong-law", "negative spread ", beta); u[i].push_back(beta <= 1 ? 0.5 * std::pow(beta, eta + 1) : 1 - 0.5 * std::pow(beta, -(eta + 1))); }
            if (kind == 2) {
                first[i] += x[i] < y[i];
                double y1 = std::min(p[i], q[i]), y2 = std::max(p[i], q[i]), c1 = std::min(x[i], y[i]), L = y2 - y1;
                double beta = 1 + 2 * (y1 - lo[i]) / L, al = 2 - std::pow(beta, -(eta + 1)), bq = (y1 + y2 - 2 * c1) / L;
                u[i].push_back((bq <= 1 ? std::pow(std::max(bq, 0.0), eta + 1) : 2 - std::pow(bq, -(eta + 1))) / al);
            }
            if (kind == 3) { double f = (x[i] - q[i]) / (p[i] - q[i]); if (i && common) CHECK(std::fabs(f - common) < 1e-6 * (1 / std::fabs(d) + 10), "not-a-segment", "factors ", common, " and ", f); common = f; u[i].push_back((f + alpha) / (1 + 2 * alpha)); }
            if (kind == 4) {
                double mn = std::min(p[i], q[i]) - alpha * std::fabs(d), w = std::fabs(d) * (1 + 2 * alpha);
                u[i].push_back((x[i] - mn) / w);
            }
        }
    }
    for (unsigned i = 0; i < n; ++i) if (u[i].size() == N) {
        flat(u[i], cat("crossover ", kind, " gene ", i, " eta ", eta, " alpha ", alpha));
        if (kind == 2) CHECK(!deviates(first[i], N, 0.5), "wrong-law", "bounded simulated binary crossover gave the lower value to the first child ", first[i], " times of ", N);
    }
    event("preserved");
}
template <class E> static E es(unsigned n, const std::vector<double>& s, const std::vector<double>& a);
template <> Es1 es<Es1>(unsigned n, const std::vector<double>& s, const std::vector<double>&) { Es1 e; e.resize(n, 0.0); e.stdev = s[0]; return e; }
template <> EsN es<EsN>(unsigned n, const std::vector<double>& s, const std::vector<double>&) { EsN e; e.resize(n, 0.0); e.stdevs = s; return e; }
template <> EsF es<EsF>(unsigned n, const std::vector<double>& s, const std::vector<double>& a) { EsF e; e.resize(n, 0.0); e.stdevs = s; e.correlations = a; return e; }
static double dev(const Es1& e, unsigned) { return e.stdev; }
static double dev(const EsN& e, unsigned i) { return e.stdevs[i]; }
static double dev(const EsF& e, unsigned i) { return e.stdevs[i]; }
static std::vector<double> angles(const Es1&) { return {}; }
static std::vector<double> angles(const EsN&) { return {}; }
static std::vector<double> angles(const EsF& e) { return e.correlations; }
template <class E> static void evolution(Rand& r, int kind) {
    const unsigned N = 5000;
    unsigned n = 1 + (unsigned)r.below(4);
    std::vector<double> s(n), a(n * (n - 1) / 2);
    for (double& x : s) x = std::pow(10.0, r.real(-2, 1));
    for (double& x : a) x = r.real(-M_PI, M_PI);
    double tl = 1, tg = 1, tb = 0.0873;
    std::vector<std::string> w{"x"};
    if (r.flip()) { tl = 0.25 * r.range(1, 6); tg = 0.25 * r.range(1, 6); tb = 0.125 * r.range(1, 8); w.push_back(cat("--TauLoc=", tl)); w.push_back(cat("--TauGlob=", tg)); w.push_back(cat("--Beta=", tb)); }
    std::vector<char*> av;
    for (auto& x : w) av.push_back(&x[0]);
    eoh::Quiet quiet;
    eoParser ps((unsigned)av.size(), av.data()); eoEsMutationInit mi(ps);
    eoEsMutate<E> m(mi, wide(n));
    eo::rng.reseed((uint32_t)r.next()); eo::rng.clearCache();
    double loc = kind == 0 ? tl / std::sqrt(2.0 * n) : tl / std::sqrt(2 * std::sqrt((double)n)), glob = kind == 0 ? 0 : tg / std::sqrt(2.0 * n);
    std::vector<std::vector<double>> step(n), ratio(n), turn(kind == 2 ? a.size() : 0);
    std::vector<double> diff; // of two log ratios: the local part
    for (unsigned k = 0; k < N; ++k) {
        E e = es<E>(n, s, a); e.fitness(1);
        m(e);
        std::vector<double> d(n), b = angles(e);
        for (unsigned i = 0; i < n; ++i) { d[i] = e[i]; ratio[i].push_back(std::log(dev(e, i) / s[kind == 0 ? 0 : i]) / std::sqrt(loc * loc + glob * glob)); }
        if (kind && n > 1) diff.push_back((std::log(dev(e, 0) / s[0]) - std::log(dev(e, 1) / s[1])) / (loc * std::sqrt(2.0)));
        for (size_t j = 0; j < b.size(); ++j) {
            CHECK(std::fabs(b[j]) <= M_PI * (1 + 1e-12), "wrong-deviation", "angle ", b[j]);
            double t = b[j] - a[j];
            t -= 2 * M_PI * std::floor((t + M_PI) / (2 * M_PI));
            turn[j].push_back(t / tb);
        }
        if (kind == 2 && n > 1) { // undo the rotations, last one first: pairs (p,q), the last angle turning the last two axes
            std::vector<std::pair<unsigned, unsigned>> pairs;
            for (unsigned p = n - 1; p-- > 0;) for (unsigned q = n; q-- > p + 1;) pairs.push_back({p, q});
            size_t nq = b.size();
            std::vector<double> ang;
            for (size_t t = 0; t < pairs.size(); ++t) ang.push_back(b[--nq]);
            for (size_t t = pairs.size(); t-- > 0;) {
                double S = std::sin(ang[t]), C = std::cos(ang[t]), &x = d[pairs[t].first], &y = d[pairs[t].second], v1 = x, v2 = y;
                x = v1 * C + v2 * S; y = v2 * C - v1 * S; // inverse of x = d1 C - d2 S, y = d1 S + d2 C
            }
        }
        for (unsigned i = 0; i < n; ++i) step[i].push_back(d[i] / dev(e, i));
    }
    for (unsigned i = 0; i < n; ++i) {
        gauss(step[i], cat("step of axis ", i, " of ", n, " strategy ", kind));
        gauss(ratio[i], cat("deviation of axis ", i, " of ", n, " strategy ", kind));
        for (unsigned j = 0; j < i; ++j) none(step[i], step[j], cat("steps of axes ", j, " and ", i, " of ", n, " strategy ", kind));
        none(step[i], ratio[i], "step and deviation");
    }
    if (!diff.empty()) gauss(diff, "local change of deviations");
    if (tb < 0.6) for (auto& t : turn) gauss(t, "change of angle"); // wrapped further away
    event("strategy");
}
UNIT_T(strategy_laws, 18, 180, 120, "law,strategy") {
    if (idx % 3 == 0) evolution<Es1>(r, 0); else if (idx % 3 == 1) evolution<EsN>(r, 1); else evolution<EsF>(r, 2);
}
// all the numbers of an individual: variables, deviations, angles
static std::vector<double*> numbers(Es1& e) { std::vector<double*> v; for (auto& x : e) v.push_back(&x); v.push_back(&e.stdev); return v; }
static std::vector<double*> numbers(EsN& e) { std::vector<double*> v; for (auto& x : e) v.push_back(&x); for (auto& x : e.stdevs) v.push_back(&x); return v; }
static std::vector<double*> numbers(EsF& e) { std::vector<double*> v; for (auto& x : e) v.push_back(&x); for (auto& x : e.stdevs) v.push_back(&x); for (auto& x : e.correlations) v.push_back(&x); return v; }
template <class E> static void strategyCross(Rand& r) {
    const unsigned N = 3000;
    unsigned n = 1 + (unsigned)r.below(4), M = 2 + (unsigned)r.below(4);
    std::vector<double> s(n, 1.0), a(n * (n - 1) / 2, 0.5);
    eoPop<E> pop;
    for (unsigned j = 0; j < M; ++j) { E e = es<E>(n, s, a); size_t k = 0; for (double* x : numbers(e)) *x = 1.0 + j + 10.0 * k++; e.fitness(j); pop.push_back(e); }
    eoDoubleExchange ex; eoDoubleIntermediate mid;
    bool o = r.flip(), m = r.flip(), global = r.flip();
    eoEsStandardXover<E> std1(o ? (eoBinOp<double>&)ex : mid, m ? (eoBinOp<double>&)ex : mid);
    eoEsGlobalXover<E> glob(o ? (eoBinOp<double>&)ex : mid, m ? (eoBinOp<double>&)ex : mid);
    eo::rng.reseed((uint32_t)r.next());
    size_t K = numbers(pop[0]).size();
    std::vector<std::vector<u64>> from(K, std::vector<u64>(M, 0));
    std::vector<double> sum(K, 0), sq(K, 0);
    eoPop<E> before = pop;
    eoBestSelect<E> sel; // the first parent is always the same: the others must come from everybody
    for (unsigned t = 0; t < N; ++t) {
        E c = pop[0];
        if (global) { eoPop<E> off; eoSelectivePopulator<E> pp(pop, off, sel); glob(pp); CHECK(off.size() >= 1, "child-lost", "global crossover made no child"); c = off[0]; CHECK(c.invalid(), "stale-fitness", "global crossover leaves the fitness"); }
        else { bool said = std1(c, pop[1]); bool is = false; E z = pop[0]; auto p = numbers(c), q = numbers(z); for (size_t i = 0; i < K; ++i) is = is || *p[i] != *q[i]; CHECK(said || !is, "silent-change", "standard crossover of strategies"); }
        auto v = numbers(c);
        CHECK(v.size() == K, "length-changed", "crossover of strategies: ", v.size(), " numbers instead of ", K);
        for (size_t i = 0; i < K; ++i) {
            double w = *v[i] - 10.0 * i - 1;
            CHECK(w >= -1e-9 && w <= (global ? M - 1 : 1) + 1e-9, "out-of-interval", "crossover of strategies: number ", i, " is ", *v[i], ", not between the parents'");
            if (i < n ? o : m) { CHECK(w == std::floor(w), "gene-lost", "exchange gave number ", i, " the value ", *v[i], ", of no parent"); from[i][(size_t)w]++; }
            sum[i] += w; sq[i] += w * w;
        }
    }
    for (unsigned j = 0; j < M; ++j) { auto p = numbers(pop[j]), q = numbers(before[j]); for (size_t i = 0; i < K; ++i) CHECK(*p[i] == *q[i], "parent-changed", "crossover of strategies changed parent ", j); }
    for (size_t i = 0; i < K; ++i) {
        std::string what = cat(global ? "global" : "standard", " crossover of strategies, number ", i, " of ", K);
        if (i < n ? o : m) { unsigned top = global ? M : 2; for (unsigned j = 0; j < top; ++j) CHECK(!deviates(from[i][j], N, 1.0 / top), "wrong-law", what, ": ", from[i][j], " of ", N, " from parent ", j, " of ", top); }
        double mean = sum[i] / N, var = sq[i] / N - mean * mean, want = global ? (M - 1) / 2.0 : 0.5;
        CHECK(std::fabs(mean - want) < 7 * std::sqrt(std::max(var, 0.02) / N), "wrong-law", what, ": mean ", mean, " instead of ", want);
        CHECK(var > (global ? 0.05 : 0.04), "wrong-law", what, ": variance ", var);
    }
    event(global ? "global" : "standard"); event("law"); state(hvec(sum, K));
}
UNIT_T(strategy_crossover, 40, 400, 120, "law,global,standard") {
    if (idx % 3 == 0) strategyCross<Es1>(r); else if (idx % 3 == 1) strategyCross<EsN>(r); else strategyCross<EsF>(r);
}
