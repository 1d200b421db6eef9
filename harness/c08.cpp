// C08: ranges and distributions of random draws.
#include "mon.h"
#include <eo>
#include <es.h>
#include <utils/rnd_generators.h>
using namespace mon;

static std::string g_what;
struct Dist {
    u64 n = 0; double s = 0, s2 = 0, lo = 1e300, hi = -1e300;
    std::vector<u64> bins;
    std::function<double(double)> cdf; // bins are equally likely under it when set
    Dist(size_t b = 0) : bins(b) {}
    void add(double x) {
        ++n; s += x; s2 += x * x; lo = std::min(lo, x); hi = std::max(hi, x);
        if (!bins.empty()) {
            double u = cdf ? cdf(x) : x;
            long k = (long)(u * (double)bins.size());
            if (k < 0) k = 0;
            if (k >= (long)bins.size()) k = (long)bins.size() - 1;
            ++bins[(size_t)k];
        }
    }
    double mean() const { return s / (double)n; }
    double var() const { double m = mean(); return s2 / (double)n - m * m; }
    void judge(double m, double v, double fourth /* of the centred variable over v^2 */) const {
        event("distribution");
        double N = (double)n;
        CHECK(std::fabs(mean() - m) <= 7 * std::sqrt(v / N) + 1e-9 * std::fabs(m) + 1e-12, "mean", g_what, ": mean ", mean(), " instead of ", m, " over ", n, " draws");
        CHECK(std::fabs(var() - v) <= 7 * v * std::sqrt((fourth - 1) / N) + 1e-9 * v + 1e-12, "variance", g_what, ": variance ", var(), " instead of ", v, " over ", n, " draws");
        double p = 1.0 / (double)std::max<size_t>(bins.size(), 1);
        for (size_t i = 0; i < bins.size(); ++i)
            CHECK(!deviates((double)bins[i], N, p), "shape", g_what, ": ", bins[i], " of ", n, " draws in bin ", i, " of ", bins.size());
        state(mix(hstr(g_what), hdbl(s)));
    }
};
static double Phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
static const u64 N = 12000;
static void warm(Rand& r) { for (int i = (int)r.below(1300); i > 0; --i) eo::rng.rand(); if (r.flip()) eo::rng.normal(); }

template <class F> void uniformReal(F f, double lo, double hi, bool open = true) {
    Dist d(20); d.cdf = [=](double x) { return (x - lo) / (hi - lo); };
    double prev = 0; std::vector<u64> pairs(16); u64 n = 0;
    for (u64 i = 0; i < N; ++i) {
        double x = f();
        CHECK(x >= lo && (open ? x < hi : x <= hi), "range", g_what, ": ", x, " out of [", lo, ",", hi, ")");
        d.add(x);
        double u = (x - lo) / (hi - lo);
        if (i % 2) { ++n; ++pairs[(size_t)std::min(3.0, std::max(0.0, std::floor(prev * 4))) * 4 + (size_t)std::min(3.0, std::max(0.0, std::floor(u * 4)))]; }
        prev = u;
    }
    for (u64 c : pairs) CHECK(!deviates((double)c, (double)n, 1 / 16.0), "dependence", g_what, ": consecutive draws are related: ", c, " of ", n);
    d.judge((lo + hi) / 2, (hi - lo) * (hi - lo) / 12, 1.8);
}
template <class F> void uniformInt(F f, long lo, long hi /* excluded */) {
    long k = hi - lo;
    std::vector<u64> c((size_t)std::min<long>(k, 64)); u64 first = 0, last = 0;
    for (u64 i = 0; i < N; ++i) {
        long x = (long)f();
        CHECK(x >= lo && x < hi, "range", g_what, ": ", x, " out of [", lo, ",", hi, ")");
        if (x < lo || x >= hi) return;
        first += x == lo; last += x == hi - 1;
        ++c[k <= 64 ? (size_t)(x - lo) : (size_t)((double)(x - lo) / (double)k * (double)c.size())];
    }
    event("distribution");
    for (size_t i = 0; i < c.size(); ++i) {
        // how many of the k values fall in this cell
        double p;
        if (k <= 64) p = 1.0 / (double)k;
        else p = (std::ceil((double)(i + 1) * (double)k / (double)c.size()) - std::ceil((double)i * (double)k / (double)c.size())) / (double)k;
        CHECK(!deviates((double)c[i], (double)N, p), "shape", g_what, ": ", c[i], " of ", N, " draws in cell ", i, " of ", c.size(), " expected ", p * (double)N);
    }
    if (k <= 300) CHECK(first && last, "range", g_what, ": first value drawn ", first, " times, last ", last, " times");
    state(mix(hstr(g_what), first));
}
template <class F> void normalDist(F f, double m, double sd) {
    Dist d(20); d.cdf = [=](double x) { return Phi((x - m) / sd); };
    std::vector<u64> pairs(4); double prev = 0;
    for (u64 i = 0; i < N; ++i) { double x = f(); CHECK(std::isfinite(x), "range", g_what, " gave ", x); d.add(x); if (i % 2) ++pairs[(prev < m) * 2 + (x < m)]; prev = x; }
    for (u64 c : pairs) CHECK(!deviates((double)c, N / 2.0, 0.25), "dependence", g_what, ": consecutive draws are related");
    d.judge(m, sd * sd, 3);
}
template <class F> void expDist(F f, double mean) {
    Dist d(20); d.cdf = [=](double x) { return 1 - std::exp(-x / mean); };
    for (u64 i = 0; i < N; ++i) { double x = f(); CHECK(x >= 0, "range", g_what, " gave ", x); d.add(x); }
    d.judge(mean, mean * mean, 9);
}
template <class F> void coin(F f, double p) {
    u64 c = 0; for (u64 i = 0; i < N; ++i) c += (bool)f();
    event("distribution");
    if (p <= 0 || p >= 1) CHECK(c == (p >= 1 ? N : 0), "coin-certain", g_what, ": bias ", p, " gave ", c, " of ", N);
    else CHECK(!deviates((double)c, (double)N, p), "coin", g_what, ": bias ", p, " gave ", c, " of ", N);
    state(mix(hstr(g_what), c));
}
static long someMax(Rand& r) { switch (r.below(5)) { case 0: return 1; case 1: return r.range(2, 12); case 2: return r.range(13, 300); case 3: return r.range(301, 100000); default: return r.flip() ? r.range(1000000, 2000000000) : r.range(2000000000, 4294967295L); } }

UNIT(generator, 360, 4500, "distribution,large-wheel,interleaved") {
    warm(r);
    eoRng own((uint32_t)r.below(1u << 30));
    eoRng& g = r.flip() ? eo::rng : own;
    double m = r.pick(std::vector<double>{1, 0.001, 7.5, 1e6}), a = r.real(-100, 100), w = r.pick(std::vector<double>{0.01, 1, 50, 1e5});
    switch (idx % 18) {
    case 0: g_what = "uniform()"; uniformReal([&] { return g.uniform(); }, 0, 1); break;
    case 1: g_what = cat("uniform(", m, ")"); uniformReal([&] { return g.uniform(m); }, 0, m); break;
    case 2: g_what = cat("uniform(", a, ",", a + w, ")"); uniformReal([&] { return g.uniform(a, a + w); }, a, a + w); break;
    case 3: case 4: { long k = someMax(r); g_what = cat("random(", k, ")"); uniformInt([&] { return g.random((uint32_t)k); }, 0, k); break; }
    case 5: { double p = r.pick(std::vector<double>{0, 1, 0.5, 0.01, 0.99, r.u01()}); g_what = cat("flip(", p, ")"); coin([&] { return g.flip(p); }, p); break; }
    case 6: g_what = "normal()"; normalDist([&] { return g.normal(); }, 0, 1); break;
    case 7: g_what = cat("normal(", w, ")"); normalDist([&] { return g.normal(w); }, 0, w); break;
    case 8: g_what = cat("normal(", a, ",", w, ")"); normalDist([&] { return g.normal(a, w); }, a, w); break;
    case 9: g_what = cat("negexp(", m, ")"); expDist([&] { return g.negexp(m); }, m); break;
    case 10: { unsigned n = (unsigned)(r.flip(0.2) ? r.range(100, 1500) : r.range(1, 20)); double p = r.real(0.05, 0.95); g_what = cat("binomial(", n, ",", p, ")"); Dist d; for (u64 i = 0; i < (n > 20 ? N / 40 : N / 4); ++i) { unsigned x = g.binomial(n, p); CHECK(x <= n, "range", g_what, " gave ", x); d.add(x); } double q = 1 - p; d.judge(n * p, n * p * q, 3 + (1 - 6 * p * q) / (n * p * q)); CHECK(g.binomial(n, 0) == 0 && g.binomial(n, 1) == n, "coin-certain", g_what); break; }
    case 11: { double lo = r.real(0.5, 3), hi = lo + r.real(0.5, 20), ga = r.pick(std::vector<double>{0.5, 1.5, 2.5, 3}); g_what = cat("powerlaw(", lo, ",", hi, ",", ga, ")"); double e = 1 - ga, A = std::pow(lo, e), B = std::pow(hi, e);
        Dist d(12); d.cdf = [=](double x) { return (std::pow(x, e) - A) / (B - A); };
        for (u64 i = 0; i < N; ++i) { double x = g.powerlaw(lo, hi, ga); CHECK(x >= lo * (1 - 1e-9) && x <= hi * (1 + 1e-9), "range", g_what, " gave ", x); d.add(x); if (!(x == x)) break; }
        event("distribution"); for (u64 c : d.bins) CHECK(!deviates((double)c, (double)N, 1.0 / 12), "shape", g_what, ": ", c, " of ", N, " in a twelfth"); state(hdbl(d.s)); break; }
    case 12: case 13: { // roulette
        size_t k = (size_t)r.range(1, 9); std::vector<double> v(k); double t = 0; for (auto& x : v) { x = r.flip(0.3) ? 0 : r.flip(0.2) ? r.real(10, 100) : (double)r.range(1, 8); t += x; } if (t == 0) { v[k / 2] = 1; t = 1; }
        bool withTotal = r.flip(), ints = r.flip(); std::vector<int> vi; if (ints) for (auto& x : v) { x = std::floor(x); vi.push_back((int)x); } t = 0; for (auto x : v) t += x;
        g_what = cat("roulette", show(v)); std::vector<u64> c(k);
        for (u64 i = 0; i < N; ++i) { int x = ints ? (withTotal ? g.roulette_wheel(vi, (int)t) : g.roulette_wheel(vi)) : (withTotal ? g.roulette_wheel(v, t) : g.roulette_wheel(v)); if (x < 0 || x >= (int)k) { fail("range", cat(g_what, " gave ", x)); break; } ++c[(size_t)x]; }
        event("distribution"); for (size_t i = 0; i < k; ++i) CHECK(!deviates((double)c[i], (double)N, v[i] / t) && (v[i] > 0 || !c[i]), "shape", g_what, ": slot ", i, " drawn ", c[i], " times of ", N);
        state(mix(hstr(g_what), c[0])); break; }
    case 14: { std::vector<int> v; int k = (int)r.range(1, 12); for (int i = 0; i < k; ++i) v.push_back(i * 3); const std::vector<int> cv(v); g_what = cat("choice of ", k); bool cst = r.flip(); uniformInt([&] { int x = cst ? g.choice(cv) : g.choice(v); CHECK(x % 3 == 0, "range", g_what, " gave ", x); return x / 3; }, 0, k); break; }
    case 15: { // a wheel of many slots
        size_t k = (size_t)r.range(200, 1500); std::vector<double> v(k); double t = 0; for (auto& x : v) { x = r.flip(0.2) ? 0 : (double)r.range(1, 4); t += x; }
        bool withTotal = r.flip(), ints = r.flip(); std::vector<int> vi(v.begin(), v.end());
        g_what = cat("roulette of ", k, " slots"); std::vector<u64> c(16); std::vector<double> e(16); for (size_t i = 0; i < k; ++i) e[i * 16 / k] += v[i] / t;
        u64 seen = 0; std::vector<char> got(k);
        for (u64 i = 0; i < N; ++i) { int x = ints ? (withTotal ? g.roulette_wheel(vi, (int)t) : g.roulette_wheel(vi)) : (withTotal ? g.roulette_wheel(v, t) : g.roulette_wheel(v)); if (x < 0 || x >= (int)k || v[(size_t)x] == 0) { fail("range", cat(g_what, " gave ", x)); break; } ++c[(size_t)x * 16 / k]; seen += !got[(size_t)x]; got[(size_t)x] = 1; }
        event("distribution"); event("large-wheel"); for (size_t i = 0; i < 16; ++i) CHECK(!deviates((double)c[i], (double)N, e[i]), "shape", g_what, ": sixteenth ", i, " drawn ", c[i], " times of ", N);
        state(mix(hstr(g_what), seen)); break; }
    case 16: { // draws of several laws take turns
        double m1 = r.real(-5, 5), s1 = r.real(0.5, 3), m2 = r.real(100, 200), s2 = r.real(10, 20); g_what = "laws taking turns";
        Dist a1(20), a2(20), a3(20); a1.cdf = [=](double x) { return Phi((x - m1) / s1); }; a2.cdf = [=](double x) { return Phi((x - m2) / s2); }; a3.cdf = [](double x) { return x; };
        for (u64 i = 0; i < N; ++i) { switch (r.below(5)) { case 0: a1.add(g.normal(m1, s1)); break; case 1: a2.add(g.normal(m2, s2)); break; case 2: a1.add(m1 + g.normal(s1)); break; case 3: a2.add(m2 + s2 * g.normal()); break; default: a3.add(g.uniform()); g.flip(0.5); g.random(3); } }
        a1.judge(m1, s1 * s1, 3); a2.judge(m2, s2 * s2, 3); a3.judge(0.5, 1 / 12.0, 1.8); event("interleaved"); break; }
    default: { // every bit of the raw numbers
        std::vector<u64> c(32); for (u64 i = 0; i < N; ++i) { uint32_t x = g.rand(); for (int b = 0; b < 32; ++b) c[(size_t)b] += (x >> b) & 1; }
        event("distribution"); for (int b = 0; b < 32; ++b) CHECK(!deviates((double)c[(size_t)b], (double)N, 0.5), "shape", "bit ", b, " of raw numbers set ", c[(size_t)b], " times of ", N);
        CHECK(g.rand_max() == 0xffffffffu, "range", "rand_max"); state(c[0]); }
    }
}
UNIT(functors, 320, 4000, "distribution") {
    warm(r);
    eoRng own((uint32_t)r.below(1u << 30));
    eoRng& g = r.flip() ? eo::rng : own;
    double a = r.real(-100, 100), w = r.pick(std::vector<double>{0.5, 1, 50, 1e5}); long k = r.range(1, 40), z = r.range(-30, 30);
    std::ostringstream before; before << eo::rng;
    bool usesGlobal = &g == &eo::rng;
    switch (idx % 20) {
    case 0: { g_what = "eoUniformGenerator<double>"; eoUniformGenerator<double> f(a, a + w, g); uniformReal([&] { return f(); }, a, a + w); break; }
    case 1: { g_what = "eoUniformGenerator<double>(max)"; eoUniformGenerator<double> f(w, g); uniformReal([&] { return f(); }, 0, w); break; }
    case 2: { g_what = "eoUniformGenerator<int>"; eoUniformGenerator<int> f((int)z, (int)(z + k), g); uniformInt([&] { return f(); }, z, z + k); break; }
    case 3: { g_what = "eoUniformGenerator<unsigned>(max)"; eoUniformGenerator<unsigned> f((unsigned)k, g); uniformInt([&] { return f(); }, 0, k); break; }
    case 4: { g_what = "eoUniformGenerator<bool>"; eoUniformGenerator<bool> f(true, g); coin([&] { return f(); }, 0.5); break; }
    case 5: { g_what = "eoUniformGenerator<float>"; eoUniformGenerator<float> f(2.f, 5.f, g); uniformReal([&] { return (double)f(); }, 2, 5, false); break; }
    case 6: { float p = r.pick(std::vector<float>{0, 1, 0.5f, 0.25f, 0.9f}); g_what = "eoBooleanGenerator"; eoBooleanGenerator<bool> f(p, g); coin([&] { return f(); }, p); break; }
    case 7: { g_what = "eoNormalGenerator"; eoNormalGenerator<double> f(w, g); normalDist([&] { return f(); }, 0, w); break; }
    case 8: { g_what = "eoNegExpGenerator"; eoNegExpGenerator<double> f(w, g); expDist([&] { return f(); }, w); break; }
    case 9: { g_what = "uniform_generator"; uniform_generator<double> f(a, a + w, g); uniformReal([&] { return f(); }, a, a + w); break; }
    case 10: { g_what = "uniform_generator<int>"; uniform_generator<int> f((int)z, (int)(z + k), g); uniformInt([&] { return f(); }, z, z + k); break; }
    case 11: { float p = r.pick(std::vector<float>{0, 1, 0.5f, 0.25f, 0.9f}); g_what = "boolean_generator"; boolean_generator f(p, g); coin([&] { return f(); }, p); break; }
    case 12: { g_what = "random_generator<int>"; random_generator<int> f((int)z, (int)(z + k), g); uniformInt([&] { return f(); }, z, z + k); break; }
    case 13: { g_what = "random_generator(max)"; random_generator<> f((uint32_t)k, g); uniformInt([&] { return f(); }, 0, k); break; }
    case 14: { g_what = "random_generator<bool>"; random_generator<bool> f(true, g); coin([&] { return f(); }, 0.5); break; }
    case 15: { g_what = "UF_random_generator"; UF_random_generator<unsigned> f((unsigned)k, g); uniformInt([&] { return f(); }, 0, k); long k2 = r.range(1, 50); uniformInt([&] { return f((unsigned)k2); }, 0, k2); break; }
    case 16: { g_what = "normal_generator"; normal_generator<double> f(w, g); normalDist([&] { return f(); }, 0, w); break; }
    case 17: { g_what = "negexp_generator"; negexp_generator<double> f(w, g); expDist([&] { return f(); }, w); break; }
    case 18: { g_what = "random<T>"; usesGlobal = true; if (r.flip()) uniformInt([&] { return eo::random<int>((int)z, (int)(z + k)); }, z, z + k); else if (r.flip()) uniformReal([&] { return eo::random(w); }, 0, w); else uniformReal([&] { return eo::random(a, a + w); }, a, a + w); break; }
    default: { g_what = "normal function"; usesGlobal = true; normalDist([&] { return eo::normal(); }, 0, 1); }
    }
    if (!usesGlobal) {
        std::ostringstream after; after << eo::rng;
        CHECK(before.str() == after.str(), "foreign-generator", g_what, " was given a generator but drew from the global one");
        event("own-generator");
    }
}
// intervals and bounds draw inside themselves (integers: the upper bound excluded, as the generator does)
template <class F> void foreign(F f) {
    std::ostringstream before; before << eo::rng;
    f();
    std::ostringstream after; after << eo::rng;
    CHECK(before.str() == after.str(), "foreign-generator", g_what, " was given a generator but drew from the global one");
    event("own-generator");
}
UNIT(intervals, 160, 2000, "distribution") {
    warm(r);
    double a = r.real(-100, 100), w = r.pick(std::vector<double>{0.5, 1, 50, 1e5}); long k = r.range(1, 40), z = r.range(-30, 30);
    switch (idx % 8) {
    case 0: { g_what = "eoRealInterval"; eoRealInterval b(a, a + w); uniformReal([&] { return b.uniform(); }, a, a + w); break; }
    case 1: { g_what = "eoIntInterval"; eoIntInterval b(z, z + k); uniformInt([&] { return b.random(); }, z, z + k); break; }
    case 2: { g_what = "eoIntInterval::uniform"; eoIntInterval b(z, z + k); uniformReal([&] { return b.uniform(); }, (double)z, (double)(z + k)); break; }
    case 3: { g_what = "eoGeneralRealBounds"; std::ostringstream s; s.precision(17); s << "[" << a << "," << a + w << "]"; eoGeneralRealBounds b(s.str()); if (r.flip()) uniformReal([&] { return b.uniform(); }, a, a + w); else { eoRng own(9); foreign([&] { uniformReal([&] { return b.uniform(own); }, a, a + w); }); } break; }
    case 4: { g_what = "eoGeneralIntBounds"; eoGeneralIntBounds b(cat("[", z, ",", z + k, "]")); if (r.flip()) uniformInt([&] { return b.random(); }, z, z + k); else { eoRng own(9); foreign([&] { uniformInt([&] { return b.random(own); }, z, z + k); }); } break; }
    case 5: { g_what = "eoRealVectorBounds"; eoRealVectorBounds b(3, a, a + w); unsigned i = (unsigned)r.below(3); uniformReal([&] { return b.uniform(i); }, a, a + w); break; }
    case 6: { g_what = "eoRealVectorBounds vector"; std::vector<double> lo{a, a + 1, a + 2}, hi{a + w, a + 1 + 2 * w, a + 2 + 3 * w}; eoRealVectorBounds b(lo, hi); unsigned i = (unsigned)r.below(3); uniformReal([&] { std::vector<double> v(3); b.uniform(v); return v[i]; }, lo[i], hi[i]); break; }
    default: { g_what = "eoIntInterval with its own generator"; eoRng own(5); eoIntInterval b(z, z + k); foreign([&] { uniformInt([&] { return b.random(own); }, z, z + k); }); }
    }
}
// shuffles are permutations, and every one is as likely
typedef eoReal<double> Real;
UNIT(shuffles, 120, 1500, "shuffle") {
    warm(r);
    unsigned n = (unsigned)(idx % 3 == 0 ? 4 : r.flip(0.1) ? r.range(257, 700) : r.range(1, 30));
    eoPop<Real> src;
    for (unsigned i = 0; i < n; ++i) { Real x(1, (double)i); x.fitness((double)i); src.push_back(x); }
    int kind = (int)r.below(3);
    const char* names[] = {"population shuffle", "shuffled references", "permutation initialiser"};
    u64 T = n <= 30 ? 1500 : 100;
    std::vector<std::vector<u64>> at(n, std::vector<u64>(n)); std::map<std::vector<int>, u64> seen;
    for (u64 t = 0; t < T; ++t) {
        std::vector<int> o;
        if (kind == 0) { eoPop<Real> p = src; p.shuffle(); for (auto& e : p) { CHECK((double)e.fitness() == e[0], "shuffle-mixed-up", "fitness separated from its genotype"); o.push_back((int)e[0]); } }
        else if (kind == 1) { std::vector<const Real*> ref; if (r.flip()) ref.resize(3); src.shuffle(ref); for (auto* e : ref) o.push_back((int)(*e)[0]); for (unsigned i = 0; i < n; ++i) CHECK(src[i][0] == i, "shuffle-moved", "referenced individuals moved"); }
        else { eoInitPermutation<eoInt<double>> ip(n, 5); eoInt<double> p; ip(p); for (int x : p) o.push_back(x - 5); }
        event("shuffle");
        std::vector<int> sorted(o); std::sort(sorted.begin(), sorted.end());
        bool ok = o.size() == n; for (unsigned i = 0; ok && i < n; ++i) ok = sorted[i] == (int)i;
        CHECK(ok, "shuffle-not-permutation", names[kind], " of ", n, ": ", show(o));
        if (!ok) return;
        for (unsigned i = 0; i < n; ++i) ++at[i][(size_t)o[i]];
        if (n == 4) ++seen[o];
        state(hvec(o));
    }
    if (n <= 30) for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) CHECK(!deviates((double)at[i][j], (double)T, 1.0 / n), "shuffle-biased", names[kind], ": element ", j, " at position ", i, " of ", n, " ", at[i][j], " times of ", T);
    if (n == 4) { CHECK(seen.size() == 24, "shuffle-biased", names[kind], ": ", seen.size(), " of 24 orders seen"); for (auto& x : seen) CHECK(!deviates((double)x.second, (double)T, 1 / 24.0), "shuffle-biased", names[kind], ": order ", show(x.first), " ", x.second, " times of ", T); }
}
