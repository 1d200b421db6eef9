// C09: bit strings and fixed-length vectors.
#include "ops.h"
#include <ga/eoBoolFlip.h>
using namespace ops;
typedef std::vector<double> V;

template <class C> C bits(Rand& r, unsigned n) {
    C c(n, 0);
    switch (r.below(4)) {
    case 0: break;
    case 1: for (unsigned i = 0; i < n; ++i) c[i] = 1; break;
    default: for (unsigned i = 0; i < n; ++i) c[i] = r.flip();
    }
    c.fitness(3);
    return c;
}
static unsigned diff(const V& a, const V& b) { unsigned d = 0; for (size_t i = 0; i < a.size() && i < b.size(); ++i) d += a[i] != b[i]; return d; }
static bool isReversal(const V& a, const V& b) {
    size_t l = 0, h = a.size();
    while (l < h && a[l] == b[l]) ++l;
    while (h > l && a[h - 1] == b[h - 1]) --h;
    for (size_t i = l; i < h; ++i) if (b[i] != a[h - 1 - (i - l)]) return false;
    return true; // the reversed segment may extend symmetrically over equal ends
}
static unsigned len(Rand& r) { return r.flip(0.04) ? (unsigned)r.range(257, 700) : r.flip(0.004) ? 66000u : (unsigned)r.size(2, 40); }

// one application of each mutation, judged by what it announces
template <class C> void mutateCase(Rand& r) {
    unsigned n = len(r);
    C a = bits<C>(r, n);
    V before = geno(a);
    auto run = [&](eoMonOp<C>& op, const char* name) {
        a = C(n, 0); for (unsigned i = 0; i < n; ++i) a[i] = (before[i] != 0); a.fitness(3);
        bool said = op(a);
        event("mutation"); event(cat("op:", name).c_str());
        V after = geno(a);
        CHECK(after.size() == n, "length-changed", name, " ", n, " -> ", after.size());
        for (double x : after) if (x != 0 && x != 1) { fail("not-a-bit", cat(name, " produced ", x)); break; }
        CHECK(said || after == before, "silent-change", name, " returned false but changed ", diff(before, after), " of ", n);
        state(mix(hstr(name), hvec(after, hvec(before))));
        return after;
    };
    auto exactly = [&](const V& after, unsigned k, const char* name) { CHECK(diff(before, after) == k, "wrong-number", name, " changed ", diff(before, after), " bits of ", n, " instead of ", k); };
    { eoOneBitFlip<C> o; exactly(run(o, "one bit flip"), 1, "one bit flip"); }
    { unsigned k = (unsigned)r.range(0, 6); eoDetBitFlip<C> o(k); unsigned d = diff(before, run(o, "det bit flip")); CHECK(d <= k && (k - d) % 2 == 0, "wrong-number", "det bit flip of ", k, " changed ", d); }
    { unsigned k = r.flip(0.3) ? n : (unsigned)r.range(0, (int)std::min(n, 8u)); eoDetSingleBitFlip<C> o(k); exactly(run(o, "det single bit flip"), k, "det single bit flip"); k = (unsigned)r.range(0, (int)n); o.number_bits(k); exactly(run(o, "det single bit flip"), k, "det single bit flip"); }
    { eoBitMutation<C> o0(0.0), o1(1.0), on((double)n, true); exactly(run(o0, "bit mutation"), 0, "bit mutation at rate 0"); exactly(run(o1, "bit mutation"), n, "bit mutation at rate 1"); exactly(run(on, "bit mutation"), n, "bit mutation at normalised rate 1"); }
    { eoBitInversion<C> o; V x = run(o, "bit inversion"); CHECK(isReversal(before, x), "not-a-reversal", show(before), " -> ", show(x)); }
    { eoBitNext<C> o; V x = run(o, "next"), w = before; for (size_t i = n; i-- > 0;) { w[i] = !w[i]; if (w[i]) break; } CHECK(x == w, "wrong-successor", show(before), " -> ", show(x)); }
    { eoBitPrev<C> o; V x = run(o, "previous"), w = before; for (size_t i = n; i-- > 0;) { w[i] = !w[i]; if (!w[i]) break; } CHECK(x == w, "wrong-predecessor", show(before), " -> ", show(x)); }
    { eoStandardBitMutation<C> o(1.0); exactly(run(o, "standard"), n, "standard mutation at rate 1"); }
    { eoUniformBitMutation<C> o; unsigned d = diff(before, run(o, "uniform")); CHECK(d < n, "wrong-number", "uniform mutation changed ", d, " of ", n); }
    if (n < 1000) { eoConditionalBitMutation<C> o(r.flip() ? 0 : r.real(0.05, 1)); CHECK(diff(before, run(o, "conditional")) >= 1, "wrong-number", "conditional mutation changed nothing"); }
    { eoShiftedBitMutation<C> o(r.flip() ? 0 : r.real(0, 1)); CHECK(diff(before, run(o, "shifted")) >= 1, "wrong-number", "shifted mutation changed nothing"); }
    { eoNormalBitMutation<C> o(n / 2.0, 0.5); CHECK(diff(before, run(o, "normal")) <= n, "wrong-number", "normal mutation"); }
    { eoFastBitMutation<C> o(r.real(1.1, 3)); run(o, "fast"); }
    { int lo = (int)r.range(0, (int)n), hi = (int)r.range(lo, (int)n); eoBucketBitMutation<C> o(std::vector<std::vector<int>>{{lo, hi}}, std::vector<double>{1}); unsigned d = diff(before, run(o, "bucket")); CHECK((lo == hi && d == (unsigned)hi) || ((int)d >= lo && (int)d < hi), "wrong-number", "bucket [", lo, ",", hi, ") changed ", d); }
}
UNIT(mutations, 700, 10000, "mutation") {
    switch (idx % 3) { case 0: mutateCase<eoBit<double>>(r); break; case 1: mutateCase<eoBit<MinF>>(r); break; default: mutateCase<eoBit<double, int>>(r); }
}
// what two children hold, position by position
template <class C> bool paired(const V& a, const V& b, const C& x, const C& y, const char* name) {
    V p = geno(x), q = geno(y);
    CHECK(p.size() == a.size() && q.size() == b.size(), "length-changed", name);
    if (p.size() != a.size() || q.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) {
        bool ok = (p[i] == a[i] && q[i] == b[i]) || (p[i] == b[i] && q[i] == a[i]);
        CHECK(ok, "gene-lost", name, " position ", i, " of ", a.size(), ": ", a[i], "/", b[i], " became ", p[i], "/", q[i]);
        if (!ok) return false;
    }
    return true;
}
// switches between exchanged and kept stretches that are forced by the differing positions
static unsigned switches(const V& a, const V& b, const V& p) {
    int cur = 0; unsigned k = 0; // a stretch starts unexchanged
    for (size_t i = 0; i < a.size(); ++i) { if (a[i] == b[i]) continue; int ex = p[i] == b[i]; if (ex != cur) { ++k; cur = ex; } }
    return k;
}
template <class C> void crossCase(Rand& r) {
    unsigned n = len(r);
    C a = bits<C>(r, n), b = r.flip(0.15) ? a : bits<C>(r, n);
    if (r.flip(0.3)) for (unsigned i = 0; i < n; ++i) b[i] = !a[i];
    V ga = geno(a), gb = geno(b);
    auto run = [&](eoQuadOp<C>& op, const char* name, bool& said) {
        C x(a), y(b);
        said = op(x, y);
        event("crossover"); event(cat("op:", name).c_str());
        paired(ga, gb, x, y, name);
        CHECK(said || (geno(x) == ga && geno(y) == gb), "silent-change", name, " returned false but exchanged genes");
        state(mix(hstr(name), hvec(geno(x), hvec(ga, hvec(gb)))));
        return geno(x);
    };
    bool said;
    { eo1PtBitXover<C> o; V x = run(o, "one point", said); // a prefix was exchanged
        size_t last = 0, firstKept = n; for (size_t i = 0; i < n; ++i) if (ga[i] != gb[i]) { if (x[i] == gb[i]) last = i + 1; else if (firstKept == n) firstKept = i; } CHECK(last <= firstKept, "not-one-point", show(ga), "x", show(gb), " -> ", show(x)); }
    { double p = r.real(0.05, 0.95); eoUBitXover<C> o(p); V x = run(o, "uniform", said); CHECK(said == (x != ga), "silent-change", "uniform crossover returned ", said); }
    { eoUBitXover<C> o(1.0); V x = run(o, "uniform", said); CHECK(x == gb, "wrong-number", "uniform crossover at preference 1 kept genes"); }
    { unsigned k = (unsigned)r.range(1, 7); eoNPtsBitXover<C> o(k); V x = run(o, "n points", said); CHECK(switches(ga, gb, x) <= std::min(k, n - 1), "too-many-points", switches(ga, gb, x), " switches with ", k, " points on ", n); }
    { unsigned g = (unsigned)r.range(1, (int)std::min(n, 7u)), k = (unsigned)r.range(1, 6); eoBitGxOver<C> o(g, k); V x = run(o, "gene", said); unsigned genes = n / g, ex = 0, mayKeep = 0;
        for (unsigned j = 0; j < genes; ++j) { unsigned sw = 0, kp = 0; for (unsigned i = j * g; i < (j + 1) * g; ++i) if (ga[i] != gb[i]) { if (x[i] == gb[i]) ++sw; else ++kp; } CHECK(!sw || !kp, "gene-split", "gene ", j, " of size ", g); ex += sw > 0; mayKeep += !sw && !kp; }
        for (unsigned i = genes * g; i < n; ++i) CHECK(x[i] == ga[i], "gene-split", "trailing bits exchanged");
        unsigned want = std::min(genes, k); CHECK(ex <= want && ex + mayKeep >= want, "wrong-number", ex, " genes exchanged instead of ", want, " (", mayKeep, " undecidable)"); }
}
UNIT(crossovers, 700, 10000, "crossover") {
    switch (idx % 3) { case 0: crossCase<eoBit<double>>(r); break; case 1: crossCase<eoBit<MinF>>(r); break; default: crossCase<eoBit<double, int>>(r); }
}
// vectors of anything, gene operators given by the user
UNIT(vectors, 700, 10000, "crossover,mutation,binary") {
    (void)idx;
    unsigned n = len(r);
    Int a(n, 0), b(n, 0);
    for (unsigned i = 0; i < n; ++i) { a[i] = 2 * i; b[i] = r.flip(0.2) ? 2 * i : 1000000 + 2 * i; }
    a.fitness(1); b.fitness(2);
    V ga = geno(a), gb = geno(b);
    double rate = r.pick(std::vector<double>{0, 0.3, 0.5, 1});
    struct Swap : public eoQuadOp<size_t> { u64 n = 0; bool operator()(size_t& x, size_t& y) { ++n; if (x == y) return false; std::swap(x, y); return true; } } sw;
    struct Copy : public eoBinOp<size_t> { u64 n = 0; bool operator()(size_t& x, const size_t& y) { ++n; if (x == y) return false; x = y; return true; } } cp;
    struct Inc : public eoMonOp<size_t> { u64 n = 0; bool operator()(size_t& x) { ++n; ++x; return true; } } inc;
    unsigned k = (unsigned)r.range(0, 6);
    eoFlOrAllAtomQuadOp<Int> q1(sw, rate); eoFlOrKAtomQuadOp<Int> q2(sw, k); eoFlOrUniformQuadOp<Int> q3(rate); eoFlOr1ptQuadOp<Int> q4;
    int which = 0;
    for (eoQuadOp<Int>* o : std::vector<eoQuadOp<Int>*>{&q1, &q2, &q3, &q4}) {
        Int x(a), y(b); sw.n = 0; bool said = (*o)(x, y);
        const char* name = (const char*[]){"fl all-atom crossover", "fl k-atom crossover", "fl uniform crossover", "fl one-point crossover"}[which];
        event("crossover"); event(cat("op:", name).c_str());
        bool ok = paired(ga, gb, x, y, name);
        CHECK(said == (geno(x) != ga) || (which < 2 && said), "silent-change", name, " returned ", said);
        if (ok) {
            unsigned d = diff(ga, geno(x)), all = diff(ga, gb);
            if (which == 0) CHECK(rate == 0 ? sw.n == 0 : rate < 1 || sw.n == n, "wrong-number", name, " rate ", rate, " touched ", sw.n, " of ", n);
            if (which == 1) CHECK(sw.n == k && d <= k, "wrong-number", name, " ", k, " touched ", sw.n);
            if (which == 2) CHECK(rate == 0 ? d == 0 : rate < 1 || d == all, "wrong-number", name, " rate ", rate, " exchanged ", d, " of ", all);
            if (which == 3) { CHECK(x[0] == a[0] && x[n - 1] == b[n - 1], "not-one-point", name, ": the first gene stays and the last one goes"); unsigned s = switches(ga, gb, geno(x)); CHECK(s <= 1, "not-one-point", name, " ", s, " switches"); }
        }
        state(mix(which, hvec(geno(x), hvec(ga)))); ++which;
    }
    eoFlOrAllAtomBinOp<Int> b1(cp, (float)rate); eoFlOrKAtomBinOp<Int> b2(cp, k); eoFlOrUniformBinOp<Int> b3(rate); eoFlOr1ptBinOp<Int> b4;
    which = 0;
    for (eoBinOp<Int>* o : std::vector<eoBinOp<Int>*>{&b1, &b2, &b3, &b4}) {
        Int x(a), y(b); cp.n = 0; bool said = (*o)(x, y);
        const char* name = (const char*[]){"fl all-atom binary", "fl k-atom binary", "fl uniform binary", "fl one-point binary"}[which];
        event("binary"); event(cat("op:", name).c_str());
        CHECK(x.size() == n && geno(y) == gb && (double)y.fitness() == 2, "second-parent-altered", name);
        for (unsigned i = 0; i < n && i < x.size(); ++i) CHECK(x[i] == a[i] || x[i] == b[i], "gene-lost", name, " position ", i);
        CHECK(said == (geno(x) != ga), "silent-change", name, " returned ", said);
        unsigned d = diff(ga, geno(x)), all = diff(ga, gb);
        if (which == 0) CHECK(rate == 0 ? cp.n == 0 : rate < 1 || cp.n == n, "wrong-number", name);
        if (which == 1) CHECK(cp.n == k && d <= k, "wrong-number", name);
        if (which == 2) CHECK(rate == 0 ? d == 0 : rate < 1 || d == all, "wrong-number", name);
        if (which == 3) CHECK(x[0] == a[0] && x[n - 1] == b[n - 1] && switches(ga, gb, geno(x)) <= 1, "not-one-point", name);
        state(mix(which + 10, hvec(geno(x), hvec(ga)))); ++which;
    }
    eoFlOrAllMutation<Int> m1(inc, rate); eoFlOrKMutation<Int> m2(inc, k);
    { Int x(a); bool said = m1(x); event("mutation"); unsigned d = diff(ga, geno(x)); CHECK(x.size() == n && d == inc.n && said == (d > 0) && (rate == 0 ? d == 0 : rate < 1 || d == n), "wrong-number", "fl mutation at rate ", rate, " changed ", d, " of ", n, ", touched ", inc.n); }
    inc.n = 0;
    { Int x(a); bool said = m2(x); event("mutation"); double s = 0; for (unsigned i = 0; i < n; ++i) s += (double)x[i] - ga[i]; CHECK(x.size() == n && inc.n == k && s == k && said == (k > 0), "wrong-number", "fl mutation of ", k, " genes touched ", inc.n); }
    // genes of different numbers cannot be paired
    Int shorter(n - 1, 5);
    for (int t = 0; t < 3; ++t) {
        bool thrown = false; Int x(a), y(shorter);
        try { if (t == 0) q2(x, y); else if (t == 1) q3(x, y); else b3(x, y); } catch (eoException&) { thrown = true; }
        CHECK(thrown && geno(x) == ga, "lengths-mixed", "operators for equal lengths must refuse different ones");
    }
}
// every position is as likely, rates are what they say
UNIT(rates, 90, 900, "rate") {
    unsigned n = (unsigned)r.range(2, 12);
    const unsigned T = 4000;
    Bit a = bits<Bit>(r, n); V ga = geno(a);
    Bit c(n, false); for (unsigned i = 0; i < n; ++i) c[i] = !a[i];
    V gc = geno(c);
    double rate = r.real(0.05, 0.95);
    std::vector<u64> at(n); u64 total = 0; std::vector<u64> cnt(n + 1);
    auto mut = [&](eoMonOp<Bit>& o) { for (unsigned t = 0; t < T; ++t) { Bit x(a); o(x); unsigned d = 0; for (unsigned i = 0; i < n; ++i) if ((bool)x[i] != (bool)a[i]) { ++at[i]; ++d; } total += d; ++cnt[d]; } };
    auto each = [&](const char* name, double p) { event("rate"); for (unsigned i = 0; i < n; ++i) CHECK(!deviates((double)at[i], T, p), "wrong-rate", name, ": position ", i, " of ", n, " changed ", at[i], " times of ", T, " instead of ", p * T); state(mix(hstr(name), total)); };
    switch (idx % 12) {
    case 0: { eoOneBitFlip<Bit> o; mut(o); each("one bit flip", 1.0 / n); break; }
    case 1: { unsigned k = (unsigned)r.range(0, (int)n); eoDetSingleBitFlip<Bit> o(k); mut(o);
        // the naive shuffle behind it is not exactly uniform: within 15 percent of it
        event("rate"); for (unsigned i = 0; i < n; ++i) { double p = (double)k / n; CHECK(std::fabs((double)at[i] - p * T) <= 0.15 * p * T + 7 * std::sqrt(T * p * (1 - p)) + 3, "wrong-rate", "det single bit flip of ", k, ": position ", i, " of ", n, " changed ", at[i], " times of ", T); } state(total); break; }
    case 2: { eoBitMutation<Bit> o(rate); mut(o); each("bit mutation", rate); break; }
    case 3: { double q = std::min(rate * 2, (double)n); eoBitMutation<Bit> o(q, true); mut(o); each("normalised bit mutation", q / n); break; }
    case 4: { eoStandardBitMutation<Bit> o(rate); mut(o); event("rate"); CHECK(!deviates((double)total, (double)T * n, rate), "wrong-rate", "standard mutation at ", rate, " changed ", total, " of ", T * n); double p0 = std::pow(1 - rate, n); CHECK(!deviates((double)cnt[0], T, p0), "wrong-rate", "standard mutation at ", rate, " left ", cnt[0], " of ", T, " as they were"); state(total); break; }
    case 5: { eoStandardBitMutation<Bit> o; mut(o); event("rate"); CHECK(!deviates((double)total, (double)T * n, 1.0 / n), "wrong-rate", "standard mutation by default changed ", total, " bits in ", T); state(total); break; }
    case 6: { eoUniformBitMutation<Bit> o; mut(o); event("rate"); for (unsigned d = 0; d < n; ++d) CHECK(!deviates((double)cnt[d], T, 1.0 / n), "wrong-rate", "uniform mutation changed ", d, " bits ", cnt[d], " times of ", T); state(total); break; }
    case 7: { eoUBitXover<Bit> o(rate); for (unsigned t = 0; t < T; ++t) { Bit x(a), y(c); o(x, y); for (unsigned i = 0; i < n; ++i) at[i] += (double)x[i] == gc[i]; } each("uniform crossover", rate); break; }
    case 8: { eo1PtBitXover<Bit> o; for (unsigned t = 0; t < T; ++t) { Bit x(a), y(c); o(x, y); unsigned s = 0; while (s < n && (double)x[s] == gc[s]) ++s; ++cnt[s]; } event("rate"); for (unsigned s = 0; s < n; ++s) CHECK(!deviates((double)cnt[s], T, 1.0 / n), "wrong-rate", "one-point cut at ", s, " of ", n, " made ", cnt[s], " times of ", T); state(cnt[0]); break; }
    case 9: { // the strength follows the law of the fast mutation: powers of -beta over 1..n/2, then binomial
        double beta = r.real(1.2, 3); eoFastBitMutation<Bit> o(beta); mut(o); double c0 = 0, e = 0; for (unsigned i = 1; i <= n / 2; ++i) { c0 += std::pow(i, -beta); e += i * std::pow(i, -beta); } double m = n / 2 ? e / c0 : n; event("rate"); CHECK(std::fabs((double)total / T - m) <= 7 * n / std::sqrt((double)T), "wrong-rate", "fast mutation changed ", (double)total / T, " bits on average instead of ", m); state(total); break; }
    case 10: { double w1 = r.real(0.1, 1), w2 = r.real(0.1, 1); eoBucketBitMutation<Bit> o(std::vector<std::vector<int>>{{0, 1}, {1, (int)n}}, std::vector<double>{w1, w2}); mut(o); event("rate"); CHECK(!deviates((double)cnt[0], T, w1 / (w1 + w2)), "wrong-rate", "bucket chosen ", cnt[0], " of ", T); if (n > 1) for (unsigned d = 1; d < n; ++d) CHECK(!deviates((double)cnt[d], T, w2 / (w1 + w2) / (n - 1)), "wrong-rate", "bucket strength ", d, " chosen ", cnt[d], " times of ", T); state(total); break; }
    default: { double p = rate; eoConditionalBitMutation<Bit> oc(p); mut(oc); double q0 = std::pow(1 - p, n), m = n * p / (1 - q0); event("rate"); CHECK(std::fabs((double)total / T - m) <= 7 * std::sqrt(n * p / (1 - q0) / T) * 1.5 + 0.01, "wrong-rate", "conditional mutation at ", p, " changed ", (double)total / T, " bits instead of ", m); state(total); }
    }
}
// initialisers give the announced length, whatever was there before
UNIT(initialisers, 300, 4000, "initialised") {
    (void)idx;
    unsigned n = r.flip(0.05) ? (unsigned)r.range(257, 70000) : (unsigned)r.range(0, 40);
    { double p = r.pick(std::vector<double>{0, 0.3, 1}); eoBooleanGenerator<bool> g((float)p); eoInitFixedLength<Bit> i(n, g); Bit b((unsigned)r.range(0, 50), true); b.fitness(3); i(b); event("initialised"); u64 ones = 0; for (bool x : b) ones += x; CHECK(b.size() == n && b.invalid(), "wrong-length", "bits: ", b.size(), " instead of ", n); CHECK((p > 0 || !ones) && (p < 1 || ones == n) && !deviates((double)ones, n, (float)p), "wrong-rate", ones, " ones of ", n, " with ", p); state(hvec(geno(b))); CHECK(i.dimension() == n, "wrong-length", "dimension"); if (n) { i.dimension(n + 3); i(b); CHECK(b.size() == n + 3, "wrong-length", "changed dimension"); } }
    { eoUniformGenerator<double> g(-2.0, 5.0); eoInitFixedLength<Real> i(n, g); Real x((unsigned)r.range(0, 50), 99.0); x.fitness(1); i(x); event("initialised"); CHECK(x.size() == n && x.invalid(), "wrong-length", "reals: ", x.size(), " instead of ", n); for (double v : x) CHECK(v >= -2 && v < 5, "wrong-value", "real ", v); state(hvec(geno(x))); }
    { eoInitPermutation<Int> i(n); eoInitAdaptor<Int> ad(i); Int x; ad(x); std::set<size_t> s(x.begin(), x.end()); event("initialised"); CHECK(x.size() == n && s.size() == n, "wrong-length", "permutation"); }
    { eoUniformGenerator<double> g(0.0, 1.0); eoInitFixedLength<Real> i(n, g); eoInitGenerator<Real> ig(i); Real x = ig(); CHECK(x.size() == n, "wrong-length", "generator"); eoPop<Real> p((unsigned)r.range(0, 6), i); for (auto& e : p) CHECK(e.size() == n && e.invalid(), "wrong-length", "population"); if (p.size() > 1 && n > 3) CHECK(geno(p[0]) != geno(p[1]), "wrong-value", "all individuals are the same"); }
}
