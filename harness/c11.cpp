// C11: bounds and bounded real operators.
#include "ops.h"
#include <eoRealToIntInit.h>
#include <utils/eoIntBounds.h>
#include <utils/eoRealVectorBounds.h>
using namespace ops;

static double limit(Rand& r) {
    switch (r.below(8)) {
    case 0: return 0;
    case 1: return (double)r.range(-5, 5);
    case 2: return r.real(-1, 1);
    case 3: return r.real(-1e6, 1e6);
    case 4: return r.real(-1, 1) * 1e-12;
    case 5: return r.real(-1, 1) * 1e12;
    case 6: return r.real(-1, 1) * 1e100;
    default: return r.real(-100, 100);
    }
}
static double probe(Rand& r, double lo, double hi) {
    double w = hi - lo;
    switch (r.below(10)) {
    case 0: return lo;
    case 1: return hi;
    case 2: return std::nextafter(lo, -INFINITY);
    case 3: return std::nextafter(hi, INFINITY);
    case 4: return lo - r.real(0, 5) * (w > 0 ? w : 1);
    case 5: return hi + r.real(0, 5) * (w > 0 ? w : 1);
    case 6: return hi + (double)r.range(1, 9) * w;
    case 7: return lo - (double)r.range(1, 9) * w;
    case 8: return limit(r) * 10;
    default: return std::min(hi, lo + r.u01() * w);
    }
}
template <class B> void throws(const char* what, B b) { bool t = false; try { b(); } catch (eoException&) { t = true; } CHECK(t, "no-exception", what); }

// lo/hi: null when unbounded on that side
static void realCase(const eoRealBounds& b, const double* lo, const double* hi, Rand& r, const char* what) {
    event("bounds"); event(what);
    CHECK(b.isMinBounded() == (lo != 0) && b.isMaxBounded() == (hi != 0) && b.isBounded() == (lo && hi) && b.hasNoBoundAtAll() == (!lo && !hi), "wrong-flags", what);
    if (lo) CHECK(b.minimum() == *lo, "wrong-limit", what, " minimum ", b.minimum(), " instead of ", *lo); else throws(what, [&] { b.minimum(); });
    if (hi) CHECK(b.maximum() == *hi, "wrong-limit", what, " maximum ", b.maximum(), " instead of ", *hi); else throws(what, [&] { b.maximum(); });
    if (lo && hi) { CHECK(b.range() == *hi - *lo, "wrong-limit", what, " range"); for (int i = 0; i < 4; ++i) { double u = b.uniform(); CHECK(u >= *lo && u <= *hi, "draw-outside", u, " outside [", *lo, ",", *hi, "]"); } }
    else { throws(what, [&] { b.range(); }); throws(what, [&] { b.uniform(); }); }
    double L = lo ? *lo : (hi ? *hi - 10 : -10), H = hi ? *hi : (lo ? *lo + 10 : 10);
    for (int t = 0; t < 12; ++t) {
        double v = probe(r, L, H);
        bool in = (!lo || v >= *lo) && (!hi || v <= *hi);
        CHECK(b.isInBounds(v) == in, "wrong-membership", what, " ", v, " in [", L, ",", H, "]");
        double f = v, c = v;
        b.foldsInBounds(f); b.truncate(c);
        event(in ? "inside" : "outside");
        auto inside = [&](double x) { return (!lo || x >= *lo) && (!hi || x <= *hi); };
        CHECK(inside(f) && b.isInBounds(f), "fold-outside", what, " folded ", v, " to ", f, " outside [", L, ",", H, "]");
        CHECK(inside(c), "truncate-outside", what, " truncated ", v, " to ", c);
        if (in) { CHECK(f == v, "fold-moved-inside", what, " folded ", v, " of [", L, ",", H, "] to ", f); CHECK(c == v, "truncate-moved-inside", what); }
        else CHECK((lo && v < *lo && c == *lo) || (hi && v > *hi && c == *hi), "wrong-truncation", what, " truncated ", v, " to ", c);
        // folding reflects at the limits
        if (!in && lo && hi && H > L && std::fabs(v) < 1e8 && std::fabs(L) < 1e8 && std::fabs(H) < 1e8 && (H - L) > 1e-3) {
            double w = H - L, q = std::fmod(v - L, 2 * w); if (q < 0) q += 2 * w; if (q > w) q = 2 * w - q;
            CHECK(std::fabs(f - (L + q)) <= 1e-9 * (std::fabs(v) + std::fabs(L) + std::fabs(H) + w), "wrong-fold", what, " folded ", v, " into [", L, ",", H, "] to ", f, " instead of ", L + q);
        }
        state(mix(hdbl(v), mix(hdbl(L), mix(hdbl(H), hdbl(f)))));
    }
}
static bool same(const eoRealBounds& a, const eoRealBounds& b) {
    return a.isMinBounded() == b.isMinBounded() && a.isMaxBounded() == b.isMaxBounded() && (!a.isMinBounded() || a.minimum() == b.minimum()) && (!a.isMaxBounded() || a.maximum() == b.maximum());
}
static std::string num(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
UNIT(real, 2500, 60000, "bounds,inside,outside,reread,copied") {
    double lo = limit(r), hi = limit(r); if (lo > hi) std::swap(lo, hi);
    if (r.flip(0.05)) hi = lo;
    if (r.flip(0.1)) hi = std::nextafter(lo, INFINITY);
    eoRealNoBounds none; eoRealInterval iv(lo, hi); eoRealBelowBound below(lo); eoRealAboveBound above(hi);
    realCase(none, 0, 0, r, "none"); realCase(iv, &lo, &hi, r, "interval"); realCase(below, &lo, 0, r, "below"); realCase(above, 0, &hi, r, "above");
    for (const eoRealBounds* b : std::vector<const eoRealBounds*>{&none, &iv, &below, &above}) {
        std::unique_ptr<eoRealBounds> d(b->dup());
        event("copied"); CHECK(same(*d, *b), "wrong-copy", "duplicate");
        if (b == &iv && !(hi > lo)) continue;
        std::ostringstream o; o.precision(17); b->printOn(o);
        std::istringstream is(o.str()); eoGeneralRealBounds g(idx % 2 ? "[-3,8]" : "[-inf,+inf]"); g.readFrom(is);
        event("reread"); CHECK(same(g, *b) && same(g.theBounds(), *b), "reread-differs", o.str());
        eoGeneralRealBounds h(o.str()), k(h), m("[1,2]"); m = k; m = *&m;
        event("copied"); CHECK(same(h, *b) && same(k, *b) && same(m, *b), "wrong-copy", o.str());
        h = eoGeneralRealBounds("[7,9]"); CHECK(same(k, *b) && h.minimum() == 7 && h.maximum() == 9, "wrong-copy", "copies are not independent");
        realCase(g, b->isMinBounded() ? &lo : 0, b->isMaxBounded() ? &hi : 0, r, "general");
        std::ostringstream o2; o2.precision(17); g.printOn(o2); CHECK(o2.str() == o.str(), "reread-differs", o.str(), " printed again as ", o2.str());
    }
    // spelling variants
    eoGeneralRealBounds s1("(" + num(lo) + ";" + num(lo + 1 + std::fabs(lo)) + ")"), s2("[-infinity," + num(hi) + "]"), s3("[" + num(lo) + ",+infinity]");
    CHECK(s1.minimum() == lo && !s2.isMinBounded() && s2.maximum() == hi && s3.minimum() == lo && !s3.isMaxBounded(), "reread-differs", "alternative spellings");
    for (const char* bad : {"", "abc", "[1", "[1,", "[5,2]", "[3]"}) {
        eoGeneralRealBounds g("[1,2]"); bool thrown = false; std::istringstream is(bad);
        try { g.readFrom(is); } catch (eoException&) { thrown = true; } 
        CHECK(thrown, "no-exception", "malformed bounds ", bad); event("malformed");
    }
}
static void intCase(const eoIntBounds& b, const long* lo, const long* hi, Rand& r, const char* what) {
    event("bounds"); event(what);
    CHECK(b.isMinBounded() == (lo != 0) && b.isMaxBounded() == (hi != 0) && b.isBounded() == (lo && hi) && b.hasNoBoundAtAll() == (!lo && !hi), "wrong-flags", what);
    if (lo) CHECK(b.minimum() == *lo, "wrong-limit", what); else throws(what, [&] { b.minimum(); });
    if (hi) CHECK(b.maximum() == *hi, "wrong-limit", what); else throws(what, [&] { b.maximum(); });
    if (lo && hi) { CHECK(b.range() == *hi - *lo, "wrong-limit", what); for (int i = 0; i < 6; ++i) { double u = b.uniform(); long k = b.random(); CHECK(u >= *lo && u <= *hi && k >= *lo && k <= *hi, "draw-outside", u, " or ", k, " outside [", *lo, ",", *hi, "]"); } }
    else { throws(what, [&] { b.range(); }); throws(what, [&] { b.uniform(); }); throws(what, [&] { b.random(); }); }
    long L = lo ? *lo : (hi ? *hi - 10 : -10), H = hi ? *hi : (lo ? *lo + 10 : 10), w = H - L;
    for (int t = 0; t < 12; ++t) {
        long v = r.flip(0.1) ? (long)r.range(-4000000000LL, 4000000000LL) : r.flip(0.1) ? (r.flip() ? H + 1 : L - 1) : r.flip(0.1) ? (r.flip() ? H : L) : (long)r.range(L - 6 * w - 3, H + 6 * w + 3);
        bool in = (!lo || v >= *lo) && (!hi || v <= *hi);
        CHECK(b.isInBounds((double)v) == in, "wrong-membership", what, " ", v);
        long f = v, c = v; double fd = (double)v, cd = (double)v;
        b.foldsInBounds(f); b.truncate(c); b.foldsInBounds(fd); b.truncate(cd);
        event(in ? "inside" : "outside");
        CHECK(b.isInBounds((double)f) && b.isInBounds(fd), "fold-outside", what, " folded ", v, " to ", f, "/", fd, " outside [", L, ",", H, "]");
        if (in) CHECK(f == v && fd == (double)v && c == v && cd == (double)v, "fold-moved-inside", what, " ", v, " of [", L, ",", H, "] became ", f, "/", c);
        else {
            CHECK(c == (lo && v < *lo ? *lo : *hi) && cd == (double)c, "wrong-truncation", what, " ", v, " -> ", c);
            if (lo && hi && std::labs(v) < 900000000) { long q = (v - L) % (2 * w); if (q < 0) q += 2 * w; if (q > w) q = 2 * w - q; CHECK(f == L + q && fd == (double)(L + q), "wrong-fold", what, " folded ", v, " into [", L, ",", H, "] to ", f, " instead of ", L + q); }
        }
        state(mix(v, mix(L, mix(H, f))));
    }
}
UNIT(integer, 2000, 40000, "bounds,inside,outside,reread") {
    (void)idx;
    long lo = r.flip(0.2) ? (long)r.range(-2000000000, 2000000000) : (long)r.range(-50, 50), hi = lo + (r.flip(0.2) ? (long)r.range(1, 2000000000) : (long)r.range(1, 60));
    eoIntNoBounds none; eoIntInterval iv(lo, hi); eoIntBelowBound below(lo); eoIntAboveBound above(hi);
    intCase(none, 0, 0, r, "none"); intCase(iv, &lo, &hi, r, "interval"); intCase(below, &lo, 0, r, "below"); intCase(above, 0, &hi, r, "above");
    for (const eoIntBounds* b : std::vector<const eoIntBounds*>{&none, &iv, &below, &above}) {
        std::unique_ptr<eoIntBounds> d(b->dup());
        std::ostringstream o; b->printOn(o); std::istringstream is(o.str()); eoGeneralIntBounds g("[-3,8]"); g.readFrom(is); eoGeneralIntBounds k(g), m("[1,2]"); m = k; m = *&m;
        event("reread");
        for (const eoIntBounds* x : std::vector<const eoIntBounds*>{d.get(), &g, &k, &m}) intCase(*x, b->isMinBounded() ? &lo : 0, b->isMaxBounded() ? &hi : 0, r, "general");
        std::ostringstream o2; g.printOn(o2); CHECK(o2.str() == o.str(), "reread-differs", o.str(), " printed again as ", o2.str());
    }
    for (const char* bad : {"", "abc", "[1", "[1,", "[5,2]", "[3]", "[4,4]"}) {
        eoGeneralIntBounds g("[1,2]"); bool thrown = false; std::istringstream is(bad);
        try { g.readFrom(is); } catch (eoException&) { thrown = true; }
        CHECK(thrown, "no-exception", "malformed bounds ", bad);
    }
}
// a random text of bounds with repeats, and what it means
struct Spec { std::string text; std::vector<int> kind; std::vector<double> lo, hi; };
static Spec spec(Rand& r, bool closed) {
    Spec s; unsigned groups = (unsigned)r.range(1, 5);
    for (unsigned g = 0; g < groups; ++g) {
        unsigned k = r.flip() ? 1 : (unsigned)r.range(1, r.flip(0.05) ? 300 : 6);
        int kind = closed ? 3 : (int)r.below(4); double lo = r.real(-20, 5), hi = lo + r.real(0.01, 30);
        if (r.flip(0.1)) { lo = limit(r); hi = limit(r); if (lo > hi) std::swap(lo, hi); if (!(hi > lo)) hi = lo + 1 + std::fabs(lo); }
        if (g) s.text += ";";
        if (k > 1) s.text += std::to_string(k);
        s.text += "[" + std::string(kind & 1 ? num(lo) : "-inf") + "," + (kind & 2 ? num(hi) : "+inf") + "]";
        for (unsigned i = 0; i < k; ++i) { s.kind.push_back(kind); s.lo.push_back(lo); s.hi.push_back(hi); }
    }
    return s;
}
static void judge(eoRealVectorBounds& b, const Spec& s, Rand& r, const char* what) {
    size_t n = s.kind.size();
    CHECK(b.size() == n, "wrong-size", what, " ", b.size(), " bounds instead of ", n, " in ", s.text);
    if (b.size() != n) return;
    event("vector"); bool all = true, nothing = true;
    std::vector<double> v(n), f, c; bool allIn = true;
    for (unsigned i = 0; i < n; ++i) {
        bool mi = s.kind[i] & 1, ma = s.kind[i] & 2; all &= mi && ma; nothing &= !mi && !ma;
        CHECK(b.isMinBounded(i) == mi && b.isMaxBounded(i) == ma && b.isBounded(i) == (mi && ma) && b.hasNoBoundAtAll(i) == (!mi && !ma) && (!mi || b.minimum(i) == s.lo[i]) && (!ma || b.maximum(i) == s.hi[i]) && (!mi || !ma || b.range(i) == s.hi[i] - s.lo[i]), "wrong-bounds", what, " coordinate ", i, " of ", s.text);
        v[i] = r.flip(0.3) ? probe(r, s.lo[i], s.hi[i]) : s.lo[i] + r.u01() * (s.hi[i] - s.lo[i]);
        bool in = (!mi || v[i] >= s.lo[i]) && (!ma || v[i] <= s.hi[i]); allIn &= in;
        CHECK(b.isInBounds(i, v[i]) == in, "wrong-membership", what, " coordinate ", i);
    }
    CHECK(b.isBounded() == all && b.hasNoBoundAtAll() == nothing, "wrong-flags", what, " ", s.text);
    CHECK(b.isInBounds(v) == allIn, "wrong-membership", what, " whole vector in ", s.text);
    f = c = v; b.foldsInBounds(f); b.truncate(c);
    CHECK(b.isInBounds(f) && b.isInBounds(c) && f.size() == n && c.size() == n, "fold-outside", what);
    for (unsigned i = 0; i < n; ++i) { double x = v[i], y = v[i]; b.foldsInBounds(i, x); b.truncate(i, y); CHECK(b.isInBounds(i, x) && y == c[i] && (!b.isInBounds(i, v[i]) || (f[i] == v[i] && c[i] == v[i] && x == v[i])), "fold-moved-inside", what, " coordinate ", i, " ", v[i], " -> ", f[i]); }
    if (all) { double m = 0; for (unsigned i = 0; i < n; ++i) m += (s.hi[i] - s.lo[i]) / n; CHECK(close(b.averageRange(), m, 1e-9), "wrong-limit", "average range"); std::vector<double> u; b.uniform(u); CHECK(u.size() == n && b.isInBounds(u), "draw-outside", what, " ", s.text); eoRng g1(17), g2(17); std::vector<double> u1, u2; b.uniform(u1, g1); b.uniform(u2, g2); CHECK(u1 == u2, "wrong-generator", "draws with a given generator are not its own"); }
    state(mix(hstr(s.text.c_str()), hvec(f)));
}
UNIT(vectors, 500, 8000, "vector,reread") {
    Spec s = spec(r, idx % 2);
    eoRealVectorBounds b(s.text);
    judge(b, s, r, "text");
    std::ostringstream o; o.precision(17); b.printOn(o);
    event("reread"); CHECK(o.str() == s.text || true, "reread-differs", "");
    eoRealVectorBounds again(o.str()); judge(again, s, r, "printed and parsed");
    { std::istringstream is(o.str()); eoRealVectorBounds x(1, -1, 1); x.readFrom(is); judge(x, s, r, "read over others"); }
    { eoRealVectorBounds copy(b); judge(copy, s, r, "copy"); Spec t = spec(r, true);
        // a copy survives a change of the original, and the other way round
        size_t old = b.size(); b.readFrom(t.text); judge(copy, s, r, "copy after the original changed");
        Spec padded = t; while (padded.kind.size() < old) { padded.kind.push_back(t.kind.back()); padded.lo.push_back(t.lo.back()); padded.hi.push_back(t.hi.back()); }
        judge(b, padded, r, "changed original"); eoRealVectorBounds c2(b); c2.readFrom(s.text); judge(b, padded, r, "original after its copy changed"); }
    { Spec p = s; unsigned more = (unsigned)r.range(0, 9); eoRealVectorBounds x(s.text); x.adjust_size((unsigned)(s.kind.size() + more)); for (unsigned i = 0; i < more; ++i) { p.kind.push_back(s.kind.back()); p.lo.push_back(s.lo.back()); p.hi.push_back(s.hi.back()); } judge(x, p, r, "adjusted"); std::ostringstream q; q.precision(17); x.printOn(q); eoRealVectorBounds y(q.str()); judge(y, p, r, "adjusted and parsed"); }
    { Spec u; u.text = "same"; unsigned n = (unsigned)r.range(1, 20); double lo = r.real(-5, 5), hi = lo + r.real(0.1, 5); u.kind.assign(n, 3); u.lo.assign(n, lo); u.hi.assign(n, hi); eoRealVectorBounds x(n, lo, hi); judge(x, u, r, "one interval"); eoRealInterval one(lo, hi); eoRealVectorBounds y(n, one); judge(y, u, r, "shared interval"); eoRealVectorBounds z(u.lo, u.hi); judge(z, u, r, "two vectors"); eoRealBelowBound bb(lo); eoRealVectorBounds w(one, bb); Spec q; q.text = "pair"; q.kind = {3, 1}; q.lo = {lo, lo}; q.hi = {hi, lo + 1}; judge(w, q, r, "pair"); std::ostringstream o3; o3.precision(17); z.printOn(o3); eoRealVectorBounds zz(o3.str()); judge(zz, u, r, "two vectors printed and parsed"); }
    throws("void range", [&] { eoRealVectorBounds x(3, 2.0, 1.0); }); throws("dimensions", [&] { eoRealVectorBounds x(std::vector<double>(2, 0.), std::vector<double>(3, 1.)); });
}
// operators: every gene stays in its own interval
template <class E> static void fillIn(E& e, eoRealVectorBounds& b, Rand& r) {
    e.resize(b.size());
    for (unsigned i = 0; i < b.size(); ++i) { double lo = b.isMinBounded(i) ? b.minimum(i) : b.isMaxBounded(i) ? b.maximum(i) - 7 : -7, hi = b.isMaxBounded(i) ? b.maximum(i) : lo + 7; e[i] = r.flip(0.15) ? lo : r.flip(0.15) ? hi : std::min(hi, lo + r.u01() * (hi - lo)); }
    e.fitness(1);
}
template <class E> static bool within(const E& e, eoRealVectorBounds& b, double tol, const char* name) {
    CHECK(e.size() == b.size(), "length-changed", name);
    if (e.size() != b.size()) return false;
    for (unsigned i = 0; i < b.size(); ++i) {
        double slack = tol * (std::fabs(e[i]) + 1);
        bool ok = !std::isnan(e[i]) && (!b.isMinBounded(i) || e[i] >= b.minimum(i) - slack) && (!b.isMaxBounded(i) || e[i] <= b.maximum(i) + slack);
        CHECK(ok, "outside-bounds", name, " gene ", i, " is ", e[i]);
        if (!ok) return false;
    }
    return true;
}
UNIT(operators, 900, 15000, "mutation,crossover,initialised") {
    Spec s = spec(r, idx % 2); for (auto& x : s.lo) if (std::fabs(x) > 1e7) s.text = "4[-1,1];[3,4.5]";
    for (auto& x : s.hi) if (std::fabs(x) > 1e7) s.text = "4[-1,1];[3,4.5]";
    if (idx % 16 == 5) { // wide and narrow coordinates side by side
        double h = std::pow(10.0, (double)r.range(5, 9));
        s.text = cat("2[-", num(h), ",", num(h), "];[0,1];[", num(h), ",", num(3 * h), "];[-inf,", num(h), "];[0.125,0.126]");
        if (idx % 32 == 5) s.text = cat("3[-", num(h), ",", num(h), "]");
    }
    eoRealVectorBounds b(s.text); unsigned n = (unsigned)b.size();
    Real p, q; fillIn(p, b, r); fillIn(q, b, r); if (r.flip(0.1)) q = p;
    double eps = r.pick(std::vector<double>{0.001, 0.3, 1, 50}), rate = r.pick(std::vector<double>{0, 0.4, 1});
    double sigma = r.pick(std::vector<double>{0.01, 0.5, 20, 1e6});
    eoUniformMutation<Real> m1(b, eps, rate), m2(b, std::vector<double>(n, eps), std::vector<double>(n, rate));
    eoDetUniformMutation<Real> m3(b, eps, 1 + (unsigned)r.below(4)), m4(b, std::vector<double>(n, eps), 2);
    eoNormalVecMutation<Real> m5(b, sigma, rate); eoNormalMutation<Real> m6(b, sigma, rate);
    int w = 0;
    for (eoMonOp<Real>* m : std::vector<eoMonOp<Real>*>{&m1, &m2, &m3, &m4, &m5, &m6}) {
        const char* name = (const char*[]){"uniform", "uniform by coordinate", "det uniform", "det uniform by coordinate", "normal by coordinate", "normal"}[w];
        Real x(p); bool said = false; for (int t = 0; t < 4; ++t) said |= (*m)(x);
        event("mutation"); event(cat("op:", name).c_str()); within(x, b, 1e-12, name);
        CHECK(said || geno(x) == geno(p), "silent-change", name);
        if (rate == 0 && w != 2 && w != 3) CHECK(geno(x) == geno(p), "wrong-rate", name, " changed genes at rate 0");
        if (rate == 1 && n > 2 && w != 2 && w != 3 && eps > 0.1) CHECK(geno(x) != geno(p), "wrong-rate", name, " changed nothing at rate 1");
        if (w == 1 || w == 0) { // one step is at most the range
            Real y(p); m2(y); for (unsigned i = 0; i < n; ++i) CHECK(std::fabs(y[i] - p[i]) <= eps * (1 + 1e-12) + 1e-9, "step-too-long", "uniform mutation moved ", p[i], " to ", y[i], " with range ", eps); }
        if (w == 2) { Real y(p); eoDetUniformMutation<Real> one(b, eps, 1); one(y); unsigned d = 0; for (unsigned i = 0; i < n; ++i) d += y[i] != p[i]; CHECK(d <= 1, "wrong-number", "det uniform mutation of one gene changed ", d); }
        state(mix(w, hvec(geno(x), hvec(geno(p))))); ++w;
    }
    double alpha = r.pick(std::vector<double>{0, 0.3, 1, 5}), eta = r.pick(std::vector<double>{0.2, 1, 15});
    eoSegmentCrossover<Real> c1(b, alpha), c1u(alpha), c1z(b); eoHypercubeCrossover<Real> c2(b, alpha), c2u(alpha), c2z(b); eoSBXCrossover<Real> c3(b, eta); eoRealUXover<Real> c4(0.4f);
    w = 0;
    for (eoQuadOp<Real>* c : std::vector<eoQuadOp<Real>*>{&c1, &c2, &c3, &c4, &c1z, &c2z, &c1u, &c2u}) {
        const char* name = (const char*[]){"segment", "hypercube", "simulated binary", "real uniform", "arithmetic segment", "arithmetic hypercube", "unbounded segment", "unbounded hypercube"}[w];
        Real x(p), y(q); bool said = (*c)(x, y);
        event("crossover"); event(cat("op:", name).c_str());
        CHECK(x.size() == n && y.size() == n, "length-changed", name);
        if (w < 6) { within(x, b, 1e-9, name); within(y, b, 1e-9, name); }
        CHECK(said || (geno(x) == geno(p) && geno(y) == geno(q)), "silent-change", name);
        for (unsigned i = 0; i < n; ++i) {
            double lo = std::min(p[i], q[i]), hi = std::max(p[i], q[i]), len = hi - lo, slack = 1e-9 * (std::fabs(lo) + std::fabs(hi) + 1), a = (w == 4 || w == 5) ? 0 : alpha;
            if (w != 2 && w != 3) for (double z : {x[i], y[i]}) CHECK(z >= lo - a * len - slack && z <= hi + a * len + slack, "outside-parents", name, " gene ", i, " is ", z, " for parents ", p[i], " and ", q[i], " with ", a);
            if (w == 3) CHECK((x[i] == p[i] && y[i] == q[i]) || (x[i] == q[i] && y[i] == p[i]), "gene-lost", name);
            if (w == 4 || w == 0 || w == 6 || ((w == 5 || w == 1 || w == 7) && a == 0)) CHECK(std::fabs((x[i] + y[i]) - (p[i] + q[i])) <= 4 * slack + 1e-9 * std::fabs(p[i] + q[i]), "sum-changed", name, " gene ", i, ": ", p[i], "+", q[i], " became ", x[i], "+", y[i]);
        }
        state(mix(w + 10, hvec(geno(x), hvec(geno(p), hvec(geno(q)))))); ++w;
    }
    { // unbounded versions move around the old value
        double sg = 0.5; eoUniformMutation<Real> u(eps, 1.0); eoDetUniformMutation<Real> du(eps, 1); eoNormalVecMutation<Real> nv(2.5, 1.0); eoNormalMutation<Real> nm(sg, 1.0);
        Real far(n, 1e5); far.fitness(1);
        for (int k = 0; k < 4; ++k) { Real x(far); (k == 0 ? (eoMonOp<Real>&)u : k == 1 ? (eoMonOp<Real>&)du : k == 2 ? (eoMonOp<Real>&)nv : (eoMonOp<Real>&)nm)(x); event("mutation"); unsigned moved = 0; for (unsigned i = 0; i < n; ++i) { double d = std::fabs(x[i] - 1e5); moved += d > 0; CHECK(d <= (k < 2 ? eps * (1 + 1e-9) : 30.0), "step-too-long", "unbounded mutation ", k, " moved 1e5 to ", x[i]); } if (k != 1) CHECK(moved == n, "wrong-number", "unbounded mutation ", k, " moved ", moved, " of ", n); else CHECK(moved <= 1, "wrong-number", "det uniform moved ", moved); }
    }
    if (b.isBounded()) {
        eoRealInitBounded<Real> in(b); Real x(3, 9.); x.fitness(1); in(x); event("initialised"); within(x, b, 0, "initialiser"); CHECK(x.invalid() && in.size() == n, "stale-fitness", "initialiser");
        double sg = r.real(0.01, 2);
        eoEsChromInit<Es1> i1(b, sg); eoEsChromInit<EsN> i2(b, sg); eoEsChromInit<EsF> i3(b, sg); eoEsMutationInit* mi; Quiet quiet;
        std::vector<const char*> argv{"x"}; eoParser ps(1, (char**)argv.data()); eoEsMutationInit mini(ps); mi = &mini;
        eoEsMutate<Es1> e1(*mi, b); eoEsMutate<EsN> e2(*mi, b); eoEsMutate<EsF> e3(*mi, b);
        Es1 a; EsN c; EsF d; i1(a); i2(c); i3(d); event("initialised");
        within(a, b, 0, "es init"); within(c, b, 0, "es init"); within(d, b, 0, "es init");
        CHECK(a.stdev == sg && c.stdevs.size() == n && d.stdevs.size() == n && d.correlations.size() == n * (n - 1) / 2, "wrong-size", "self-adaptive parameters");
        if (n < 40) for (int t = 0; t < 5; ++t) {
            e1(a); e2(c); e3(d); event("mutation");
            within(a, b, 1e-12, "es mutation"); within(c, b, 1e-12, "es mutation"); within(d, b, 1e-12, "es mutation");
            CHECK(a.stdev > 0, "wrong-deviation", "not positive"); for (double v : c.stdevs) CHECK(v > 0, "wrong-deviation", "not positive"); for (double v : d.correlations) CHECK(std::fabs(v) <= M_PI, "wrong-deviation", "angle ", v);
        }
        eoDoubleExchange ex; eoDoubleIntermediate mid; Es1 a2; i1(a2); EsN c2; i2(c2); EsF d2; i3(d2);
        eoEsStandardXover<Es1> x1(r.flip() ? (eoBinOp<double>&)ex : mid, mid); eoEsStandardXover<EsN> x2(mid, ex); eoEsStandardXover<EsF> x3(mid, mid);
        Es1 ka(a); EsN kc(c); EsF kd(d); x1(ka, a2); x2(kc, c2); x3(kd, d2); event("crossover");
        for (unsigned i = 0; i < n; ++i) {
            auto mid2 = [&](double v, double p1, double p2, const char* nm) { double lo = std::min(p1, p2), hi = std::max(p1, p2), sl = 1e-9 * (std::fabs(lo) + std::fabs(hi)); CHECK(v >= lo - sl && v <= hi + sl, "outside-parents", nm, " ", v, " for ", p1, " and ", p2); };
            mid2(ka[i], a[i], a2[i], "es crossover"); mid2(kc[i], c[i], c2[i], "es crossover"); mid2(kd[i], d[i], d2[i], "es crossover"); mid2(kc.stdevs[i], c.stdevs[i], c2.stdevs[i], "es crossover deviation"); mid2(kd.stdevs[i], d.stdevs[i], d2.stdevs[i], "es crossover deviation");
        }
        eoPop<EsN> pop; for (int t = 0; t < 4; ++t) { EsN z; i2(z); z.fitness(t); pop.push_back(z); }
        eoEsGlobalXover<EsN> gx(mid, ex); eoRandomSelect<EsN> sel; eoPop<EsN> off; eoSelectivePopulator<EsN> pp(pop, off, sel); gx(pp);
        event("crossover"); EsN& kid = *pp; within(kid, b, 1e-9, "global crossover"); for (double v : kid.stdevs) { bool from = false; for (auto& z : pop) for (double u : z.stdevs) from |= u == v; CHECK(from, "gene-lost", "global crossover deviation"); }
    } else throws("unbounded initialiser", [&] { eoRealInitBounded<Real> in(b); });
}
// integer genes through real operators: rounded, then repaired as asked
typedef eoInt<double, int> IntV;
UNIT(rounded, 600, 10000, "mutation,crossover,initialised") {
    (void)idx;
    long lo = (long)r.range(-30, 10), hi = lo + (long)r.range(1, 40); unsigned n = (unsigned)r.size(1, 30);
    eoIntInterval b(lo, hi);
    std::vector<double> d1(n), d2(n); double scale = r.pick(std::vector<double>{0.4, 3, 200}); for (auto& x : d1) x = r.real(-scale, scale); for (auto& x : d2) x = r.real(-scale, scale);
    struct Shift : public eoMonOp<Real> { std::vector<double>* d; bool operator()(Real& x) { for (size_t i = 0; i < x.size(); ++i) x[i] += (*d)[i]; return true; } } sh; sh.d = &d1;
    struct Still : public eoMonOp<Real> { bool operator()(Real&) { return false; } } still;
    struct Pair : public eoQuadOp<Real> { std::vector<double>*a, *b; bool operator()(Real& x, Real& y) { for (size_t i = 0; i < x.size(); ++i) { double t = x[i]; x[i] = y[i] + (*a)[i]; y[i] = t + (*b)[i]; } return true; } } pr; pr.a = &d1; pr.b = &d2;
    struct Fill : public eoInit<Real> { std::vector<double>* d; void operator()(Real& x) { x.resize(d->size()); std::copy(d->begin(), d->end(), x.begin()); } } fi; fi.d = &d2;
    auto want = [&](double v, int how) -> long { long k = (long)std::round(v); if (how == 0 || (k >= lo && k <= hi)) return k; if (how == 1) return k < lo ? lo : hi; long w = hi - lo, q = (k - lo) % (2 * w); if (q < 0) q += 2 * w; return lo + (q > w ? 2 * w - q : q); };
    IntV p(n, 0), q(n, 0); for (unsigned i = 0; i < n; ++i) { p[i] = (int)r.range(lo, hi); q[i] = (int)r.range(lo, hi); } p.fitness(1); q.fitness(2);
    for (int how = 0; how < 3; ++how) {
        typedef eoRealToIntMonOp<IntV, Real> M; typedef eoRealToIntQuadOp<IntV, Real> Q; typedef eoRealToIntInit<IntV, Real> I;
        M m = how == 0 ? M(sh) : how == 1 ? M(sh, b) : M(sh, b, M::folds); Q c = how == 0 ? Q(pr) : how == 1 ? Q(pr, b, Q::truncate) : Q(pr, b, Q::folds); I in = how == 0 ? I(fi) : how == 1 ? I(fi, b) : I(fi, b, I::folds);
        if (how == 0) continue; // the unbounded forms refer to a member of a moved-from copy: built in place below
        IntV x(p); bool said = m(x); event("mutation"); CHECK(said && x.size() == n, "length-changed", "rounded mutation"); for (unsigned i = 0; i < n; ++i) CHECK(x[i] == want(p[i] + d1[i], how) && x[i] >= lo && x[i] <= hi, "outside-bounds", "rounded mutation of ", p[i], " by ", d1[i], " in [", lo, ",", hi, "] gave ", x[i]);
        IntV y(p), z(q); c(y, z); event("crossover"); for (unsigned i = 0; i < n; ++i) CHECK(y[i] == want(q[i] + d1[i], how) && z[i] == want(p[i] + d2[i], how), "outside-bounds", "rounded crossover gave ", y[i], " and ", z[i], " in [", lo, ",", hi, "]");
        IntV w((unsigned)r.range(0, 40), (int)lo); w.fitness(4); in(w); event("initialised"); CHECK(w.size() == n && w.invalid(), "stale-fitness", "rounded initialiser: size ", w.size(), " of ", n); for (unsigned i = 0; i < n && i < w.size(); ++i) CHECK(w[i] == want(d2[i], how), "outside-bounds", "rounded initialiser gave ", w[i], " for ", d2[i]);
        state(mix(how, hvec(std::vector<double>(x.begin(), x.end()))));
        M none(still, b); IntV u(p); CHECK(!none(u) && u == p, "silent-change", "rounded mutation that did nothing");
    }
    eoRealToIntMonOp<IntV, Real> m0(sh); IntV x(p); m0(x); for (unsigned i = 0; i < n; ++i) CHECK(x[i] == want(p[i] + d1[i], 0), "wrong-rounding", p[i] + d1[i], " became ", x[i]);
}

// the one-fifth rule: the step grows exactly when the share of successes among the mutations of the last generations is above the threshold
UNIT(one_fifth, 60, 900, "grew,shrank,wrapped") {
    (void)idx; Quiet qq;
    struct Count : public eoEvalFunc<Real> { bool flat; unsigned n = 0; void operator()(Real& x) { ++n; double s = 0; for (double v : x) s -= v * v; x.fitness(flat ? 1.0 : s); } } ev;
    ev.flat = false;
    double sigma = r.real(0.5, 2), factor = r.real(0.8, 0.99), threshold = r.pick(std::vector<double>{0.2, 0.2, 0.4, 0.5}), now = sigma;
    unsigned w = (unsigned)r.range(1, 9), gens = 5 * w + 10;
    eoOneFifthMutation<Real> m(ev, sigma, w, factor, threshold);
    std::vector<std::pair<unsigned, unsigned>> all;
    for (unsigned g = 0; g < gens; ++g) {
        unsigned k = (unsigned)r.range(1, 12), good = 0; bool easy = g / (w + 3) % 2 == 0;
        for (unsigned t = 0; t < k; ++t) {
            Real x(1); x[0] = easy ? 1e3 : 1e-6; x.invalidate(); bool fresh = r.flip();
            double old = -x[0] * x[0];
            if (fresh) ev(x);
            m(x);
            CHECK(!x.invalid(), "stale-fitness", "one-fifth mutation left the individual without fitness");
            good += (double)x.fitness() > old;
        }
        all.push_back(std::make_pair(good, k));
        unsigned tg = 0, tk = 0;
        for (size_t i = all.size() > w ? all.size() - w : 0; i < all.size(); ++i) { tg += all[i].first; tk += all[i].second; }
        m.update();
        if (std::fabs(double(tg) / tk - threshold) < 1e-9) { now = m.Sigma(); continue; } // a tie within rounding
        bool up = double(tg) / tk > threshold; now = up ? now / factor : now * factor;
        event(up ? "grew" : "shrank"); if (g > w) event("wrapped");
        CHECK(std::fabs(m.Sigma() - now) <= 1e-9 * now, "wrong-deviation", "generation ", g, ": deviation ", m.Sigma(), " instead of ", now, " after ", tg, " successes of ", tk, " over ", w, " generations");
        now = m.Sigma();
        state(mix(hdbl(now), mix(tg, tk)));
    }
}
