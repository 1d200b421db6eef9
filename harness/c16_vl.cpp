// C16: variable-length genotypes and genotypes that wrap a foreign type.
#include "ops.h"
#include <other/eoString.h>
#include <other/eoExternalEO.h>
#include <other/eoExternalOpFunctions.h>
#include <set>
using namespace eoh;
typedef eoVector<double, int> Vl;
struct Gen : public eoInit<int> { // fresh, recognisable atoms
    int next = 1000000;
    std::vector<int> made;
    void operator()(int& a) { a = next++; made.push_back(a); }
};
static Vl tagged(Rand& r, unsigned n, int base, bool dup) {
    Vl v(n);
    for (unsigned i = 0; i < n; ++i) v[i] = dup ? base + (int)r.below(3) : base + (int)i;
    v.fitness(1);
    return v;
}
// c = a subsequence of a followed by a subsequence of b
static bool splitOf(const Vl& c, const Vl& a, const Vl& b, std::vector<bool>& ua, std::vector<bool>& ub) {
    ua.assign(a.size(), false); ub.assign(b.size(), false);
    size_t k = 0, i = 0;
    for (; k < c.size() && i < a.size(); ++i) if (a[i] == c[k]) { ua[i] = true; ++k; }
    for (i = 0; k < c.size() && i < b.size(); ++i) if (b[i] == c[k]) { ub[i] = true; ++k; }
    return k == c.size();
}
static unsigned len(Rand& r) { return r.flip(0.05) ? (unsigned)r.range(250, 600) : (unsigned)r.size(0, 20); }

UNIT(vl_mutation, 1500, 30000, "added,add_refused,deleted,delete_refused") {
    unsigned n = len(r);
    Vl v = tagged(r, n, 10, r.flip(0.2)), o = v;
    Gen g;
    unsigned max = r.flip(0.3) ? n : r.flip(0.2) ? (n ? n - 1 : 0) : n + (unsigned)r.range(1, 5);
    eoVlAddMutation<Vl> add(max, g);
    bool ret = add(v);
    if (n >= max) {
        event("add_refused");
        CHECK(!ret && v == o, "add-over-limit", "size ", n, " limit ", max, " -> ", show(v));
    } else {
        event("added");
        CHECK(ret && v.size() == n + 1, "add-length", "size ", n, " -> ", v.size());
        CHECK(g.made.size() >= 1, "add-not-generated", "no atom asked of the generator");
        Vl w = v;
        auto it = std::find_if(w.begin(), w.end(), [&](int a) { return std::find(g.made.begin(), g.made.end(), a) != g.made.end(); });
        CHECK(it != w.end(), "add-not-generated", "nothing generated in ", show(v));
        if (it != w.end()) { w.erase(it); CHECK(w.size() == o.size() && std::equal(w.begin(), w.end(), o.begin()), "add-changes-others", show(o), " -> ", show(v)); }
    }
    Vl d = o;
    unsigned min = r.flip(0.3) ? n : r.flip(0.2) ? n + 1 : (unsigned)r.range(0, (int)n);
    struct Last : public eoGeneDelChooser<Vl> { std::string className() const { return "Last"; } unsigned operator()(Vl& e) { return (unsigned)e.size() - 1; } } last;
    eoVlDelMutation<Vl> del1(min), del2(min, last);
    bool useLast = r.flip(0.3);
    ret = useLast ? del2(d) : del1(d);
    if (n <= min) {
        event("delete_refused");
        CHECK(!ret && d == o, "delete-under-limit", "size ", n, " limit ", min, " -> ", show(d));
    } else {
        event("deleted");
        CHECK(ret && d.size() + 1 == n, "delete-length", "size ", n, " -> ", d.size());
        size_t k = 0;
        while (k < d.size() && d[k] == o[k]) ++k;
        bool ok = d.size() + 1 == o.size();
        for (size_t i = k; ok && i < d.size(); ++i) ok = d[i] == o[i + 1];
        CHECK(ok, "delete-changes-others", show(o), " -> ", show(d));
        if (useLast) CHECK(ok && std::equal(d.begin(), d.end(), o.begin()), "delete-wrong-gene", "the chooser's gene stays: ", show(o), " -> ", show(d));
    }
    state(hvec(v, hvec(d, n)));
}
// every place is used, evenly
UNIT(vl_places, 6, 60, "places") {
    unsigned n = (unsigned)r.range(1, 8);
    const int N = 4000;
    Vl o = tagged(r, n, 10, false);
    Gen g;
    eoVlAddMutation<Vl> add(n + 1, g);
    eoVlDelMutation<Vl> del(0);
    std::vector<double> a(n + 1, 0), d(n, 0);
    for (int k = 0; k < N; ++k) {
        Vl v = o;
        add(v);
        for (unsigned i = 0; i <= n && i < v.size(); ++i) if (v[i] >= 1000000) a[i]++;
        Vl w = o;
        del(w);
        unsigned i = 0;
        while (i < w.size() && w[i] == o[i]) ++i;
        if (i < n) d[i]++;
    }
    for (unsigned i = 0; i <= n; ++i) CHECK(!deviates(a[i], N, 1.0 / (n + 1)), "add-place", "place ", i, " of ", n + 1, " gets ", a[i], " of ", N);
    for (unsigned i = 0; i < n; ++i) CHECK(!deviates(d[i], N, 1.0 / n), "delete-place", "place ", i, " of ", n, " loses ", d[i], " of ", N);
    event("places");
}
UNIT(vl_crossover, 1200, 25000, "exchanged,impossible,bin,inner,quad_ok") {
    Quiet q;
    unsigned n1 = len(r), n2 = len(r);
    int how = (int)r.below(6);
    unsigned lo = std::min(n1, n2), hi = std::max(n1, n2);
    unsigned min = r.flip() ? lo : (unsigned)r.range(0, (int)lo), max = r.flip() ? hi : hi + (unsigned)r.range(0, 10);
    bool impossible = idx % 60 == 7;
    if (impossible) { n1 = 2; n2 = 3; min = 4; max = 9; how = (int)((idx / 60) % 3); }
    Vl a = tagged(r, n1, 10, false), b = tagged(r, n2, 5000, false), x = a, y = b;
    double rate = r.real(0.2, 0.8);
    auto conserved = [&](const char* what) {
        std::vector<bool> ua, ub, va, vb;
        bool ok1 = splitOf(x, a, b, ua, ub), ok2 = splitOf(y, a, b, va, vb);
        CHECK(ok1 && ok2, "vl-order", what, ": ", show(a), " ", show(b), " -> ", show(x), " ", show(y));
        bool each = x.size() + y.size() == a.size() + b.size();
        for (size_t i = 0; each && i < a.size(); ++i) each = ua[i] != va[i];
        for (size_t i = 0; each && i < b.size(); ++i) each = ub[i] != vb[i];
        CHECK(each, "vl-conserved", what, ": atoms lost or doubled: ", show(a), " ", show(b), " -> ", show(x), " ", show(y));
        CHECK(x.size() >= min && x.size() <= max && y.size() >= min && y.size() <= max, "vl-length-limit", what, ": lengths ", x.size(), " and ", y.size(), " outside [", min, ",", max, "]");
        if (!(x == a)) event("exchanged");
        event("quad_ok");
    };
    auto refused = [&](const char* what) {
        CHECK(x == a && y == b, "vl-refused-changed", what, " reports no change but ", show(a), " ", show(b), " -> ", show(x), " ", show(y));
        if (impossible) event("impossible");
    };
    if (how == 0 || how == 3) {
        eoUniformAtomExchange<int> ex(rate);
        eoVlAtomExchangeQuadOp<Vl> op(min, max, ex);
        if (op(x, y)) { CHECK(!impossible, "vl-length-limit", "lengths ", x.size(), " ", y.size()); conserved("atom exchange"); } else refused("atom exchange");
    } else if (how == 1) {
        eoVlUniformQuadOp<Vl> op(min, max, rate);
        if (op(x, y)) { CHECK(!impossible, "vl-length-limit", "lengths ", x.size(), " ", y.size()); conserved("uniform"); } else refused("uniform");
    } else if (how == 2) {
        if (impossible) { min = 6; }
        eoVlUniformBinOp<Vl> op(min, max, rate);
        bool ret = op(x, b);
        event("bin");
        if (!ret) refused("uniform two parents");
        else {
            std::vector<bool> ua, ub;
            CHECK(splitOf(x, a, b, ua, ub), "vl-order", "uniform: ", show(a), " ", show(b), " -> ", show(x));
            CHECK(x.size() >= min && x.size() <= max, "vl-length-limit", "uniform: length ", x.size(), " outside [", min, ",", max, "]");
        }
    } else {
        ops::Exch dummy;
        struct Sw : public eoQuadOp<int> { int calls = 0, changed = 0; bool operator()(int& p, int& q) { ++calls; if (calls % 3 == 0) return false; std::swap(p, q); ++changed; return true; } } sw;
        float rt = (float)r.pick(std::vector<double>{0, 0.3, 0.5, 1});
        eoInnerExchangeQuadOp<Vl> op(sw, rt);
        bool ret = op(x, y);
        event("inner");
        bool ok = x.size() == a.size() && y.size() == b.size();
        int moved = 0;
        for (size_t i = 0; ok && i < std::min(a.size(), b.size()); ++i) {
            bool same = x[i] == a[i] && y[i] == b[i], swapped = x[i] == b[i] && y[i] == a[i];
            ok = same || swapped;
            if (swapped) ++moved;
        }
        for (size_t i = std::min(a.size(), b.size()); ok && i < a.size(); ++i) ok = x[i] == a[i];
        for (size_t i = std::min(a.size(), b.size()); ok && i < b.size(); ++i) ok = y[i] == b[i];
        CHECK(ok && moved == sw.changed, "inner-exchange", show(a), " ", show(b), " -> ", show(x), " ", show(y));
        CHECK(ret == (moved > 0), "inner-report", "reports ", ret, " with ", moved, " pairs changed");
        if (rt == 0) CHECK(sw.calls == 0, "inner-rate", "rate 0 but ", sw.calls, " calls");
        if (rt == 1) CHECK(sw.calls == (int)std::min(a.size(), b.size()), "inner-rate", "rate 1 but ", sw.calls, " calls");
    }
    state(hvec(x, hvec(y, how)));
}
UNIT(vl_init, 300, 5000, "vl_init,vl_bad") {
    unsigned min = (unsigned)r.range(0, 10), max = min + (unsigned)r.range(1, 6);
    Gen g;
    eoInitVariableLength<Vl> init(min, max, g);
    Vl v = tagged(r, (unsigned)r.range(0, 30), 1, false);
    std::set<size_t> seen;
    for (int k = 0; k < 150; ++k) {
        g.made.clear();
        init(v);
        seen.insert(v.size());
        CHECK(v.size() >= min && v.size() <= max, "vl-init-length", "length ", v.size(), " outside [", min, ",", max, ")");
        bool fresh = g.made.size() == v.size() && std::equal(v.begin(), v.end(), g.made.begin());
        CHECK(fresh, "vl-init-atoms", "atoms not from the generator: ", show(v));
        CHECK(v.invalid(), "vl-init-fitness", "fitness valid");
    }
    CHECK(seen.size() >= max - min, "vl-init-reach", seen.size(), " lengths seen of [", min, ",", max, ")");
    event("vl_init");
    bool threw = false;
    try { eoInitVariableLength<Vl> bad(max, r.flip() ? min : max, g); } catch (std::exception&) { threw = true; }
    CHECK(threw, "vl-init-bad", "an empty length interval is accepted");
    event("vl_bad");
}
// long sequences: limits hold through any history
UNIT(vl_history, 120, 2500, "history") {
    Quiet q;
    unsigned lo = (unsigned)r.range(0, 4), hi = lo + (unsigned)r.range(2, 12);
    ops::Set<ops::Int> s;
    ops::vlOps(s, r, lo, hi, 9);
    std::vector<ops::Int> p(4);
    for (auto& x : p) (*s.init)(x);
    for (int step = 0; step < 120; ++step) {
        int a = (int)r.below(4), b = (int)((a + 1 + r.below(3)) % 4), k = (int)r.below(s.mon.size() + s.quad.size() + s.bin.size());
        ops::Int oa = p[a], ob = p[b];
        std::string what;
        if (k < (int)s.mon.size()) { what = s.mon[k].first; bool c = (*s.mon[k].second)(p[a]); if (!c) CHECK(p[a] == oa, "vl-false-report", what, " reports no change"); }
        else if ((k -= (int)s.mon.size()) < (int)s.quad.size()) { what = s.quad[k].first; bool c = (*s.quad[k].second)(p[a], p[b]); if (!c) CHECK(p[a] == oa && p[b] == ob, "vl-false-report", what, " reports no change"); }
        else { k -= (int)s.quad.size(); what = s.bin[k].first; (*s.bin[k].second)(p[a], p[b]); CHECK(p[b] == ob, "vl-second-parent", what); }
        for (int i : {a, b}) {
            CHECK(p[i].size() >= lo && p[i].size() <= hi, "vl-length-limit", what, ": length ", p[i].size(), " outside [", lo, ",", hi, "]");
            for (auto x : p[i]) CHECK(x <= 10, "vl-foreign-atom", what, ": ", show(p[i]));
        }
        state(hvec(p[a], k));
    }
    event("history");
}
// operators on a foreign type go through its own functions
struct Ext { std::vector<int> v; };
static std::ostream& operator<<(std::ostream& o, const Ext& e) { o << e.v.size(); for (int x : e.v) o << ' ' << x; return o; }
static std::istream& operator>>(std::istream& i, Ext& e) { size_t n; i >> n; e.v.resize(n); for (int& x : e.v) i >> x; return i; }
typedef eoExternalEO<double, Ext> XE;
static int extCalls = 0;
static Ext xinit() { ++extCalls; Ext e; e.v = {1, 2, 3}; return e; }
static double xeval(const Ext& e) { ++extCalls; double s = 0; for (int x : e.v) s += x; return s; }
static bool xmut(Ext& e) { ++extCalls; if (e.v.empty()) return false; e.v[0]++; return true; }
static bool xbin(Ext& a, const Ext& b) { ++extCalls; if (b.v.empty()) return false; a.v.push_back(b.v[0]); return true; }
static bool xquad(Ext& a, Ext& b) { ++extCalls; if (a.v == b.v) return false; std::swap(a.v, b.v); return true; }
UNIT(external, 300, 4000, "external") {
    XE a, b;
    for (unsigned i = 0, n = (unsigned)r.size(0, 8); i < n; ++i) a.v.push_back(r.range(-50, 50));
    for (unsigned i = 0, n = (unsigned)r.size(0, 8); i < n; ++i) b.v.push_back(r.range(-50, 50));
    std::vector<int> va = a.v, vb = b.v;
    eoExternalEvalFunc<double, Ext> ev(xeval);
    eoExternalMonOp<double, Ext> mu(xmut);
    eoExternalBinOp<double, Ext> bi(xbin);
    eoExternalQuadOp<double, Ext> qu(xquad);
    eoExternalInit<double, Ext> in(xinit);
    extCalls = 0;
    ev(a);
    CHECK(!a.invalid() && a.fitness() == xeval(a), "external-eval", a.fitness());
    bool c = mu(a);
    CHECK(c == !va.empty() && (va.empty() || a.v[0] == va[0] + 1), "external-mutation", show(a.v));
    std::vector<int> before = a.v;
    c = bi(a, b);
    CHECK(c == !vb.empty() && b.v == vb && a.v.size() == before.size() + !vb.empty(), "external-binary", show(a.v));
    before = a.v;
    c = qu(a, b);
    CHECK(c == (before != vb) && a.v == vb && b.v == before, "external-quad", show(a.v));
    std::stringstream s;
    s << a;
    XE d;
    s >> d;
    CHECK(d.v == a.v && d.fitness() == a.fitness(), "external-read", s.str());
    in(a);
    CHECK(a.v == (std::vector<int>{1, 2, 3}) && a.invalid(), "external-init", show(a.v));
    event("external");
}
