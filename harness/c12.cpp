// C12: what is written as text is read back identical.
#include "ops.h"
#include <eoScalarFitnessAssembled.h>
#include <eoDualFitness.h>
#include <eoGenContinue.h>
#include <utils/eoState.h>
#include <utils/eoHowMany.h>
#include <problems/partition/moBinaryPartition.h>
#include <fstream>
using namespace ops;

static double number(Rand& r) {
    switch (r.below(7)) {
    case 0: return 0;
    case 1: return (double)r.range(-1000, 1000);
    case 2: return r.real(-1, 1) * std::pow(10., r.real(-300, 300));
    case 3: return r.real(-1, 1) * 1e-310;
    case 4: return r.flip() ? std::numeric_limits<double>::max() : std::numeric_limits<double>::lowest();
    case 5: return -0.5;
    default: return r.real(-100, 100);
    }
}
// exact with 17 digits, else within the digits printed
static bool eq(double a, double b, int digits) { return digits >= 17 ? a == b : std::fabs(a - b) <= std::max(std::fabs(a), std::fabs(b)) * std::pow(10., 1 - digits) || (std::fabs(a) < 1e-300 && std::fabs(b) < 1e-300); }
static bool eqv(const std::vector<double>& a, const std::vector<double>& b, int d) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!eq(a[i], b[i], d)) return false; return true; }

template <class F> struct Fit { static void make(F& f, Rand& r, int d) { double x = number(r); if (d < 17 && std::fabs(x) > 1e300) x = 1e300; f = F(x); } static std::vector<double> of(const F& f) { return {(double)f}; } };
template <> struct Fit<int> { static void make(int& f, Rand& r, int) { f = (int)r.range(-2000000000, 2000000000); } static std::vector<double> of(int f) { return {(double)f}; } };
typedef eoMaximizingDualFitness Dual; typedef eoAssembledMinimizingFitness Asm;
template <> struct Fit<Dual> { static void make(Dual& f, Rand& r, int d) { double x; Fit<double>::make(x, r, d); f = Dual(x, r.flip()); } static std::vector<double> of(const Dual& f) { return {f.value(), (double)f.is_feasible()}; } };
template <> struct Fit<Asm> { static void make(Asm& f, Rand& r, int d) { f = Asm(3, 0.0); for (int i = 0; i < 3; ++i) Fit<double>::make(f[i], r, d); f.feasible = r.flip(); f.failed = r.flip(); } static std::vector<double> of(const Asm& f) { std::vector<double> v(f.begin(), f.end()); v.push_back(f.feasible); v.push_back(f.failed); return v; } };

static unsigned len(Rand& r) { return r.flip(0.03) ? (unsigned)r.range(257, 900) : (unsigned)r.size(0, 12); }
template <class T> void genes(std::vector<T>& v, Rand& r, int d) { v.resize(len(r)); for (auto& x : v) Fit<double>::make(x, r, d); }
template <class F> void fill(eoReal<F>& e, Rand& r, int d) { genes<double>(e, r, d); }
template <class F, class S> void fill(eoBit<F, S>& e, Rand& r, int) { e.resize(len(r)); for (size_t i = 0; i < e.size(); ++i) e[i] = r.flip(); }
template <class F, class T> void fill(eoInt<F, T>& e, Rand& r, int) { e.resize(len(r)); for (auto& x : e) x = (T)r.range(std::is_signed<T>::value ? -2000000000LL : 0, 2000000000LL); }
void fill(Es1& e, Rand& r, int d) { genes<double>(e, r, d); Fit<double>::make(e.stdev, r, d); }
void fill(EsN& e, Rand& r, int d) { genes<double>(e, r, d); e.stdevs.resize(e.size()); for (auto& x : e.stdevs) Fit<double>::make(x, r, d); }
void fill(EsF& e, Rand& r, int d) { genes<double>(e, r, d); if (e.size() > 30) e.resize(30); e.stdevs.resize(e.size()); for (auto& x : e.stdevs) Fit<double>::make(x, r, d); e.correlations.resize(e.size() ? e.size() * (e.size() - 1) / 2 : 0); for (auto& x : e.correlations) Fit<double>::make(x, r, d); }
void grow(std::vector<Node>& v, Rand& r, int depth) { auto ns = nodes(r, true); Node n = ns[r.below(ns.size())]; if (depth <= 0) n = Node(r.flip() ? 'a' : 'b', 0); for (int i = 0; i < n.ar; ++i) grow(v, r, depth - 1); v.push_back(n); }
void fill(Tree& e, Rand& r, int) { std::vector<Node> v; grow(v, r, (int)r.below(6)); parse_tree<Node> t(v.begin(), v.end()); e.swap(t); }
template <class E> bool sameGeno(const E& a, const E& b, int d) { return eqv(full(a), full(b), d); }
typedef moBinaryPartition<double> Part;
void fill(Part& e, Rand& r, int) { e.selected.clear(); e.rejected.clear(); unsigned n = (unsigned)r.below(20); for (unsigned i = 0; i < n; ++i) (r.flip() ? e.selected : e.rejected).insert(i); }
template <> bool sameGeno(const Part& a, const Part& b, int) { return a.selected == b.selected && a.rejected == b.rejected; }
template <class E> u64 hgen(const E& e) { return hvec(full(e)); }
u64 hgen(const Part& e) { u64 h = 3; for (auto x : e.selected) h = mix(h, x); return h; }

template <class E> void randomInd(E& e, Rand& r, int d) { fill(e, r, d); if (r.flip(0.25)) e.invalidate(); else { typename E::Fitness f; Fit<typename E::Fitness>::make(f, r, d); e.fitness(f); } }
template <class E> bool same(const E& a, const E& b, int d, const char* name) {
    CHECK(a.invalid() == b.invalid(), "validity-differs", name, ": ", a.invalid() ? "invalid" : "valid", " became ", b.invalid() ? "invalid" : "valid");
    if (a.invalid() != b.invalid()) return false;
    bool f = a.invalid() || eqv(Fit<typename E::Fitness>::of(a.fitness()), Fit<typename E::Fitness>::of(b.fitness()), d), g = sameGeno(a, b, d);
    CHECK(f, "fitness-differs", name); CHECK(g, "genotype-differs", name);
    return f && g;
}
template <class E> void roundTrip(Rand& r, const char* name) {
    Asm declared(3, 0.0);
    int d = r.flip() ? 17 : 6;
    E a, b; randomInd(a, r, d); randomInd(b, r, d);
    { std::stringstream s; s.precision(d); s << a; s << " 77 tail"; if (r.flip()) s >> b; else b.readFrom(s); event("individual"); event(cat("type:", name).c_str());
        bool ok = same(a, b, d, name); int n = 0; std::string t; s >> n >> t; CHECK(n == 77 && t == "tail", "stream-misplaced", name, ": text after the individual is not found any more"); if (ok) state(mix(hstr(name), hgen(a))); }
    { eoPop<E> p, q; unsigned n = (unsigned)r.below(8); for (unsigned i = 0; i < n; ++i) { p.push_back(a); randomInd(p.back(), r, d); } for (unsigned i = 0; i < (unsigned)r.below(10); ++i) { q.push_back(a); }
        std::stringstream s; s.precision(d); s << p; s << " 78 tail"; if (r.flip()) s >> q; else q.readFrom(s); event("population"); CHECK(q.size() == n, "size-differs", name, " population of ", n, " read as ", q.size());
        if (q.size() == n) for (unsigned i = 0; i < n; ++i) if (!same(p[i], q[i], d, name)) break;
        int k = 0; std::string t; s >> k >> t; CHECK(k == 78 && t == "tail", "stream-misplaced", name, ": text after the population is not found any more"); }
}
UNIT(individuals, 2400, 40000, "individual,population") {
    switch (idx % 14) {
    case 0: roundTrip<Bit>(r, "bits"); break;
    case 1: roundTrip<Real>(r, "reals"); break;
    case 2: roundTrip<RealMin>(r, "minimised reals"); break;
    case 3: roundTrip<Int>(r, "unsigned integers"); break;
    case 4: roundTrip<eoInt<MinF, int>>(r, "integers"); break;
    case 5: roundTrip<Es1>(r, "one deviation"); break;
    case 6: roundTrip<EsN>(r, "deviations"); break;
    case 7: roundTrip<EsF>(r, "deviations and correlations"); break;
    case 8: roundTrip<Tree>(r, "trees"); break;
    case 9: roundTrip<eoReal<Dual>>(r, "dual fitness"); break;
    case 10: roundTrip<eoBit<Asm>>(r, "assembled fitness"); break;
    case 11: roundTrip<eoBit<int>>(r, "integer fitness"); break;
    case 12: roundTrip<Part>(r, "partition"); break;
    default: roundTrip<eoBit<MinF, int>>(r, "bits as integers");
    }
}
// parameters
template <class T> void param(T value, T other, const char* name, Rand& r) {
    eoValueParam<T> a(value, "a", "what"), b(other, "b"); a.setPrecision(17); b.setPrecision(17);
    std::string t = a.getValue(); b.setValue(t); event("parameter"); event(cat("type:", name).c_str());
    CHECK(b.value() == value, "parameter-differs", name, " written ", t, " and read as ", b.getValue());
    CHECK(a.value() == value, "parameter-differs", name, " changed by writing");
    eoValueParam<T> c(other, "c"); c.value() = value; CHECK(c.value() == value, "parameter-differs", name);
    state(hstr((std::string(name) + t).c_str())); (void)r;
}
template <class T> std::vector<T> some(Rand& r, std::function<T()> g) { std::vector<T> v(r.below(7)); for (auto& x : v) x = g(); return v; }
UNIT(parameters, 800, 10000, "parameter") {
    (void)idx;
    param<double>(number(r), 3.5, "real", r); param<int>((int)r.range(-2000000000, 2000000000), 4, "integer", r); param<unsigned>((unsigned)r.below(4000000000u), 4, "unsigned", r); param<bool>(r.flip(), r.flip(), "bool", r); param<uint32_t>((uint32_t)r.below(100), 3, "seed", r);
    std::string w; for (unsigned i = 0; i < 1 + r.below(10); ++i) w += (char)r.range('!', '~'); param<std::string>(w, "other", "word", r);
    auto six = [&] { return (double)r.range(-100000, 100000) / (r.flip() ? 1 : 8); }; // exact with the digits these print
    auto few = [&] { return (double)r.range(-999, 999) / 4; };
    param<std::pair<double, double>>({few(), few()}, {1, 2}, "pair", r); (void)six;
    param<std::vector<double>>(some<double>(r, few), {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, "vector", r);
    param<std::vector<std::vector<double>>>(some<std::vector<double>>(r, [&] { return some<double>(r, few); }), {{1, 2}, {3}}, "vector of vectors", r);
    { std::vector<double> v = some<double>(r, few); std::ostringstream o; o << v.size(); for (double x : v) o << (r.flip() ? "," : ";") << (r.flip() ? " " : "") << x; eoValueParam<std::vector<double>> p({}, "p"); p.setValue(o.str()); event("parameter"); CHECK(p.value() == v, "parameter-differs", "delimited vector ", o.str(), " read as ", p.getValue()); }
    { double x = number(r); eoValueParam<double> p(1, "p"); p.value(x); event("parameter"); CHECK(p.value() == x, "parameter-differs", "assigned ", x, " holds ", p.value()); }
    { std::vector<MinF> v, e; for (unsigned i = 0; i < r.below(6); ++i) v.push_back(few()); eoValueParam<std::vector<MinF>> a(v, "a"), b(e, "b"); b.setValue(a.getValue()); bool ok = b.value().size() == v.size(); for (size_t i = 0; ok && i < v.size(); ++i) ok = (double)v[i] == (double)b.value()[i]; CHECK(ok, "parameter-differs", "fitness vector ", a.getValue(), " read as ", b.getValue()); }
    { std::string first = r.pick(std::vector<std::string>{"Sequential", "Roulette", "x"}); std::vector<std::string> args; for (unsigned i = 0; i < r.below(4); ++i) args.push_back(r.pick(std::vector<std::string>{"2", "0.75", "ordered", "a", "abc"}));
        eoParamParamType p(first); p.second = args; std::ostringstream o; o << p; eoParamParamType q("other(3,4)"); std::istringstream is(o.str()); is >> q; event("parameter"); CHECK(q.first == first && q.second == args, "parameter-differs", o.str(), " read as ", q.first, " with ", q.second.size());
        std::string t = o.str(); if (args.size() > 1) { for (size_t i = 0; (i = t.find(',', i)) != std::string::npos; i += 2) t.replace(i, 1, ", "); eoParamParamType s(t); CHECK(s.first == first && s.second == args, "parameter-differs", t, " read as ", s.second.size(), " arguments"); }
        if (args.size()) { std::string u = o.str().substr(0, o.str().size() - 1); eoParamParamType s(u); CHECK(s.first == first && s.second == args, "parameter-differs", u, " without its closing parenthesis"); } }
    { eoHowMany h(r.flip() ? eoHowMany((int)r.range(0, 500)) : eoHowMany((double)r.range(0, 64) / 64)), k(0.5); std::stringstream s; s.precision(17); s << h; s >> k; event("parameter"); for (unsigned n : {0u, 7u, 64u, 1000u}) CHECK(h(n) == k(n), "parameter-differs", "how many: ", s.str(), " gives ", k(n), " of ", n, " instead of ", h(n)); }
}
// states
struct Thing : public eoObject, public eoPersistent {
    std::string name; std::vector<double> v; int reads = 0;
    Thing(std::string n) : name(n) {}
    std::string className() const { return name; }
    void printOn(std::ostream& o) const { o << v.size() << "\n"; for (double x : v) o << x << (((int)x) % 2 ? "\n" : " "); }
    void readFrom(std::istream& i) { size_t n = 0; i >> n; v.resize(n); for (auto& x : v) i >> x; ++reads; }
};
struct Nameless : public eoPersistent { int k = 0; void printOn(std::ostream& o) const { o << k; } void readFrom(std::istream& i) { i >> k; } };
struct World {
    eoPop<Real> pop; eoPop<Bit> bits; eoRng rng; eoGenContinue<Real> gen; std::vector<std::unique_ptr<Thing>> things; Nameless nl;
    World(Rand& r, unsigned n) : rng((uint32_t)r.below(1000000)), gen(5) { for (unsigned i = 0; i < n; ++i) things.emplace_back(new Thing(i % 3 == 2 ? std::string("Thing") : cat("Object ", i))); }
    void reg(eoState& s) { s.registerObject(rng); s.registerObject(pop); for (auto& t : things) s.registerObject(*t); s.registerObject(gen); s.registerObject(nl); s.registerObject(bits); }
    void randomize(Rand& r) {
        pop.resize(r.below(6)); for (auto& e : pop) randomInd(e, r, 6);
        bits.resize(r.below(6)); for (auto& e : bits) randomInd(e, r, 6);
        for (unsigned i = 0; i < r.below(2000); ++i) rng.rand();
        for (unsigned i = 0; i < r.below(4); ++i) rng.normal();
        gen.thisGeneration = r.below(1000); nl.k = (int)r.range(-50, 50);
        for (auto& t : things) { t->v.resize(r.below(9)); for (auto& x : t->v) x = (double)r.range(-99, 99); }
    }
};
static void compare(World& a, World& b, const char* what) {
    event("restored");
    CHECK(a.pop.size() == b.pop.size() && a.bits.size() == b.bits.size(), "state-differs", what, ": population sizes ", b.pop.size(), ",", b.bits.size(), " instead of ", a.pop.size(), ",", a.bits.size());
    for (size_t i = 0; i < a.pop.size() && i < b.pop.size(); ++i) if (!same(a.pop[i], b.pop[i], 6, what)) break;
    for (size_t i = 0; i < a.bits.size() && i < b.bits.size(); ++i) if (!same(a.bits[i], b.bits[i], 6, what)) break;
    for (size_t i = 0; i < a.things.size(); ++i) CHECK(a.things[i]->v == b.things[i]->v, "state-differs", what, ": object ", i, " of ", a.things.size(), " holds ", show(b.things[i]->v), " instead of ", show(a.things[i]->v));
    CHECK(a.gen.thisGeneration == b.gen.thisGeneration && a.nl.k == b.nl.k, "state-differs", what, ": counters");
std::ostringstream x, y; a.rng.printOn(x); b.rng.printOn(y); CHECK(x.str() == y.str(), "state-differs", what, ": random generator");
}
// a generator read back goes on exactly as the one that was written
UNIT(generators, 600, 6000, "continued") {
    eoRng a((uint32_t)r.below(1u << 30)), b((uint32_t)r.below(1u << 30));
    if (idx % 3) a.normal();
    for (size_t n = idx % 2 ? 620 + r.below(8) : r.below(2000); n > 0; --n) a.rand();
    for (size_t n = r.below(3); n > 0; --n) b.normal();
    std::stringstream s;
    if (r.flip()) s.precision((int)r.range(1, 8));
    s << a; s >> b;
    for (int i = 0; i < 700; ++i) {
        bool normal = i < 2 || r.flip(0.2);
        double x = normal ? a.normal() : a.rand(), y = normal ? b.normal() : b.rand();
        if (x != y) { fail("generator-differs", cat("draw ", i, " of a generator read back is ", y, " instead of ", x)); break; }
    }
    event("continued"); state(a.rand());
}
UNIT(states, 500, 6000, "restored") {
    unsigned n = (unsigned)r.below(6);
    World a(r, n), b(r, n), c(r, n), d(r, n); a.randomize(r); b.randomize(r); c.randomize(r); d.randomize(r);
    std::string name = r.flip() ? "" : "state of the run";
    eoState sa(name), sb, sc(name), sd; a.reg(sa); b.reg(sb); c.reg(sc); d.reg(sd);
    if (r.flip(0.2)) sa.formatLatex(name);
    std::string file = cat(scratch(), "/s", idx); sa.save(file); sb.load(file); std::remove(file.c_str()); compare(a, b, "file");
    std::stringstream s; sa.save(s); std::string t = s.str();
    { std::istringstream is(t); sc.load(is); compare(a, c, "stream"); }
    // the sections in another order, with comments and sections nobody knows
    std::vector<std::string> sec; size_t at = t.find("\\section{"), nx;
    while (at != std::string::npos) { nx = t.find("\\section{", at + 1); sec.push_back(t.substr(at, nx == std::string::npos ? nx : nx - at)); at = nx; }
    CHECK(sec.size() == n + 5, "state-differs", sec.size(), " sections written instead of ", n + 5);
    if (r.flip()) sec.push_back("\\section{unknown}\n3 4 5\n6\n");
    if (r.flip()) sec.push_back("\\section{not here}\n");
    for (auto& x : sec) if (r.flip(0.3)) { size_t e = x.find('\n', x.find('\n') + 1); if (e != std::string::npos) x.insert(e, "  # a remark 12 13"); }
    r.shuffle(sec); std::string u = r.flip() ? "" : "# written by hand\n\n"; for (auto& x : sec) u += x;
    { std::istringstream is(u); sd.load(is); compare(a, d, "reordered"); }
    { bool thrown = false; try { sb.load(cat(scratch(), "/none")); } catch (eoException&) { thrown = true; } CHECK(thrown, "no-error", "loading a file that does not exist"); }
    for (auto& th : b.things) CHECK(th->reads == 1, "state-differs", "object read ", th->reads, " times");
    state(hstr(t.c_str()));
}
