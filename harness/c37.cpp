// C37: forges build what was declared, foundries assemble and run the encoded algorithm.
#include "eoh.h"
#include <eoForge.h>
#include <eoAlgoFoundry.h>
#include <eoAlgoFoundryEA.h>
#include <eoAlgoFoundryFastGA.h>
#include <eoEvalFoundryEA.h>
#include <eoEvalCounterThrowException.h>
#include <eoFastGA.h>
#include <memory>

using namespace mon;
using namespace eoh;

namespace {
// --- forges -----------------------------------------------------------------
long alive, born;
struct Tool {
    int kind; long serial;
    Tool(int k) : kind(k), serial(++born) { ++alive; }
    Tool(const Tool& t) : kind(t.kind), serial(++born) { ++alive; }
    virtual ~Tool() { --alive; }
    virtual std::string read() const = 0;
    virtual void write() {}
};
struct Bare : Tool { std::string s; Bare() : Tool(0), s("bare") {} std::string read() const { return s; } };
struct Named : Tool { std::string s; Named(std::string n) : Tool(1), s(n) {} std::string read() const { return cat("named ", s); } };
struct Mixed : Tool {
    int i; double d; std::vector<int> v;
    Mixed(int a, double b, std::vector<int> c) : Tool(2), i(a), d(b), v(c) {}
    std::string read() const { return cat("mixed ", i, " ", d, " ", show(v)); }
};
// holds a reference to a shared object
struct Linked : Tool {
    std::string& target; int k;
    Linked(std::string& t, int n) : Tool(3), target(t), k(n) {}
    std::string read() const { return cat("linked ", target, " ", k); }
    void write() { target += "."; }
};
// refers to one of its own members, as the library's compound operators do
struct Compound : Tool {
    double part; const double& alias;
    Compound(double p) : Tool(4), part(p), alias(part) {}
    std::string read() const { return cat("compound ", alias); }
};
struct Decl { int kind; std::string s; int i; double d; std::vector<int> v; std::string* link; };
Decl declare(Rand& r, std::string* a, std::string* b) {
    Decl x{(int)r.below(5), "", (int)r.range(-9, 9), r.real(-3, 3), {}, r.flip() ? a : b};
    for (long i = r.size(0, 40); i > 0; --i) x.s += (char)('a' + r.below(26));
    for (long i = r.size(0, 20); i > 0; --i) x.v.push_back((int)r.range(0, 99));
    return x;
}
std::string expected(const Decl& x) {
    switch (x.kind) {
    case 0: return "bare";
    case 1: return cat("named ", x.s);
    case 2: return cat("mixed ", x.i, " ", x.d, " ", show(x.v));
    case 3: return cat("linked ", *x.link, " ", x.i);
    default: return cat("compound ", x.d);
    }
}
template <class C, class K> void setupSlot(C& c, const Decl& x, K key) {
    switch (x.kind) {
    case 0: c.template setup<Bare>(key); break;
    case 1: c.template setup<Named>(key, x.s); break;
    case 2: c.template setup<Mixed>(key, x.i, x.d, x.v); break;
    case 3: c.template setup<Linked>(key, std::ref(*x.link), x.i); break;
    default: c.template setup<Compound>(key, x.d);
    }
}
template <class C> void addSlot(C& c, const Decl& x, std::string key) {
    switch (x.kind) {
    case 0: c.template add<Bare>(key); break;
    case 1: c.template add<Named>(key, x.s); break;
    case 2: c.template add<Mixed>(key, x.i, x.d, x.v); break;
    case 3: c.template add<Linked>(key, std::ref(*x.link), x.i); break;
    default: c.template add<Compound>(key, x.d);
    }
}
template <class C> void append(C& c, const Decl& x) {
    switch (x.kind) {
    case 0: c.template add<Bare>(); break;
    case 1: c.template add<Named>(x.s); break;
    case 2: c.template add<Mixed>(x.i, x.d, x.v); break;
    case 3: c.template add<Linked>(std::ref(*x.link), x.i); break;
    default: c.template add<Compound>(x.d);
    }
}
void scribble() { volatile char junk[512]; for (int i = 0; i < 512; ++i) junk[i] = (char)0xA5; }

void readBack(Tool& t, const Decl& x, const std::string& what, std::string& a, std::string& b) {
    scribble();
    CHECK(t.kind == x.kind, "forge-type", what, " gives a component of kind ", t.kind, " instead of ", x.kind);
    std::string got = t.read(), want = expected(x);
    CHECK(got == want, "forge-arguments", what, " gives \"", got, "\" instead of \"", want, "\"");
    if (x.kind == 3) {
        std::string before = *x.link;
        t.write();
        CHECK(*x.link == before + ".", "forge-reference", what, " is not linked to the object passed by reference");
    }
    (void)a; (void)b;
    event("forged"); state(hstr(got));
}

UNIT(vector_forge, 1600, 24000, "forged,cached,fresh,redefined") {
    alive = 0;
    std::string a = "A", b = "B";
    {
        bool fresh = r.flip(), foundry = r.flip();
        eoForgeVector<Tool> plain(fresh);
        eoOperatorFoundry<Tool> found(idx % 11, fresh);
        eoForgeVector<Tool>& f = foundry ? found : plain;
        CHECK(found.index() == idx % 11, "slot-index", "a foundry slot created with index ", idx % 11, " says ", found.index());
        std::vector<Decl> ref;
        std::map<size_t, long> last; // serial of the cached instance
        std::map<size_t, std::shared_ptr<Tool>> kept;
        long newest = born;
        for (long n = r.size(1, 30); n > 0; --n) { ref.push_back(declare(r, &a, &b)); append(f, ref.back()); }
        CHECK(f.size() == ref.size(), "forge-size", f.size(), " slots after declaring ", ref.size());
        CHECK(alive == 0, "forge-eager", alive, " components were built before being asked for");
        for (long n = r.range(3, 40); n > 0; --n) {
            size_t i = r.below(ref.size());
            switch (r.below(6)) {
            case 0: {
                ref[i] = declare(r, &a, &b);
                setupSlot(f, ref[i], i);
                last.erase(i); kept.erase(i);
                event("redefined");
                break;
            }
            case 1: ref.push_back(declare(r, &a, &b)); append(f, ref.back()); break;
            case 2: {
                auto p = r.flip() ? f.instantiate_ptr(i) : f.instantiate_ptr_from((double)i);
                CHECK(p != nullptr, "forge-null", "slot ", i, " of kind ", ref[i].kind, " gives a null pointer");
                if (!p) return;
                readBack(*p, ref[i], cat("shared slot ", i), a, b);
                // also when the previous one has been let go in the meantime
                if (fresh) CHECK(p->serial > newest, "forge-stale", "a slot without cache gives a component built for an earlier request");
                newest = born;
                if (r.flip(0.3)) { kept.erase(i); break; }
                if (kept.count(i)) {
                    if (fresh) { CHECK(p != kept[i], "forge-stale", "a slot without cache gives the same shared component twice"); event("fresh"); }
                    else { CHECK(p == kept[i], "forge-cache", "a slot with cache gives another shared component"); event("cached"); }
                    readBack(*kept[i], ref[i], cat("component kept from slot ", i), a, b);
                }
                kept[i] = p;
                break;
            }
            default: {
                Tool& t = r.flip() ? f.instantiate(i) : f.instantiate_from((double)i);
                readBack(t, ref[i], cat("slot ", i), a, b);
                if (last.count(i)) {
                    if (fresh) { CHECK(t.serial != last[i], "forge-stale", "a slot without cache gives the same component twice"); event("fresh"); }
                    else { CHECK(t.serial == last[i], "forge-cache", "a slot with cache gives another component"); event("cached"); }
                }
                last[i] = t.serial;
            }
            }
        }
        for (size_t i = 0; i < ref.size(); ++i) readBack(f.instantiate(i), ref[i], cat("slot ", i, " at the end"), a, b);
        bool thrown = false;
        try { f.instantiate(ref.size() + r.below(3)); } catch (std::out_of_range&) { thrown = true; }
        CHECK(thrown, "forge-range", "a slot that does not exist was instantiated");
    }
    CHECK(alive == 0, "forge-leak", alive, " components survive their forge");
}
UNIT(map_forge, 1200, 16000, "forged,redefined") {
    alive = 0;
    std::string a = "A", b = "B";
    {
        bool fresh = r.flip();
        eoForgeMap<Tool> f(fresh);
        std::map<std::string, Decl> ref;
        std::map<std::string, long> last;
        std::vector<std::string> names;
        for (long n = r.size(1, 20); n > 0; --n) {
            std::string k = cat("slot", n, r.flip() ? "é x" : "");
            ref[k] = declare(r, &a, &b); names.push_back(k);
            addSlot(f, ref[k], k);
        }
        for (long n = r.range(3, 30); n > 0; --n) {
            std::string k = r.pick(names);
            if (r.below(4) == 0) {
                ref[k] = declare(r, &a, &b);
                setupSlot(f, ref[k], k);
                last.erase(k);
                event("redefined");
                continue;
            }
            Tool& t = f.instantiate(k);
            readBack(t, ref[k], cat("slot ", k), a, b);
            if (last.count(k)) {
                if (fresh) CHECK(t.serial != last[k], "forge-stale", "a named slot without cache gives the same component twice");
                else CHECK(t.serial == last[k], "forge-cache", "a named slot with cache gives another component");
            }
            last[k] = t.serial;
        }
        CHECK(f.size() == ref.size(), "forge-size", f.size(), " named slots for ", ref.size(), " names");
        bool thrown = false;
        try { f.instantiate("nowhere"); } catch (std::out_of_range&) { thrown = true; }
        CHECK(thrown, "forge-range", "a name that does not exist was instantiated");
    }
    CHECK(alive == 0, "forge-leak", alive, " components survive their forge");
}
UNIT(scalar_forge, 1200, 12000, "scalar") {
    if (r.flip()) {
        double lo = r.real(-10, 10), hi = lo + (r.below(4) ? r.real(0, 20) : 0);
        eoParameterFoundry<double> f(idx % 7, lo, hi);
        CHECK(f.index() == idx % 7, "slot-index", "a parameter slot created with index ", idx % 7, " says ", f.index());
        for (int k = 0; k < 8; ++k) {
            double v = k == 0 ? lo : k == 1 ? hi : lo + (hi - lo) * r.u01();
            if (v > hi) v = hi;
            CHECK(f.instantiate(v) == v, "scalar-value", "parameter ", v, " in [", lo, ",", hi, "] is given as ", f.instantiate(v));
        }
        CHECK(f.min() == lo && f.max() == hi, "scalar-range", "range of a parameter changed");
        double l2 = hi - r.real(0, 5);
        if (r.flip()) { f.min(l2); f.max(hi + 1); } else f.setup(l2, hi + 1);
        CHECK(f.min() == l2 && f.max() == hi + 1, "scalar-range", "range of a parameter set to [", l2, ",", hi + 1, "] is [", f.min(), ",", f.max(), "]");
    } else {
        size_t lo = r.below(100), hi = lo + r.below(1000);
        eoForgeScalar<size_t> f(lo, hi);
        for (int k = 0; k < 8; ++k) {
            size_t v = lo + r.below(hi - lo + 1);
            CHECK(f.instantiate((double)v) == v, "scalar-value", "integer parameter ", v, " is given as ", f.instantiate((double)v));
        }
    }
    event("scalar"); state(r.next());
}

// --- functor store -----------------------------------------------------------
struct Stored : public eoFunctorBase {
    std::vector<int>* log; int id; int* ref;
    Stored(std::vector<int>* l, int i, int& x) : log(l), id(i), ref(&x) {}
    Stored(const Stored& s) : log(s.log), id(-1), ref(s.ref) {}
    ~Stored() { log->push_back(id); }
};
UNIT(store, 800, 8000, "stored") {
    std::vector<int> log; int target = 0; long n = r.size(0, 400);
    {
        eoFunctorStore s;
        std::vector<Stored*> got;
        for (int i = 0; i < n; ++i) {
            Stored& x = r.flip() ? s.pack<Stored>(&log, i, target) : s.storeFunctor(new Stored(&log, i, target));
            got.push_back(&x);
            CHECK(x.id == i && x.ref == &target, "store-arguments", "a component packed in a store lost its arguments");
        }
        for (int i = 0; i < n; ++i) CHECK(got[i]->id == i, "store-moved", "a stored component changed");
        CHECK(log.empty(), "store-early", "a store deleted ", log.size(), " components while in use");
    }
    std::set<int> u(log.begin(), log.end());
    CHECK((long)log.size() == n && (long)u.size() == n && !u.count(-1), "store-release", "a store of ", n, " components released ", log.size(), " (", u.size(), " different)");
    event("stored"); state(mix(n, r.next()));
}

// --- the fast genetic algorithm, observed through its components ---------------
typedef Ind<double> I;
struct Trace {
    struct Ev { char what; std::vector<int> in; int out; };
    std::vector<Ev> ev;
    int nextId = 0;
    void add(char w, std::vector<int> in = {}, int out = 0) { ev.push_back({w, in, out}); }
};
struct Sel : public eoSelectOne<I> {
    Trace& t; char c; Rand& r; std::vector<int> ready; bool set = false;
    Sel(Trace& t, char c, Rand& r) : t(t), c(c), r(r) {}
    void setup(const eoPop<I>& p) { ready = idseq(p); set = true; }
    const I& operator()(const eoPop<I>& p) {
        CHECK(set && ready == idseq(p), "fastga-setup", "a selection is made in a population it was not prepared for");
        const I& x = p[r.below(p.size())];
        t.add(c, idseq(p), x.id);
        return x;
    }
};
struct Cross : public eoQuadOp<I> {
    Trace& t; Rand& r;
    Cross(Trace& t, Rand& r) : t(t), r(r) {}
    std::string className() const { return "Cross"; }
    bool operator()(I& a, I& b) {
        std::vector<int> in{a.id, b.id};
        CHECK(!a.invalid() && !b.invalid(), "fastga-parent", "crossover receives an individual without fitness");
        bool change = r.below(5) != 0;
        if (change) { a.id = t.nextId++; b.id = t.nextId++; }
        in.push_back(a.id); in.push_back(b.id);
        t.add('X', in, change);
        return change;
    }
};
struct Mut : public eoMonOp<I> {
    Trace& t; Rand& r;
    Mut(Trace& t, Rand& r) : t(t), r(r) {}
    std::string className() const { return "Mut"; }
    bool operator()(I& a) {
        std::vector<int> in{a.id};
        bool change = r.below(5) != 0;
        if (change) a.id = t.nextId++;
        in.push_back(a.id);
        t.add('M', in, change);
        return change;
    }
};
double score(int id) { return (double)(mix((u64)id) % 1000); }
struct Eval : public eoPopEvalFunc<I> {
    Trace& t; bool fails = false;
    Eval(Trace& t) : t(t) {}
    void operator()(eoPop<I>&, eoPop<I>& o) {
        std::vector<int> in;
        for (auto& x : o) {
            in.push_back(x.id);
            if (x.invalid()) x.fitness(score(x.id));
            else CHECK(x.fitness() == score(x.id), "fastga-stale", "individual #", x.id, " comes to evaluation with the fitness of another");
        }
        t.add('E', in);
    }
};
struct Rep : public eoReplacement<I> {
    Trace& t; Rand& r;
    Rep(Trace& t, Rand& r) : t(t), r(r) {}
    void operator()(eoPop<I>& p, eoPop<I>& o) {
        std::vector<int> in;
        for (auto& x : o) {
            in.push_back(x.id);
            CHECK(!x.invalid() && x.fitness() == score(x.id), "fastga-unevaluated", "offspring #", x.id, " comes to replacement without its own fitness");
        }
        t.add('R', in, (int)p.size());
        for (auto& x : o) if (p.size() && r.flip()) p[r.below(p.size())] = x;
    }
};
struct Cont : public eoContinue<I> {
    Trace& t; int left;
    Cont(Trace& t, int n) : t(t), left(n) {}
    bool operator()(const eoPop<I>&) { t.add('C'); return --left > 0; }
};
UNIT(fast_ga, 1200, 16000, "fastga_generation,fastga_crossed,fastga_mutated,fastga_alone") {
    eo::rng.reseed((uint32_t)r.next());
    Trace t;
    double pc, pm;
    switch (r.below(4)) { case 0: pc = 0; break; case 1: pc = 1; break; default: pc = r.real(0.1, 0.9); }
    switch (r.below(4)) { case 0: pm = 0; break; case 1: pm = 1; break; default: pm = r.real(0.1, 0.9); }
    Sel sc(t, 'a', r), sa(t, 'b', r), sm(t, 'c', r);
    Cross x(t, r); Mut m(t, r); Eval e(t); Rep rep(t, r);
    int gens = (int)r.range(1, 6);
    Cont c(t, gens);
    double asked = r.below(3) == 0 ? 0 : (double)r.size(1, 300);
    eoFastGA<I> algo(pc, sc, x, sa, pm, sm, m, e, rep, c, asked);
    long made = 0, crossed = 0, crossmut = 0;
    for (int run = (int)r.range(1, 3); run > 0; --run) {
        eoPop<I> pop;
        for (long n = r.size(1, 60); n > 0; --n) { int id = t.nextId++; pop.push_back(I(id, score(id))); }
        size_t want = asked ? (size_t)asked : pop.size(), size0 = pop.size();
        t.ev.clear(); c.left = gens;
        algo(pop);
        CHECK(pop.size() == size0, "fastga-size", "population of ", size0, " has now ", pop.size());
        // read the trace back
        size_t k = 0; int g = 0; bool ok = true;
        auto at = [&](char w) { return k < t.ev.size() && t.ev[k].what == w; };
#define NEED(cond, key, ...) if (!(cond)) { CHECK(false, key, __VA_ARGS__); ok = false; break; }
        while (ok && k < t.ev.size()) {
            std::vector<int> brood; std::vector<int> parents;
            while (ok && k < t.ev.size() && (at('a') || at('c'))) {
                if (parents.empty()) parents = t.ev[k].in;
                NEED(t.ev[k].in == parents, "fastga-pool", "parents are not selected in the population of the generation");
                int child;
                if (at('a')) {
                    int p1 = t.ev[k].out; ++k;
                    NEED(at('a') && t.ev[k].in == parents, "fastga-crossover", "crossover without a second parent selected in the population");
                    int p2 = t.ev[k].out; ++k;
                    NEED(at('X') && t.ev[k].in[0] == p1 && t.ev[k].in[1] == p2, "fastga-crossover", "the two selected parents are not crossed");
                    std::vector<int> kids{t.ev[k].in[2], t.ev[k].in[3]}; ++k;
                    NEED(at('E') && t.ev[k].in == kids, "fastga-crossover", "the two children are not evaluated");
                    ++k;
                    NEED(at('b') && t.ev[k].in == kids, "fastga-aftercross", "the survivor of a crossover is not selected among its two children");
                    child = t.ev[k].out; ++k;
                    ++crossed;
                    event("fastga_crossed");
                    if (at('M') && t.ev[k].in[0] == child) { child = t.ev[k].in[1]; ++k; ++crossmut; event("fastga_mutated"); }
                } else {
                    child = t.ev[k].out; ++k;
                    NEED(at('M') && t.ev[k].in[0] == child, "fastga-alone", "an individual selected for mutation is not mutated");
                    child = t.ev[k].in[1]; ++k;
                    event("fastga_alone");
                }
                brood.push_back(child); ++made;
            }
            if (!ok) break;
            NEED(brood.size() == want, "fastga-offspring", brood.size(), " offspring made instead of ", want, " (population ", size0, ", asked ", asked, ")");
            NEED(at('E'), "fastga-evaluate", "offspring are not evaluated");
            std::vector<int> ev = t.ev[k].in; ++k;
            NEED(at('R'), "fastga-replace", "no replacement after the evaluation of the offspring");
            std::vector<int> in = t.ev[k].in;
            std::sort(in.begin(), in.end()); std::sort(brood.begin(), brood.end()); std::sort(ev.begin(), ev.end());
            NEED(in == brood && ev == brood, "fastga-brood", "offspring evaluated or replaced are not those made");
            NEED(t.ev[k].out == (int)size0, "fastga-replace", "replacement is given a population of ", t.ev[k].out);
            ++k;
            NEED(at('C'), "fastga-continue", "the continuator is not asked after a replacement");
            ++k; ++g;
            event("fastga_generation");
        }
#undef NEED
        if (ok) CHECK(g == gens, "fastga-generations", g, " generations instead of ", gens);
        state(mix(t.ev.size(), mix(made, crossed)));
    }
    CHECK(!deviates(crossed, made, pc), "fastga-crossover-rate", crossed, " crossovers for ", made, " offspring at rate ", pc);
    CHECK(!deviates(crossmut, crossed, pm), "fastga-mutation-rate", crossmut, " mutations after ", crossed, " crossovers at rate ", pm);
}

// --- foundries: the assembled run equals the run of the same parts put together by hand ---
typedef eoBit<double> B;
// fitness must be a function of the genotype
struct Score : public eoEvalFunc<B> {
    long n = 0; u64 salt;
    Score(u64 s) : salt(s) {}
    static double of(const B& b, u64 salt) { double s = 0; for (size_t i = 0; i < b.size(); ++i) if (b[i]) s += 1 + (double)(mix(salt, i) % 4); return s; }
    void operator()(B& b) { ++n; b.fitness(of(b, salt)); }
};
std::string showBits(const eoPop<B>& p) { std::ostringstream o; for (auto& b : p) { o << (b.invalid() ? -1. : (double)b.fitness()) << ":"; for (bool x : b) o << x; o << " "; } return o.str().substr(0, 300); }
bool same(const eoPop<B>& a, const eoPop<B>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (a[i].invalid() != b[i].invalid() || (const std::vector<bool>&)a[i] != (const std::vector<bool>&)b[i] || (!a[i].invalid() && a[i].fitness() != b[i].fitness())) return false;
    return true;
}
typedef std::function<std::shared_ptr<eoQuadOp<B>>()> MkX;
struct Parts {
    std::vector<std::function<std::shared_ptr<eoContinue<B>>()>> conts;
    std::vector<std::function<std::shared_ptr<eoQuadOp<B>>()>> crosses;
    std::vector<std::function<std::shared_ptr<eoMonOp<B>>()>> muts;
    std::vector<std::function<std::shared_ptr<eoReplacement<B>>()>> reps;
};
template <class F> void fillConts(F& f, Parts& p, Rand& r, int n) {
    for (int i = 0; i < n; ++i) {
        unsigned a = (unsigned)r.range(1, 6), b = (unsigned)r.range(1, 4); double d = r.real(1, 40);
        switch (r.below(3)) {
        case 0: f.template add<eoGenContinue<B>>(a); p.conts.push_back([=] { return std::make_shared<eoGenContinue<B>>(a); }); break;
        case 1: f.template add<eoSteadyFitContinue<B>>(a, b); p.conts.push_back([=] { return std::make_shared<eoSteadyFitContinue<B>>(a, b); }); break;
        default: { (void)d; unsigned c = a + 1; f.template add<eoGenContinue<B>>(c); p.conts.push_back([=] { return std::make_shared<eoGenContinue<B>>(c); }); }
        }
    }
}
template <class F> void fillCrosses(F& f, Parts& p, Rand& r, int n) {
    for (int i = 0; i < n; ++i) {
        float u = (float)r.real(0.1, 0.9); unsigned k = (unsigned)r.range(1, 3);
        switch (r.below(3)) {
        case 0: f.template add<eo1PtBitXover<B>>(); p.crosses.push_back([=] { return std::make_shared<eo1PtBitXover<B>>(); }); break;
        case 1: f.template add<eoUBitXover<B>>(u); p.crosses.push_back([=] { return std::make_shared<eoUBitXover<B>>(u); }); break;
        default: f.template add<eoNPtsBitXover<B>>(k); p.crosses.push_back([=] { return std::make_shared<eoNPtsBitXover<B>>(k); });
        }
    }
}
template <class F> void fillMuts(F& f, Parts& p, Rand& r, int n) {
    for (int i = 0; i < n; ++i) {
        double u = r.real(0.02, 0.6); unsigned k = (unsigned)r.range(1, 4);
        switch (r.below(3)) {
        case 0: f.template add<eoBitMutation<B>>(u); p.muts.push_back([=] { return std::make_shared<eoBitMutation<B>>(u); }); break;
        case 1: f.template add<eoDetBitFlip<B>>(k); p.muts.push_back([=] { return std::make_shared<eoDetBitFlip<B>>(k); }); break;
        default: f.template add<eoOneBitFlip<B>>(); p.muts.push_back([=] { return std::make_shared<eoOneBitFlip<B>>(); });
        }
    }
}
typedef std::vector<std::function<std::shared_ptr<eoSelectOne<B>>()>> Sels;
template <class F> void fillSels(F& f, Sels& p, Rand& r, int n) {
    for (int i = 0; i < n; ++i) {
        double u = r.real(0.51, 0.99); unsigned k = (unsigned)r.range(2, 5);
        switch (r.below(4)) {
        case 0: f.template add<eoRandomSelect<B>>(); p.push_back([=] { return std::make_shared<eoRandomSelect<B>>(); }); break;
        case 1: f.template add<eoStochTournamentSelect<B>>(u); p.push_back([=] { return std::make_shared<eoStochTournamentSelect<B>>(u); }); break;
        case 2: f.template add<eoSequentialSelect<B>>(); p.push_back([=] { return std::make_shared<eoSequentialSelect<B>>(); }); break;
        default: f.template add<eoDetTournamentSelect<B>>(k); p.push_back([=] { return std::make_shared<eoDetTournamentSelect<B>>(k); });
        }
    }
}
template <class F> void fillReps(F& f, Parts& p, Rand& r, int n, bool smaller) {
    for (int i = 0; i < n; ++i) {
        double u = r.real(0.51, 0.99); unsigned k = (unsigned)r.range(2, 5);
        switch (r.below(smaller ? 3 : 4)) {
        case 0: f.template add<eoPlusReplacement<B>>(); p.reps.push_back([=] { return std::make_shared<eoPlusReplacement<B>>(); }); break;
        case 1: f.template add<eoSSGADetTournamentReplacement<B>>(k); p.reps.push_back([=] { return std::make_shared<eoSSGADetTournamentReplacement<B>>(k); }); break;
        case 2: f.template add<eoSSGAStochTournamentReplacement<B>>(u); p.reps.push_back([=] { return std::make_shared<eoSSGAStochTournamentReplacement<B>>(u); }); break;
        default: f.template add<eoCommaReplacement<B>>(); p.reps.push_back([=] { return std::make_shared<eoCommaReplacement<B>>(); });
        }
    }
}
eoPop<B> start(Rand& r, u64 salt, long n, long dim) {
    eoPop<B> p;
    for (; n > 0; --n) { B b(dim); for (long i = 0; i < dim; ++i) b[i] = r.flip(); b.fitness(Score::of(b, salt)); p.push_back(b); }
    return p;
}
struct Init : public eoInit<B> {
    Rand r; long dim; u64 salt; int made = 0;
    Init(u64 s, long d) : r(s), dim(d), salt(s) {}
    void operator()(B& b) { b = B(dim); for (long i = 0; i < dim; ++i) b[i] = r.flip(); b.invalidate(); ++made; }
};
void runEA(Parts& p, Sels& s, size_t c, size_t x, size_t m, size_t sl, size_t rp, size_t gens, eoPopEvalFunc<B>& eval, eoPop<B>& pop) {
    auto cont = p.conts[c](); auto cross = p.crosses[x](); auto mut = p.muts[m](); auto sel = s[sl](); auto rep = p.reps[rp]();
    eoSequentialOp<B> var; var.add(*cross, 1.0); var.add(*mut, 1.0);
    eoGeneralBreeder<B> breed(*sel, var, 1.0);
    eoGenContinue<B> common(gens); eoCombinedContinue<B> all(common); all.add(*cont);
    eoEasyEA<B> algo(all, eval, breed, *rep);
    algo(pop);
}
UNIT(foundry_ea, 600, 8000, "assembled") {
    Quiet q;
    u64 salt = r.next();
    Score sc(salt); eoPopLoopEval<B> eval(sc);
    size_t gens = (size_t)r.range(1, 8);
    eoAlgoFoundryEA<B> f(eval, gens);
    Parts p; Sels s;
    fillConts(f.continuators, p, r, (int)r.range(1, 4)); fillCrosses(f.crossovers, p, r, (int)r.range(1, 4));
    fillMuts(f.mutations, p, r, (int)r.range(1, 4)); fillSels(f.selectors, s, r, (int)r.range(1, 4));
    fillReps(f.replacements, p, r, (int)r.range(1, 4), false);
    CHECK(f.size() == 5, "foundry-size", "the foundry has ", f.size(), " slots");
    for (int k = (int)r.range(1, 4); k > 0; --k) {
        size_t c = r.below(p.conts.size()), x = r.below(p.crosses.size()), m = r.below(p.muts.size()), sl = r.below(s.size()), rp = r.below(p.reps.size());
        eoAlgoFoundry<B>::Encodings enc(5);
        enc[f.continuators.index()] = c; enc[f.crossovers.index()] = x; enc[f.mutations.index()] = m; enc[f.selectors.index()] = sl; enc[f.replacements.index()] = rp;
        f.select(enc);
        CHECK(f.encodings() == enc, "foundry-encoding", "the foundry does not hold the encoding it was given");
        CHECK(f.rank(f.mutations) == m && f.rank(f.selectors) == sl && f.rank(f.continuators) == c && f.rank(f.crossovers) == x && f.rank(f.replacements) == rp, "foundry-rank", "a slot of the foundry reads the rank of another");
        eoPop<B> a = start(r, salt, r.size(2, 20), r.range(5, 40)), b = a;
        uint32_t seed = (uint32_t)r.next();
        eo::rng.reseed(seed); f(a);
        eo::rng.reseed(seed); runEA(p, s, c, x, m, sl, rp, gens, eval, b);
        CHECK(same(a, b), "foundry-run", "foundry run of (", c, ",", x, ",", m, ",", sl, ",", rp, ") differs from the same algorithm built by hand: ", showBits(a), " / ", showBits(b));
        event("assembled"); state(mix(hstr(showBits(a)), seed));
    }
}
UNIT(foundry_fast, 600, 8000, "assembled,capped") {
    Quiet q;
    u64 salt = r.next();
    Score sc(salt), sc2(salt);
    long dim = r.range(5, 40);
    Init init(salt, dim);
    size_t cap = r.flip() ? (size_t)r.range(1, 60) : 100000;
    eoAlgoFoundryFastGA<B> f(init, sc, cap);
    Parts p; Sels s1, s2, s3;
    fillConts(f.continuators, p, r, (int)r.range(1, 4)); fillCrosses(f.crossovers, p, r, (int)r.range(1, 4));
    fillMuts(f.mutations, p, r, (int)r.range(1, 4)); fillReps(f.replacements, p, r, (int)r.range(1, 4), true);
    fillSels(f.crossover_selectors, s1, r, (int)r.range(1, 4)); fillSels(f.aftercross_selectors, s2, r, (int)r.range(1, 4)); fillSels(f.mutation_selectors, s3, r, (int)r.range(1, 4));
    for (int k = (int)r.range(1, 4); k > 0; --k) {
        size_t c = r.below(p.conts.size()), x = r.below(p.crosses.size()), m = r.below(p.muts.size()), rp = r.below(p.reps.size());
        size_t a1 = r.below(s1.size()), a2 = r.below(s2.size()), a3 = r.below(s3.size());
        double pc = r.flip() ? r.u01() : (double)r.below(2), pm = r.flip() ? r.u01() : (double)r.below(2);
        eoPop<B> a = start(r, salt, r.size(2, 20), dim), b = a;
        size_t off = r.flip() ? 0 : (size_t)r.range(1, (long)a.size());
        eoAlgoFoundry<B>::Encodings enc(10);
        enc[f.continuators.index()] = c; enc[f.crossovers.index()] = x; enc[f.mutations.index()] = m; enc[f.replacements.index()] = rp;
        enc[f.crossover_selectors.index()] = a1; enc[f.aftercross_selectors.index()] = a2; enc[f.mutation_selectors.index()] = a3;
        enc[f.crossover_rates.index()] = pc; enc[f.mutation_rates.index()] = pm; enc[f.offspring_sizes.index()] = off;
        f.select(enc);
        CHECK(f.value(f.crossover_rates) == pc && f.value(f.mutation_rates) == pm && f.len(f.offspring_sizes) == off, "foundry-rank", "a parameter slot reads the value of another");
        uint32_t seed = (uint32_t)r.next();
        sc.n = sc2.n = 0;
        eo::rng.reseed(seed); f(a);
        long used = sc.n;
        CHECK(used <= (long)cap, "foundry-cap", used, " evaluations although at most ", cap, " are allowed");
        bool stopped = false;
        {
            auto cont = p.conts[c](); auto cross = p.crosses[x](); auto mut = p.muts[m](); auto rep = p.reps[rp](); auto q1 = s1[a1](), q2 = s2[a2](), q3 = s3[a3]();
            eoEvalCounterThrowException<B> counted(sc2, cap); eoPopLoopEval<B> pe(counted);
            eoFastGA<B> algo(pc, *q1, *cross, *q2, pm, *q3, *mut, pe, *rep, *cont, (double)off);
            eo::rng.reseed(seed);
            try { algo(b); } catch (eoMaxEvalException&) { stopped = true; }
        }
        CHECK(same(a, b) && used == sc2.n, "foundry-run", "foundry run differs from the same algorithm built by hand (", used, " / ", sc2.n, " evaluations): ", showBits(a), " / ", showBits(b));
        for (auto& z : a) CHECK(!z.invalid(), "foundry-invalid", "an individual has no fitness after the run");
        event("assembled"); if (stopped) event("capped");
        state(mix(hstr(showBits(a)), seed));
    }
}
UNIT(eval_ea, 480, 6000, "configured,penalised") {
    Quiet q;
    typedef eoReal<double> Conf;
    u64 salt = r.next();
    long dim = r.range(5, 30);
    Score sc(salt); eoPopLoopEval<B> eval(sc);
    Init init(salt, dim), init2(salt, dim);
    size_t gens = (size_t)r.range(1, 6);
    eoAlgoFoundryEA<B> f(eval, gens);
    Parts p; Sels s;
    fillConts(f.continuators, p, r, (int)r.range(1, 4)); fillCrosses(f.crossovers, p, r, (int)r.range(1, 4));
    fillMuts(f.mutations, p, r, (int)r.range(1, 4)); fillSels(f.selectors, s, r, (int)r.range(1, 4));
    fillReps(f.replacements, p, r, (int)r.range(1, 4), false);
    double penalty = -1 - r.u01(); size_t psize = (size_t)r.range(2, 15);
    eoEvalFoundryEA<Conf, B> plain(f, init, psize, eval, penalty);
    std::unique_ptr<eoEvalFoundryEA<Conf, B>> made(&make_eoEvalFoundryEA<Conf, B>(init, eval, f, penalty, psize));
    eoEvalFoundryEA<Conf, B>& ev = r.flip() ? plain : *made;
    size_t sizes[5];
    sizes[f.continuators.index()] = p.conts.size(); sizes[f.crossovers.index()] = p.crosses.size(); sizes[f.mutations.index()] = p.muts.size();
    sizes[f.selectors.index()] = s.size(); sizes[f.replacements.index()] = p.reps.size();
    for (int k = 0; k < 6; ++k) {
        Conf z(5); size_t rank[5]; bool in = true;
        bool wild = k % 2;
        int bad = wild ? (int)r.below(5) : -1;
        for (int i = 0; i < 5; ++i) {
            rank[i] = r.below(sizes[i]);
            if (i == bad) rank[i] = sizes[i] + r.below(3);
            z[i] = (double)rank[i] - (r.flip() ? 0 : r.real(0, 0.99));
            if (rank[i] >= sizes[i]) in = false;
        }
        uint32_t seed = (uint32_t)r.next();
        eo::rng.reseed(seed);
        ev(z);
        CHECK(!z.invalid(), "config-invalid", "an encoded algorithm was evaluated but has no fitness");
        if (z.invalid()) continue;
        eoPop<B> pop;
        eo::rng.reseed(seed);
        pop.append((unsigned)psize, init2);
        eval(pop, pop);
        if (in) {
            runEA(p, s, rank[f.continuators.index()], rank[f.crossovers.index()], rank[f.mutations.index()], rank[f.selectors.index()], rank[f.replacements.index()], gens, eval, pop);
            double best = pop.best_element().fitness();
            CHECK((double)z.fitness() == best, "config-fitness", "encoded algorithm ", show(z), " gets ", (double)z.fitness(), " but its run reaches ", best);
            event("configured"); state(mix(seed, hdbl(best)));
        } else {
            CHECK((double)z.fitness() == penalty, "config-penalty", "encoding ", show(z), " out of range gets ", (double)z.fitness(), " instead of ", penalty);
            event("penalised");
        }
        // one that has its fitness is left alone
        long before = sc.n; Conf w = z; w.fitness(123.25);
        ev(w);
        CHECK((double)w.fitness() == 123.25 && sc.n == before, "config-again", "an encoded algorithm that has its fitness was evaluated again");
    }
}
} // namespace
