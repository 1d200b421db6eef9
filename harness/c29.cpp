// Island model: provenance of every migrant is logged at emission and at
// integration, each log written by one thread only, and judged once the model
// has returned.  Counters shared by the islands are relaxed atomics so that
// the monitor adds no synchronisation of its own.
#include "eoh.h"
#include <atomic>
#include <chrono>
#include <fstream>
#include <memory>
#include <thread>
#include <smp>
#include <topology/customBooleanTopology.h>
using namespace mon;
using namespace paradiseo::smp;

namespace {
const auto R = std::memory_order_relaxed;
template <class F> struct Native : public EO<F> {
    double x = 0;
    int home = -1;      // island that created it
    long serial = -1;   // its number there
    long batch = -1;    // emission it travelled with
    std::string className() const { return "Native"; }
};
typedef Native<double> Ind;
typedef Native<eoMinimizingFitness> Min; // lives on the heterogeneous islands
Min from(Ind& i) { Min m; m.x = i.x; m.home = i.home; m.serial = i.serial; m.batch = i.batch; return m; }
Ind to(Min& i) { Ind m; m.x = i.x; m.home = i.home; m.serial = i.serial; m.batch = i.batch; return m; }

struct Item { double x; int home; long serial; bool operator==(const Item& o) const { return x == o.x && home == o.home && serial == o.serial; } };
struct Batch { int sender; long id; int phase; std::vector<Item> items; };

struct World {
    std::atomic<long> expected{0}, delivered{0}, ids{0};
    std::atomic<int> emitting{0}, phase{0};
    std::vector<std::vector<unsigned>> edges;
    bool lossless = false;
    std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();
    std::atomic<bool> expired{false};
    int pace = 0;
};
void pause(int how, Rand& r) {
    switch (how) {
    case 0: break;
    case 1: std::this_thread::yield(); break;
    default: if (r.flip(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
    }
}
struct Log {
    std::vector<Batch> sent, got;
    long gens = 0, fired = 0, selects = 0, wrong_fitness = 0, mixed = 0, evals = 0, next = 0, first_valid = 0;
    bool stopped = false;
};

template <class E> struct Eval : public eoEvalFunc<E> {
    Log& log; double offset; bool lazy; // lazy: like many evaluators, leaves a valid fitness alone
    Eval(Log& l, double o, bool z) : log(l), offset(o), lazy(z) {}
    void operator()(E& e) { if (lazy && !e.invalid()) return; ++log.evals; e.fitness(e.x + offset); }
};
template <class E> struct All : public eoSelect<E> { void operator()(const eoPop<E>& s, eoPop<E>& d) { d.resize(s.size()); for (size_t i = 0; i < s.size(); ++i) d[i] = s[i]; } };
template <class E> struct Vary : public eoTransform<E> {
    Log& log; int me; Rand r; World& w;
    Vary(Log& l, int m, u64 s, World& ww) : log(l), me(m), r(s), w(ww) {}
    void operator()(eoPop<E>& p) {
        pause(w.pace, r);
        for (auto& e : p) if (r.flip()) { e.x = r.real(-100, 100); e.home = me; e.serial = log.next++; e.batch = -1; e.invalidate(); }
    }
};
template <class E> struct Integrate : public eoReplacement<E> {
    Log& log; World& w; double offset; eoPlusReplacement<E> plus;
    Integrate(Log& l, World& ww, double o) : log(l), w(ww), offset(o) {}
    void operator()(eoPop<E>& pop, eoPop<E>& off) {
        Batch b; b.id = off.empty() ? -1 : off[0].batch; b.sender = -1; b.phase = 0;
        for (auto& e : off) {
            if (e.batch != b.id) ++log.mixed;
            if (e.invalid() || (double)e.fitness() != e.x + offset) ++log.wrong_fitness;
            b.items.push_back({e.x, e.home, e.serial});
        }
        log.got.push_back(b);
        plus(pop, off);
        w.delivered.fetch_add(1, R);
    }
};
template <class E> struct Emit : public eoSelect<E> {
    Log& log; World& w; int me; Rand r; unsigned n;
    Emit(Log& l, World& ww, int m, u64 s, unsigned k) : log(l), w(ww), me(m), r(s), n(k) {}
    void operator()(const eoPop<E>& s, eoPop<E>& d) {
        ++log.selects;
        Batch b; b.sender = me; b.id = w.ids.fetch_add(1, R); b.phase = w.phase.load(R);
        d.clear();
        for (unsigned k = 0; k < n; ++k) { d.push_back(s[r.below(s.size())]); d.back().batch = b.id; b.items.push_back({d.back().x, d.back().home, d.back().serial}); }
        log.sent.push_back(b);
        w.expected.fetch_add((long)w.edges[me].size(), R);
    }
};
template <class E> struct When : public eoContinue<E> {
    eoPeriodicContinue<E> period; Log& log; long last;
    When(unsigned p, Log& l, long g) : period(p), log(l), last(g) {}
    bool operator()(const eoPop<E>& p) { bool go = period(p); if (log.gens >= last) return true; if (!go) ++log.fired; return go; }
};
template <class E> struct Stop : public eoContinue<E> {
    Log& log; World& w; long last; bool left = false;
    Stop(Log& l, World& ww, long g) : log(l), w(ww), last(g) {}
    bool operator()(const eoPop<E>&) {
        ++log.gens;
        if (log.gens < last) return true;
        if (!left) { left = true; w.emitting.fetch_sub(1, R); }
        if (!w.lossless) return false;
        if (w.emitting.load(R) > 0 || w.delivered.load(R) < w.expected.load(R)) {
            if (std::chrono::steady_clock::now() - w.start > std::chrono::seconds(20)) { w.expired.store(true, R); return false; }
            std::this_thread::sleep_for(std::chrono::microseconds(30));
            return true;
        }
        return false;
    }
};

// an island and all it is made of
struct Site {
    Log log;
    virtual ~Site() {}
    virtual AIsland<Ind>& island() = 0;
    virtual void judge(const std::vector<std::shared_ptr<Site>>& all, int me, size_t size) = 0;
    virtual void restart(long gens) = 0;
};
template <class E> struct SiteOf : public Site {
    World& w; int me; double offset;
    eoPop<E> pop; size_t size;
    Eval<E> eval; All<E> select; Vary<E> vary; eoPlusReplacement<E> replace; Integrate<E> integrate; Stop<E> stop;
    std::vector<std::shared_ptr<Emit<E>>> emit; std::vector<std::shared_ptr<When<E>>> when;
    MigPolicy<E> policy;
    std::unique_ptr<Island<eoEasyEA, E, Ind>> isle;
    SiteOf(World& ww, int m, Rand& r, long gens) : w(ww), me(m), offset(1000.0 * (m + 1)), size((size_t)r.size(1, 12)), eval(log, offset, r.flip()), vary(log, m, r.next(), ww), integrate(log, ww, offset), stop(log, ww, gens) {
        for (size_t i = 0; i < size; ++i) { E e; e.x = r.real(-100, 100); e.home = me; e.serial = log.next++; pop.push_back(e); }
        int elems = (int)r.below(3);
        for (int k = 0; k < elems; ++k) {
            emit.push_back(std::make_shared<Emit<E>>(log, ww, m, r.next(), (unsigned)r.range(1, 4)));
            when.push_back(std::make_shared<When<E>>((unsigned)r.range(1, 4), log, gens));
            policy.push_back(PolicyElement<E>(*emit.back(), *when.back()));
        }
        make();
    }
    void make();
    AIsland<Ind>& island() { return *isle; }
    void restart(long gens) { stop.last = log.gens + gens; stop.left = false; for (auto& x : when) x->last = stop.last; }
    void judge(const std::vector<std::shared_ptr<Site>>& all, int m, size_t) {
        CHECK(&isle->getPop() == &pop && pop.size() == size, "size", "island ", m, " ends with ", pop.size(), " individuals, it had ", size);
        CHECK(isle->isStopped(), "stopped", "the model returned while island ", m, " is not stopped");
        for (auto& e : pop) {
            CHECK(!e.invalid() && (double)e.fitness() == e.x + offset, "fitness", "island ", m, " holds an individual whose fitness is not the one of this island");
            bool known = e.home == m;
            if (!known) for (auto& b : log.got) for (auto& i : b.items) if (i == Item{e.x, e.home, e.serial}) known = true;
            CHECK(known, "provenance", "island ", m, " holds individual ", e.serial, " of island ", e.home, " that it never received");
            if (e.home != m) event("immigrant-kept");
        }
    }
};
template <> void SiteOf<Ind>::make() { isle.reset(new Island<eoEasyEA, Ind>(pop, integrate, policy, stop, eval, select, vary, replace)); }
template <> void SiteOf<Min>::make() { isle.reset(new Island<eoEasyEA, Min, Ind>(std::function<Min(Ind&)>(from), std::function<Ind(Min&)>(to), pop, integrate, policy, stop, eval, select, vary, replace)); }

// judges the migrations of one run; edges[phase] are the edges a batch of that phase may use
typedef std::vector<std::vector<unsigned>> Edges;
void judge(World& w, const std::vector<std::shared_ptr<Site>>& site, const std::vector<std::vector<Edges>>& allowed, const std::string& what) {
    std::map<long, const Batch*> sent;
    for (auto& s : site) for (auto& b : s->log.sent) sent[b.id] = &b;
    std::map<std::pair<long, int>, int> times;
    u64 h = 7;
    for (size_t d = 0; d < site.size(); ++d) {
        Log& l = site[d]->log;
        CHECK(!l.mixed, "mixed", what, ": migrants of several emissions were integrated together");
        CHECK(!l.wrong_fitness, "not-evaluated", what, ": ", l.wrong_fitness, " migrants were integrated without having been evaluated at their destination");
        CHECK(l.fired == l.selects, "emissions", what, ": island ", d, " emitted ", l.selects, " times, its criteria asked for ", l.fired);
        for (auto& b : l.got) {
            auto it = sent.find(b.id);
            CHECK(it != sent.end(), "invented", what, ": island ", d, " integrates migrants that nobody emitted");
            if (it == sent.end()) continue;
            const Batch& s = *it->second;
            CHECK(s.items == b.items, "altered", what, ": a migration of ", s.items.size(), " individuals arrives with ", b.items.size(), " or other ones");
            bool edge = false;
            for (auto& e : allowed[s.phase]) for (unsigned t : e[s.sender]) if (t == d) edge = true;
            CHECK(edge, "edge", what, ": migrants went from island ", s.sender, " to island ", d, ", which are not connected (phase ", s.phase, ")");
            int n = ++times[{b.id, (int)d}];
            CHECK(n == 1, "twice", what, ": an emission of island ", s.sender, " was integrated ", n, " times by island ", d);
            event("migration"); h = mix(h, mix((u64)s.sender, d));
        }
    }
    if (w.lossless) {
        CHECK(!w.expired, "lost", what, ": after 20 s ", w.delivered.load(), " of ", w.expected.load(), " migrations have arrived while all islands were running");
        for (auto& p : sent) for (unsigned d : w.edges[p.second->sender]) CHECK((times[{p.first, (int)d}] == 1), "lost", what, ": an emission of island ", p.second->sender, " did not reach its neighbour ", d);
    }
    for (size_t d = 0; d < site.size(); ++d) { site[d]->judge(site, (int)d, 0); h = mix(h, (u64)site[d]->log.got.size()); }
    state(h);
}
std::shared_ptr<AbstractTopology> topology(Rand& r, unsigned n, u64 idx) {
    bool pow2 = n && !(n & (n - 1));
    for (;;) switch (r.below(6)) {
        case 0: return std::make_shared<Topology<Complete>>();
        case 1: return std::make_shared<Topology<Ring>>();
        case 2: { auto t = std::make_shared<Topology<Star>>(); t->getBuilder().setCenter((unsigned)r.below(n)); return t; }
        case 3: if (pow2) return std::make_shared<Topology<Hypercubic>>(); break;
        case 4: return std::make_shared<Topology<Mesh>>();
        default: {
            std::string f = std::string(scratch()) + "/edges" + std::to_string(idx);
            { std::ofstream o(f); for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) o << (i != j && r.flip() ? 1 : 0) << ' '; o << '\n'; } }
            auto t = std::make_shared<CustomBooleanTopology>(f);
            ::remove(f.c_str());
            return t;
        }
    }
}
Edges edges(AbstractTopology& t, unsigned n) { t.construct(n); Edges e; for (unsigned i = 0; i < n; ++i) e.push_back(t.getIdNeighbors(i)); return e; }
std::vector<std::shared_ptr<Site>> sites(Rand& r, World& w, unsigned n, long gens) {
    std::vector<std::shared_ptr<Site>> s;
    for (unsigned i = 0; i < n; ++i) {
        if (r.flip(0.3)) { s.push_back(std::make_shared<SiteOf<Min>>(w, (int)i, r, gens)); event("heterogeneous"); } else s.push_back(std::make_shared<SiteOf<Ind>>(w, (int)i, r, gens));
    }
    return s;
}
}

UNIT_T(islands, 700, 5000, 90, "migration,immigrant-kept,heterogeneous,lossless,lossy,again,single") {
    unsigned n = (unsigned)r.range(1, 6);
    if (idx % 15 == 2) n = 1;
    World w;
    w.lossless = idx % 3 != 0;
    w.pace = (int)r.below(3);
    auto topo = topology(r, n, idx);
    w.edges = edges(*topo, n);
    long gens = r.range(1, w.lossless ? 12 : 25);
    auto s = sites(r, w, n, gens);
    IslandModel<Ind> model(*topo);
    for (auto& x : s) model.add(x->island());
    int runs = r.flip(0.3) ? 2 : 1;
    for (int k = 0; k < runs; ++k) {
        if (k) { for (auto& x : s) x->restart(gens); event("again"); }
        w.emitting = (int)n; w.start = std::chrono::steady_clock::now();
        model();
        CHECK(!model.isRunning(), "running", "the model has returned and says it is running");
        for (unsigned i = 0; i < n; ++i) CHECK(w.lossless ? s[i]->log.gens >= gens * (k + 1) : s[i]->log.gens == gens * (k + 1), "generations", "island ", i, " stopped after ", s[i]->log.gens, " generations, its criterion asks for ", gens * (k + 1));
    }
    judge(w, s, {{w.edges}}, cat(n, " islands"));
    event(w.lossless ? "lossless" : "lossy"); if (n == 1) event("single");
}

// an island joins between two runs
UNIT_T(joined, 120, 1000, 90, "migration,joined") {
    unsigned n = (unsigned)r.range(1, 4);
    World w;
    w.lossless = idx % 4 != 0;
    w.pace = (int)r.below(3);
    std::shared_ptr<AbstractTopology> topo;
    if (r.flip()) topo = std::make_shared<Topology<Complete>>(); else topo = std::make_shared<Topology<Ring>>();
    Edges before = edges(*topo, n), after = edges(*topo, n + 1);
    w.edges = before;
    long gens = r.range(1, 12);
    auto s = sites(r, w, n + 1, gens);
    IslandModel<Ind> model(*topo);
    for (unsigned i = 0; i < n; ++i) model.add(s[i]->island());
    w.emitting = (int)n; w.start = std::chrono::steady_clock::now();
    model();
    CHECK(!w.expired, "lost", "before an island joins ", w.delivered.load(), " of ", w.expected.load(), " migrations have arrived");
    std::vector<long> had;
    for (unsigned i = 0; i < n; ++i) { had.push_back(s[i]->log.gens); s[i]->restart(gens); }
    had.push_back(0);
    model.add(s[n]->island());
    w.phase.store(1); w.edges = after;
    long expected = w.expected.load(), delivered = w.delivered.load();
    w.expected.store(0); w.delivered.store(0);
    w.emitting = (int)n + 1; w.start = std::chrono::steady_clock::now();
    model();
    CHECK(!w.lossless || expected == delivered, "lost", "before an island joins ", delivered, " of ", expected, " migrations have arrived");
    CHECK(!w.expired, "lost", "after an island has joined ", w.delivered.load(), " of ", w.expected.load(), " migrations have arrived");
    for (unsigned i = 0; i <= n; ++i) CHECK(s[i]->log.gens >= had[i] + gens, "generations", "island ", i, " of ", n + 1, " ran ", s[i]->log.gens - had[i], " generations after one has joined");
    w.lossless = false; // which emission belongs to which run is known by its phase
    judge(w, s, {{before}, {after}}, "an island has joined");
    event("joined");
}

// the topology is replaced before and while the model runs
UNIT_T(other_topology, 200, 1500, 90, "migration,replaced-before,replaced-while-running") {
    unsigned n = (unsigned)r.range(2, 5);
    World w;
    w.pace = 2;
    auto a = topology(r, n, 2 * idx), b = topology(r, n, 2 * idx + 1);
    Edges ea = edges(*a, n), eb = edges(*b, n);
    w.edges = ea;
    bool live = idx % 2;
    auto s = sites(r, w, n, r.range(5, 40));
    IslandModel<Ind> model(*a);
    for (auto& x : s) model.add(x->island());
    w.emitting = (int)n;
    if (!live) {
        model.setTopology(*b);
        model();
        judge(w, s, {{eb}}, "topology replaced before the run");
        event("replaced-before");
    } else {
        std::thread t([&] { model(); });
        unsigned us = (unsigned)r.below(1500);
        std::this_thread::sleep_for(std::chrono::microseconds(us));
        model.setTopology(*b);
        w.phase.store(1);
        t.join();
        judge(w, s, {{ea, eb}, {eb}}, "topology replaced during the run");
        event("replaced-while-running");
    }
}

// islands stop together as soon as one has reached the shared target
namespace {
struct Reach : public eoTransform<Ind> {
    long at; long gen = 0; std::atomic<long>& total; Reach(long a, std::atomic<long>& t) : at(a), total(t) {}
    void operator()(eoPop<Ind>& p) { ++gen; total.fetch_add(1, R); std::this_thread::sleep_for(std::chrono::microseconds(20)); if (at && gen == at) for (auto& e : p) { e.x = 50; e.invalidate(); } }
};
struct Plain : public eoEvalFunc<Ind> { void operator()(Ind& e) { e.fitness(e.x); } };
}
UNIT_T(shared_target, 100, 1000, 60, "reached,sequential") {
    SharedFitContinue<Ind> c(40.0);
    eoPop<Ind> p;
    Ind e; e.fitness(1); p.push_back(e);
    int calls = (int)r.range(0, 6);
    for (int i = 0; i < calls; ++i) CHECK(c(p), "early", "the shared target stops call ", i, " though nobody reached it");
    p[0].fitness(r.flip() ? 40.0 : 60.0);
    CHECK(!c(p), "missed", "the shared target does not stop the population that reached it");
    p[0].fitness(1);
    CHECK(!c(p), "missed", "the shared target does not stop the other populations");
    event("sequential");
    SharedFitContinue<Ind> shared(40.0);
    unsigned n = (unsigned)r.range(2, 4);
    Topology<Ring> topo;
    IslandModel<Ind> model(topo);
    std::atomic<long> total{0};
    long at = r.range(1, 30);
    struct Isle { eoPop<Ind> pop; Plain eval; All<Ind> select; std::unique_ptr<Reach> reach; eoGenerationalReplacement<Ind> rep; eoPlusReplacement<Ind> plus; MigPolicy<Ind> none; std::unique_ptr<Island<eoEasyEA, Ind>> isle; };
    std::vector<Isle> isles(n);
    for (unsigned i = 0; i < n; ++i) {
        Isle& x = isles[i];
        for (int k = 0; k < 3; ++k) { Ind y; y.x = k; x.pop.push_back(y); }
        x.reach.reset(new Reach(i == 0 ? at : 0, total));
        x.isle.reset(new Island<eoEasyEA, Ind>(x.pop, x.plus, x.none, shared, x.eval, x.select, *x.reach, x.rep));
        model.add(*x.isle);
    }
    model();
    CHECK(isles[0].reach->gen == at, "early", "the island that reaches the target at generation ", at, " was stopped at ", isles[0].reach->gen);
    CHECK(isles[0].pop.best_element().fitness() == 50, "early", "the model stopped before the target was reached");
    event("reached");
    state(mix(at, total.load()));
}

// the wrapper builds the islands itself from shared, stateless components
namespace {
struct Fresh : public eoInit<Ind> { long n = 0; void operator()(Ind& e) { e.x = (double)(n % 17); e.home = 0; e.serial = n++; } };
struct Finish : public eoContinue<Ind> { std::atomic<long> calls{0}; long max; explicit Finish(long m) : max(m) {} bool operator()(const eoPop<Ind>&) { return calls.fetch_add(1, R) < max; } };
struct Nudge : public eoTransform<Ind> { void operator()(eoPop<Ind>& p) { for (auto& e : p) { e.x += 1; e.invalidate(); } } };
struct Often : public eoContinue<Ind> { std::atomic<long> calls{0}; bool operator()(const eoPop<Ind>&) { return calls.fetch_add(1, R) % 3 != 0; } };
struct Heads : public eoSelect<Ind> { void operator()(const eoPop<Ind>& s, eoPop<Ind>& d) { d.clear(); d.push_back(s[0]); } };
}
UNIT_T(wrapper, 40, 600, 60, "wrapped") {
    unsigned n = (unsigned)r.range(1, 5), size = (unsigned)r.range(1, 10);
    auto topo = topology(r, n, idx);
    Fresh init; Finish cont(r.range(0, 60)); Plain eval; All<Ind> select; Nudge nudge; eoPlusReplacement<Ind> rep, plus; Heads heads; Often often;
    MigPolicy<Ind> policy; policy.push_back(PolicyElement<Ind>(heads, often));
    std::vector<eoPop<Ind>> pops = IslandModelWrapper<eoEasyEA, Ind>(n, *topo, size, init, plus, policy, cont, eval, select, nudge, rep);
    CHECK(pops.size() == n, "islands", "the wrapper returns ", pops.size(), " populations for ", n, " islands");
    for (auto& p : pops) { CHECK(p.size() == size, "size", "a population has ", p.size(), " individuals instead of ", size); for (auto& e : p) CHECK(!e.invalid() && e.fitness() == e.x, "fitness", "an individual has no or a wrong fitness"); }
    event("wrapped"); state(mix(n, mix(size, (u64)cont.max)));
}

// batches that wait at an island are all integrated, in the order they came, by the generations that are left
namespace {
struct Post : public eoContinue<Ind> {
    long gens = 0, last, at; std::function<void()> post;
    Post(long l, long a) : last(l), at(a) {}
    bool operator()(const eoPop<Ind>&) { if (++gens == at) post(); return gens < last; }
};
struct Keep : public eoReplacement<Ind> {
    std::vector<std::vector<long>> got;
    void operator()(eoPop<Ind>&, eoPop<Ind>& off) { std::vector<long> v; for (auto& e : off) { CHECK(!e.invalid() && e.fitness() == e.x, "not-evaluated", "a waiting migrant is integrated without its fitness"); v.push_back(e.serial); } got.push_back(v); }
};
}
UNIT_T(waiting, 200, 2000, 60, "waiting,many-waiting") {
    long at = r.range(1, 4), last = at + r.range(2, 3), batches = idx % 4 == 1 ? r.range(20, 60) : r.range(1, 8);
    Plain eval; All<Ind> select; Nudge nudge; eoPlusReplacement<Ind> rep; Keep keep; Post stop(last, at); MigPolicy<Ind> none;
    eoPop<Ind> pop;
    for (int k = 0; k < 3; ++k) { Ind y; y.x = k; pop.push_back(y); }
    Island<eoEasyEA, Ind> isle(pop, keep, none, stop, eval, select, nudge, rep);
    std::vector<std::vector<long>> sent;
    long serial = 0;
    stop.post = [&] {
        for (long b = 0; b < batches; ++b) {
            eoPop<Ind> p; std::vector<long> v;
            for (int k = (int)r.range(1, 4); k; --k) { Ind y; y.x = r.real(-5, 5); y.serial = serial; v.push_back(serial++); y.fitness(-1e9); p.push_back(y); }
            sent.push_back(v);
            isle.update(p);
        }
    };
    isle();
    CHECK(stop.gens == last, "generations", "the island ran ", stop.gens, " generations instead of ", last);
    CHECK(keep.got.size() == sent.size(), "lost", batches, " batches waited at the island and it integrated ", keep.got.size(), " in the ", last - at, " generations left");
    CHECK((keep.got == sent) || (keep.got.size() != sent.size()), "altered", "the batches that waited are not those integrated");
    event("waiting"); if (batches >= 20) event("many-waiting");
    state(mix((u64)batches, mix(at, last)));
}
