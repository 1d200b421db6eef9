// Shared-memory scheduler and master-worker model: every individual is
// processed exactly once, before the call returns, never twice at a time, and
// the outcome is that of the sequential run.  The functor only uses relaxed
// atomics, so that it adds no synchronisation that would hide a race.
#include "eoh.h"
#include <atomic>
#include <chrono>
#include <memory>
#include <thread>
#include <smp>
using namespace mon;
using namespace paradiseo::smp;

namespace {
struct Task : public EO<double> {
    unsigned id = 0;
    long plain = 0;            // written by the functor without protection
    std::vector<int> payload;  // grows in the worker
    std::string className() const { return "Task"; }
};
void pause(int how, unsigned amount) {
    switch (how) {
    case 0: break;
    case 1: std::this_thread::yield(); break;
    case 2: { volatile unsigned x = 0; for (unsigned i = 0; i < amount * 50; ++i) x = x + i; break; }
    default: std::this_thread::sleep_for(std::chrono::microseconds(amount));
    }
}
struct Slot { std::atomic<int> in{0}, count{0}; std::atomic<unsigned> order{0}; };
// what the functor saw, judged after the call
struct Seen {
    std::vector<Slot> slot;
    std::atomic<int> overlap{0}, strangers{0}, late{0};
    std::atomic<unsigned> clock{0};
    std::atomic<bool> open{false};
    std::atomic<unsigned> busy{0}, top{0};
    explicit Seen(size_t n) : slot(n) {}
};
struct Work : public eoEvalFunc<Task> {
    Seen* s = nullptr;
    int how = 0;
    u64 salt = 0;
    static double value(unsigned id, u64 salt) { return (double)(mix(id, salt) % 1000003); }
    void operator()(Task& t) {
        const auto R = std::memory_order_relaxed;
        if (!s->open.load(R)) s->late.fetch_add(1, R);
        if (t.id >= s->slot.size()) { s->strangers.fetch_add(1, R); return; }
        Slot& k = s->slot[t.id];
        if (k.in.exchange(1, R)) s->overlap.fetch_add(1, R);
        unsigned now = s->busy.fetch_add(1, R) + 1, top = s->top.load(R);
        while (now > top && !s->top.compare_exchange_weak(top, now, R)) {}
        u64 h = mix(t.id, salt);
        if (how == 4) pause(t.id % 7 == 0 ? 3 : 0, 150); else if (how == 5) pause((int)(h % 4), (unsigned)((h >> 8) % 60)); else pause(how, (unsigned)(h % 40));
        t.plain += 1;
        t.payload.push_back((int)t.id);
        t.fitness(value(t.id, salt));
        k.order.store(s->clock.fetch_add(1, R), R);
        k.count.fetch_add(1, R);
        s->busy.fetch_sub(1, R);
        k.in.store(0, R);
    }
};
void fill(eoPop<Task>& pop, size_t n) { pop.clear(); for (size_t i = 0; i < n; ++i) { Task t; t.id = (unsigned)i; t.payload.reserve(1); pop.push_back(t); } }
// runs one call and judges it
template <class Call> void judge(Rand& r, eoPop<Task>& pop, Work& w, Call call, const std::string& what) {
    size_t n = pop.size();
    const Task* base = n ? &pop[0] : nullptr;
    std::vector<long> before; std::vector<size_t> len;
    for (auto& t : pop) { before.push_back(t.plain); len.push_back(t.payload.size()); }
    Seen s(n);
    w.s = &s; w.salt = r.next();
    s.open = true;
    call();
    s.open = false;
    unsigned total = 0;
    CHECK(pop.size() == n && (!n || &pop[0] == base), "moved", what, ": the population was changed or moved");
    for (size_t i = 0; i < n; ++i) {
        int c = s.slot[i].count.load();
        total += (unsigned)c;
        CHECK(c == 1, "exactly-once", what, ": individual ", i, " of ", n, " was processed ", c, " times when the call returned");
        CHECK(s.slot[i].in.load() == 0, "unfinished", what, ": individual ", i, " was still being processed when the call returned");
        CHECK(pop[i].plain == before[i] + 1 && pop[i].payload.size() == len[i] + 1 && !pop[i].invalid() && pop[i].fitness() == Work::value((unsigned)i, w.salt), "result", what, ": the result for individual ", i, " is not in the population");
    }
    CHECK(!s.overlap, "overlap", what, ": an individual was processed by two workers at a time");
    CHECK(!s.strangers, "stranger", what, ": something which is not in the population was processed");
    if (r.flip(0.05)) std::this_thread::sleep_for(std::chrono::microseconds(300));
    CHECK(!s.late && s.clock.load() == total, "late", what, ": work went on after the call returned");
    u64 h = n;
    for (size_t i = 0; i < n; ++i) h = mix(h, s.slot[i].order.load());
    state(h);
    event("applied", n);
    if (s.top > 1) event("overlapping-workers");
    if (!n) event("empty");
}
template <class P> void schedule(Rand& r, u64 idx, const char* name) {
    bool large = idx % 40 == 7;
    unsigned workers = r.flip(0.2) ? 1 : (unsigned)r.size(1, 12);
    if (idx % 25 == 3) { workers = (unsigned)r.range(17, 40); event("many-workers"); }
    Scheduler<Task, P> sched(workers);
    eoPop<Task> pop;
    Work w;
    int calls = large ? 1 : (int)r.range(1, 5);
    for (int c = 0; c < calls; ++c) {
        size_t n;
        switch (r.below(6)) { case 0: n = r.below(workers + 1); break; case 1: n = workers; break; case 2: n = workers * (size_t)r.range(1, 20); break; case 3: n = workers * (size_t)r.range(1, 9) + r.below(workers); break; case 4: n = 0; break; default: n = (size_t)r.size(1, 400); }
        if (large) { n = (size_t)r.range(66000, 70000); event("large"); }
        if (idx % 10 == 0 && c == 0) n = 0;
        if (n && n < workers) event("fewer-than-workers");
        if (c && pop.size() && r.flip(0.3)) n = pop.size(); else fill(pop, n);
        w.how = large ? 0 : (int)r.below(6);
        judge(r, pop, w, [&] { sched(w, pop); }, cat(name, " policy, ", workers, " workers, call ", c, ", population of ", n));
        if (c) event("again");
    }
}
}

UNIT_T(linear, 260, 5000, 60, "applied,overlapping-workers,empty,fewer-than-workers,many-workers,large,again") { schedule<LinearPolicy>(r, idx, "linear"); }
UNIT_T(progressive, 260, 5000, 60, "applied,overlapping-workers,empty,fewer-than-workers,many-workers,large,again") { schedule<ProgressivePolicy>(r, idx, "progressive"); }

// several schedulers at the same time, as islands that are themselves parallel
UNIT_T(side_by_side, 40, 800, 60, "applied") {
    int n = (int)r.range(2, 4);
    struct Side { eoPop<Task> pop; Work w; std::unique_ptr<Seen> s; unsigned workers; bool linear; };
    std::vector<Side> side(n);
    for (auto& x : side) { fill(x.pop, (size_t)r.size(0, 120)); x.s.reset(new Seen(x.pop.size())); x.s->open = true; x.w.s = x.s.get(); x.w.how = (int)r.below(6); x.w.salt = r.next(); x.workers = (unsigned)r.range(1, 5); x.linear = r.flip(); }
    std::vector<std::thread> th;
    for (auto& x : side) th.emplace_back([&x] {
        if (x.linear) { Scheduler<Task, LinearPolicy> s(x.workers); s(x.w, x.pop); } else { Scheduler<Task, ProgressivePolicy> s(x.workers); s(x.w, x.pop); }
    });
    for (auto& t : th) t.join();
    for (auto& x : side) for (size_t i = 0; i < x.pop.size(); ++i) {
        CHECK(x.s->slot[i].count == 1 && x.pop[i].plain == 1, "exactly-once", "two schedulers side by side: an individual was processed ", x.s->slot[i].count.load(), " times");
        event("applied");
    }
    state(r.next());
}

// --- master-worker algorithms ---------------------------------------------
namespace {
typedef eoBit<double> Bits;
struct BitsEval : public eoEvalFunc<Bits> {
    std::atomic<long> n{0};
    int how = 0;
    void operator()(Bits& x) {
        double f = 0; for (size_t i = 0; i < x.size(); ++i) f += x[i] ? (double)(1 + i % 3) : 0;
        if (how == 4) pause((int)f % 5 == 0 ? 3 : 0, 30); else pause(how, 10);
        n.fetch_add(1, std::memory_order_relaxed);
        x.fitness(f);
    }
};
template <class P> std::string show_pop(const P& p) { std::ostringstream o; for (auto& x : p) o << x << "\n"; return o.str(); }
struct Breeding {
    eoDetTournamentSelect<Bits> one; eoSelectPerc<Bits> select; eo1PtBitXover<Bits> xo; eoBitMutation<Bits> mu; eoSGATransform<Bits> tr; eoPlusReplacement<Bits> plus; eoGenerationalReplacement<Bits> gen; eoGenContinue<Bits> cont;
    bool useplus;
    Breeding(unsigned t, double rate, double pc, double pm, bool p, unsigned g) : one(t), select(one, rate), mu(0.1), tr(xo, pc, mu, pm), cont(g), useplus(p) {}
    eoReplacement<Bits>& rep() { return useplus ? (eoReplacement<Bits>&)plus : (eoReplacement<Bits>&)gen; }
};
template <class P> void ea(Rand& r, const char* name) {
    unsigned len = (unsigned)r.range(2, 30), size = (unsigned)r.range(2, 30), gens = (unsigned)r.range(1, 8), workers = (unsigned)r.range(1, 8), t = (unsigned)r.range(2, 4);
    bool plus = r.flip(); double rate = plus ? r.pick(std::vector<double>{1, 0.5, 2}) : 1, pc = r.u01(), pm = r.u01();
    uint32_t seed = (uint32_t)r.below(1u << 30);
    eoPop<Bits> start;
    for (unsigned i = 0; i < size; ++i) { Bits b; b.resize(len); for (unsigned k = 0; k < len; ++k) b[k] = r.flip(); start.push_back(b); }
    eoPop<Bits> p1 = start, p2 = start;
    BitsEval e1, e2; e2.how = (int)r.below(5);
    { Breeding b(t, rate, pc, pm, plus, gens); eoEasyEA<Bits> algo(b.cont, e1, b.select, b.tr, b.rep()); rng.reseed(seed); algo(p1); }
    { Breeding b(t, rate, pc, pm, plus, gens); MWModel<eoEasyEA, Bits, P> algo(workers, b.cont, e2, b.select, b.tr, b.rep()); rng.reseed(seed); algo(p2); }
    CHECK(show_pop(p1) == show_pop(p2), "differs", name, " master-worker run with ", workers, " workers differs from the sequential run\n", show_pop(p1), "--\n", show_pop(p2));
    CHECK(e1.n == e2.n, "evaluations", name, " master-worker run evaluates ", e2.n.load(), " times, the sequential one ", e1.n.load());
    { Breeding b(t, rate, pc, pm, plus, gens); MWModel<eoEasyEA, Bits, P> algo(workers, b.cont, e2, b.select, b.tr, b.rep());
      eoPop<Bits> p3 = start; long before = e2.n; algo.evaluate(p3);
      CHECK(e2.n == before + (long)size, "evaluate", "evaluating ", size, " individuals took ", e2.n - before, " calls");
      for (unsigned i = 0; i < size; ++i) { Bits c = start[i]; e1(c); CHECK(!p3[i].invalid() && p3[i].fitness() == c.fitness(), "evaluate", "parallel evaluation gives a wrong fitness"); }
      struct Flip : public eoUF<Bits&, void> { void operator()(Bits& b) { for (size_t i = 0; i < b.size(); ++i) b[i] = !b[i]; b.invalidate(); } } flip;
      algo.apply(flip, p3);
      for (unsigned i = 0; i < size; ++i) for (unsigned k = 0; k < len; ++k) CHECK(p3[i][k] == !start[i][k], "apply", "a function applied by the workers did not change every individual once");
    }
    event("compared"); event(plus ? "plus" : "generational");
    state(mix(seed, len));
}

typedef eoRealParticle<eoMinimizingFitness> Part;
struct PartEval : public eoEvalFunc<Part> {
    std::atomic<long> n{0};
    int how = 0;
    void operator()(Part& x) { double f = 0; for (size_t i = 0; i < x.size(); ++i) f += x[i] * x[i]; pause(how, 8); n.fetch_add(1, std::memory_order_relaxed); x.fitness(f); }
};
struct Swarm {
    eoRealVectorBounds bounds;
    eoRingTopology<Part> ring; eoStarTopology<Part> star;
    eoUniformGenerator<double> gen; eoVelocityInitFixedLength<Part> vel; eoFirstIsBestInit<Part> first;
    std::unique_ptr<eoInitializer<Part>> init;
    std::unique_ptr<eoStandardVelocity<Part>> velocity;
    eoStandardFlight<Part> flight; eoGenContinue<Part> cont;
    PartEval eval;
    Swarm(eoPop<Part>& pop, unsigned d, bool isring, unsigned gens) : bounds(d, -1.5, 1.5), ring(3), gen(-1, 1), vel(d, gen), cont(gens) {
        eoTopology<Part>& topo = isring ? (eoTopology<Part>&)ring : (eoTopology<Part>&)star;
        init.reset(new eoInitializer<Part>(eval, vel, first, topo, pop));
        velocity.reset(new eoStandardVelocity<Part>(topo, 0.7, 1.4, 1.4, bounds));
    }
};
std::string trace(const eoPop<Part>& p) { std::ostringstream o; o.precision(17); for (auto& x : p) { o << x.fitness() << ' ' << x.best() << " :"; for (size_t i = 0; i < x.size(); ++i) o << ' ' << x[i] << '/' << x.velocities[i] << '/' << x.bestPositions[i]; o << '\n'; } return o.str(); }
template <class P> void pso(Rand& r, bool sync, const char* name) {
    unsigned d = (unsigned)r.range(1, 6), size = (unsigned)r.range(4, 20), gens = (unsigned)r.range(1, 6), workers = (unsigned)r.range(1, 8);
    bool isring = r.flip();
    int how = (int)r.below(4);
    uint32_t seed = (uint32_t)r.below(1u << 30);
    eoPop<Part> start;
    for (unsigned i = 0; i < size; ++i) { Part p; for (unsigned k = 0; k < d; ++k) p.push_back(r.real(-2, 2)); start.push_back(p); }
    eoPop<Part> p1 = start, p2 = start;
    long n1, n2;
    {
        Swarm s(p1, d, isring, gens); rng.reseed(seed);
        if (sync) { eoSyncEasyPSO<Part> algo(*s.init, s.cont, s.eval, *s.velocity, s.flight); algo(p1); }
        else {
            // every particle moves, then every one is evaluated, then every one informs its neighbours
            (*s.init)();
            do {
                for (unsigned i = 0; i < p1.size(); ++i) { (*s.velocity)(p1[i], i); s.flight(p1[i]); }
                for (auto& x : p1) s.eval(x);
                for (unsigned i = 0; i < p1.size(); ++i) s.velocity->updateNeighborhood(p1[i], i);
            } while (s.cont(p1));
        }
        n1 = s.eval.n;
    }
    {
        Swarm s(p2, d, isring, gens); s.eval.how = how; rng.reseed(seed);
        if (sync) { MWModel<eoSyncEasyPSO, Part, P> algo(workers, *s.init, s.cont, s.eval, *s.velocity, s.flight); algo(p2); }
        else { MWModel<eoEasyPSO, Part, P> algo(workers, *s.init, s.cont, s.eval, *s.velocity, s.flight); algo(p2); }
        n2 = s.eval.n;
    }
    CHECK(trace(p1) == trace(p2), "differs", name, " master-worker swarm with ", workers, " workers differs from the sequential one\n", trace(p1), "--\n", trace(p2));
    CHECK(n1 == n2, "evaluations", name, " master-worker swarm evaluates ", n2, " times, the sequential one ", n1);
    event(sync ? "synchronous" : "swarm");
    state(mix(seed, d));
}
}
UNIT_T(master_worker, 120, 2500, 60, "compared,plus,generational") { if (idx % 2) ea<LinearPolicy>(r, "linear"); else ea<ProgressivePolicy>(r, "progressive"); }
UNIT_T(swarms, 120, 2500, 60, "synchronous,swarm") { bool sync = idx % 2; if (idx / 2 % 2) pso<LinearPolicy>(r, sync, "linear"); else pso<ProgressivePolicy>(r, sync, "progressive"); }
