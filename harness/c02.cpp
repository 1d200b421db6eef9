// C02: evaluations are made exactly when needed and counted exactly.
#include "eoh.h"
#include <eoEvalUserTimeThrowException.h>
#include <eoFastGA.h>
#include <mo>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace eoh;
// the clocks the library sees
static bool g_fake;
static time_t g_now;
extern "C" time_t time(time_t* t) noexcept { time_t v = g_now; if (!g_fake) { timespec s; clock_gettime(CLOCK_REALTIME, &s); v = s.tv_sec; } if (t) *t = v; return v; }
extern "C" int getrusage(__rusage_who_t w, struct rusage* u) noexcept { int k = (int)syscall(SYS_getrusage, (int)w, u); if (g_fake) { u->ru_utime.tv_sec = g_now; u->ru_utime.tv_usec = 999999; } return k; }
typedef Ind<double> MaxI;
typedef Ind<MinF> MinI;

static std::map<int, unsigned> g_calls;
static u64 g_total;
static double objective(int id) { return (double)(mix((u64)id, 77) % 1001) - 500; }
template <class E> static typename E::Fitness ptrEval(const E& e) { ++g_calls[e.id]; ++g_total; return typename E::Fitness(objective(e.id)); }
// an objective function that does not look at validity
template <class E> struct Raw : public eoEvalFunc<E> {
    std::vector<int> order;
    void operator()(E& e) { order.push_back(e.id); ++g_calls[e.id]; ++g_total; e.fitness(objective(e.id)); }
};
template <class E> E* blank(int id) { E* e = new E; e->id = id; return e; }
template <class E> eoPop<E> mixed(Rand& r, unsigned n, int first, double pvalid) {
    eoPop<E> p;
    for (unsigned i = 0; i < n; ++i) {
        E e; e.id = first + (int)i;
        if (r.flip(pvalid)) e.fitness(objective(e.id) + 0.5); // recognisably not from this evaluation
        p.push_back(e);
    }
    return p;
}
template <class E> struct Chain {
    std::vector<std::shared_ptr<eoEvalFunc<E>>> f;
    std::vector<eoEvalFuncCounter<E>*> counters;
    std::ostringstream out;
    std::string d;
    Raw<E>* raw = nullptr;
    eoEvalFunc<E>& top() { return *f.back(); }
    template <class T, class... A> T* add(A&&... a) { auto p = std::make_shared<T>(std::forward<A>(a)...); f.push_back(p); return p.get(); }
};
template <class E> void build(Chain<E>& c, Rand& r) {
    if (r.flip()) { c.template add<eoEvalFuncPtr<E>>(ptrEval<E>); c.d = "ptr"; }
    else {
        c.raw = c.template add<Raw<E>>();
        c.counters.push_back(c.template add<eoEvalFuncCounter<E>>(c.top()));
        c.d = "raw<counter";
    }
    for (int k = (int)r.range(0, 3); k > 0; --k) switch (r.below(7)) {
        case 0: c.counters.push_back(c.template add<eoEvalFuncCounter<E>>(c.top(), "n")); c.d += "<counter"; break;
        case 1: c.counters.push_back(c.template add<eoEvalCounterThrowException<E>>(c.top(), 1000000000ul)); c.d += "<throw"; break;
        case 2: c.template add<eoEvalKeepBest<E>>(c.top()); c.d += "<best"; break;
        case 3: c.template add<eoEvalPrint<E>>(c.top(), c.out); c.d += "<print"; break;
        case 4: c.counters.push_back(c.template add<eoEvalTimeThrowException<E>>(c.top(), (time_t)100000)); c.d += "<time"; break;
        case 5: c.counters.push_back(c.template add<eoEvalUserTimeThrowException<E>>(c.top(), 100000L)); c.d += "<utime"; break;
        default: if (std::is_same<typename E::Fitness, double>::value) { c.counters.push_back(c.template add<eoEvalFuncCounter<E>>(c.top())); c.d += "<counter"; }
        }
}
template <class E> void popCase(Rand& r, unsigned n) {
    g_calls.clear(); g_total = 0;
    Chain<E> c;
    build(c, r);
    u64 expected = 0;
    int next = 0;
    for (int round = (int)r.range(1, 4); round > 0; --round) {
        auto pop = mixed<E>(r, n, next, r.pick(std::vector<double>{0, 0.3, 0.7, 1}));
        next += (int)n;
        auto before = pop;
        unsigned np = r.flip(0.06) ? (unsigned)r.range(200, 600) : (unsigned)r.range(0, 5);
        auto parents = mixed<E>(r, np, next, 0.5);
        next += (int)np + 10;
        auto pbefore = parents;
        u64 t0 = g_total;
        bool both = false;
        switch (r.below(5)) {
        case 0: { eoPopLoopEval<E> p(c.top()); p(parents, pop); break; }
        case 1: { eoPopLoopEval<E> p(c.top()); p(pop, pop); break; }
        case 2: { eoTimeVaryingLoopEval<E> p(c.top()); p(parents, pop); both = true; break; }
        case 3: apply<E>(c.top(), pop); break;
        default: for (auto& e : pop) c.top()(e);
        }
        event("population");
        u64 need = 0;
        auto look = [&](const eoPop<E>& a, const eoPop<E>& b, bool touched) {
            CHECK(a.size() == b.size(), "evaluation-resized", c.d);
            for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
                event("individual");
                bool was = !b[i].invalid();
                if (!touched) { CHECK(a[i].invalid() == b[i].invalid(), "parents-touched", c.d); continue; }
                need += !was;
                unsigned calls = g_calls.count(b[i].id) ? g_calls[b[i].id] : 0;
                CHECK(a[i].id == b[i].id, "evaluation-reordered", c.d);
                CHECK(calls == (was ? 0u : 1u), "wrong-number-of-calls", c.d, ": individual ", i, was ? " with" : " without", " a fitness evaluated ", calls, " times");
                CHECK(!a[i].invalid(), "left-invalid", c.d, " individual ", i, " of ", a.size());
                if (!a[i].invalid()) CHECK(val(a[i]) == objective(b[i].id) + (was ? 0.5 : 0), "wrong-fitness", c.d);
            }
        };
        look(pop, before, true);
        look(parents, pbefore, both);
        expected += need;
        CHECK(g_total - t0 == need, "wrong-number-of-calls", c.d, ": ", g_total - t0, " calls for ", need, " individuals without fitness");
        for (auto* k : c.counters) CHECK(k->value() == expected, "wrong-count", c.d, ": counter shows ", k->value(), " after ", expected, " evaluations");
        state(mix(hstr(c.d), mix(n, need)));
    }
}
UNIT(population, 600, 12000, "population,individual") {
    (void)idx;
    unsigned n = r.flip(0.05) ? (unsigned)r.range(200, 600) : (unsigned)r.size(0, 20);
    if (r.flip()) popCase<MaxI>(r, n); else popCase<MinI>(r, n);
}
// beyond 65536 individuals
UNIT(population_large, 2, 10, "population") { (void)idx; (void)r; popCase<MaxI>(r, 70000); }

// the best one ever evaluated is kept
template <class E> void bestCase(Rand& r) {
    g_calls.clear();
    Raw<E> raw;
    eoEvalFuncCounter<E> c(raw);
    eoEvalKeepBest<E> k(c);
    double best = 0; bool any = false;
    for (int i = 0, n = (int)r.range(1, 60); i < n; ++i) {
        E e; e.id = (int)r.below(100000);
        k(e);
        double q = qual(e);
        bool better = any && q > best;
        if (!any || q > best) best = q;
        event("kept");
        CHECK(!k.best_element().invalid() && qual(k.best_element()) == best, "best-not-kept", "after ", i + 1, " evaluations the best is ", best, " but kept ", qual(k.best_element()));
        CHECK(objective(k.best_element().id) == val(k.best_element()), "best-mixed-up", "kept genotype and fitness differ");
        if (any) CHECK(k.found() == better, "found-flag", "new best: ", better, " reported ", k.found());
        any = true;
        state(hdbl(best));
        if (r.flip(0.05)) { k.reset(); any = false; }
    }
}
UNIT(keep_best, 200, 3000, "kept") { (void)idx; if (r.flip()) bestCase<MaxI>(r); else bestCase<MinI>(r); }

// budgets let exactly the allowed number through
template <class E> void budgetCase(Rand& r) {
    g_calls.clear(); g_total = 0;
    Raw<E> raw;
    unsigned long budget = (unsigned long)(r.flip(0.1) ? r.range(300, 70000) : r.range(1, 60));
    eoEvalCounterThrowException<E> ev(raw, budget);
    int id = 0;
    bool thrown = false;
    u64 steps = budget + 20;
    eoPopLoopEval<E> pe(ev);
    for (u64 s = 0; s < steps && !thrown; ++s) {
        unsigned n = (unsigned)(budget > 200 ? r.range(100, 1000) : r.range(0, 12));
        auto pop = mixed<E>(r, n, id, 0.4);
        id += (int)n;
        u64 need = 0;
        for (auto& e : pop) need += e.invalid();
        u64 t0 = g_total;
        try {
            if (r.flip()) pe(pop, pop); else apply<E>(ev, pop);
        } catch (eoMaxEvalException& x) { thrown = true; }
        event("budget-step");
        if (thrown) {
            CHECK(g_total == budget, "budget-not-exact", "budget of ", budget, " signalled after ", g_total, " evaluations");
            CHECK(ev.value() == g_total, "wrong-count", ev.value(), " instead of ", g_total);
            // what was evaluated before the signal kept its result, what comes after was not touched
            u64 evaluated = 0;
            for (auto& e : pop) if (!e.invalid() && val(e) == objective(e.id)) ++evaluated;
            CHECK(evaluated == budget - t0, "budget-lost-results", evaluated, " individuals carry the result of the ", budget - t0, " last evaluations");
            event("exhausted");
            // a caller who goes on is told again, every time
            for (int more = 0; more < 3; ++more) {
                E late(id++, 0);
                late.invalidate();
                bool again = false;
                try { ev(late); } catch (eoMaxEvalException&) { again = true; }
                CHECK(again, "budget-not-signalled", "evaluation ", ev.value(), " went through silently after the budget of ", budget, " was exhausted");
            }
        } else {
            CHECK(g_total == t0 + need, "wrong-number-of-calls", g_total - t0, " calls for ", need);
            CHECK(g_total < budget, "budget-not-signalled", g_total, " evaluations with a budget of ", budget);
        }
        state(mix(g_total, budget));
    }
    CHECK(thrown, "budget-not-signalled", "never, budget ", budget);
}
UNIT(budget, 200, 3000, "budget-step,exhausted") { (void)idx; if (r.flip()) budgetCase<MaxI>(r); else budgetCase<MinI>(r); }

// whole runs: the counter, the objective function and the stopping criterion agree
typedef eoBit<double> Bit;
struct BitRaw : public eoEvalFunc<Bit> {
    u64 calls = 0;
    void operator()(Bit& b) { ++calls; double s = 0; for (size_t i = 0; i < b.size(); ++i) s += b[i] * (double)(i + 1); b.fitness(s); }
};
UNIT(runs, 300, 5000, "generation") {
    (void)idx;
    unsigned n = (unsigned)r.range(2, 15), len = (unsigned)r.range(2, 12);
    eoBooleanGenerator<bool> g; eoInitFixedLength<Bit> init(len, g);
    eoPop<Bit> pop(n, init);
    BitRaw raw; eoEvalFuncCounter<Bit> count(raw);
    unsigned long total = (unsigned long)r.range(1, 300);
    struct Cont : public eoContinue<Bit> {
        eoEvalContinue<Bit> inner; eoEvalFuncCounter<Bit>& c; BitRaw& raw; unsigned long total; unsigned gens = 0; u64 last;
        Cont(eoEvalFuncCounter<Bit>& k, BitRaw& w, unsigned long t) : inner(k, t), c(k), raw(w), total(t), last(0) {}
        bool operator()(const eoPop<Bit>& p) {
            event("generation");
            CHECK(c.value() == raw.calls, "wrong-count", "counter ", c.value(), " but ", raw.calls, " calls");
            for (auto& e : p) CHECK(!e.invalid(), "left-invalid", "after a generation");
            bool go = inner(p);
            CHECK(go == (raw.calls < total), "evaluation-criterion", "continue=", go, " after ", raw.calls, " evaluations, limit ", total);
            CHECK(inner.totalEvaluations() == total, "evaluation-criterion", "limit changed");
            state(mix(raw.calls, total));
            return go && ++gens < 400;
        }
        std::string className() const { return "C"; }
    } cont(count, raw, total);
    eoOneBitFlip<Bit> flip; eo1PtBitXover<Bit> cross;
    eoDetTournamentSelect<Bit> sel(2); eoPlusReplacement<Bit> plus;
    switch (r.below(3)) {
    case 0: { apply<Bit>(count, pop); eoSGA<Bit> a(sel, cross, 0.8f, flip, 0.5f, count, cont); a(pop); break; }
    case 1: { eoSGAGenOp<Bit> op(cross, 0.7, flip, 0.5); eoGeneralBreeder<Bit> br(sel, op, r.real(0.5, 2)); eoEasyEA<Bit> a(cont, count, br, plus); apply<Bit>(count, pop); a(pop); break; }
    default: { apply<Bit>(count, pop); eoPopLoopEval<Bit> pe(count); eoFastGA<Bit> a(0.5, sel, cross, sel, 0.8, sel, flip, pe, plus, cont, 0); a(pop); }
    }
    // an exact budget over a whole run
    BitRaw raw2; unsigned long budget = n + (unsigned long)r.range(1, 200);
    eoEvalCounterThrowException<Bit> th(raw2, budget);
    eoPop<Bit> pop2(n, init);
    eoGenContinue<Bit> many(100000);
    bool thrown = false;
    try {
        apply<Bit>(th, pop2);
        eoSGAGenOp<Bit> op(cross, 0.7, flip, 1.0); eoGeneralBreeder<Bit> br(sel, op, 1.0); eoEasyEA<Bit> a(many, th, br, plus);
        a(pop2);
    } catch (eoMaxEvalException&) { thrown = true; }
    event("exhausted");
    CHECK(thrown && raw2.calls == budget, "budget-not-exact", "run stopped by its budget of ", budget, " after ", raw2.calls, " evaluations");
}
// neighbours
typedef moBitNeighbor<double> BN;
UNIT(neighbours, 200, 3000, "neighbour") {
    (void)idx;
    struct NE : public moEval<BN> { u64 calls = 0; void operator()(Bit& s, BN& b) { ++calls; b.fitness(s.fitness() + (s[b.index()] ? -1 : 1) * (double)(b.index() + 1)); } } raw;
    moEvalCounter<BN> c(raw);
    unsigned len = (unsigned)r.range(2, 10);
    Bit s(len, false);
    BitRaw fe; eoEvalFuncCounter<Bit> fc(fe);
    fc(s);
    unsigned maxN = (unsigned)r.range(1, 40), maxF = (unsigned)r.range(1, 10), maxE = (unsigned)r.range(1, 40);
    bool restart = r.flip();
    moNeighborEvalContinuator<BN> cn(c, maxN, restart);
    moFullEvalContinuator<BN> cf(fc, maxF, restart);
    moEvalsContinuator<BN> ce(fc, c, maxE, restart);
    u64 n0 = 0, f0 = 0;
    for (int turn = 0; turn < 3; ++turn) {
        cn.init(s); cf.init(s); ce.init(s);
        n0 = restart ? raw.calls : 0; f0 = restart ? fe.calls : 0;
        for (int k = 0; k < 40; ++k) {
            event("neighbour");
            CHECK(c.value() == raw.calls, "wrong-count", "neighbour counter ", c.value(), " calls ", raw.calls);
            CHECK(fc.value() == fe.calls, "wrong-count", "full counter ", fc.value(), " calls ", fe.calls);
            CHECK(cn(s) == (raw.calls - n0 < maxN) && cn.value() == raw.calls - n0, "neighbour-budget", raw.calls - n0, " of ", maxN);
            CHECK(cf(s) == (fe.calls - f0 < maxF) && cf.value() == fe.calls - f0, "full-budget", fe.calls - f0, " of ", maxF);
            CHECK(ce(s) == (raw.calls - n0 + fe.calls - f0 < maxE) && ce.value() == raw.calls - n0 + fe.calls - f0, "joint-budget", raw.calls - n0 + fe.calls - f0, " of ", maxE);
            state(mix(mix(raw.calls - n0, fe.calls - f0), mix(maxN, maxF)));
            if (r.flip(0.3)) { Bit t(s); if (r.flip(0.7)) t.invalidate(); fc(t); }
            else { BN nb; nb.index((unsigned)r.below(len)); c(s, nb); }
        }
    }
}
// evaluators that look at the result, run a command or write to disk
UNIT(wrappers, 60, 600, "bad-value,command,dump") {
    (void)idx;
    struct Ev : public eoEvalFunc<MaxI> { double v; u64 calls = 0; void operator()(MaxI& e) { ++calls; e.fitness(v); } } ev;
    eoEvalFuncCounter<MaxI> c(ev);
    eoEvalNanThrowException<MaxI> nan(c);
    double values[] = {0, 1, -1, 1e308, -1e308, NAN, INFINITY, -INFINITY, 5e-324};
    u64 n = 0;
    for (double v : values) {
        ev.v = v;
        MaxI e; e.id = 1;
        bool thrown = false;
        try { nan(e); } catch (eoNanException&) { thrown = true; }
        event("bad-value");
        CHECK(thrown == !std::isfinite(v), "bad-value-signal", v, thrown ? " refused" : " accepted");
        CHECK(ev.calls == ++n && c.value() == n, "wrong-count", c.value(), " ", ev.calls, " ", n);
        if (!thrown) { nan(e); CHECK(ev.calls == n, "wrong-number-of-calls", "valid one evaluated again"); }
    }
    // commands
    double want = (double)r.range(-1000, 1000) / 8;
    std::ostringstream log; log << scratch() << "/calls";
    std::ostringstream cmd; cmd << "echo x >> " << log.str() << "; echo " << want;
    eoEvalCmd<Bit> ec(cmd.str(), ">&1", "; #");
    eoEvalFuncCounter<Bit> cc(ec);
    eoPop<Bit> pop; u64 need = 0;
    for (int i = 0; i < 3; ++i) { Bit b(3, false); if (r.flip()) b.fitness(5000); else ++need; pop.push_back(b); }
    auto before = pop;
    apply<Bit>(cc, pop);
    { std::ifstream f(log.str()); std::string l; u64 k = 0; while (std::getline(f, l)) ++k; event("command"); CHECK(k == need && cc.value() == need, "wrong-number-of-calls", k, " commands for ", need, " individuals, counter ", cc.value()); }
    for (size_t i = 0; i < pop.size(); ++i) CHECK(!pop[i].invalid() && (double)pop[i].fitness() == (before[i].invalid() ? want : 5000.), "wrong-fitness", pop[i]);
    eoEvalCmd<Bit> bad("false", ">&1", "; exit 3 #");
    Bit b(2, true); bool thrown = false;
    try { bad(b); } catch (eoSystemError&) { thrown = true; }
    CHECK(thrown && b.invalid(), "failed-command", "a failing command must be signalled and leave no fitness");
    std::remove(log.str().c_str());
    // dumps
    eoEvalFuncPtr<MaxI> p(ptrEval<MaxI>);
    std::string base = std::string(scratch()) + "/dump";
    bool single = r.flip();
    eoEvalDump<MaxI> d(p, base, single);
    g_calls.clear(); g_total = 0;
    for (int i = 0; i < 4; ++i) {
        MaxI e; e.id = i * 7 + 1;
        d(e);
        event("dump");
        CHECK(g_total == (u64)i + 1, "wrong-number-of-calls", "dump");
        std::string f = single ? base : base + "." + std::to_string(i);
        std::ifstream in(f); std::ostringstream want2; want2 << e << std::endl; std::stringstream got; got << in.rdbuf();
        CHECK(got.str() == want2.str(), "dump-content", f, " holds ", got.str(), " for ", want2.str());
        std::remove(f.c_str());
    }
    state(mix(hdbl(want), need));
}

// time budgets let evaluations through exactly while time is left
template <class E> void deadline(Rand& r) {
    Quiet q;
    g_calls.clear(); g_total = 0;
    Raw<E> raw;
    bool user = r.flip();
    time_t max = (time_t)r.range(0, 20), start = user ? 0 : (time_t)r.range(0, 2000000000);
    g_fake = true; g_now = start;
    eoEvalTimeThrowException<E> wall(raw, max); eoEvalUserTimeThrowException<E> cpu(raw, (long)max);
    eoEvalFuncCounter<E>& ev = user ? (eoEvalFuncCounter<E>&)cpu : wall;
    u64 done = 0;
    for (int k = (int)r.range(5, 40); k > 0; --k) {
        g_now += r.flip() ? 0 : (time_t)r.range(0, 3);
        E e; e.id = k; bool valid = r.flip(0.2);
        if (valid) e.fitness(7);
        bool threw = false;
        try { ev(e); } catch (eoMaxTimeException&) { threw = true; }
        bool due = !valid && g_now - start >= max;
        CHECK(threw == due, "time-budget", user ? "user" : "wall", " time ", g_now - start, " of ", max, ": ", threw ? "signalled" : "not signalled");
        if (!due && !valid) ++done;
        CHECK(g_total == done && ev.value() == done, "time-budget-count", g_total, " evaluations, counter ", ev.value(), ", expected ", done);
        CHECK(e.invalid() == due, "time-budget-validity", "after a ", due ? "refused" : "made", " evaluation");
        if (due) event(g_now - start == max ? "refused-at-limit" : "refused"); else event("let-through");
    }
    g_fake = false;
    state(mix(done, (u64)max));
}
UNIT(deadlines, 600, 10000, "refused,refused-at-limit,let-through") { if (r.flip()) deadline<MaxI>(r); else deadline<MinI>(r); }
