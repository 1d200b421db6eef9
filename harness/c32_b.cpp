// C32: distributed evaluation of populations and distributed restarts.
#include "fakempi/world.h"
#include "eoh.h"
#include <memory>
#include <es.h>
#include <mpi/eoMpi.h>
#include <mpi/eoParallelApply.h>
#include <mpi/eoTerminateJob.h>
#include <mpi/eoMultiStart.h>
#include <utils/eoParallel.h>

using namespace mon;
using namespace eo::mpi;

namespace {
template <class F> struct Sol : public eoReal<F>, public eoserial::Persistent {
    Sol(unsigned n = 0, double v = 0) : eoReal<F>(n, v) {}
    eoserial::Object* pack() const override {
        eoserial::Object* o = new eoserial::Object;
        o->add("array", eoserial::makeArray<std::vector<double>, eoserial::MakeAlgorithm>(*this));
        o->add("invalid", eoserial::make(this->invalid()));
        if (!this->invalid()) o->add("fitness", eoserial::make((double)this->fitness()));
        return o;
    }
    void unpack(const eoserial::Object* o) override {
        this->clear();
        eoserial::unpackArray<std::vector<double>, eoserial::Array::UnpackAlgorithm>(*o, "array", *this);
        bool inv;
        eoserial::unpack(*o, "invalid", inv);
        if (inv) this->invalidate();
        else { double f; eoserial::unpack(*o, "fitness", f); this->fitness(f); }
    }
};
template <class E> struct Eval : public eoEvalFunc<E> {
    bool notes = false;
    void operator()(E& x) override {
        double s = 0;
        for (double y : x) s += y * y + 0.1 * y;
        x.fitness(s);
        if (notes) world::note("eval", (long)(hvec(x) >> 1));
    }
};
template <class P> u64 hpop(const P& p) {
    u64 h = p.size();
    for (auto& x : p) h = mix(hvec(x, h), x.invalid() ? 1 : hdbl((double)x.fitness()));
    return h;
}
void setDynamic(bool dyn) {
    std::string a = cat("--parallelize-dynamic=", dyn ? "1" : "0");
    char name[] = "p";
    char* argv[] = {name, &a[0], 0};
    eoParser parser(2, argv);
    make_parallel(parser);
}

template <class F> void popeval(Rand& r, u64 idx) {
    typedef Sol<F> E;
    int n = (int)r.range(2, 5);
    bool dyn = r.flip(), own = r.flip(0.6);
    int packet = (int)r.range(1, 5);
    unsigned pops = (unsigned)r.size(1, idx % 20 == 5 ? 200 : 25), dim = (unsigned)r.range(1, 5);
    unsigned gens = (unsigned)r.range(1, 3);
    u64 seed = r.next();
    std::string what = cat(n, " ranks, ", dyn ? "dynamic" : "static", ", population ", pops, ", packet ", packet);
    // the same run, evaluated in one process and in many
    auto evolve = [&](eoPop<E>& pop, eoPopEvalFunc<E>& pe) {
        eo::rng.reseed((uint32_t)seed);
        eoUniformGenerator<double> gen(-5, 5);
        eoInitFixedLength<E> init(dim, gen);
        pop = eoPop<E>(pops, init);
        pe(pop, pop);
        u64 h = hpop(pop);
        for (unsigned g = 0; g < gens; ++g) {
            eoPop<E> off;
            eoDetTournamentSelect<E> sel(2);
            eoUniformMutation<E> mut(0.5);
            unsigned k = 1 + (unsigned)eo::rng.random(pops + 3);
            for (unsigned i = 0; i < k; ++i) { off.push_back(sel(pop)); if (eo::rng.flip(0.8)) { mut(off.back()); off.back().invalidate(); } }
            pe(pop, off);
            h = mix(h, hpop(off));
            eoPlusReplacement<E> rep;
            rep(pop, off);
            h = mix(h, hpop(pop));
        }
        return h;
    };
    Eval<E> plain;
    eoPopLoopEval<E> loop(plain);
    eoPop<E> ref;
    u64 expect = evolve(ref, loop);
    auto res = world::run(r, n, [&] {
        setDynamic(dyn);
        Eval<E> eval;
        eval.notes = true;
        std::shared_ptr<AssignmentAlgorithm> a;
        if (dyn) a.reset(new DynamicAssignmentAlgorithm()); else a.reset(new StaticAssignmentAlgorithm());
        bool master = Node::comm().rank() == DEFAULT_MASTER;
        {
            ParallelApplyStore<E> store(eval, DEFAULT_MASTER, packet);
            std::shared_ptr<eoParallelPopLoopEval<E> > pe;
            if (own) pe.reset(new eoParallelPopLoopEval<E>(*a, DEFAULT_MASTER, eval, packet));
            else pe.reset(new eoParallelPopLoopEval<E>(*a, DEFAULT_MASTER, &store));
            eoPop<E> pop;
            if (master) {
                u64 h = evolve(pop, *pe);
                CHECK(pop.size() == ref.size(), "pop-size", what, ": ", pop.size(), ", expected ", ref.size());
                for (size_t i = 0; i < pop.size(); ++i) CHECK(!pop[i].invalid(), "unevaluated", what, ": individual ", i);
                CHECK(h == expect, "distributed-run", what, ": the run with distributed evaluation differs from the run with local evaluation");
                world::note("compared");
            } else {
                (*pe)(pop, pop);
                world::note("released");
            }
        }
        Node::comm().~communicator();
    });
    int released = 0;
    for (auto& e : res.log) {
        if (e.what == "eval") { event("evaluated_remotely"); CHECK(e.rank != 0, "eval-on-master", what, ": the master evaluated an individual"); }
        if (e.what == "compared") event("runs_compared");
        if (e.what == "released") ++released;
    }
    if (res.completed) CHECK(released == n - 1, "pop-released", what, ": ", released, " workers released");
}

// an algorithm that improves a little and reports what it did
typedef Sol<double> MS;
struct Algo : public eoAlgo<MS> {
    Eval<MS> eval;
    eoContinue<MS>* cont = nullptr;
    void operator()(eoPop<MS>& pop) override {
        world::note("start", (long)pop.size());
        world::note("start-pop", (long)(hpop(pop) >> 1));
        bool ok = true;
        for (auto& x : pop) ok = ok && !x.invalid();
        if (!ok) world::note("start-unevaluated");
        int gens = 0;
        do {
            ++gens;
            for (auto& x : pop) { MS y = x; y[eo::rng.random((uint32_t)y.size())] += eo::rng.normal(); eval(y); if (x.fitness() < y.fitness()) x = y; }
        } while (gens < 50 && (*cont)(pop));
        world::note("gens", gens);
        u64 h = 0;
        const MS* b = &pop[0];
        for (auto& x : pop) if (b->fitness() < x.fitness()) b = &x;
        double bf = b->fitness();
        memcpy(&h, &bf, 8);
        world::note("best", (long)h);
    }
};
struct Seeds : public MultiStartStore<MS>::GetSeeds {
    std::vector<int> s;
    std::vector<int> operator()(int) override { return s; }
};
} // namespace

UNIT_T(popeval_max, 50, 300, 60, "evaluated_remotely,runs_compared,mpi_choice") { popeval<double>(r, idx); }
UNIT_T(popeval_min, 40, 250, 60, "evaluated_remotely,runs_compared,mpi_choice") { popeval<eoMinimizingFitness>(r, idx); }

UNIT_T(multistart, 70, 400, 60, "restart,seed_checked,mpi_choice,more_runs,fewer_runs") {
    int n = (int)r.range(2, 5), workers = n - 1;
    int runs = (int)r.size(0, 9);
    if (idx % 8 == 1) runs = workers + 2;
    if (idx % 8 == 2) runs = std::max(0, workers - 1);
    event(runs > workers ? "more_runs" : "fewer_runs");
    bool dyn = r.flip(), same = r.flip();
    int seeding = (int)r.below(3);
    unsigned gens = (unsigned)r.range(1, 6), pops = (unsigned)r.range(1, 6);
    std::vector<int> seeds;
    for (long i = r.range(0, workers); i > 0; --i) seeds.push_back((int)r.range(1, 1000000));
    int mult = (int)r.range(1, 1000);
    u64 seed = r.next();
    std::string what = cat(n, " ranks, ", dyn ? "dynamic" : "static", ", ", runs, " runs, reset ", same ? "same" : "original");
    u64 original = 0;
    eoPop<MS> pop0;
    {
        eo::rng.reseed((uint32_t)seed);
        eoUniformGenerator<double> gen(-5, 5);
        eoInitFixedLength<MS> init(3, gen);
        pop0 = eoPop<MS>(pops, init);
        eoPop<MS> e = pop0;
        Eval<MS> ev;
        for (auto& x : e) ev(x);
        original = hpop(e) >> 1;
    }
    auto res = world::run(r, n, [&] {
        Algo algo;
        eoGenContinue<MS> cont(gens);
        algo.cont = &cont;
        Eval<MS> eval;
        eoPopLoopEval<MS> pe(eval);
        std::shared_ptr<AssignmentAlgorithm> a;
        if (dyn) a.reset(new DynamicAssignmentAlgorithm()); else a.reset(new StaticAssignmentAlgorithm(runs));
        ReuseOriginalPopEA<MS> ro(cont, pop0, pe);
        ReuseSamePopEA<MS> rs(cont, pop0, eval);
        Seeds fixed;
        fixed.s = seeds;
        MultiplesOfNumber<MS> multiples(mult);
        DummyGetSeeds<MS> dummy;
        MultiStartStore<MS>::GetSeeds& gs = seeding == 0 ? (MultiStartStore<MS>::GetSeeds&)fixed : seeding == 1 ? (MultiStartStore<MS>::GetSeeds&)multiples : (MultiStartStore<MS>::GetSeeds&)dummy;
        {
            MultiStartStore<MS> store(algo, DEFAULT_MASTER, same ? (MultiStartStore<MS>::ResetAlgo&)rs : (MultiStartStore<MS>::ResetAlgo&)ro, gs);
            MultiStart<MS> job(*a, DEFAULT_MASTER, store, runs);
            if (!job.isMaster()) world::note("draw", (long)eo::rng.rand());
            job.run();
            if (job.isMaster()) {
                world::note("results", (long)job.best_individuals().size());
                for (auto& x : job.best_individuals()) { long h; double f = x.fitness(); memcpy(&h, &f, 8); world::note("result", h); Eval<MS> ev; MS y = x; ev(y); CHECK(y.fitness() == x.fitness(), "result-fitness", what, ": a returned individual does not have its fitness"); }
            } else world::note("released");
        }
        Node::comm().~communicator();
    });
    std::multiset<long> bests, results;
    int starts = 0, released = 0;
    std::map<int, int> per;
    std::map<int, long> draw;
    for (auto& e : res.log) {
        if (e.what == "start") { ++starts; ++per[e.rank]; event("restart"); CHECK(e.a == (long)pops, "start-size", what, ": started from a population of ", e.a); }
        else if (e.what == "start-pop") { if (!same || per[e.rank] == 1) CHECK((u64)e.a == original, "start-pop", what, ": a run did not start from the original population"); }
        else if (e.what == "start-unevaluated") fail("start-unevaluated", what + ": a run started from a population without fitness");
        else if (e.what == "gens") CHECK(e.a == (long)gens, "gens", what, ": a run of ", e.a, " generations, expected ", gens);
        else if (e.what == "best") bests.insert(e.a);
        else if (e.what == "result") results.insert(e.a);
        else if (e.what == "results") CHECK(e.a == runs, "results", what, ": ", e.a, " best individuals");
        else if (e.what == "released") ++released;
        else if (e.what == "draw") draw[e.rank] = e.a;
    }
    if (!res.completed) return;
    CHECK(starts == runs, "starts", what, ": ", starts, " runs made");
    CHECK(bests == results, "bests", what, ": the best individuals returned are not those of the runs");
    CHECK(released == workers, "ms-released", what, ": ", released, " workers released");
    if (!dyn) { int lo = 1 << 30, hi = 0; for (int w = 1; w < n; ++w) { lo = std::min(lo, per[w]); hi = std::max(hi, per[w]); } CHECK(hi - lo <= 1, "ms-shares", what, ": runs per worker between ", lo, " and ", hi); }
    // the i-th worker is seeded with the i-th seed
    std::multiset<long> want, have;
    for (auto& d : draw) have.insert(d.second);
    for (int i = 0; i < workers; ++i) {
        long s;
        if (seeding == 0 && i < (int)seeds.size()) s = seeds[i];
        else if (seeding == 1) s = (long)(i + 1) * mult;
        else continue;
        eoRng g((uint32_t)s);
        want.insert((long)g.rand());
    }
    for (long x : want) CHECK(have.count(x) >= want.count(x), "seed", what, ": a worker was not seeded with its seed");
    event("seed_checked");
}
