// C14: stopping criteria of local searches.
#include "c19.h"
#include <continuator/moBestNoImproveContinuator.h>
#include <continuator/moCombinedContinuator.h>
#include <continuator/moEvalsContinuator.h>
#include <continuator/moFitContinuator.h>
#include <continuator/moFullEvalContinuator.h>
#include <continuator/moIterContinuator.h>
#include <continuator/moNeighborEvalContinuator.h>
#include <continuator/moTimeContinuator.h>
#include <continuator/moValueParamContinuator.h>
using namespace ls;
extern bool fake;
extern time_t fakeTime;

template <class S, class N> void criteria(Rand& r) {
    Land land(r);
    Full<S> raw(land, false);
    eoEvalFuncCounter<S> full(raw);
    moFullEvalByCopy<N> nraw(raw);
    moEvalCounter<N> nev(nraw);
    eoValueParam<unsigned long> par((unsigned long)r.below(50), "p");
    unsigned n = (unsigned)r.range(1, 10);
    S best = make<S>(r, n, false);
    raw(best);
    Quiet quiet;
    moSolComparator<S> cmp;
    fake = true;
    typedef std::function<bool(const S&, bool)> Model; // (solution, initialisation)
    std::vector<std::shared_ptr<moContinuator<N>>> own;
    std::vector<Model> model;
    std::vector<std::string> what;
    // some activity before the run
    for (long i = r.below(20); i > 0; --i) { S s = make<S>(r, n, false); full(s); }
    for (long i = r.below(20); i > 0; --i) { S s = make<S>(r, n, false); raw(s); N x; x.index(s, (unsigned)r.below(n)); nev(s, x); }
    int k = (int)r.range(1, 4);
    for (int i = 0; i < k; ++i) {
        bool again = r.flip(), verbose = r.flip();
        unsigned m = (unsigned)(r.flip(0.1) ? 0 : r.range(1, 40));
        auto c0 = std::make_shared<unsigned long>(0);
        switch (r.below(8)) {
        case 0: own.push_back(std::make_shared<moIterContinuator<N>>(m, verbose)); what.push_back(cat("iterations ", m)); model.push_back([=](const S&, bool init) { if (init) { *c0 = 0; return true; } return ++*c0 < m; }); break;
        case 1: { bool f = r.flip(); if (f) own.push_back(std::make_shared<moBestNoImproveContinuator<N>>(best, m, verbose)); else own.push_back(std::make_shared<moBestNoImproveContinuator<N>>(best, m, cmp, verbose));
            what.push_back(cat("no improvement ", m)); model.push_back([=, &best](const S& s, bool init) { if (init) { *c0 = 0; return true; } if (qual(s) <= qual(best)) ++*c0; else *c0 = 0; return *c0 < m; }); break; }
        case 2: own.push_back(std::make_shared<moEvalsContinuator<N>>(full, nev, m, again)); what.push_back(cat("evaluations ", m)); model.push_back([=, &full, &nev](const S&, bool init) { if (init) *c0 = again ? full.value() + nev.value() : 0; return full.value() + nev.value() - *c0 < m; }); break;
        case 3: { S t = make<S>(r, n, false); raw(t); typename S::Fitness f = t.fitness(); own.push_back(std::make_shared<moFitContinuator<N>>(f)); what.push_back(cat("fitness ", (double)f)); double q = good(f); model.push_back([=](const S& s, bool) { return qual(s) < q; }); break; }
        case 4: own.push_back(std::make_shared<moFullEvalContinuator<N>>(full, m, again)); what.push_back(cat("full evaluations ", m)); model.push_back([=, &full](const S&, bool init) { if (init) *c0 = again ? full.value() : 0; return full.value() - *c0 < m; }); break;
        case 5: own.push_back(std::make_shared<moNeighborEvalContinuator<N>>(nev, m, again)); what.push_back(cat("neighbour evaluations ", m)); model.push_back([=, &nev](const S&, bool init) { if (init) *c0 = again ? nev.value() : 0; return nev.value() - *c0 < m; }); break;
        case 6: own.push_back(std::make_shared<moValueParamContinuator<N, unsigned long>>(par, m, again)); what.push_back(cat("value ", m)); model.push_back([=, &par](const S&, bool init) { if (init) *c0 = again ? par.value() : 0; return par.value() - *c0 < m; }); break;
        default: {
            auto t = std::make_shared<moTimeContinuator<N>>((time_t)m, verbose);
            bool ext = r.flip(0.3);
            time_t at = fakeTime - r.range(0, 20);
            if (ext) t->setStartingTime(at);
            if (r.flip(0.2)) { m = (unsigned)r.range(1, 30); t->maxTime((time_t)m); }
            own.push_back(t);
            what.push_back(cat("time ", m));
            model.push_back([=](const S&, bool init) { if (init) *c0 = (unsigned long)(ext ? at : fakeTime); return fakeTime - (time_t)*c0 < (time_t)m; });
        }
        }
    }
    moCombinedContinuator<N> comb(*own[0]);
    for (int i = 1; i < k; ++i) comb.add(*own[i]);
    bool viaComb = k > 1 || r.flip();
    for (int run = 0; run < 2; ++run) {
        S s = make<S>(r, n, false);
        full(s);
        viaComb ? comb.init(s) : own[0]->init(s);
        for (auto& m : model) m(s, true);
        for (int step = 1; step <= 80; ++step) {
            s = make<S>(r, n, false);
            long a = r.below(4), b = r.below(4);
            for (long i = 0; i < a; ++i) full(s);
            raw(s);
            for (long i = 0; i < b; ++i) { N x; x.index(s, (unsigned)r.below(n)); nev(s, x); }
            if (r.flip()) fakeTime += r.below(4);
            if (r.flip()) par.value() += r.below(3);
            if (r.flip(0.2) && qual(s) > qual(best)) best = s;
            bool got = viaComb ? comb(s) : (*own[0])(s);
            bool want = true;
            std::string first;
            for (size_t i = 0; i < model.size(); ++i) if (!model[i](s, false)) { want = false; first = what[i]; }
            CHECK(got == want, "local-search-stop", "run ", run, ", step ", step, ": criteria ", show(what), " answer ", got ? "continue" : "stop", " instead of ", want ? "continue" : "stop", " ", first);
            event("step");
            if (!got) { event(run ? "stop_again" : "stop"); break; }
        }
    }
    state(mix(hstr(cat(show(what))), (u64)k));
    fake = false;
}
UNIT(local_search_criteria, 3000, 60000, "step,stop,stop_again") {
    if (r.flip()) criteria<Bit, moBitNeighbor<double>>(r);
    else criteria<BitMin, moBitNeighbor<MinF>>(r);
}
