// C26: dominance-based local search and its use inside other algorithms.
#include "c26.h"
#include <neighborhood/moIndexNeighbor.h>
#include <neighborhood/moOrderNeighborhood.h>
#include <neighborhood/moRndWithoutReplNeighborhood.h>
#include <utils/moeoFullEvalByCopy.h>
using namespace mob;

namespace {
struct Flip : public moIndexNeighbor<Bits, OV> {
    void move(Bits& b) { b[key] = !b[key]; }
};
// evaluates a neighbour itself, leaving the solution alone
struct FlipEval : public moEval<Flip> {
    World& w;
    FlipEval(World& w_) : w(w_) {}
    void operator()(Bits& b, Flip& n) {
        w.right(b, "solution whose neighbour is evaluated");
        Gene g = gene(b); g[n.index()] = !g[n.index()];
        V v = w.of(g);
        w.log.push_back(Seen{g, v}); ++w.evals;
        n.fitness(w.vec(v));
        event("neighbour");
    }
};
struct Stop : public eoContinue<Bits> {
    World& w;
    size_t max, n = 0;
    std::function<void()> look;
    Stop(World& w_, size_t m) : w(w_), max(m) {}
    bool operator()(const eoPop<Bits>& p) { w.right(p, "population of the local search", 0); if (look) look(); event("step"); if (w.evals > 4000) max = n + 1; return ++n < max; }
    std::string className() const { return "Stop"; }
};
struct Kit {
    Setup s;
    World w;
    eoPop<Bits> pop;
    Eval ev;
    FlipEval own;
    moeoFullEvalByCopy<Flip> full;
    bool byCopy, ordered;
    moEval<Flip>& ne;
    moOrderNeighborhood<Flip> order;
    moRndWithoutReplNeighborhood<Flip> random;
    moNeighborhood<Flip>& hood;
    Kit(Rand& r, size_t lo, size_t hi) : s(r, 1, 3), w(r, s, r.size(lo, hi)), ev(w), own(w), full(ev), byCopy(r.flip()), ordered(r.flip()), ne(byCopy ? (moEval<Flip>&)full : (moEval<Flip>&)own), order((unsigned)w.len), random((unsigned)w.len), hood(ordered ? (moNeighborhood<Flip>&)order : (moNeighborhood<Flip>&)random) {
        rng.reseed((uint32_t)r.below(1u << 30));
        for (size_t n = (size_t)r.range(1, 5); n > 0; --n) pop.push_back(w.random(r));
        if (r.flip(0.3)) for (auto& x : pop) w.put(x);
        event(byCopy ? "by-copy" : "incremental"); event(ordered ? "ordered" : "shuffled");
    }
    // what every neighbour of every member is worth is already matched by a member
    template <class A> void closed(const A& arch, const char* name) const {
        for (auto& x : arch) for (size_t k = 0; k < w.len; ++k) {
            Gene g = gene(x); g[k] = !g[k];
            V v = w.of(g);
            bool ok = false;
            for (auto& y : arch) { V u = plain(y.objectiveVector()); if (u == v || s.dom(u, v)) { ok = true; break; } }
            CHECK(ok, "local-optimum", name, " (", s.dirs(), ") ended by itself, but a neighbour of an archived solution is not dominated by the archive");
        }
        event("closed");
    }
};
}

UNIT(pareto_local_search, 500, 10000, "run,natural-end,closed,archive-checked,by-copy,incremental,ordered,shuffled,pls1,pls2,exhaustive,first,no-worse,sub,stopped") {
    Quiet q;
    Kit k(r, 1, 11);
    moeoUnboundedArchive<Bits> arch(false);
    size_t max = r.flip(0.3) ? (size_t)r.range(1, 4) : 400;
    Stop stop(k.w, max);
    stop.look = [&] { k.w.holds(arch, "archive of the local search"); };
    int how = (int)(idx % 7);
    moeoExhaustiveNeighborhoodExplorer<Flip> ex(k.hood, k.ne);
    moeoFirstImprovingNeighborhoodExplorer<Flip> fi(k.hood, k.ne);
    moeoNoDesimprovingNeighborhoodExplorer<Flip> nd(k.hood, k.ne);
    moeoSimpleSubNeighborhoodExplorer<Flip> sub(k.hood, r.flip() ? (unsigned)k.w.len + 3 : (unsigned)r.range(1, (long)k.w.len), k.ne);
    moeoExhaustiveUnvisitedSelect<Bits> all;
    moeoNumberUnvisitedSelect<Bits> some((unsigned)r.range(1, 4));
    moeoUnvisitedSelect<Bits>& sel = r.flip() ? (moeoUnvisitedSelect<Bits>&)all : (moeoUnvisitedSelect<Bits>&)some;
    std::shared_ptr<moeoUnifiedDominanceBasedLS<Flip>> ls;
    const char* name;
    typedef moeoUnifiedDominanceBasedLS<Flip> U;
    switch (how) {
    case 0: name = "pls1"; ls = std::make_shared<moeoPLS1<Flip>>(stop, k.ev, arch, k.hood, k.ne); break;
    case 1: name = "pls2"; ls = std::make_shared<moeoPLS2<Flip>>(stop, k.ev, arch, k.hood, k.ne); break;
    case 2: name = "exhaustive"; ls = std::make_shared<U>(stop, k.ev, arch, ex, sel); break;
    case 3: name = "first"; ls = std::make_shared<U>(stop, k.ev, arch, fi, sel); break;
    case 4: name = "no-worse"; ls = std::make_shared<U>(stop, k.ev, arch, nd, sel); break;
    default: name = "sub"; ls = std::make_shared<U>(stop, k.ev, arch, sub, sel);
    }
    size_t n = k.pop.size();
    (*ls)(k.pop);
    CHECK(k.pop.size() == n, "size", "the local search changes the population it starts from");
    k.w.right(k.pop, "population given to the local search", 0);
    k.w.holds(arch, "archive of the local search");
    event(name); event("run");
    bool visited = true;
    for (auto& x : arch) visited = visited && x.flag() == 1;
    max = stop.max;
    CHECK(visited || stop.n == max, "stopped", "the local search stopped after ", stop.n, " steps with unvisited solutions, ", max, " were allowed");
    if (visited) { k.closed(arch, name); event("natural-end"); } else event("stopped");
    state(mix(k.w.evals, mix(k.w.len, how)));
}

// every solution is a trade-off: the archive grows to all of them
UNIT(wide_front, 16, 160, "whole-space,large,pls1,pls2,exhaustive,sub") {
    Quiet q;
    Kit k(r, 8, 9);
    if (k.s.n < 2) { k.s.n = 2; k.s.mins.push_back(r.flip()); k.s.go(); k.w.w.push_back(k.w.w[0]); }
    for (unsigned i = 0; i < k.s.n; ++i) {
        // the second objective opposes the first, others follow either
        bool like = i != 1 && (i == 0 || r.flip());
        for (size_t b = 0; b < k.w.len; ++b) k.w.w[i][b] = (k.s.mins[i] == like ? 1 : -1) * (1 << b);
        k.w.w[i][k.w.len] = 0;
    }
    for (auto& x : k.pop) { x.invalidateObjectiveVector(); k.w.put(x); }
    k.w.log.clear(); k.w.evals = 0;
    for (auto& x : k.pop) k.w.put(x);
    moeoUnboundedArchive<Bits> arch(false);
    struct Go : public eoContinue<Bits> { bool operator()(const eoPop<Bits>&) { event("step"); return true; } } go;
    moeoExhaustiveNeighborhoodExplorer<Flip> ex(k.hood, k.ne);
    moeoSimpleSubNeighborhoodExplorer<Flip> sub(k.hood, (unsigned)k.w.len, k.ne);
    moeoNumberUnvisitedSelect<Bits> some(8);
    moeoExhaustiveUnvisitedSelect<Bits> all;
    typedef moeoUnifiedDominanceBasedLS<Flip> U;
    std::shared_ptr<U> ls;
    const char* name;
    switch (idx % 4) {
    case 0: name = "pls1"; ls = std::make_shared<moeoPLS1<Flip>>(go, k.ev, arch, k.hood, k.ne); break;
    case 1: name = "pls2"; ls = std::make_shared<moeoPLS2<Flip>>(go, k.ev, arch, k.hood, k.ne); break;
    case 2: name = "exhaustive"; ls = std::make_shared<U>(go, k.ev, arch, ex, some); break;
    default: name = "sub"; ls = std::make_shared<U>(go, k.ev, arch, sub, all);
    }
    (*ls)(k.pop);
    event(name);
    k.w.right(arch, "archive of the local search", 0);
    std::set<V> have;
    for (auto& x : arch) have.insert(plain(x.objectiveVector()));
    CHECK(arch.size() == have.size() && have.size() == (size_t)1 << k.w.len, "local-optimum", name, " ended by itself with ", arch.size(), " solutions of which ", have.size(), " differ, while all ", 1 << k.w.len, " are trade-offs within reach");
    event("whole-space"); if (have.size() > 256) event("large");
    state(mix(k.w.evals, mix(k.w.len, idx % 4)));
}

UNIT(hybrid, 400, 8000, "operator,updater,improved,not-due,own-archive,several") {
    Quiet q;
    Kit k(r, 2, 9);
    moeoExhaustiveNeighborhoodExplorer<Flip> ex(k.hood, k.ne);
    moeoExhaustiveUnvisitedSelect<Bits> all;
    unsigned step = (unsigned)r.range(1, 4);
    moeoUnboundedArchive<Bits> mine(false);
    k.w.log.clear();
    if (idx % 2) {
        int how = (int)r.below(3);
        eoGenContinue<Bits> gc(step);
        moeoUnifiedDominanceBasedLS<Flip> dmls(gc, k.ev, mine, ex, all);
        std::shared_ptr<moeoDMLSMonOp<Flip>> op;
        if (how == 0) op = std::make_shared<moeoDMLSMonOp<Flip>>(dmls, mine, false);
        else if (how == 1) op = std::make_shared<moeoDMLSMonOp<Flip>>(k.ev, ex, all, step, false);
        else op = std::make_shared<moeoDMLSMonOp<Flip>>(k.ev, mine, ex, all, step, false);
        for (size_t i = 0; i < k.pop.size(); ++i) {
            V before = k.w.of(k.pop[i]);
            if (how == 0) gc.totalGenerations(step);
            (*op)(k.pop[i]);
            k.w.right(k.pop[i], "solution improved by local search");
            V after = k.w.of(k.pop[i]);
            CHECK(!k.s.dom(before, after), "worse", "local search as an operator returns a solution that the one it was given dominates: ", show(after), " for ", show(before));
            if (k.s.dom(after, before)) event("improved");
            if (i) event("several");
            if (how != 1) k.w.holds(mine, "archive of the local search operator");
        }
        if (how == 2) event("own-archive");
        event("operator");
    } else {
        moeoUnboundedArchive<Bits> global(r.flip());
        for (auto& x : k.pop) { k.w.put(x); global(x); }
        unsigned every = (unsigned)r.range(1, 3);
        eoGenContinue<Bits> due(every), gc(step);
        moeoUnifiedDominanceBasedLS<Flip> dmls(gc, k.ev, mine, ex, all);
        std::shared_ptr<moeoDMLSGenUpdater<Flip>> up;
        int how = (int)r.below(3);
        if (how == 0) up = std::make_shared<moeoDMLSGenUpdater<Flip>>(dmls, mine, global, due, false);
        else if (how == 1) up = std::make_shared<moeoDMLSGenUpdater<Flip>>(k.ev, ex, all, global, due, step, false);
        else up = std::make_shared<moeoDMLSGenUpdater<Flip>>(k.ev, mine, ex, all, global, due, step, false);
        for (unsigned t = 1; t <= every; ++t) {
            size_t evals = k.w.evals;
            (*up)();
            CHECK((k.w.evals > evals) == (t == every), "due", "local search every ", every, " generations ", k.w.evals > evals ? "ran" : "did not run", " at generation ", t);
            k.w.holds(global, "archive improved by local search");
            if (t < every) event("not-due");
        }
        // further periods: never off schedule, whatever is left to visit
        for (unsigned t = 1; t <= 2 * every; ++t) {
            if (how == 0) gc.totalGenerations(step);
            size_t evals = k.w.evals;
            (*up)();
            if (k.w.evals > evals) { CHECK(t % every == 0, "due", "local search every ", every, " generations ran ", t, " generations after its first run"); event("period"); }
            k.w.holds(global, "archive improved by local search");
        }
        event("updater");
    }
    state(mix(k.w.evals, idx % 2));
}

// one exploration: what was evaluated, what of it is handed over, who counts as visited
UNIT(explorers, 400, 8000, "all,first,no-worse,sub,part,whole,several-selected") {
    Quiet q;
    Kit k(r, 1, 11);
    for (auto& x : k.pop) { if (x.invalidObjectiveVector()) k.w.put(x); x.flag(0); }
    unsigned number = (unsigned)r.range(0, (long)k.w.len + 2);
    moeoExhaustiveNeighborhoodExplorer<Flip> ex(k.hood, k.ne);
    moeoFirstImprovingNeighborhoodExplorer<Flip> fi(k.hood, k.ne);
    moeoNoDesimprovingNeighborhoodExplorer<Flip> nd(k.hood, k.ne);
    moeoSimpleSubNeighborhoodExplorer<Flip> sub(k.hood, number, k.ne);
    moeoPopNeighborhoodExplorer<Flip>* e[] = {&ex, &fi, &nd, &sub};
    const char* names[] = {"all", "first", "no-worse", "sub"};
    int how = (int)(idx % 4);
    std::vector<unsigned> chosen;
    for (unsigned i = 0; i < k.pop.size(); ++i) if (r.flip(0.7)) chosen.push_back(i);
    for (size_t i = chosen.size(); i > 1; --i) std::swap(chosen[i - 1], chosen[(size_t)r.below(i)]);
    eoPop<Bits> dest, src = k.pop;
    size_t kept = r.flip(0.3) ? 2 : 0;
    for (size_t i = 0; i < kept; ++i) dest.push_back(k.pop[0]);
    k.w.log.clear();
    (*e[how])(k.pop, chosen, dest);
    size_t at = 0, out = kept;
    std::vector<bool> visited(src.size(), false);
    for (unsigned c : chosen) {
        Gene g = gene(src[c]); V own = k.w.of(g);
        std::set<Gene> seen;
        bool over = how == 3 && number == 0;
        while (!over && seen.size() < k.w.len) {
            CHECK(at < k.w.log.size(), "explored", names[how], ": ", at, " neighbours evaluated, more of solution ", c, " were due");
            const Seen& n = k.w.log[at++];
            size_t d = 0;
            for (size_t i = 0; i < g.size(); ++i) d += g[i] != n.g[i];
            CHECK(d == 1 && seen.insert(n.g).second, "explored", names[how], ": evaluated ", d ? "a stranger or a neighbour twice" : "the solution itself", " exploring solution ", c);
            bool hand = how == 0 || how == 3 || !k.s.dom(own, n.v);
            if (hand) {
                CHECK(out < dest.size() && gene(dest[out]) == n.g && plain(dest[out].objectiveVector()) == n.v && dest[out].flag() == 0, "handed", names[how], ": neighbour ", seen.size(), " of solution ", c, " missing or wrong in the result");
                ++out;
            }
            over = how == 1 ? k.s.dom(n.v, own) : how == 2 ? hand : how == 3 ? seen.size() == number : false;
        }
        visited[c] = seen.size() == k.w.len;
        event(visited[c] ? "whole" : "part");
    }
    CHECK(at == k.w.log.size(), "explored", names[how], ": ", k.w.log.size(), " neighbours evaluated, ", at, " expected");
    CHECK(out == dest.size(), "handed", names[how], ": ", dest.size(), " solutions handed over, ", out, " expected");
    for (size_t i = 0; i < src.size(); ++i) {
        CHECK(gene(k.pop[i]) == gene(src[i]) && k.pop[i].objectiveVector() == src[i].objectiveVector(), "source", names[how], ": explored solution ", i, " changed");
        CHECK((k.pop[i].flag() == 1) == visited[i], "visited", names[how], ": solution ", i, visited[i] ? " fully explored, but not marked" : " not fully explored, but marked visited");
    }
    event(names[how]); if (chosen.size() > 1) event("several-selected");
    state(mix(k.w.log.size(), mix(k.w.len, how)));
}
