// C26: replacement and selection of multi-objective algorithms, one step at a time.
#include "c26.h"
#include <continue/moeoHypContinue.h>
using namespace mob;

namespace {
typedef std::pair<double, double> FD;
// gives every individual (tagged by its first gene) values from a table; deletions shift them
struct TableFitness : public moeoFitnessAssignment<RInd> {
    std::vector<double>& f;
    std::vector<V>& v;
    std::function<void(size_t, const V&)> shift;
    size_t assigned = 0;
    std::vector<size_t> deleted;
    TableFitness(std::vector<double>& f_, std::vector<V>& v_) : f(f_), v(v_) {}
    void operator()(eoPop<RInd>& p) { ++assigned; for (size_t i = 0; i < p.size(); ++i) p[i].fitness(f[(size_t)p[i][0]]); }
    void updateByDeleting(eoPop<RInd>& p, OV& o) {
        V d = plain(o);
        event("update");
        for (size_t i = 0; i < p.size(); ++i) { size_t id = (size_t)p[i][0]; f[id] += std::fabs(v[id][0] - d[0]) * 0.37 + (double)(id % 3) * 0.11; p[i].fitness(f[id]); }
    }
};
struct TableDiversity : public moeoDiversityAssignment<RInd> {
    std::vector<double>& f;
    TableDiversity(std::vector<double>& f_) : f(f_) {}
    void operator()(eoPop<RInd>& p) { for (size_t i = 0; i < p.size(); ++i) p[i].diversity(f[(size_t)p[i][0]]); }
    void updateByDeleting(eoPop<RInd>&, OV&) {}
};
}

UNIT(elitist, 4000, 80000, "kept,ties,no-offspring,no-parents,diversity-first,default-diversity,large,all-replaced,none-replaced") {
    Setup s(r, 1, 3);
    Quiet q;
    bool large = idx % 100 == 0;
    size_t np = large ? (size_t)r.range(300, 700) : r.size(0, 20), no = large ? (size_t)r.range(300, 700) : r.size(0, 20);
    std::vector<double> f, d;
    std::vector<V> v;
    eoPop<RInd> par, off;
    int levels = r.flip() ? (int)r.range(1, 4) : 1000;
    for (size_t i = 0; i < np + no; ++i) {
        f.push_back((double)r.range(0, levels) * 0.5 - 3); d.push_back(r.flip(0.1) ? std::numeric_limits<double>::max() : (double)r.range(0, levels));
        OV o; for (unsigned k = 0; k < s.n; ++k) o[k] = (double)r.range(-9, 9);
        v.push_back(plain(o));
        (i < np ? par : off).push_back(tagged(o, i));
    }
    TableFitness tf(f, v);
    TableDiversity td(d);
    int how = (int)r.below(4); // 0 both and comparator, 1 fitness and diversity, 2 fitness and comparator, 3 fitness
    moeoFitnessThenDiversityComparator<RInd> fd;
    moeoDiversityThenFitnessComparator<RInd> df;
    bool divFirst = r.flip() && (how == 0 || how == 2);
    moeoComparator<RInd>& cmp = divFirst ? (moeoComparator<RInd>&)df : (moeoComparator<RInd>&)fd;
    std::shared_ptr<moeoElitistReplacement<RInd>> rep;
    if (how == 0) rep = std::make_shared<moeoElitistReplacement<RInd>>(tf, td, cmp);
    else if (how == 1) rep = std::make_shared<moeoElitistReplacement<RInd>>(tf, td);
    else if (how == 2) rep = std::make_shared<moeoElitistReplacement<RInd>>(tf, cmp);
    else rep = std::make_shared<moeoElitistReplacement<RInd>>(tf);
    (*rep)(par, off);
    CHECK(par.size() == np, "size", "elitist replacement: ", np, " parents and ", no, " offspring became ", par.size());
    CHECK(off.empty(), "offspring-left", "elitist replacement leaves ", off.size(), " offspring");
    auto key = [&](size_t id) { double x = how < 2 ? d[id] : 0; return divFirst ? FD(x, f[id]) : FD(f[id], x); };
    std::set<size_t> in;
    std::vector<FD> got, all;
    for (auto& x : par) {
        size_t id = (size_t)x[0];
        CHECK(id < np + no && in.insert(id).second && plain(x.objectiveVector()) == v[id], "survivor", "elitist replacement: individual ", id, " was altered or doubled");
        CHECK(x.fitness() == f[id], "survivor-fitness", "elitist replacement: a survivor has fitness ", x.fitness(), ", assigned ", f[id]);
        got.push_back(key(id));
    }
    for (size_t i = 0; i < np + no; ++i) all.push_back(key(i));
    std::sort(all.rbegin(), all.rend()); std::sort(got.rbegin(), got.rend());
    all.resize(np);
    CHECK(all == got, "best-kept", "elitist replacement (", divFirst ? "diversity first" : "fitness first", "): ", np, " parents, ", no, " offspring, the survivors are not the best ranked: (", got.empty() ? 0 : got.back().first, ",", got.empty() ? 0 : got.back().second, ") was kept last, expected (", all.empty() ? 0 : all.back().first, ",", all.empty() ? 0 : all.back().second, ")");
    event("kept");
    size_t fresh = 0; for (size_t id : in) if (id >= np) ++fresh;
    if (np && fresh == np) event("all-replaced");
    if (np && no && !fresh) event("none-replaced");
    if (levels < 10) event("ties");
    if (!no) event("no-offspring");
    if (!np) event("no-parents");
    if (divFirst) event("diversity-first");
    if (how >= 2) event("default-diversity");
    if (large) event("large");
    state(mix(hvec(f), np));
}

UNIT(environmental, 3000, 60000, "kept,update,no-offspring,one-removed,many-removed") {
    Setup s(r, 1, 3);
    Quiet q;
    size_t np = r.size(0, 14), no = r.size(0, 14);
    std::vector<double> f;
    std::vector<V> v;
    eoPop<RInd> par, off;
    for (size_t i = 0; i < np + no; ++i) {
        f.push_back(r.u01() * 10);
        OV o; for (unsigned k = 0; k < s.n; ++k) o[k] = r.u01() * 9;
        v.push_back(plain(o));
        (i < np ? par : off).push_back(tagged(o, i));
    }
    auto f0 = f;
    TableFitness tf(f, v);
    std::vector<double> zero(np + no, 0.0);
    TableDiversity td(zero);
    moeoFitnessThenDiversityComparator<RInd> fd;
    std::shared_ptr<moeoEnvironmentalReplacement<RInd>> rep;
    int how = (int)r.below(4);
    if (how == 0) rep = std::make_shared<moeoEnvironmentalReplacement<RInd>>(tf, td, fd);
    else if (how == 1) rep = std::make_shared<moeoEnvironmentalReplacement<RInd>>(tf, td);
    else if (how == 2) rep = std::make_shared<moeoEnvironmentalReplacement<RInd>>(tf, fd);
    else rep = std::make_shared<moeoEnvironmentalReplacement<RInd>>(tf);
    (*rep)(par, off);
    CHECK(par.size() == np, "size", "environmental replacement: ", np, " parents and ", no, " offspring became ", par.size());
    CHECK(off.empty(), "offspring-left", "environmental replacement leaves ", off.size(), " offspring");
    // the worst leaves, the others are assessed again, and so on
    std::set<size_t> want, got;
    for (size_t i = 0; i < np + no; ++i) want.insert(i);
    for (size_t k = 0; k < no; ++k) {
        size_t worst = *want.begin();
        for (size_t i : want) if (f0[i] < f0[worst]) worst = i;
        want.erase(worst);
        for (size_t i : want) f0[i] += std::fabs(v[i][0] - v[worst][0]) * 0.37 + (double)(i % 3) * 0.11;
    }
    for (auto& x : par) {
        size_t id = (size_t)x[0];
        CHECK(id < np + no && got.insert(id).second && plain(x.objectiveVector()) == v[id], "survivor", "environmental replacement: individual ", id, " was altered or doubled");
        if (want.count(id)) CHECK(close(x.fitness(), f0[id]), "survivor-fitness", "environmental replacement: a survivor has fitness ", x.fitness(), ", expected ", f0[id]);
    }
    CHECK(got == want, "best-kept", "environmental replacement: ", np, " parents and ", no, " offspring, survivors ", show(got), ", expected ", show(want));
    event("kept");
    event(no == 0 ? "no-offspring" : no == 1 ? "one-removed" : "many-removed");
    state(hvec(f));
}

UNIT(generational, 400, 8000, "replaced") {
    Setup s(r, 1, 3);
    size_t np = r.size(1, 14);
    eoPop<RInd> par, off;
    for (size_t i = 0; i < 2 * np; ++i) { OV o; (i < np ? par : off).push_back(tagged(o, i)); }
    moeoGenerationalReplacement<RInd> rep;
    rep(par, off);
    CHECK(par.size() == np, "size", "generational replacement changes the size");
    std::set<size_t> in;
    for (auto& x : par) in.insert((size_t)x[0]);
    CHECK(in.size() == np && *in.begin() == np, "offspring-kept", "generational replacement does not keep the offspring");
    event("replaced");
    state(np);
}

UNIT(selectors, 900, 12000, "archive-all,archive-some,archive-repeated,exhaustive,number,number-all,tournament,stochastic,pop-or-archive,roulette") {
    Setup s(r, 1, 2);
    Quiet q;
    size_t n = (size_t)r.range(1, 12);
    moeoUnboundedArchive<RInd> arch;
    for (size_t i = 0; i < n; ++i) { OV o; RInd x = tagged(o, i); x.fitness((double)i); x.diversity(0); x.flag(r.flip() ? 1 : 0); arch.push_back(x); }
    eoPop<RInd> pop;
    for (auto& x : arch) pop.push_back(x);
    switch (idx % 6) {
    case 0: {
        unsigned mn = (unsigned)r.below(16), mx = mn + (unsigned)r.below(16);
        moeoDetArchiveSelect<RInd> sel(arch, mx, mn);
        eoPop<RInd> dest;
        if (r.flip()) dest.push_back(pop[0]);
        sel(pop, dest);
        size_t want = std::min<size_t>(std::max<size_t>(n, mn), mx);
        CHECK(dest.size() == want, "archive-select", "of an archive of ", n, ", between ", mn, " and ", mx, " individuals wanted, ", dest.size(), " were selected");
        std::map<size_t, size_t> times;
        for (auto& x : dest) { CHECK((size_t)x[0] < n, "archive-select", "selected from outside the archive"); times[(size_t)x[0]]++; }
        for (auto& t : times) CHECK(t.second <= (want + n - 1) / n, "archive-select", "individual ", t.first, " of ", n, " was selected ", t.second, " times in ", want);
        event(n > mx ? "archive-some" : n < mn ? "archive-repeated" : "archive-all");
        break;
    }
    case 1: {
        std::set<unsigned> open;
        for (unsigned i = 0; i < n; ++i) if (arch[i].flag() == 0) open.insert(i);
        moeoExhaustiveUnvisitedSelect<RInd> ex;
        auto a = ex(arch);
        CHECK(std::set<unsigned>(a.begin(), a.end()) == open && a.size() == open.size(), "unvisited", "of ", open.size(), " unvisited individuals ", a.size(), " were selected");
        event("exhaustive");
        unsigned k = (unsigned)r.below(14);
        moeoNumberUnvisitedSelect<RInd> nu(k);
        auto b = nu(arch);
        std::set<unsigned> bs(b.begin(), b.end());
        bool ok = bs.size() == b.size() && b.size() == std::min<size_t>(k, open.size());
        for (unsigned i : b) ok = ok && open.count(i);
        CHECK(ok, "unvisited", "asked for ", k, " of ", open.size(), " unvisited individuals, got ", show(b));
        event(k < open.size() ? "number" : "number-all");
        break;
    }
    case 2: {
        unsigned t = (unsigned)r.range(1, 5);
        moeoDetTournamentSelect<RInd> sel(t);
        if (t < 2) t = 2;
        size_t N = 4000, top = (size_t)r.below(n);
        size_t hits = 0;
        for (size_t i = 0; i < N; ++i) if ((size_t)sel(pop)[0] > top) ++hits;
        double p = 1 - std::pow((double)(top + 1) / (double)n, (double)t);
        CHECK(!deviates((double)hits, (double)N, p), "tournament", "tournament of ", t, " among ", n, ": one of the best ", n - 1 - top, " wins ", hits, " times of ", N, ", expected ", p * (double)N);
        event("tournament");
        break;
    }
    case 3: {
        double t = r.pick(std::vector<double>{0.6, 0.8, 1.0, 0.1, 3.0});
        moeoStochTournamentSelect<RInd> sel(t);
        t = t < 0.5 ? 0.55 : t > 1 ? 1 : t;
        size_t N = 4000, top = (size_t)r.below(n), hits = 0;
        for (size_t i = 0; i < N; ++i) if ((size_t)sel(pop)[0] > top) ++hits;
        double lo = (double)(top + 1) / (double)n, up = 1 - lo;
        double p = t * (1 - lo * lo) + (1 - t) * up * up;
        CHECK(!deviates((double)hits, (double)N, p), "stochastic-tournament", "tournament at rate ", t, " among ", n, ": one of the best ", n - 1 - top, " wins ", hits, " times of ", N, ", expected ", p * (double)N);
        event("stochastic");
        break;
    }
    case 4: {
        eoPop<RInd> other;
        for (size_t i = 0; i < 5; ++i) { OV o; RInd x = tagged(o, 100 + i); x.fitness((double)i); x.diversity(0); other.push_back(x); }
        double ratio = r.pick(std::vector<double>{0, 0.3, 0.5, 1});
        moeoRandomSelect<RInd> rs;
        moeoDetTournamentSelect<RInd> dt(2);
        bool two = r.flip(), none = r.flip(0.2);
        moeoUnboundedArchive<RInd> empty;
        moeoArchive<RInd>& ar = none ? (moeoArchive<RInd>&)empty : (moeoArchive<RInd>&)arch;
        std::shared_ptr<moeoSelectFromPopAndArch<RInd>> sel = two ? std::make_shared<moeoSelectFromPopAndArch<RInd>>(rs, dt, ar, ratio) : std::make_shared<moeoSelectFromPopAndArch<RInd>>(rs, ar, ratio);
        sel->setup(other);
        size_t N = 3000, fromPop = 0;
        for (size_t i = 0; i < N; ++i) if ((*sel)(other)[0] >= 100) ++fromPop;
        double p = none ? 1 : ratio;
        CHECK(!deviates((double)fromPop, (double)N, p), "pop-or-archive", "selected ", fromPop, " times of ", N, " in the population, ratio ", p);
        event("pop-or-archive");
        break;
    }
    default: {
        double scale = r.pick(std::vector<double>{0.01, 0.3, 1, 50});
        double total = 0;
        for (auto& x : pop) { x.fitness((double)r.range(1, 9) * scale); total += x.fitness(); }
        moeoRouletteSelect<RInd> sel;
        size_t N = 4000, who = r.below(n), hits = 0;
        for (size_t i = 0; i < N; ++i) if ((size_t)sel(pop)[0] == who) ++hits;
        CHECK(!deviates((double)hits, (double)N, pop[who].fitness() / total), "roulette", "roulette among ", n, ": an individual with ", pop[who].fitness(), " of ", total, " was selected ", hits, " times of ", N);
        event("roulette");
    }
    }
    state(mix(n, idx % 6));
}

UNIT(hypervolume_continue, 600, 12000, "reached,not-reached") {
    Setup s(r, 2, 3);
    Quiet q;
    std::vector<V> opt;
    // integer coordinates, so that volumes are exact
    for (int k = (int)r.range(1, 6); k > 0; --k) { V v; for (unsigned i = 0; i < s.n; ++i) v.push_back((double)r.range(1, 9)); opt.push_back(v); }
    std::vector<V> clean;
    for (auto& v : opt) { bool ok = true; for (auto& u : opt) if (s.dom(u, v)) ok = false; for (auto& u : clean) if (u == v) ok = false; if (ok) clean.push_back(v); }
    std::vector<double> flat;
    for (auto& v : clean) for (double x : v) flat.push_back(x);
    moeoUnboundedArchive<RInd> arch;
    auto put = [&](const V& v) { OV o; for (unsigned i = 0; i < s.n; ++i) o[i] = v[i]; arch(tagged(o, 0)); };
    OV ref;
    for (unsigned i = 0; i < s.n; ++i) ref[i] = s.mins[i] ? 12 : -2;
    moeoHypContinue<RInd> cont(flat, arch, false, ref);
    eoPop<RInd> pop;
    // one worse point, then the optimum point by point
    V bad; for (unsigned i = 0; i < s.n; ++i) bad.push_back(s.mins[i] ? 11 : -1);
    put(bad);
    CHECK(cont(pop), "continue", "the run stops although the optimal front is not reached");
    for (size_t k = 0; k < clean.size(); ++k) {
        put(clean[k]);
        bool goes = cont(pop), last = k + 1 == clean.size();
        CHECK(goes == !last, "continue", "with ", k + 1, " of the ", clean.size(), " optimal points found the run ", goes ? "goes on" : "stops");
        event(last ? "reached" : "not-reached");
    }
    state(mix(hvec(flat), s.n));
}
