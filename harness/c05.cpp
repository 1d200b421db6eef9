// C05: selection returns members, in the right number and with the right pressure.
#include "eoh.h"
#include <eoDetSelect.h>
#include <eoFitnessScalingSelect.h>
#include <eoLinearFitScaling.h>
#include <eoRankMuSelect.h>
#include <eoRanking.h>
#include <eoRankingCached.h>
#include <eoRankingSelect.h>
#include <eoSelectFromWorth.h>
#include <eoSelectNumber.h>
#include <eoSelectPerc.h>
#include <eoSharing.h>
#include <eoSharingSelect.h>
#include <eoStochasticUniversalSelect.h>
#include <eoTruncSelect.h>
#include <eoTruncatedSelectMany.h>
#include <eoTruncatedSelectOne.h>
using namespace eoh;
typedef Ind<double> MaxI;
typedef Ind<MinF> MinI;
template <class E> bool maximised() { return good(typename E::Fitness(1.0)) > 0; }
static unsigned popSize(Rand& r, unsigned lo) { return r.flip(0.05) ? (unsigned)r.range(257, 320) : (unsigned)r.size(lo, 25); }

template <class E> struct IdDist : public eoDistance<E> {
    double operator()(const E& a, const E& b) { return std::fabs((double)a.id - b.id); }
};
static const char* oneName[] = {"random", "best", "no", "sequential", "shuffled", "elite", "elite-sequential", "det-tournament", "stoch-tournament", "ranking", "scaling", "ranking-cached", "worth-det", "worth-stoch", "truncated", "proportional", "sus", "sharing"};
template <class E> struct OneSet {
    IdDist<E> dist;
    std::unique_ptr<eoPerf2Worth<E>> worth;
    std::unique_ptr<eoSelectOne<E>> inner, sel;
};
// kinds >= 15 need a maximised non-negative fitness
template <class E> void mkOne(OneSet<E>& s, Rand& r, int kind) {
    switch (kind) {
    case 0: s.sel.reset(new eoRandomSelect<E>); break;
    case 1: s.sel.reset(new eoBestSelect<E>); break;
    case 2: s.sel.reset(new eoNoSelect<E>); break;
    case 3: s.sel.reset(r.flip() ? new eoSequentialSelect<E>(true) : new eoSequentialSelect<E>); break;
    case 4: s.sel.reset(new eoSequentialSelect<E>(false)); break;
    case 5: s.sel.reset(new eoEliteSelect<E>); break;
    case 6: s.sel.reset(new eoEliteSequentialSelect<E>); break;
    case 7: s.sel.reset(new eoDetTournamentSelect<E>((unsigned)r.range(2, 7))); break;
    case 8: s.sel.reset(new eoStochTournamentSelect<E>(r.real(0.5, 1))); break;
    case 9: s.sel.reset(new eoRankingSelect<E>(r.real(1.01, 2.0), r.flip() ? 1.0 : r.real(0.3, 3))); break;
    case 10: s.sel.reset(new eoFitnessScalingSelect<E>(r.real(1.01, 2.0))); break;
    case 11: s.worth.reset(new eoRankingCached<E>(r.real(1.01, 2.0), r.flip() ? 1.0 : r.real(0.3, 3))); s.sel.reset(new eoRouletteWorthSelect<E>(*s.worth)); break;
    case 12: s.worth.reset(new eoRanking<E>(1.5)); s.sel.reset(new eoDetTournamentWorthSelect<E>(*s.worth, (unsigned)r.range(2, 5))); break;
    case 13: s.worth.reset(new eoRanking<E>(1.5)); s.sel.reset(new eoStochTournamentWorthSelect<E>(*s.worth, r.real(0.5, 1))); break;
    case 14: s.inner.reset(new eoRandomSelect<E>); s.sel.reset(new eoTruncatedSelectOne<E>(*s.inner, r.real(0.2, 1))); break;
    case 15: s.sel.reset(new eoProportionalSelect<E>); break;
    case 16: s.sel.reset(new eoStochasticUniversalSelect<E>); break;
    default: s.sel.reset(new eoSharingSelect<E>(r.real(0.5, 5), s.dist));
    }
}
// a selector seldom is new: it has been set up with what this population was before (mostly the same members, part of the
// fitnesses moved around, sometimes another size) and perhaps not used up
template <class E> void earlier(eoSelectOne<E>& s, eoPop<E>& pop, Rand& r, unsigned lo) {
    const eoPop<E> now = pop;
    switch (r.below(5)) {
    case 0: return;
    case 1: { size_t k = r.below(pop.size()); for (size_t i = k; i < pop.size(); ++i) pop[i].fitness(now[pop.size() - 1 - (i - k)].fitness()); break; }
    case 2: { size_t k = r.below(pop.size()), j = r.below(pop.size()); auto f = now[k].fitness(); pop[k].fitness(now[j].fitness()); pop[j].fitness(f); break; }
    case 3: for (size_t i = 1; i + 1 < pop.size(); ++i) pop[i].fitness(now[r.below(pop.size())].fitness()); break;
    default: if (r.flip() && pop.size() > lo) pop.resize(lo + r.below(pop.size() - lo)); else pop.push_back(now[r.below(now.size())]);
    }
    s.setup(pop);
    for (size_t k = r.flip() ? r.below(pop.size()) : r.below(3 * pop.size()); k; --k) s(pop);
    pop = now;
    event("used-before");
}
template <class E> void memberCase(Rand& r, u64 idx) {
    Quiet q;
    int kind = (int)(idx % (maximised<E>() ? 18 : 15));
    OneSet<E> s;
    mkOne(s, r, kind);
    unsigned lo = (kind == 6 || (kind >= 9 && kind <= 13 && kind != 10) || kind == 17) ? 2 : 1; // these refuse a single individual
    for (int rnd = 0; rnd < 3; ++rnd) {
        unsigned n = popSize(r, lo);
        eoPop<E> pop = makePop<E>(r, n, 0);
        if (kind >= 15) {
            int z = (int)r.below(4);
            for (auto& e : pop) e.fitness(z == 0 ? 0.0 : z == 1 ? (double)r.below(3) : r.real(0, 9));
        }
        u64 h0 = hpop(pop);
        std::map<int, std::pair<int, double>> pool;
        addTo(pool, pop);
        earlier(*s.sel, pop, r, lo);
        s.sel->setup(pop);
        for (unsigned k = 0; k < 2 * n + 3; ++k) {
            const E& e = (*s.sel)(pop);
            event("one");
            auto it = pool.find(e.id);
            if (it == pool.end() || e.invalid() || val(e) != it->second.second) { fail(cat("not-a-member-", oneName[kind]), cat("#", e.id, " out of ", showPop(pop))); return; }
            if (k < 3) state(mix(h0, mix(e.id, kind)));
            if (kind == 1 || kind == 5) CHECK(qual(e) == bestQ(pop), cat("not-best-", oneName[kind]), "selected quality ", qual(e), " best is ", bestQ(pop), " in ", showPop(pop));
        }
        CHECK(hpop(pop) == h0, cat("population-changed-", oneName[kind]), "selection changed the population");
        event(oneName[kind]);
    }
}
UNIT(member, 900, 12000, "one,random,best,no,sequential,shuffled,elite,elite-sequential,det-tournament,stoch-tournament,ranking,scaling,ranking-cached,worth-det,worth-stoch,truncated,proportional,sus,sharing") { if (r.flip()) memberCase<MaxI>(r, idx); else memberCase<MinI>(r, idx); }

// Sequential selections: passes in the documented order, nobody twice in a pass.
template <class E> void sequentialCase(Rand& r, u64 idx) {
    Quiet q;
    int kind = (int)(idx % 4);
    OneSet<E> s;
    mkOne(s, r, kind == 0 ? 2 : kind == 1 ? 3 : kind == 2 ? 4 : 6);
    unsigned n = popSize(r, kind == 3 ? 2 : 1);
    eoPop<E> pop = makePop<E>(r, n, 0);
    bool setup = r.flip();
    if (setup) { if (kind) earlier(*s.sel, pop, r, kind == 3 ? 2 : 1); s.sel->setup(pop); }
    int passes = 3;
    for (int p = 0; p < passes; ++p) {
        std::vector<int> seq;
        std::vector<double> qs;
        for (unsigned k = 0; k < n; ++k) { const E& e = (*s.sel)(pop); seq.push_back(e.id); qs.push_back(qual(e)); event("sequential_draws"); }
        std::set<int> distinct(seq.begin(), seq.end());
        CHECK(distinct.size() == n, cat("pass-repeats-", kind), "pass ", p, " over ", n, ": ", show(seq));
        if (kind == 0) CHECK(std::is_sorted(seq.begin(), seq.end()), "no-select-order", show(seq));
        if (kind == 1) CHECK(std::is_sorted(qs.rbegin(), qs.rend()), "ordered-not-sorted", show(qs));
        if (kind == 3) CHECK(qs[0] == bestQ(pop), "elite-sequential-first", show(qs));
        state(mix(hpop(pop), hvec(seq, kind)));
    }
    // through a multi-selector: sizes and multiplicities
    unsigned want = (unsigned)r.range(0, 3 * n);
    eoSelectNumber<E> many(*s.sel, want);
    eoPop<E> out = makePop<E>(r, (unsigned)r.below(6), 5000);
    many(pop, out);
    CHECK(out.size() == want, "number-size", out.size(), " instead of ", want);
    std::map<int, unsigned> c;
    for (auto& e : out) ++c[e.id];
    for (unsigned i = 0; i < n; ++i) CHECK(c[(int)i] == want / n || c[(int)i] == want / n + (want % n ? 1 : 0), "sequential-multiplicity", "individual ", i, " taken ", c[(int)i], " times in ", want, " of ", n);
}
UNIT(sequential, 400, 6000, "sequential_draws") { if (r.flip()) sequentialCase<MaxI>(r, idx); else sequentialCase<MinI>(r, idx); }

// Multi-selectors: exact counts, members only, deterministic ones exact.
template <class E> void manyCase(Rand& r, u64 idx) {
    Quiet q;
    unsigned n = popSize(r, 1);
    eoPop<E> pop = makePop<E>(r, n, 0), out = makePop<E>(r, (unsigned)r.below(40), 5000);
    u64 h0 = hpop(pop);
    eoDetTournamentSelect<E> t(2);
    eoRandomSelect<E> rs;
    eoSelectOne<E>& one = r.flip() ? (eoSelectOne<E>&)t : (eoSelectOne<E>&)rs;
    unsigned want = 0;
    int kind = (int)(idx % 7);
    double rate = (double)r.range(0, 20) / 8.0;
    unsigned ceilN = (unsigned)std::ceil(rate * n), k = (unsigned)r.range(1, 2 * n);
    bool count = r.flip();
    std::unique_ptr<eoSelect<E>> sel;
    int minus = (int)r.range(1, n);
    unsigned fertile = n;
    switch (kind) {
    case 0:
        if (r.flip(0.3)) { sel.reset(new eoSelectMany<E>(one, eoHowMany(-minus))); want = n - minus; }
        else if (count) { sel.reset(new eoSelectMany<E>(one, (double)k, false)); want = k; }
        else { sel.reset(new eoSelectMany<E>(one, rate)); want = ceilN; }
        break;
    case 1: sel.reset(new eoSelectNumber<E>(one, k)); want = k; break;
    case 2: sel.reset(new eoSelectPerc<E>(one, (float)rate)); want = (unsigned)std::floor(rate * n); break;
    case 3: sel.reset(new eoTruncSelect<E>(one, eoHowMany((int)k))); want = k; break;
    case 4: {
        fertile = (unsigned)r.range(1, n);
        sel.reset(new eoTruncatedSelectMany<E>(one, eoHowMany((int)k), eoHowMany((int)fertile)));
        want = k;
        break;
    }
    case 5:
        if (count) { sel.reset(new eoDetSelect<E>((double)k, false)); want = k; }
        else { sel.reset(new eoDetSelect<E>(rate)); want = std::max(1u, ceilN); }
        break;
    default: sel.reset(new eoRankMuSelect<E>(k)); want = k;
    }
    (*sel)(pop, out);
    event("many");
    state(mix(h0, hpop(out) + kind));
    CHECK(hpop(pop) == h0, cat("many-source-", kind), "source changed");
    CHECK(out.size() == want, cat("many-size-", kind), "selected ", out.size(), " instead of ", want, " of ", n, " rate ", rate);
    std::map<int, unsigned> c;
    auto sorted = quals(pop);
    for (auto& e : out) {
        ++c[e.id];
        if (e.id < 0 || e.id >= (int)n || e.invalid() || val(e) != val(pop[e.id])) { fail(cat("many-foreign-", kind), cat("#", e.id, " in ", showPop(out))); return; }
        if (kind == 4) CHECK(qual(e) >= sorted[fertile - 1], "truncated-many-infertile", "selected quality ", qual(e), " below the ", fertile, " best of ", showPop(pop));
    }
    if (kind == 5 || kind == 6) {
        for (unsigned i = 0; i < n; ++i) CHECK(c[(int)i] == want / n || (want % n && c[(int)i] == want / n + 1), cat("det-multiplicity-", kind), "individual ", i, " taken ", c[(int)i], " times, ", want, " of ", n);
        if (kind == 6 && out.size() == want) {
            std::vector<double> expect;
            for (unsigned i = 0; i < want; ++i) expect.push_back(sorted[i % n]);
            std::sort(expect.rbegin(), expect.rend());
            CHECK(quals(out) == expect, "mu-not-best", "the ", want, " best of ", showPop(pop), " gave ", showPop(out));
        }
    }
}
UNIT(many, 900, 12000, "many") { if (r.flip()) manyCase<MaxI>(r, idx); else manyCase<MinI>(r, idx); }

// truncated selection of one: only the best fraction is fertile
template <class E> void truncOneCase(Rand& r) {
    Quiet q;
    unsigned n = popSize(r, 1), f = (unsigned)r.range(1, n);
    eoPop<E> pop = makePop<E>(r, n, 0);
    eoRandomSelect<E> rs;
    eoTruncatedSelectOne<E> s(rs, eoHowMany((int)f));
    earlier(s, pop, r, n);
    s.setup(pop);
    auto sorted = quals(pop);
    std::set<int> seen;
    for (unsigned k = 0; k < 12 * n + 30; ++k) {
        const E& e = s(pop);
        seen.insert(e.id);
        event("truncated_one");
        if (e.id < 0 || e.id >= (int)n || val(e) != val(pop[e.id])) { fail("truncated-one-foreign", cat("#", e.id)); return; }
        CHECK(qual(e) >= sorted[f - 1], "truncated-one-infertile", "quality ", qual(e), " is not among the ", f, " best of ", showPop(pop));
    }
    CHECK(seen.size() <= f, "truncated-one-too-many", seen.size(), " different individuals selected, ", f, " fertile");
    state(mix(hpop(pop), f));
}
UNIT(truncated_one, 150, 2000, "truncated_one") { if (r.flip()) truncOneCase<MaxI>(r); else truncOneCase<MinI>(r); }

// Selection probabilities.
template <class E> void probCase(Rand& r, u64 idx) {
    Quiet q;
    int kinds[] = {0, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17};
    int kind = kinds[idx % (maximised<E>() ? 11 : 8)];
    unsigned n = (unsigned)r.range(2, 7);
    eoPop<E> pop;
    bool ties = r.flip(0.4);
    for (unsigned i = 0; i < n; ++i) pop.push_back(E((int)i, kind >= 15 ? (ties ? (double)r.range(0, 2) : r.real(0, 5)) : ties ? (double)r.range(0, 2) : r.real(-5, 5)));
    if (kind >= 15 && bestQ(pop) == 0) pop[r.below(n)].fitness(1.0);
    if (kind == 10 && r.flip(0.3)) for (auto& e : pop) e.fitness(4.0); // a converged population
    std::vector<double> p(n, 0);
    const int N = 12000;
    double pressure = r.real(1.05, 2), expo = r.flip() ? 1.0 : r.real(0.4, 2.5), rate = r.real(0.5, 1), sigma = r.real(0.6, 4);
    unsigned t = (unsigned)r.range(2, 5);
    OneSet<E> s;
    auto better = [&](unsigned i) { unsigned c = 0; for (unsigned j = 0; j < n; ++j) c += qual(pop[j]) > qual(pop[i]); return c; };
    auto equal = [&](unsigned i) { unsigned c = 0; for (unsigned j = 0; j < n; ++j) c += qual(pop[j]) == qual(pop[i]); return c; };
    auto worse = [&](unsigned i) { return n - better(i) - equal(i); };
    bool groups = true; // compare groups of equal fitness
    std::vector<double> w(n);
    double tot = 0;
    auto rankWorth = [&](unsigned i) { // average over the ranks the group of i may take
        double sum = 0;
        for (unsigned k = 0; k < equal(i); ++k) {
            double x = n - (better(i) + k);
            sum += expo == 1.0 ? (2 * pressure - 2) / (n * (n - 1.0)) * x + (2 - pressure) / n : (2 * pressure - 2) / n * std::pow(x / n, expo) + (2 - pressure) / n;
        }
        return sum / equal(i);
    };
    switch (kind) {
    case 0: s.sel.reset(new eoRandomSelect<E>); for (auto& x : p) x = 1.0 / n; groups = false; break;
    case 7: case 12:
        if (kind == 7) s.sel.reset(new eoDetTournamentSelect<E>(t));
        else { s.worth.reset(new eoRanking<E>(1.5)); s.sel.reset(new eoDetTournamentWorthSelect<E>(*s.worth, t)); }
        for (unsigned i = 0; i < n; ++i) p[i] = (std::pow((worse(i) + equal(i)) / (double)n, t) - std::pow(worse(i) / (double)n, t)) / equal(i);
        break;
    case 8: case 13:
        if (kind == 8) s.sel.reset(new eoStochTournamentSelect<E>(rate));
        else { s.worth.reset(new eoRanking<E>(1.5)); s.sel.reset(new eoStochTournamentWorthSelect<E>(*s.worth, rate)); }
        for (unsigned i = 0; i < n; ++i) p[i] = (equal(i) + 2 * rate * worse(i) + 2 * (1 - rate) * better(i)) / ((double)n * n);
        break;
    case 9: case 11:
        if (kind == 9) s.sel.reset(new eoRankingSelect<E>(pressure, expo));
        else { s.worth.reset(new eoRankingCached<E>(pressure, expo)); s.sel.reset(new eoRouletteWorthSelect<E>(*s.worth)); }
        for (unsigned i = 0; i < n; ++i) tot += w[i] = rankWorth(i);
        for (unsigned i = 0; i < n; ++i) p[i] = w[i] / tot;
        break;
    case 10: {
        s.sel.reset(new eoFitnessScalingSelect<E>(pressure));
        double best = bestQ(pop), avg = 0;
        for (auto& e : pop) avg += qual(e) / n;
        double denom = n * (best - avg);
        if (equal(0) == n) { for (auto& x : p) x = 1.0 / n; event("converged"); break; }
        for (unsigned i = 0; i < n; ++i) tot += w[i] = std::max(((pressure - 1) * qual(pop[i]) + best - pressure * avg) / denom, 0.0);
        for (unsigned i = 0; i < n; ++i) p[i] = w[i] / tot;
        break;
    }
    case 15: case 16:
        if (kind == 15) s.sel.reset(new eoProportionalSelect<E>); else s.sel.reset(new eoStochasticUniversalSelect<E>);
        for (auto& e : pop) tot += val(e);
        for (unsigned i = 0; i < n; ++i) p[i] = val(pop[i]) / tot;
        break;
    default: {
        IdDist<E> d;
        s.sel.reset(new eoSharingSelect<E>(sigma, s.dist));
        for (unsigned i = 0; i < n; ++i) {
            double sim = 0;
            for (unsigned j = 0; j < n; ++j) { double x = std::fabs((double)i - (double)j); sim += i == j ? 1 : x > sigma ? 0 : 1 - x / sigma; }
            tot += w[i] = val(pop[i]) / sim;
        }
        for (unsigned i = 0; i < n; ++i) p[i] = w[i] / tot;
        groups = false;
    }
    }
    std::vector<double> c(n, 0);
    earlier(*s.sel, pop, r, 2);
    s.sel->setup(pop);
    for (int k = 0; k < N; ++k) {
        const E& e = (*s.sel)(pop);
        if (e.id < 0 || e.id >= (int)n) { fail("prob-foreign", cat("#", e.id)); return; }
        ++c[e.id];
        event("probability_draws");
    }
    event(cat("prob-", oneName[kind]).c_str());
    state(hvec(c, kind));
    for (unsigned i = 0; i < n; ++i) {
        double got = c[i], want = p[i];
        if (groups) { got = want = 0; for (unsigned j = 0; j < n; ++j) if (qual(pop[j]) == qual(pop[i])) { got += c[j]; want += p[j]; } }
        CHECK(!deviates(got, N, want), cat("probability-", oneName[kind]), "individual ", i, " of ", showPop(pop), " selected ", got, " times of ", N, ", expected ", want * N, " (pressure ", pressure, " exponent ", expo, " rate ", rate, " size ", t, ")");
        if (p[i] == 0 && kind != 17) CHECK(c[i] == 0, cat("impossible-", oneName[kind]), "individual ", i, " of ", showPop(pop), " has probability 0 but was selected");
    }
}
UNIT(probability, 66, 660, "probability_draws,converged,prob-random,prob-det-tournament,prob-stoch-tournament,prob-ranking,prob-scaling,prob-ranking-cached,prob-worth-det,prob-worth-stoch,prob-proportional,prob-sus,prob-sharing,used-before") { if (idx % 3) probCase<MaxI>(r, idx / 2); else probCase<MinI>(r, idx / 2); }

// Stochastic universal sampling: in each batch of n everybody gets the floor or the ceiling of its share.
UNIT(sus_spread, 300, 4000, "sus_batches") {
    unsigned n = popSize(r, 1);
    eoPop<MaxI> pop;
    double tot = 0;
    int z = (int)r.below(3);
    for (unsigned i = 0; i < n; ++i) { double f = z == 0 ? (double)r.below(3) : z == 1 ? r.real(0, 4) : std::pow(10, r.real(-6, 6)); pop.push_back(MaxI((int)i, f)); tot += f; }
    eoStochasticUniversalSelect<MaxI> s;
    earlier(s, pop, r, 1);
    s.setup(pop);
    for (int b = 0; b < 3; ++b) {
        std::vector<unsigned> c(n, 0);
        for (unsigned k = 0; k < n; ++k) { const MaxI& e = s(pop); if (e.id < 0 || e.id >= (int)n) { fail("sus-foreign", "not a member"); return; } ++c[e.id]; }
        event("sus_batches");
        if (tot > 0) for (unsigned i = 0; i < n; ++i) {
            double share = n * val(pop[i]) / tot;
            CHECK(c[i] >= std::floor(share - 1e-6) && c[i] <= std::ceil(share + 1e-6), "sus-share", "individual ", i, " got ", c[i], " copies, share ", share, " in ", showPop(pop));
        }
        state(hvec(c, n));
    }
}

// Worths: ranking, cached ranking, scaling and sharing on whole populations.
template <class E> void worthCase(Rand& r) {
    Quiet q;
    unsigned n = popSize(r, 2);
    double pressure = r.real(1.01, 2), expo = r.flip() ? 1.0 : r.real(0.3, 3);
    eoRanking<E> rk(pressure, expo);
    eoRankingCached<E> rc(pressure, expo);
    for (int rnd = 0; rnd < 3; ++rnd) {
        if (rnd && r.flip()) n = popSize(r, 2);
        eoPop<E> pop = makePop<E>(r, n, 0);
        std::vector<double> want;
        for (unsigned i = 0; i < n; ++i) {
            double x = n - i;
            want.push_back(expo == 1.0 ? (2 * pressure - 2) / (n * (n - 1.0)) * x + (2 - pressure) / n : (2 * pressure - 2) / n * std::pow(x / n, expo) + (2 - pressure) / n);
        }
        eoPerf2Worth<E>* ws[] = {&rk, &rc};
        for (int k = 0; k < 2; ++k) {
            (*ws[k])(pop);
            std::vector<double> v = ws[k]->value();
            event("worths");
            if (v.size() != n) { fail("worth-size", cat(v.size())); return; }
            std::vector<std::pair<double, double>> by; // quality, worth
            for (unsigned i = 0; i < n; ++i) by.push_back(std::make_pair(qual(pop[i]), v[i]));
            std::sort(by.rbegin(), by.rend());
            for (unsigned i = 0; i < n; ++i) CHECK(close(by[i].second, want[i], 1e-9), cat("rank-worth-", k), "rank ", i, " of ", n, " has worth ", by[i].second, " instead of ", want[i]);
        }
        eoLinearFitScaling<E> sc(pressure);
        sc(pop);
        double best = bestQ(pop), avg = 0;
        for (auto& e : pop) avg += qual(e) / n;
        auto sorted = quals(pop);
        bool flat = sorted.front() == sorted.back();
        // compare where the scaling is well conditioned
        if (best - avg > 1e-6 * (std::fabs(best) + std::fabs(avg)))
            for (unsigned i = 0; i < n; ++i) {
                double w = std::max(((pressure - 1) * qual(pop[i]) + best - pressure * avg) / (n * (best - avg)), 0.0);
                CHECK(close(sc.value()[i], w, 1e-6, 1e-9), "scaled-worth", "individual ", i, " worth ", sc.value()[i], " instead of ", w);
            }
        if (flat) { event("flat"); for (unsigned i = 0; i < n; ++i) CHECK(std::isfinite(sc.value()[i]) && sc.value()[i] >= 0, "flat-worth", "worth ", sc.value()[i], " in a converged population"); }
        IdDist<E> d;
        double sigma = r.flip() ? r.real(0.5, 6) : r.real(0.5, 2 * n);
        if (n < 700 && maximised<E>()) {
            eoSharing<E> sh(sigma, d);
            sh(pop);
            for (unsigned i = 0; i < n; ++i) {
                double sim = 0;
                for (unsigned j = 0; j < n; ++j) { double x = std::fabs((double)i - (double)j); sim += i == j ? 1 : x > sigma ? 0 : 1 - x / sigma; }
                CHECK(close(sh.value()[i], val(pop[i]) / sim, 1e-9), "shared-worth", "individual ", i);
            }
            event("shared");
        }
        state(hpop(pop));
    }
}
UNIT(worth, 300, 4000, "worths,flat,shared") { if (r.flip()) worthCase<MaxI>(r); else worthCase<MinI>(r); }

// Sorting a population by worth keeps everybody with their worth.
template <class E> void sortPopCase(Rand& r) {
    Quiet q;
    unsigned n = popSize(r, 2);
    eoPop<E> pop = makePop<E>(r, n, 0);
    eoNoPerf2Worth<E> id;
    id(pop);
    std::map<int, double> w;
    for (unsigned i = 0; i < n; ++i) w[pop[i].id] = (double)id.value()[i];
    auto before = ids(pop);
    id.sort_pop(pop);
    event("sorted_by_worth");
    CHECK(ids(pop) == before, "sort-pop-members", "somebody lost");
    for (unsigned i = 0; i < n; ++i) {
        CHECK((double)id.value()[i] == w[pop[i].id], "sort-pop-worth", "worth separated from its individual");
        if (i) CHECK(!(id.value()[i - 1] < id.value()[i]), "sort-pop-order", "worths not decreasing");
        CHECK(w[pop[i].id] == val(pop[i]), "no-worth", "worth is not the fitness");
    }
    unsigned m = (unsigned)r.range(0, n);
    id.resize(pop, m);
    CHECK(pop.size() == m && id.value().size() == m, "sort-pop-resize", "sizes ", pop.size(), " ", id.value().size());
    state(hpop(pop));
}
UNIT(sort_pop, 200, 2500, "sorted_by_worth") { if (r.flip()) sortPopCase<MaxI>(r); else sortPopCase<MinI>(r); }
