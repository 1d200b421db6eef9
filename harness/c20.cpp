// C20: tabu search, annealing, iterated and variable-neighbourhood search obey their acceptance rules and return the best.
#include "c19.h"
#include <mo.h>
#include <time.h>
using namespace ls;
static double fakeNow = 1000;
static bool faking = false;
extern "C" time_t time(time_t* t) noexcept {
    time_t v;
    if (faking) { fakeNow += 0.01; v = (time_t)fakeNow; } else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (t) *t = v;
    return v;
}

// ---------------------------------------------------------------- tabu search
struct Entry { size_t key; G g; size_t at; long lo, hi; }; // tabu while age < lo for sure, never when age >= hi
struct TabuModel {
    int kind; // 0 moves, 1 solutions, 2 per index
    size_t max;
    long lo, hi; // duration, -1 for ever
    std::vector<Entry> ring;
    size_t next = 0;
    void add(size_t key, const G& g, size_t at) {
        Entry e{key, g, at, lo, hi};
        if (kind == 2) {
            if (key >= max) return;
            for (auto& x : ring) if (x.key == key) { x = e; return; }
            ring.push_back(e);
        } else if (max == 0) return;
        else if (ring.size() < max) ring.push_back(e);
        else { ring[next % max] = e; ++next; }
    }
    void check(size_t key, const G& g, size_t now, bool& must, bool& may) const {
        must = may = false;
        for (auto& e : ring) if (kind == 1 ? e.g == g : e.key == key) {
            long age = (long)(now - e.at);
            if (e.lo < 0) must = may = true;
            else { if (age < e.lo) must = true; if (age < e.hi) may = true; }
        }
    }
};
template <class S> void judgeTabu(const Land& land, Around around, Trace& t, const S& out, TabuModel m, bool aspire, const char* what) {
    G g = t.start.g;
    double best = Q<S>(land, g);
    CHECK(t.start.valid && t.start.q == best, "start-fitness", what, ": starts with a wrong fitness");
    for (size_t k = 0; k < t.steps.size(); ++k) {
        Step& st = t.steps[k];
        auto nb = around(g);
        double sure = -INFINITY;
        bool any = false;
        size_t key = nb.size();
        bool ok = false;
        for (size_t i = 0; i < nb.size(); ++i) {
            bool must, may;
            double q = Q<S>(land, nb[i]);
            m.check(i, nb[i], k, must, may);
            bool asp = aspire && q > best;
            if (!may || asp) { any = true; sure = std::max(sure, q); }
            if (nb[i] == st.after.g) { key = i; ok = !must || asp; if (must && asp) event("aspirated"); }
            if (must && !asp) event("tabu_refused");
        }
        double aq = Q<S>(land, st.after.g);
        CHECK(st.after.valid && st.after.q == aq, "fitness", what, ": after step ", k, " fitness is ", st.after.q, " instead of ", aq);
        for (auto& p : st.tried) CHECK(p.valid && p.q == Q<S>(land, p.g), "neighbour-fitness", what, ": wrong neighbour fitness");
        if (st.after.g == g) {
            CHECK(!any, "no-move", what, ": step ", k, " makes no move although one of quality ", sure, " is allowed");
            event("blocked");
        } else {
            CHECK(key < nb.size(), "no-neighbour", what, ": step ", k, " goes from ", show(g), " to ", show(st.after.g));
            CHECK(key == nb.size() || ok, "tabu-move", what, ": step ", k, " takes the tabu move ", key, " of quality ", aq, " (best so far ", best, ")");
            CHECK(aq >= sure, "not-best", what, ": step ", k, " takes quality ", aq, " although ", sure, " is allowed");
            m.add(key, st.after.g, k);
            event("tabu_move");
        }
        best = std::max(best, aq);
        g = st.after.g;
    }
    CHECK(!out.invalid() && qual(out) == Q<S>(land, vals(out)), "returned-fitness", what, ": returns fitness ", out.invalid() ? NAN : qual(out), " instead of ", Q<S>(land, vals(out)));
    CHECK(qual(out) == best, "returned", what, ": returns quality ", qual(out), ", best seen ", best);
    state(hvec(vals(out), mix((u64)m.kind, t.steps.size())));
}
template <class N> struct NoAspiration : public moAspiration<N> {
    typedef typename N::EOT S;
    void init(S&) {}
    void update(S&, N&) {}
    bool operator()(S&, N&) { return false; }
};
template <class S, class N> void tabu(Rand& r, moNeighborhood<N>& nh, Around around, unsigned n, bool perm, bool indexed, const char* what) {
    Land land(r);
    Full<S> full(land, r.flip());
    moFullEvalByModif<N> modif(full);
    moFullEvalByCopy<N> copy(full);
    Trace t;
    RecEval<N> ev(r.flip() ? (moEval<N>&)modif : (moEval<N>&)copy, t);
    RecCont<N> cont(t, (size_t)r.range(1, n > 60 ? 15 : 40));
    NoAspiration<N> none;
    moBestImprAspiration<N> better;
    bool aspire = r.flip(0.7);
    TabuModel m;
    std::shared_ptr<moTabuList<N>> list;
    size_t nbh = around(vals(make<S>(r, n, perm))).size();
    m.max = r.flip(0.1) ? 0 : (size_t)r.range(1, (int)std::min<size_t>(nbh + 3, 40));
    m.lo = m.hi = r.range(0, 8);
    int k = (int)r.below(indexed ? 5 : 2);
    if (k == 0) { m.kind = 0; list.reset(new moNeighborVectorTabuList<N>((unsigned)m.max, (unsigned)m.lo)); if (!m.lo) m.lo = m.hi = -1; }
    else if (k == 1) { m.kind = 1; list.reset(new moSolVectorTabuList<N>((unsigned)m.max, (unsigned)m.lo)); if (!m.lo) m.lo = m.hi = -1; }
    else if constexpr (std::is_base_of<moIndexNeighbor<S, typename S::Fitness>, N>::value) {
        m.kind = 2;
        if (r.flip(0.6)) m.max = nbh;
        if (k == 2) list.reset(new moIndexedVectorTabuList<N>((unsigned)m.max, (unsigned)m.lo));
        else if (k == 3) { m.hi = m.lo + r.range(1, 6); list.reset(new moIndexedVectorTabuList<N>((unsigned)m.max, (unsigned)m.lo, (unsigned)m.hi)); }
        else { m.hi = m.lo + r.range(1, 6); list.reset(new moRndIndexedVectorTabuList<N>((unsigned)m.max, (unsigned)m.lo, (unsigned)(m.hi - m.lo))); }
    }
    moTS<N> ts(nh, full, ev, cont, *list, aspire ? (moAspiration<N>&)better : none);
    for (int run = 0; run < 2; ++run) {
        S s = make<S>(r, n, perm);
        if (r.flip()) full(s);
        t = Trace();
        ts(s);
        std::string w = cat(what, ", list kind ", k, " size ", m.max, " duration ", m.lo, "..", m.hi);
        judgeTabu<S>(land, around, t, s, m, aspire, w.c_str());
    }
    static const char* evs[] = {"list_moves", "list_solutions", "list_index", "list_robust", "list_random"};
    event(evs[k]);
    // simple constructors, stopped by the clock
    if (r.flip(0.3)) {
        faking = true;
        moTS<N> a(nh, full, ev, 1, (unsigned)r.range(1, 6)), b(nh, full, ev, 1, *list);
        moTS<N>* both[] = {&a, &b};
        for (auto x : both) {
            S s = make<S>(r, n, perm);
            double q0 = Q<S>(land, vals(s));
            if (r.flip()) x->setContinuator(cont);
            (*x)(s);
            CHECK(!s.invalid() && qual(s) == Q<S>(land, vals(s)) && qual(s) >= q0, "returned-fitness", what, ": timed tabu search returns a wrong or worse fitness");
        }
        faking = false;
        event("timed_tabu");
    }
}
template <class B> void tabuBits(Rand& r) {
    Quiet q;
    unsigned n = r.flip(0.04) ? (unsigned)r.range(100, 300) : (unsigned)r.size(1, 14);
    typedef moBitNeighbor<typename B::Fitness> N;
    moOrderNeighborhood<N> order(n);
    moRndWithoutReplNeighborhood<N> without(n);
    if (r.flip()) tabu<B, N>(r, order, flips, n, false, true, "tabu, bit flips"); else tabu<B, N>(r, without, flips, n, false, true, "tabu, shuffled bit flips");
}
UNIT(tabu_bits, 400, 8000, "tabu_move,tabu_refused,aspirated,blocked,list_moves,list_solutions,list_index,list_robust,list_random,timed_tabu") { if (r.flip()) tabuBits<Bit>(r); else tabuBits<BitMin>(r); }
template <class P> void tabuPerm(Rand& r) {
    Quiet q;
    unsigned n = (unsigned)r.size(1, 7);
    if (r.flip()) { moSwapNeighborhood<P> nh; tabu<P, moSwapNeighbor<P>>(r, nh, swaps, n, true, false, "tabu, swaps"); }
    else { moTwoOptExNeighborhood<P> nh; tabu<P, moTwoOptExNeighbor<P>>(r, nh, reversals, n, true, false, "tabu, reversals"); }
    event("tabu_permutation");
}
UNIT(tabu_permutations, 300, 6000, "tabu_permutation,tabu_move,tabu_refused") { if (r.flip()) tabuPerm<Perm>(r); else tabuPerm<PermMin>(r); }
// tabu lists alone, against the model, under arbitrary call sequences
UNIT(tabu_lists, 400, 8000, "list_checked") {
    typedef moBitNeighbor<double> N;
    unsigned n = (unsigned)r.range(1, 10);
    TabuModel m;
    m.max = (size_t)r.range(0, 8);
    m.lo = m.hi = r.range(0, 6);
    bool lengthy = r.flip(0.1); // long prohibitions, many moves
    if (lengthy) { n = (unsigned)r.range(10, 300); m.max = (size_t)r.range(0, 400); m.lo = m.hi = r.range(200, 600); }
    int k = (int)r.below(3);
    std::shared_ptr<moTabuList<N>> list;
    m.kind = k;
    if (k == 0) list.reset(new moNeighborVectorTabuList<N>((unsigned)m.max, (unsigned)m.lo));
    else if (k == 1) list.reset(new moSolVectorTabuList<N>((unsigned)m.max, (unsigned)m.lo));
    else list.reset(new moIndexedVectorTabuList<N>((unsigned)m.max, (unsigned)m.lo));
    if (k < 2 && !m.lo) m.lo = m.hi = -1;
    Bit s(n, false);
    s.fitness(1);
    list->init(s);
    size_t now = 0;
    for (int op = 0; op < 60; ++op) {
        N x;
        x.index((unsigned)r.below(n));
        switch (r.below(5)) {
        case 0: case 1: { s[x.index()] = !s[x.index()]; list->add(s, x); m.add(x.index(), vals(s), now); break; }
        case 2: for (int u = lengthy ? r.range(1, 90) : 1; u > 0; --u) { list->update(s, x); ++now; } break;
        case 3: if (r.flip(0.1)) { if (r.flip()) list->init(s); else list->clearMemory(); m.ring.clear(); m.next = 0; } break;
        default: ;
        }
        for (unsigned i = 0; i < n; ++i) {
            N y;
            y.index(i);
            G g = vals(s);
            g[i] = !g[i];
            bool must, may;
            m.check(i, g, now, must, may);
            bool got = list->check(s, y);
            CHECK(got == must, "tabu-list", "list kind ", k, " size ", m.max, " duration ", m.lo, ": move ", i, (got ? " is" : " is not"), " tabu");
            G before = vals(s);
            CHECK(vals(s) == before, "tabu-list", "checking changes the solution");
        }
        event("list_checked");
    }
}
// diversification moves the solution; its fitness stays right
template <class S> struct Kick : public eoMonOp<S> {
    Rand* r;
    double p;
    bool inval;
    size_t calls = 0;
    Kick(Rand& x, double y, bool i = false) : r(&x), p(y), inval(i) {}
    bool operator()(S& s) { ++calls; if (!s.size() || !r->flip(p)) return false; size_t i = r->below(s.size()); s[i] = !s[i]; if (inval) s.invalidate(); return true; }
};
template <class B> void diversify(Rand& r) {
    typedef moBitNeighbor<typename B::Fitness> N;
    unsigned n = (unsigned)r.range(2, 12);
    Land land(r);
    Full<B> full(land, r.flip());
    moFullEvalByModif<N> ev(full);
    Trace t;
    RecEval<N> rec(ev, t);
    RecCont<N> cont(t, (size_t)r.range(2, 25));
    moOrderNeighborhood<N> nh(n);
    moNeighborComparator<N> nc;
    moSolNeighborComparator<N> sc;
    moNeighborVectorTabuList<N> list(4, 0);
    moDummyIntensification<N> di;
    Kick<B> kick(r, 0.4, r.flip());
    moMonOpDiversification<N> dv(kick, full);
    moBestImprAspiration<N> asp;
    moTS<N> ts(nh, full, rec, nc, sc, cont, list, di, dv, asp);
    B s = make<B>(r, n, false);
    ts(s);
    double best = t.start.q;
    for (auto& st : t.steps) {
        CHECK(st.after.valid && st.after.q == Q<B>(land, st.after.g), "fitness", "diversified tabu search: fitness ", st.after.q, " instead of ", Q<B>(land, st.after.g));
        for (auto& p : st.tried) CHECK(p.valid && p.q == Q<B>(land, p.g), "neighbour-fitness", "diversified tabu search: neighbour fitness ", p.q, " instead of ", Q<B>(land, p.g));
        best = std::max(best, st.after.q);
    }
    CHECK(!s.invalid() && qual(s) == Q<B>(land, vals(s)) && qual(s) >= best, "returned", "diversified tabu search returns quality ", qual(s), ", real ", Q<B>(land, vals(s)), ", best accepted ", best);
    event("diversified");
}
UNIT(tabu_diversification, 150, 3000, "diversified") { if (r.flip()) diversify<Bit>(r); else diversify<BitMin>(r); }

// ---------------------------------------------------------------- annealing
template <class S> struct RecCool : public moCoolingSchedule<S> {
    moCoolingSchedule<S>& in;
    std::vector<double> temps; // temperature used by iteration k
    std::vector<bool> acc;
    bool cont = true;
    RecCool(moCoolingSchedule<S>& i) : in(i) {}
    double init(S& s) { temps.clear(); acc.clear(); double t = in.init(s); temps.push_back(t); return t; }
    void update(double& t, bool a) { acc.push_back(a); in.update(t, a); temps.push_back(t); }
    bool operator()(double t) { CHECK(t == temps.back(), "temperature", "continuation asked for temperature ", t, " instead of ", temps.back()); return in(t); }
};
template <class B> void anneal(Rand& r) {
    Quiet q;
    typedef moBitNeighbor<typename B::Fitness> N;
    unsigned n = (unsigned)r.range(1, 14);
    Land land(r);
    land.scale = 1;
    if (land.kind == 3) land.kind = 0;
    Full<B> full(land, r.flip());
    moFullEvalByModif<N> ev(full);
    Trace t;
    RecEval<N> rec(ev, t);
    size_t limit = r.flip(0.2) ? (size_t)r.range(1, 50) : 4000;
    RecCont<N> cont(t, limit);
    moRndWithReplNeighborhood<N> nh(n);
    moRndWithoutReplNeighborhood<N> nh2(n);
    moNeighborhood<N>& nb = r.flip() ? (moNeighborhood<N>&)nh : nh2;
    bool dyn = r.flip(0.4);
    double T0 = r.flip(0.2) ? 0.001 : r.real(0.2, 12), alpha = r.real(0.5, 0.98), fin = T0 * r.real(0.001, 1.1);
    unsigned span = (unsigned)r.range(0, 150), tries = (unsigned)r.range(1, 80), mv = (unsigned)r.range(1, 40), nbs = (unsigned)r.range(0, 3);
    moSimpleCoolingSchedule<B> simple(T0, alpha, span, fin);
    moDynSpanCoolingSchedule<B> dynamic(T0, alpha, tries, mv, nbs);
    RecCool<B> cool(dyn ? (moCoolingSchedule<B>&)dynamic : simple);
    moSolNeighborComparator<N> comp;
    moSA<N> sa1(nb, full, rec, cool, cont), sa2(nb, full, rec, cool, comp, cont), sa3(nb, full, rec, cool), sa4(nb, full, rec, T0, alpha, span, fin);
    sa3.setContinuator(cont);
    sa4.setContinuator(cont);
    double sum = 0, var = 0;
    for (int run = 0; run < 2; ++run) {
        int w = (int)r.below(4);
        if (w == 3 && dyn) w = 0;
        moSA<N>& sa = w == 0 ? sa1 : w == 1 ? sa2 : w == 2 ? sa3 : sa4;
        B s = make<B>(r, n, false);
        if (r.flip()) full(s);
        t = Trace();
        sa(s);
        // model of the temperature
        double T = T0;
        unsigned step = 0, st = 0, sm = 0, idle = 0;
        G g = t.start.g;
        bool goOn = true;
        CHECK(t.start.valid && t.start.q == Q<B>(land, g), "start-fitness", "annealing starts with a wrong fitness");
        for (size_t k = 0; k < t.steps.size(); ++k) {
            CHECK(goOn, "goes-on", "annealing goes on after the end of its cooling schedule (step ", k, ")");
            Step& x = t.steps[k];
            if (w != 3) CHECK(close(cool.temps[k], T), "temperature", "step ", k, " uses temperature ", cool.temps[k], " instead of ", T);
            CHECK(x.tried.size() == 1, "proposal", x.tried.size(), " neighbours evaluated in a step");
            if (x.tried.size() != 1) return;
            double cur = Q<B>(land, g), pq = Q<B>(land, x.tried[0].g);
            CHECK(x.tried[0].q == pq, "neighbour-fitness", "annealing: wrong neighbour fitness");
            CHECK(contains(flips(g), x.tried[0].g), "no-neighbour", "annealing proposes a solution that is no neighbour");
            bool acc = x.after.g == x.tried[0].g;
            CHECK(acc || x.after.g == g, "other-solution", "annealing moves to a solution it did not propose");
            CHECK(x.after.valid && x.after.q == Q<B>(land, x.after.g), "fitness", "annealing: fitness ", x.after.q, " instead of ", Q<B>(land, x.after.g));
            if (w != 3) CHECK(cool.acc[k] == acc, "told", "the cooling schedule is told ", cool.acc[k], " for a move ", acc);
            if (pq >= cur) { CHECK(acc, "improving-refused", "step ", k, ": quality ", pq, " refused from ", cur); event(pq > cur ? "improving" : "equal"); }
            else {
                double p = std::exp((pq - cur) / T);
                if (p < 1e-13) CHECK(!acc, "worse-accepted", "step ", k, ": worse by ", cur - pq, " accepted at temperature ", T);
                sum += (acc ? 1 : 0) - p;
                var += p * (1 - p);
                event(acc ? "worse_taken" : "worse_refused");
            }
            g = x.after.g;
            if (dyn) {
                ++st;
                sm += acc;
                if (st >= tries || sm >= mv) { T *= alpha; idle = sm ? 0 : idle + 1; st = sm = 0; }
                goOn = idle <= nbs;
            } else {
                if (step >= span) { T *= alpha; step = 0; } else ++step;
                goOn = T > fin;
            }
        }
        CHECK(!goOn || t.steps.size() >= limit, "stops", "annealing stops after ", t.steps.size(), " steps at temperature ", T, " (final ", fin, ")");
        CHECK(vals(s) == g && !s.invalid() && qual(s) == Q<B>(land, g), "returned", "annealing returns something else than its last solution");
        state(hvec(g, t.steps.size()));
    }
    if (var > 40) { CHECK(std::fabs(sum) < 7 * std::sqrt(var) + 1, "metropolis", "worsening moves: accepted minus expected ", sum, " with standard deviation ", std::sqrt(var)); event("metropolis"); }
    event(dyn ? "cool_dynamic" : "cool_simple");
}
UNIT(annealing, 150, 3000, "improving,equal,worse_taken,worse_refused,metropolis,cool_dynamic,cool_simple") { if (r.flip()) anneal<Bit>(r); else anneal<BitMin>(r); }
template <class B> void defaultAnneal(Rand& r) {
    Quiet q;
    typedef moBitNeighbor<typename B::Fitness> N;
    unsigned n = (unsigned)r.range(2, 10);
    Land land(r);
    Full<B> full(land, true);
    moFullEvalByModif<N> ev(full);
    Trace t;
    RecEval<N> rec(ev, t);
    moRndWithReplNeighborhood<N> nh(n);
    moSA<N> sa(nh, full, rec);
    B s = make<B>(r, n, false);
    sa(s);
    // 10 * 0.9^k > 0.01, 101 steps each
    size_t k = 0;
    for (double T = 10; T > 0.01; T *= 0.9) ++k;
    CHECK(t.now.size() == k * 101, "stops", "default annealing makes ", t.now.size(), " steps instead of ", k * 101);
    CHECK(!s.invalid() && qual(s) == Q<B>(land, vals(s)), "returned-fitness", "default annealing returns a wrong fitness");
    event("default_annealing");
}
UNIT(annealing_default, 6, 60, "default_annealing") { if (r.flip()) defaultAnneal<Bit>(r); else defaultAnneal<BitMin>(r); }
// Metropolis-Hastings on positive fitness
template <class B> void hastings(Rand& r) {
    Quiet q;
    typedef moBitNeighbor<typename B::Fitness> N;
    unsigned n = (unsigned)r.range(1, 12);
    Land land(r);
    land.scale = 1; land.shift = (double)r.range(1, 20);
    Full<B> full(land, r.flip());
    moFullEvalByModif<N> ev(full);
    Trace t;
    RecEval<N> rec(ev, t);
    unsigned steps = (unsigned)r.range(1, 1500);
    RecCont<N> cont(t, 1000000);
    moRndWithReplNeighborhood<N> nh(n);
    moMetropolisHasting<N> mh(nh, full, rec, steps, cont);
    B s = make<B>(r, n, false);
    mh(s);
    CHECK(t.steps.size() == steps, "stops", t.steps.size(), " steps instead of ", steps);
    double sum = 0, var = 0;
    G g = t.start.g;
    for (auto& x : t.steps) {
        if (x.tried.size() != 1) { fail("proposal", "no single proposal"); return; }
        double cur = Q<B>(land, g), pq = Q<B>(land, x.tried[0].g);
        bool acc = x.after.g == x.tried[0].g;
        CHECK(acc || x.after.g == g, "other-solution", "moves to a solution it did not propose");
        CHECK(x.after.valid && x.after.q == Q<B>(land, x.after.g), "fitness", "Metropolis-Hastings: wrong fitness");
        if (pq >= cur) CHECK(acc, "improving-refused", "quality ", pq, " refused from ", cur);
        else { double p = std::min(std::fabs(pq), std::fabs(cur)) / std::max(std::fabs(pq), std::fabs(cur)); sum += (acc ? 1 : 0) - p; var += p * (1 - p); }
        g = x.after.g;
    }
    if (var > 40) CHECK(std::fabs(sum) < 7 * std::sqrt(var) + 1, "metropolis", "Metropolis-Hastings: accepted minus expected ", sum, ", deviation ", std::sqrt(var));
    CHECK(vals(s) == g, "returned", "returns another solution than the last");
    event("hastings");
}
UNIT(metropolis_hastings, 80, 1500, "hastings") { if (r.flip()) hastings<Bit>(r); else hastings<BitMin>(r); }

// ---------------------------------------------------------------- iterated and variable-neighbourhood search
struct Offer { Point from, to; bool ok; };
template <class N> struct RecAccept : public moAcceptanceCriterion<N>, public moDummyMemory<N> {
    typedef typename N::EOT S;
    int kind; // 0 always, 1 better, 2 at random, 3 never
    Rand* r;
    std::vector<Offer> offers;
    moAlwaysAcceptCrit<N> always;
    moBetterAcceptCrit<N> better;
    RecAccept(Rand& x, int k) : kind(k), r(&x) {}
    bool operator()(S& a, S& b) {
        Offer o;
        o.from = point(a);
        o.to = point(b);
        o.ok = kind == 0 ? always(a, b) : kind == 1 ? better(a, b) : kind == 2 ? r->flip() : false;
        if (kind == 0) CHECK(o.ok, "criterion", "the always-accept criterion refuses");
        if (kind == 1) CHECK(o.ok == (o.to.q > o.from.q), "criterion", "the better criterion answers ", o.ok, " for ", o.from.q, " -> ", o.to.q);
        offers.push_back(o);
        return o.ok;
    }
};
template <class S> void judgeOffers(const Land& land, Trace& t, std::vector<Offer>& offers, Around around, bool optimal, const char* what) {
    CHECK(offers.size() == t.steps.size(), "offers", what, ": ", offers.size(), " candidates in ", t.steps.size(), " iterations");
    if (offers.size() != t.steps.size()) return;
    G g = t.start.g;
    for (size_t k = 0; k < offers.size(); ++k) {
        Offer& o = offers[k];
        CHECK(o.from.g == g, "offers", what, ": the criterion compares with another solution than the current one");
        CHECK(o.to.valid && o.to.q == Q<S>(land, o.to.g), "fitness", what, ": candidate ", show(o.to.g), " has fitness ", o.to.q, " instead of ", Q<S>(land, o.to.g));
        if (optimal) for (auto& x : around(o.to.g)) CHECK(Q<S>(land, x) <= o.to.q, "not-optimal", what, ": the candidate is no local optimum");
        CHECK(t.steps[k].after.g == (o.ok ? o.to.g : g), "acceptance", what, ": iteration ", k, " ", o.ok ? "accepted" : "refused", " but the current solution is ", show(t.steps[k].after.g));
        CHECK(t.steps[k].after.valid && t.steps[k].after.q == Q<S>(land, t.steps[k].after.g), "fitness", what, ": wrong fitness after iteration ", k);
        g = t.steps[k].after.g;
        event(o.ok ? "candidate_taken" : "candidate_refused");
    }
}
template <class B> void ilsCase(Rand& r) {
    typedef moBitNeighbor<typename B::Fitness> N;
    typedef moDummyNeighbor<B> D;
    unsigned n = (unsigned)r.range(2, 14);
    Land land(r);
    Full<B> full(land, r.flip());
    moFullEvalByModif<N> ev(full);
    moOrderNeighborhood<N> nh(n);
    moSimpleHC<N> hc(nh, full, ev);
    moFirstImprHC<N> fi(nh, full, ev);
    moLocalSearch<N>& in = r.flip() ? (moLocalSearch<N>&)hc : fi;
    Trace t;
    size_t iters = (size_t)r.range(1, 20);
    RecCont<D> cont(t, iters);
    Kick<B> op(r, 0.9, r.flip());
    unsigned a = (unsigned)r.range(0, 3), b = a + (unsigned)r.range(1, 4);
    moMonOpPerturb<N> p1(op, full), p2(op, full, a), p3(op, full, a, b);
    moOrderNeighborhood<N> onh(n);
    moRndWithReplNeighborhood<N> rnh(n);
    moNeighborhoodPerturb<N, N> p4(onh, ev), p5(rnh, ev);
    eoUniformGenerator<bool> gen;
    eoInitFixedLength<B> init(n, gen);
    unsigned thr = (unsigned)r.range(0, 4);
    moRestartPerturb<N> p6(init, full, thr);
    moPerturbation<N>* ps[] = {&p1, &p2, &p3, &p4, &p5, &p6};
    int which = (int)r.below(6);
    RecAccept<N> crit(r, (int)r.below(4));
    moILS<N> ils(in, full, cont, *ps[which], crit);
    for (int run = 0; run < 2; ++run) {
        B s = make<B>(r, n, false);
        if (r.flip()) full(s);
        t = Trace();
        crit.offers.clear();
        ils(s);
        std::string what = cat("iterated search, perturbation ", which, ", criterion ", crit.kind);
        CHECK(t.steps.size() == iters, "stops", what, ": ", t.steps.size(), " iterations instead of ", iters);
        judgeOffers<B>(land, t, crit.offers, flips, true, what.c_str());
        CHECK(!s.invalid() && qual(s) == Q<B>(land, vals(s)), "returned-fitness", what, ": returns a wrong fitness");
        CHECK(!t.steps.empty() && vals(s) == t.steps.back().after.g, "returned", what, ": returns another solution than the last accepted");
        if (crit.kind == 1) { double best = t.start.q; for (auto& x : t.steps) best = std::max(best, x.after.q); CHECK(qual(s) == best, "returned", what, ": returns quality ", qual(s), ", best accepted ", best); }
        // the first local search starts from the initial solution itself
        if (which != 5 || true) { B z(n); for (unsigned i = 0; i < n; ++i) z[i] = t.start.g[i]; z.invalidate(); in(z); CHECK(!crit.offers.empty() && crit.offers[0].to.q == qual(z), "first-iteration", what, ": the first local search does not start from the initial solution"); }
        event("ils");
    }
    // default constructors
    unsigned it = (unsigned)r.range(1, 12);
    size_t before = op.calls;
    moILS<N> short1(in, full, op, it);
    B s = make<B>(r, n, false);
    short1(s);
    CHECK(op.calls - before == it - 1, "stops", "iterated search of ", it, " iterations perturbs ", op.calls - before, " times");
    CHECK(!s.invalid() && qual(s) == Q<B>(land, vals(s)), "returned-fitness", "iterated search returns a wrong fitness");
    for (auto& x : flips(vals(s))) CHECK(Q<B>(land, x) <= qual(s), "not-optimal", "iterated search returns no local optimum");
    moILS<N> short2(in, full, op, cont);
    t = Trace();
    short2(s);
    for (auto& x : t.steps) CHECK(x.after.valid && x.after.q == Q<B>(land, x.after.g), "fitness", "iterated search: wrong fitness");
    CHECK(t.steps.size() == iters, "stops", t.steps.size(), " iterations instead of ", iters);
    // perturbations alone
    B p = make<B>(r, n, false);
    full(p);
    size_t c0 = op.calls;
    p3(p);
    CHECK(op.calls - c0 >= a && op.calls - c0 < b, "perturbation", "the operator was applied ", op.calls - c0, " times instead of ", a, "..", b - 1);
    CHECK(!p.invalid() && qual(p) == Q<B>(land, vals(p)), "perturbation", "wrong fitness after a perturbation");
    c0 = op.calls;
    p2(p);
    CHECK(op.calls - c0 == a && qual(p) == Q<B>(land, vals(p)), "perturbation", "the operator was applied ", op.calls - c0, " times instead of ", a);
    G g = vals(p);
    p5.init(p);
    p5(p);
    CHECK(contains(flips(g), vals(p)) && !p.invalid() && qual(p) == Q<B>(land, vals(p)), "perturbation", "a neighbourhood perturbation gives no neighbour or a wrong fitness");
    // restart only after `thr` iterations without a move
    N nn;
    p6.init(p);
    unsigned still = 0;
    for (int k = 0; k < 12; ++k) {
        B u(n, false);
        struct Mark { } ;
        u.fitness(Q<B>(land, vals(u)) * (std::is_same<typename B::Fitness, MinF>::value ? -1 : 1));
        Full<B> f2(land, false);
        bool want = still >= thr;
        size_t ev0 = full.calls;
        bool lazy = full.lazy;
        full.lazy = false;
        p6(u);
        full.lazy = lazy;
        CHECK((full.calls > ev0) == want, "restart", "restart ", full.calls > ev0, " after ", still, " iterations without a move, threshold ", thr);
        CHECK(!u.invalid() && qual(u) == Q<B>(land, vals(u)), "restart", "wrong fitness after a restart");
        if (want) still = 0;
        if (r.flip()) { p6.add(u, nn); still = 0; }
        p6.update(u, nn);
        ++still;
    }
    event("perturbations");
}
UNIT(iterated, 200, 4000, "ils,candidate_taken,candidate_refused,perturbations") { if (r.flip()) ilsCase<Bit>(r); else ilsCase<BitMin>(r); }

template <class B> void vnsCase(Rand& r) {
    typedef moBitNeighbor<typename B::Fitness> N;
    unsigned n = (unsigned)r.range(2, 12), k = (unsigned)r.range(1, 4);
    Land land(r);
    Full<B> full(land, r.flip());
    moFullEvalByModif<N> ev(full);
    std::vector<int> used, shaken;
    struct Shake : public eoMonOp<B> {
        Rand* r; int id; std::vector<int>* log; unsigned strength;
        bool operator()(B& s) { log->push_back(id); for (unsigned i = 0; i < strength; ++i) { size_t p = r->below(s.size()); s[p] = !s[p]; } s.invalidate(); return true; }
    };
    struct Ls : public eoMonOp<B> {
        eoMonOp<B>* in; int id; std::vector<int>* log;
        bool operator()(B& s) { log->push_back(id); return (*in)(s); }
    };
    moOrderNeighborhood<N> nh(n);
    moSimpleHC<N> hc(nh, full, ev);
    moFirstImprHC<N> fi(nh, full, ev);
    moDummyLS<N> dummy(full);
    std::vector<Shake> sh(k);
    std::vector<Ls> lsv(k);
    for (unsigned i = 0; i < k; ++i) {
        sh[i].r = &r; sh[i].id = (int)i; sh[i].log = &shaken; sh[i].strength = i + 1;
        int w = (int)r.below(3);
        lsv[i].in = w == 0 ? (eoMonOp<B>*)&hc : w == 1 ? (eoMonOp<B>*)&fi : (eoMonOp<B>*)&dummy; lsv[i].id = (int)i; lsv[i].log = &used;
    }
    bool cycle = r.flip();
    int kind = (int)r.below(3);
    std::shared_ptr<moVectorVNSelection<B>> sel;
    if (kind == 0) sel.reset(new moForwardVectorVNSelection<B>(lsv[0], sh[0], cycle));
    else if (kind == 1) sel.reset(new moBackwardVectorVNSelection<B>(lsv[0], sh[0], cycle));
    else sel.reset(new moRndVectorVNSelection<B>(lsv[0], sh[0], cycle));
    for (unsigned i = 1; i < k; ++i) sel->add(lsv[i], sh[i]);
    RecAccept<N> crit(r, (int)r.below(4));
    Trace t;
    size_t limit = (size_t)r.range(1, 25);
    RecCont<N> cont(t, limit);
    moVNS<N> vns(*sel, crit, full, cont);
    for (int run = 0; run < 3; ++run) {
        B s = make<B>(r, n, false);
        if (r.flip()) full(s);
        t = Trace();
        crit.offers.clear();
        used.clear();
        shaken.clear();
        vns(s);
        std::string what = cat("variable-neighbourhood search, selection ", kind, cycle ? " cycling" : "", ", ", k, " neighbourhoods, criterion ", crit.kind, ", run ", run);
        judgeOffers<B>(land, t, crit.offers, flips, false, what.c_str());
        CHECK(used == shaken, "pairs", what, ": a local search is not used with its own shake");
        double best = t.start.q;
        for (auto& o : crit.offers) if (o.ok) best = std::max(best, o.to.q);
        CHECK(!s.invalid() && qual(s) == Q<B>(land, vals(s)), "returned-fitness", what, ": returns a wrong fitness");
        CHECK(qual(s) >= best, "returned", what, ": returns quality ", qual(s), ", best accepted ", best);
        bool met = vals(s) == t.start.g;
        for (auto& o : crit.offers) met = met || vals(s) == o.to.g;
        CHECK(met, "returned-unseen", what, ": returns a solution not met in this run, quality ", qual(s), ", best accepted ", best);
        if (crit.kind == 3) {
            // nothing accepted: every neighbourhood in turn
            size_t want = cycle ? limit : std::min<size_t>(limit, k);
            CHECK(used.size() == want, "neighbourhoods", what, ": ", used.size(), " neighbourhoods tried instead of ", want);
            for (size_t i = 0; i < used.size(); ++i) {
                if (kind == 0) CHECK(used[i] == (int)(i % k), "neighbourhoods", what, ": forward order broken ", show(used));
                if (kind == 1) CHECK(used[i] == (int)((k - 1 - i % k)), "neighbourhoods", what, ": backward order broken ", show(used));
                if (kind == 2 && i + k <= used.size() && i % k == 0) CHECK(std::set<int>(used.begin() + i, used.begin() + i + k).size() == k, "neighbourhoods", what, ": not every neighbourhood tried ", show(used));
            }
            event("vns_order");
        }
        event("vns");
    }
}
UNIT(variable, 300, 5000, "vns,vns_order,candidate_taken,candidate_refused") { if (r.flip()) vnsCase<Bit>(r); else vnsCase<BitMin>(r); }

// ---------------------------------------------------------------- walks
template <class B> void walkCase(Rand& r) {
    Quiet q;
    typedef moBitNeighbor<typename B::Fitness> N;
    unsigned n = (unsigned)r.range(1, 14);
    Land land(r);
    Full<B> full(land, r.flip());
    moFullEvalByModif<N> ev(full);
    Trace t;
    RecEval<N> rec(ev, t);
    RecCont<N> cont(t, (size_t)r.range(1, 40));
    moRndWithReplNeighborhood<N> with(n);
    moRndWithoutReplNeighborhood<N> without(n);
    moOrderNeighborhood<N> order(n);
    unsigned steps = (unsigned)r.range(1, 30);
    // random walk: every step moves to a neighbour
    moRandomWalk<N> w1(r.flip() ? (moNeighborhood<N>&)with : without, full, rec, cont), w2(with, full, rec, steps);
    B s = make<B>(r, n, false);
    w1(s);
    G g = t.start.g;
    for (auto& x : t.steps) {
        CHECK(contains(flips(g), x.after.g), "walk", "a random walk step goes to no neighbour");
        CHECK(x.after.valid && x.after.q == Q<B>(land, x.after.g), "fitness", "random walk: wrong fitness");
        g = x.after.g;
    }
    CHECK(vals(s) == g && t.steps.size() == cont.limit, "walk", "random walk of ", t.steps.size(), " steps instead of ", cont.limit);
    t.now.clear();
    w2(s);
    CHECK(t.now.size() == steps, "walk", "random walk of ", t.now.size(), " steps instead of ", steps);
    CHECK(!s.invalid() && qual(s) == Q<B>(land, vals(s)), "fitness", "random walk: wrong fitness");
    // neutral walk: fitness never changes, stops when there is no neutral neighbour
    RecCont<N> open(t, 1000);
    moSolNeighborComparator<N> sc;
    moRandomNeutralWalk<N> n1(without, full, rec, steps, open), n2(order, full, rec, steps, open, sc);
    bool first = r.flip();
    for (int run = 0; run < 2; ++run) { // the same walk object again
    s = make<B>(r, n, false);
    t = Trace();
    if (first) n1(s); else n2(s);
    g = t.start.g;
    double q0 = Q<B>(land, g);
    for (auto& x : t.steps) {
        CHECK(x.after.g == g || contains(flips(g), x.after.g), "walk", "a neutral walk step goes to no neighbour");
        CHECK(x.after.valid && x.after.q == q0 && Q<B>(land, x.after.g) == q0, "neutral", "a neutral walk changes quality ", q0, " to ", Q<B>(land, x.after.g));
        g = x.after.g;
    }
    CHECK(t.steps.size() <= steps, "walk", "neutral walk of ", t.steps.size(), " steps instead of at most ", steps);
    if (t.steps.size() < steps) for (auto& x : flips(g)) CHECK(Q<B>(land, x) != q0, "walk", "the neutral walk stops although there is a neutral neighbour");
    CHECK(vals(s) == g, "walk", "the neutral walk returns another solution than its last");
    }
    // random search
    eoUniformGenerator<bool> gen;
    eoInitFixedLength<B> init(n, gen);
    moRandomSearch<N> rs(init, full, steps, open);
    t = Trace();
    s = make<B>(r, n, false);
    rs(s);
    CHECK(t.steps.size() == std::max(1u, steps - 1), "walk", "random search visits ", t.steps.size(), " solutions for ", steps);
    for (auto& x : t.steps) CHECK(x.after.valid && x.after.q == Q<B>(land, x.after.g), "fitness", "random search: wrong fitness");
    CHECK(vals(s) == t.steps.back().after.g, "walk", "random search returns another solution than its last");
    event("walks");
}
UNIT(walks, 200, 4000, "walks") { if (r.flip()) walkCase<Bit>(r); else walkCase<BitMin>(r); }
