// C06: breeding.
#include "eoh.h"
#include <eoOneToOneBreeder.h>
#include <numeric>
using namespace eoh;

// An individual made of traceable genes: gene = owner * 64 + position, fresh ones are negative.
struct Tok : public EO<double> {
    std::vector<long> g;
    std::string className() const { return "Tok"; }
    void printOn(std::ostream& o) const { EO<double>::printOn(o); for (auto x : g) o << ' ' << x; }
    bool operator==(const Tok& o) const { return g == o.g; }
};
static long g_fresh;
static std::set<long> g_freshSet;
struct Log { u64 mon = 0, bin = 0, quad = 0, mon2 = 0; std::map<std::string, u64> by; };
static Log* g_log;
static std::vector<std::vector<long>> g_out; // what operators produced
static u64 hg(const std::vector<long>& g) { u64 h = g.size(); for (auto x : g) h = mix(h, (u64)x); return h; }

struct Mut : public eoMonOp<Tok> {
    const char* n; bool silent;
    Mut(const char* name, bool s = false) : n(name), silent(s) {}
    bool operator()(Tok& t) {
        ++g_log->by[n];
        if (silent) return false;
        t.g[eo::rng.random((unsigned)t.g.size())] = --g_fresh;
        g_freshSet.insert(g_fresh);
        g_out.push_back(t.g);
        return true;
    }
    std::string className() const { return n; }
};
struct Bin : public eoBinOp<Tok> {
    const char* n;
    Bin(const char* name) : n(name) {}
    bool operator()(Tok& a, const Tok& b) {
        ++g_log->by[n];
        size_t k = eo::rng.random((unsigned)a.g.size());
        for (size_t i = k; i < a.g.size(); ++i) a.g[i] = b.g[i];
        g_out.push_back(a.g);
        return true;
    }
    std::string className() const { return n; }
};
struct Quad : public eoQuadOp<Tok> {
    const char* n;
    Quad(const char* name) : n(name) {}
    bool operator()(Tok& a, Tok& b) {
        ++g_log->by[n];
        size_t k = eo::rng.random((unsigned)a.g.size());
        for (size_t i = k; i < a.g.size(); ++i) std::swap(a.g[i], b.g[i]);
        g_out.push_back(a.g); g_out.push_back(b.g);
        return true;
    }
    std::string className() const { return n; }
};
static const unsigned L = 5;
static eoPop<Tok> parents(Rand& r, unsigned n, bool equalFit = false) {
    eoPop<Tok> p;
    for (unsigned i = 0; i < n; ++i) {
        Tok t;
        for (unsigned k = 0; k < L; ++k) t.g.push_back((long)i * 64 + k);
        t.fitness(equalFit ? 1 : (double)r.range(0, 20));
        p.push_back(t);
    }
    return p;
}
static std::string showg(const Tok& t) { std::ostringstream o; o << t; return o.str(); }
static void start(Log& l) { g_log = &l; g_out.clear(); g_freshSet.clear(); }
// every offspring is either an untouched selected parent or what operators made of parents' genes
static void derived(const eoPop<Tok>& par, const eoPop<Tok>& off, const std::string& d, const std::set<long>* owners = nullptr) {
    std::set<std::vector<long>> made(g_out.begin(), g_out.end());
    for (auto& o : off) {
        event("offspring");
        CHECK(o.g.size() == L, "empty-offspring", d, ": ", showg(o));
        if (o.g.size() != L) continue;
        bool whole = true;
        for (unsigned k = 0; k < L; ++k) {
            long x = o.g[k];
            if (x < 0) { CHECK(g_freshSet.count(x), "unknown-gene", d, " gene ", x); whole = false; continue; }
            CHECK((unsigned)(x % 64) == k && (size_t)(x / 64) < par.size(), "unknown-gene", d, " gene ", x, " at ", k);
            if (owners) CHECK(owners->count(x / 64), "gene-of-unselected", d, " gene of parent ", x / 64);
            if (x / 64 != o.g[0] / 64) whole = false;
        }
        bool copy = whole && o.g[0] >= 0;
        CHECK(copy || made.count(o.g), "not-from-operators", d, ": ", showg(o));
        if (copy && !made.count(o.g)) {
            const Tok& p = par[o.g[0] / 64];
            CHECK(!o.invalid() && o.fitness() == p.fitness(), "clone-lost-fitness", d, ": ", showg(o));
        }
        state(mix(hstr(d), hg(o.g)));
    }
}
static void untouched(const eoPop<Tok>& par, const eoPop<Tok>& before, const std::string& d) {
    CHECK(par.size() == before.size(), "parents-modified", d, ": ", before.size(), " parents became ", par.size());
    for (size_t i = 0; i < par.size() && i < before.size(); ++i)
        CHECK(par[i].g == before[i].g && par[i].invalid() == before[i].invalid() && par[i].fitness() == before[i].fitness(), "parents-modified", d, ": parent ", i);
}
// a selection that records whom it gave
struct Spy : public eoSelectOne<Tok> {
    eoSelectOne<Tok>& in; std::set<long> given; u64 n = 0, setups = 0;
    Spy(eoSelectOne<Tok>& s) : in(s) {}
    void setup(const eoPop<Tok>& p) { ++setups; in.setup(p); }
    const Tok& operator()(const eoPop<Tok>& p) { ++n; const Tok& t = in(p); given.insert(t.g[0] / 64); return t; }
};
static unsigned wanted(double rate, bool asRate, unsigned n) { return asRate ? (unsigned)std::ceil((rate < 0 ? 1.0 + rate : rate) * n) : (rate < 0 ? n - (unsigned)-rate : (unsigned)rate); }

struct Kit {
    Mut m1{"m1"}, m2{"m2"}, ms{"silent", true};
    Bin b1{"b1"};
    Quad q1{"q1"}, q2{"q2"};
    eoMonCloneOp<Tok> mc; eoBinCloneOp<Tok> bc; eoQuadCloneOp<Tok> qc;
    std::vector<std::shared_ptr<void>> keep;
    template <class T, class... A> T& mk(A&&... a) { auto p = std::make_shared<T>(std::forward<A>(a)...); keep.push_back(p); return *p; }
    eoOp<Tok>* leaf(Rand& r, std::string& d) {
        switch (r.below(8)) {
        case 0: d += "m1"; return &m1;
        case 1: d += "m2"; return &m2;
        case 2: d += "silent"; return &ms;
        case 3: d += "b1"; return &b1;
        case 4: d += "q1"; return &q1;
        case 5: d += "q2"; return &q2;
        case 6: d += "mclone"; return &mc;
        default: d += "qclone"; return &qc;
        }
    }
    // any general operator
    eoGenOp<Tok>& gen(Rand& r, std::string& d, int depth, eoSelectOne<Tok>& sel) {
        switch (r.below(depth > 0 ? 9 : 5)) {
        case 0: d += "mon(m1)"; return mk<eoMonGenOp<Tok>>(m1);
        case 1: d += "bin(b1)"; return mk<eoBinGenOp<Tok>>(b1);
        case 2: d += "quad(q1)"; return mk<eoQuadGenOp<Tok>>(q1);
        case 3: d += "selbin"; return mk<eoSelBinGenOp<Tok>>(b1, sel);
        case 4: d += "sga"; return mk<eoSGAGenOp<Tok>>(q1, r.u01(), m1, r.u01());
        case 5: d += "propga"; return mk<eoPropGAGenOp<Tok>>(r.u01(), q1, r.u01() + 0.01, m1, r.u01());
        case 6: case 7: {
            auto& s = mk<eoProportionalOp<Tok>>();
            d += "prop[";
            for (int k = (int)r.range(1, 4); k > 0; --k) add(s, r, d, depth, sel, 0.01 + r.u01() * 2);
            d += "]"; return s; }
        default: {
            auto& s = mk<eoSequentialOp<Tok>>();
            d += "seq[";
            // something has to be produced: the first component always applies
            add(s, r, d, depth, sel, 1.0);
            for (int k = (int)r.range(0, 3); k > 0; --k) add(s, r, d, depth, sel, r.pick(std::vector<double>{0, 0.3, 0.7, 1}));
            d += "]"; return s; }
        }
    }
    void add(eoOpContainer<Tok>& c, Rand& r, std::string& d, int depth, eoSelectOne<Tok>& sel, double rate) {
        if (depth > 1 && r.flip(0.3)) c.add(gen(r, d, depth - 1, sel), rate); else c.add(*leaf(r, d), rate);
        d += ",";
    }
};
struct Sel {
    eoDetTournamentSelect<Tok> det{2}; eoRandomSelect<Tok> rnd; eoSequentialSelect<Tok> seq{true}; eoSequentialSelect<Tok> seqr{false}; eoBestSelect<Tok> best; eoProportionalSelect<Tok> prop;
    eoSelectOne<Tok>& any(Rand& r) { switch (r.below(6)) { case 0: return det; case 1: return rnd; case 2: return seq; case 3: return seqr; case 4: return best; default: return prop; } }
};
UNIT(general, 1200, 20000, "bred,offspring") {
    (void)idx;
    unsigned n = r.flip(0.04) ? (unsigned)r.range(257, 400) : (unsigned)r.size(2, 20);
    auto par = parents(r, n, false);
    for (auto& p : par) if (p.fitness() == 0) p.fitness(0.25);
    auto before = par;
    Log log; start(log);
    Sel ss; Spy spy(ss.any(r));
    Kit kit; std::string d;
    auto& op = kit.gen(r, d, 3, spy);
    double rate; bool asRate = r.flip();
    if (asRate) rate = r.pick(std::vector<double>{0.01, 0.1, 0.5, 0.99, 1, 1.5, 2.37, 7, -0.25, -0.9});
    else rate = (double)(r.flip(0.2) && n > 3 ? -r.range(1, (int)n - 1) : r.range(1, 3 * (int)n));
    unsigned want = wanted(rate, asRate, n);
    d = cat("general(", rate, asRate ? " rate" : " count", ", ", n, " parents) ", d);
    eoPop<Tok> off;
    if (r.flip()) off = parents(r, 3); // left over from before
    eoHowMany hm(rate, asRate);
    eoGeneralBreeder<Tok> b1(spy, op, rate, asRate), b2(spy, op, hm);
    for (int turn = 0; turn < 2; ++turn) {
        spy.setups = 0;
        start(log);
        if (turn == 0) spy.given.clear();
        (r.flip() ? b1 : b2)(par, off);
        event("bred");
        CHECK(off.size() == want, "wrong-number", d, " gave ", off.size(), " instead of ", want);
        CHECK(spy.setups >= 1, "selection-not-set-up", d);
        untouched(par, before, d);
        derived(par, off, d, &spy.given);
    }
}
UNIT(one_to_one, 300, 5000, "bred,offspring") {
    (void)idx;
    unsigned n = (unsigned)r.size(2, 30);
    auto par = parents(r, n);
    auto before = par;
    Log log; start(log);
    Kit kit; 
    struct Ev : public eoEvalFunc<Tok> { u64 n = 0; void operator()(Tok& t) { ++n; if (t.invalid()) t.fitness((double)(hg(t.g) % 21)); } } ev;
    bool binary = r.flip(0.3);
    eoMonGenOp<Tok> mon(kit.m1); eoBinGenOp<Tok> bin(kit.b1);
    double pRep = r.pick(std::vector<double>{0, 0.5, 1});
    std::string d = cat("one-to-one ", binary ? "binary" : "unary", " pReplace=", pRep);
    int kind = (int)r.below(3);
    unsigned want = kind == 0 ? n : kind == 1 ? (unsigned)r.range(1, (int)n) : (unsigned)std::ceil(0.5 * n);
    eoOneToOneBreeder<Tok> br(binary ? (eoGenOp<Tok>&)bin : mon, ev, pRep, kind == 0 ? eoHowMany(1.0) : kind == 1 ? eoHowMany(want) : eoHowMany(0.5));
    eoPop<Tok> off;
    br(par, off);
    event("bred");
    CHECK(off.size() == want, "wrong-number", d, " gave ", off.size(), " instead of ", want);
    untouched(par, before, d);
    CHECK(log.by[binary ? "b1" : "m1"] == want, "wrong-rate", d, " operator applied ", log.by[binary ? "b1" : "m1"], " times for ", want);
    std::set<std::vector<long>> made(g_out.begin(), g_out.end());
    std::set<long> seen;
    for (size_t i = 0; i < off.size(); ++i) {
        auto& o = off[i];
        event("offspring");
        CHECK(!o.invalid(), "not-evaluated", d);
        if (o.invalid() || o.g.size() != L) { fail("empty-offspring", d); continue; }
        if (binary) { for (unsigned k = 0; k < L; ++k) CHECK(o.g[k] >= 0 && (unsigned)(o.g[k] % 64) == k, "unknown-gene", d); continue; }
        // one parent each: find it
        std::map<long, int> own; for (long x : o.g) if (x >= 0) ++own[x / 64];
        CHECK(own.size() == 1, "not-one-parent", d, ": ", showg(o));
        if (own.empty()) continue;
        long p = own.begin()->first;
        CHECK(seen.insert(p).second, "parent-used-twice", d, " parent ", p);
        bool kept = o.g == before[p].g;
        if (kept) CHECK(o.fitness() == before[p].fitness(), "clone-lost-fitness", d);
        else CHECK(o.fitness() == (double)(hg(o.g) % 21), "wrong-fitness", d);
        if (pRep == 1) CHECK(!(before[p] > o), "parent-should-stay", d);
        if (pRep == 0) CHECK(!kept, "parent-should-go", d);
        state(mix(hg(o.g), i));
    }
    // operators producing more than one are refused
    eoQuadGenOp<Tok> quad(kit.q1);
    eoOneToOneBreeder<Tok> bad(quad, ev, pRep);
    bool thrown = false;
    try { bad(par, off); } catch (eoException&) { thrown = true; }
    CHECK(thrown, "pair-accepted", "an operator with two children must be refused");
    untouched(par, before, "one-to-one with a quadratic operator");
}
UNIT(transforms, 400, 6000, "bred,offspring") {
    (void)idx;
    unsigned n = (unsigned)r.size(2, 40);
    auto par = parents(r, n); auto before = par;
    Log log; start(log);
    Kit kit; Sel ss;
    double pc = r.pick(std::vector<double>{0, 0.5, 1}), pm = r.pick(std::vector<double>{0, 0.5, 1});
    eoSGATransform<Tok> t1(kit.q1, pc, kit.m1, pm);
    eoDynSGATransform<Tok> t2(kit.q1, pc, kit.m1, pm);
    double pcr = pc, pmr = pm;
    eoDynSGATransform<Tok> t3(kit.q1, &pcr, kit.m1, &pmr);
    int which = (int)r.below(3);
    double rate = r.pick(std::vector<double>{0.3, 1, 1.7});
    eoSelectMany<Tok> many(ss.rnd, rate); eoSelectNumber<Tok> num(ss.rnd, (unsigned)r.range(1, 50)); eoSelectPerc<Tok> perc(ss.rnd, (float)rate); eoDetSelect<Tok> det(rate);
    int sk = (int)r.below(4);
    eoSelect<Tok>& sel = sk == 0 ? (eoSelect<Tok>&)many : sk == 1 ? (eoSelect<Tok>&)num : sk == 2 ? (eoSelect<Tok>&)perc : det;
    eoPop<Tok> chosen;
    struct SpySel : public eoSelect<Tok> { eoSelect<Tok>& in; eoPop<Tok> got; SpySel(eoSelect<Tok>& s) : in(s) {} void operator()(const eoPop<Tok>& a, eoPop<Tok>& b) { in(a, b); got = b; } } spy(sel);
    eoSelectTransform<Tok> br(spy, which == 0 ? (eoTransform<Tok>&)t1 : which == 1 ? (eoTransform<Tok>&)t2 : t3);
    if (which == 2 && r.flip()) { pc = pcr = 1 - pcr; pm = pmr = 1 - pmr; }
    if (which == 1 && r.flip()) { t2.PCrossHandle() = pc = 1 - pc; t2.PMutHandle() = pm = 1 - pm; }
    std::string d = cat("select+transform ", which, " pc=", pc, " pm=", pm);
    eoPop<Tok> off;
    br(par, off);
    event("bred");
    untouched(par, before, d);
    CHECK(off.size() == spy.got.size(), "wrong-number", d, " ", spy.got.size(), " selected but ", off.size(), " bred");
    derived(par, off, d);
    u64 pairs = off.size() / 2, k = log.by["q1"], m = log.by["m1"];
    if (pc == 0 || pc == 1) CHECK(k == (pc == 1 ? pairs : 0), "wrong-rate", d, " crossed ", k, " of ", pairs, " pairs");
    if (pm == 0 || pm == 1) CHECK(m == (pm == 1 ? off.size() : 0), "wrong-rate", d, " mutated ", m, " of ", off.size());
    // couples are neighbours, nobody mates twice
    if (pm == 0 && off.size() == spy.got.size())
        for (size_t i = 0; i < off.size(); ++i) {
            size_t mate = i ^ 1;
            for (unsigned g = 0; g < L; ++g) {
                bool own = off[i].g[g] == spy.got[i].g[g], his = mate < off.size() && off[i].g[g] == spy.got[mate].g[g];
                CHECK(own || his, "mated-twice", d, " offspring ", i);
            }
        }
    if (pm == 1) for (auto& o : off) CHECK(o.invalid(), "not-mutated", d);
}
// rates of combined operators
UNIT(rates, 60, 400, "rate") {
    Kit kit; Sel ss; Log log; start(log);
    auto par = parents(r, 20, true);
    std::vector<double> w;
    int kind = (int)(idx % 9);
    const u64 N = 3000;
    int k = (int)r.range(1, 4);
    for (int i = 0; i < k; ++i) w.push_back(r.flip(0.15) ? 0 : r.flip(0.2) ? r.u01() * 30 : r.u01());
    if (std::accumulate(w.begin(), w.end(), 0.0) <= 0) w[0] = 1;
    double tot = std::accumulate(w.begin(), w.end(), 0.0);
    static const char* names[] = {"a", "b", "c", "d"};
    auto judge = [&](const char* what, u64 n) {
        for (int i = 0; i < k; ++i) {
            event("rate");
            CHECK(!deviates((double)log.by[names[i]], (double)n, w[i] / tot) && (w[i] > 0 || log.by[names[i]] == 0), "wrong-rate", what, ": component ", i, " of weight ", w[i], "/", tot, " applied ", log.by[names[i]], " times of ", n);
            state(mix((u64)kind * 8 + (u64)i, log.by[names[i]]));
        }
    };
    std::vector<std::unique_ptr<Mut>> m; std::vector<std::unique_ptr<Bin>> b; std::vector<std::unique_ptr<Quad>> q;
    for (int i = 0; i < 4; ++i) { m.emplace_back(new Mut(names[i])); b.emplace_back(new Bin(names[i])); q.emplace_back(new Quad(names[i])); }
    Quiet quiet;
    switch (kind) {
    case 0: { eoPropCombinedMonOp<Tok> c(*m[0], w[0]); for (int i = 1; i < k; ++i) c.add(*m[i], w[i]); for (u64 i = 0; i < N; ++i) { Tok t = par[0]; CHECK(c(t), "result-lost", "mon"); } judge("combined unary", N); break; }
    case 1: { eoPropCombinedBinOp<Tok> c(*b[0], w[0]); for (int i = 1; i < k; ++i) c.add(*b[i], w[i]); for (u64 i = 0; i < N; ++i) { Tok t = par[0]; CHECK(c(t, par[1]), "result-lost", "bin"); } judge("combined binary", N); break; }
    case 2: { eoPropCombinedQuadOp<Tok> c(*q[0], w[0]); for (int i = 1; i < k; ++i) c.add(*q[i], w[i]); for (u64 i = 0; i < N; ++i) { Tok t = par[0], u = par[1]; CHECK(c(t, u), "result-lost", "quad"); } judge("combined quadratic", N); break; }
    case 3: { // one proportional choice per call, whatever the arity
        eoProportionalOp<Tok> c; for (int i = 0; i < k; ++i) { int t = (int)r.below(3); c.add(t == 0 ? (eoOp<Tok>&)*m[i] : t == 1 ? (eoOp<Tok>&)*b[i] : (eoOp<Tok>&)*q[i], w[i]); }
        eoPop<Tok> off; eoSelectivePopulator<Tok> it(par, off, ss.rnd); for (u64 i = 0; i < N; ++i) c(it); judge("proportional", N); break; }
    case 4: { // each component of a sequence with its own probability
        eoSequentialOp<Tok> c; std::vector<double> p; kit.qc; c.add(kit.mc, 1.0); for (int i = 0; i < k; ++i) { p.push_back(r.pick(std::vector<double>{0, 0.2, 0.5, 0.9, 1})); c.add(*m[i], p[i]); }
        eoGeneralBreeder<Tok> br(ss.rnd, c, (double)N, false); eoPop<Tok> off; br(par, off);
        for (int i = 0; i < k; ++i) { event("rate"); u64 c2 = log.by[names[i]]; CHECK(!deviates((double)c2, (double)N, p[i]) && (p[i] > 0 || !c2) && (p[i] < 1 || c2 == N), "wrong-rate", "sequence: component with rate ", p[i], " applied ", c2, " times of ", N); state(mix(c2, kind)); }
        break; }
    case 5: { double pc = r.pick(std::vector<double>{0, 0.1, 0.5, 0.8, 1}), pm = r.pick(std::vector<double>{0, 0.1, 0.5, 0.8, 1}); eoSGAGenOp<Tok> c(kit.q1, pc, kit.m1, pm); eoGeneralBreeder<Tok> br(ss.rnd, c, (double)N, false); eoPop<Tok> off; br(par, off);
        event("rate");
        u64 a = log.by["q1"], e = log.by["m1"];
        CHECK(!deviates((double)a, N / 2.0, pc) && (pc > 0 || !a) && (pc < 1 || a == N / 2), "wrong-rate", "SGA operator: crossover ", pc, " applied ", a, " times for ", N / 2, " pairs");
        CHECK(!deviates((double)e, (double)N, pm) && (pm > 0 || !e) && (pm < 1 || e == N), "wrong-rate", "SGA operator: mutation ", pm, " applied ", e, " times for ", N);
        state(mix(a, e)); break; }
    case 6: { double wc = r.u01(), wx = r.u01(), wm = r.u01() + 0.01; eoPropGAGenOp<Tok> c(wc, kit.q1, wx, kit.m1, wm); eoPop<Tok> off; eoSelectivePopulator<Tok> it(par, off, ss.rnd); for (u64 i = 0; i < N; ++i) c(it);
        event("rate");
        double s = wc + wx + wm; u64 a = log.by["q1"], e = log.by["m1"];
        CHECK(!deviates((double)a, (double)N, wx / s) && !deviates((double)e, (double)N, wm / s), "wrong-rate", "proportional GA operator ", wc, "/", wx, "/", wm, " crossed ", a, " mutated ", e, " of ", N);
        CHECK(off.size() == N + a, "wrong-number", "proportional GA operator made ", off.size(), " offspring with ", a, " crossovers of ", N);
        state(mix(a, e)); break; }
    case 7: { // transforms
        double pc = r.u01(), pm = r.u01(); eoSGATransform<Tok> t1(kit.q1, pc, kit.m1, pm); eoDynSGATransform<Tok> t2(kit.q1, pc, kit.m1, pm);
        eoPop<Tok> p; for (u64 i = 0; i < N; ++i) p.push_back(par[i % 20]);
        if (r.flip()) t1(p); else t2(p);
        event("rate");
        u64 a = log.by["q1"], e = log.by["m1"];
        CHECK(!deviates((double)a, N / 2.0, pc) && !deviates((double)e, (double)N, pm), "wrong-rate", "transform pc=", pc, " pm=", pm, " crossed ", a, " pairs of ", N / 2, ", mutated ", e, " of ", N);
        state(mix(a, e)); break; }
    default: { // replacement of the offspring by its better parent
        double pr = r.u01(); u64 lost = 0;
        struct Ev : public eoEvalFunc<Tok> { void operator()(Tok& t) { t.fitness(0); } } ev;
        eoMonGenOp<Tok> mon(kit.m1); eoOneToOneBreeder<Tok> br(mon, ev, pr);
        eoPop<Tok> p; for (u64 i = 0; i < N; ++i) p.push_back(par[i % 20]);
        eoPop<Tok> off; br(p, off);
        for (auto& o : off) lost += o.fitness() == 1;
        event("rate");
        CHECK(!deviates((double)lost, (double)N, pr), "wrong-rate", "parents kept ", lost, " of ", N, " with probability ", pr);
        state(lost); }
    }
}
// numbers given as rate, percentage, count or "all but n"
UNIT(how_many, 600, 8000, "amount") {
    (void)idx;
    Quiet quiet;
    unsigned n = r.flip(0.1) ? (unsigned)r.range(60000, 200000) : (unsigned)r.range(0, 300);
    for (int k = 0; k < 6; ++k) {
        eoHowMany h(0.5);
        unsigned want; std::string d;
        int cnt = (int)r.range(1, 400); double rate = (double)r.range(0, 2000) / 1000;
        bool thr = false, thrown = false;
        switch (r.below(9)) {
        case 0: h = eoHowMany(rate); want = (unsigned)std::ceil(rate * n); d = cat("rate ", rate); break;
        case 1: h = eoHowMany(cnt); want = (unsigned)cnt; d = cat("count ", cnt); break;
        case 2: h = eoHowMany(-cnt); thr = n < (unsigned)cnt; want = n - (unsigned)cnt; d = cat("all but ", cnt); break;
        case 3: h = eoHowMany((unsigned)cnt); want = (unsigned)cnt; d = cat("unsigned ", cnt); break;
        case 4: h = eoHowMany((double)cnt, false); want = (unsigned)cnt; d = cat("double count ", cnt); break;
        case 5: { std::istringstream is(cat(rate * 100, "%")); h.readFrom(is); double rr = std::stod(cat(rate * 100)) / 100.0; want = (unsigned)std::ceil(rr * n); d = cat("read ", rate * 100, "%"); break; }
        case 6: { h = eoHowMany(0.3); std::istringstream is(cat(cnt)); h.readFrom(is); want = (unsigned)cnt; d = cat("read ", cnt); break; }
        case 7: { double q = (double)r.range(0, 8) / 8; if (r.flip()) { h = eoHowMany(cnt); h.value(q, true); d = cat("changed to rate ", q); want = (unsigned)std::ceil(q * n); } else { h = eoHowMany(q); h.value(cnt, false); d = cat("changed to count ", cnt); want = (unsigned)cnt; } break; }
        default: { double q = (double)r.range(0, 8) / 8; eoHowMany z = r.flip() ? eoHowMany(q) : eoHowMany(q - 1.0); bool neg = r.flip(); d = cat(neg ? "1-" : "", "rate ", q); if (q == 1) { z = eoHowMany(q); } if (neg) { h = -z; want = (unsigned)std::ceil((1 - q) * n); } else { h = z; want = (unsigned)std::ceil(q * n); } }
        }
        unsigned got = 0;
        try { got = h(n); } catch (eoException&) { thrown = true; }
        event("amount");
        CHECK(thrown == thr && (thr || got == want), "wrong-number", d, " of ", n, " gave ", got, thrown ? " (refused)" : "", " instead of ", want);
        state(mix(hstr(d), n));
    }
}
// populators
UNIT(populators, 400, 5000, "populated") {
    (void)idx;
    unsigned n = (unsigned)r.size(1, 40);
    auto par = parents(r, n); auto before = par;
    Log log; start(log);
    Kit kit; Sel ss;
    // consuming the source in order
    {
        eoPop<Tok> off; eoSeqPopulator<Tok> it(par, off);
        unsigned k = 0; bool thrown = false;
        try { for (;; ++it) { Tok& t = *it; CHECK(k < n && t.g == before[k].g, "wrong-order", "sequential populator at ", k); CHECK(it.tellp() == k, "wrong-position", it.tellp(), " ", k); ++k; if (k > n + 2) break; } } catch (eoPopulator<Tok>::OutOfIndividuals&) { thrown = true; }
        event("populated");
        CHECK(thrown && k == n && off.size() == n, "wrong-number", "sequential populator gave ", k, " of ", n);
    }
    // a proportional operator uses up the source and stops
    {
        eoProportionalOp<Tok> c; c.add(kit.q1, 1); c.add(kit.m1, 1); c.add(kit.mc, 1);
        eoPop<Tok> off; eoSeqPopulator<Tok> it(par, off);
        for (unsigned k = 0; k < 2 * n + 2; ++k) c(it);
        event("populated");
        CHECK(off.size() == n, "wrong-number", "proportional operator over ", n, " individuals in order left ", off.size());
        derived(par, off, "sequential proportional");
    }
    // reading, inserting and moving around
    {
        eoPop<Tok> off; eoSelectivePopulator<Tok> it(par, off, ss.rnd);
        CHECK(it.exhausted(), "wrong-position", "fresh");
        std::vector<std::vector<long>> model; size_t pos = 0;
        for (int s = 0; s < 30; ++s) {
            switch (r.below(5)) {
            case 0: { bool end = it.exhausted(); Tok& t = *it; if (end) model.push_back(t.g); CHECK(t.g == model[pos], "wrong-position", "read"); break; }
            case 1: ++it; if (pos < model.size()) ++pos; break;
            case 2: { Tok t; t.g.assign(L, -1000 - s); it.insert(t); model.insert(model.begin() + (long)pos, t.g); break; }
            case 3: pos = r.below(model.size() + 1); it.seekp((unsigned)pos); break;
            default: it.reserve((int)r.range(0, 100));
            }
            event("populated");
            CHECK(it.tellp() == pos && it.exhausted() == (pos == model.size()) && off.size() == model.size(), "wrong-position", "at ", it.tellp(), " instead of ", pos, " of ", model.size());
            for (size_t i = 0; i < model.size() && i < off.size(); ++i) CHECK(off[i].g == model[i], "wrong-content", "populated ", i);
            state(mix(pos, model.size()));
        }
        CHECK(&it.source() == &par && &it.offspring() == &off, "wrong-content", "source");
    }
    untouched(par, before, "populators");
}
