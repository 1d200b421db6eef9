// C35: command-line assembly builds what the options say (bit strings and generic parts).
#include "c35.h"
#include <ga/make_ga.h>
#include <do/make_general_replacement.h>
#include <cstdlib>
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ctime>
#include <fcntl.h>

using namespace mon;
using namespace eoh;

static long long fake_now = 1700000000;
extern "C" time_t time(time_t* t) noexcept { if (t) *t = (time_t)fake_now; return (time_t)fake_now; }
// commands of the library are only let through when every absolute path in them lies in the scratch directory
static int refused;
extern "C" int system(const char* cmd) {
    std::string s = cmd ? cmd : "", dir = scratch();
    std::istringstream words(s);
    std::string w; bool ok = s.find("..") == std::string::npos && s.find_first_of(";|&$`\n") == std::string::npos; int inside = 0;
    words >> w;
    while (words >> w) {
        if (w[0] == '-') continue;
        if (w.compare(0, dir.size() + 1, dir + "/") == 0) ++inside; else ok = false;
    }
    if (!ok || !inside) { ++refused; return -1; }
    pid_t p = fork();
    if (p == 0) { int n = open("/dev/null", 1); (void)n; execl("/bin/sh", "sh", "-c", s.c_str(), (char*)0); _exit(127); }
    int st = 0;
    waitpid(p, &st, 0);
    return st;
}

namespace {
template <class F> struct Weigh : public eoEvalFunc<eoBit<F>> {
    u64 salt; long n = 0;
    Weigh(u64 s) : salt(s) {}
    double of(const eoBit<F>& b) const { double s = 1; for (size_t i = 0; i < b.size(); ++i) if (b[i]) s += 1 + (double)(mix(salt, i) % 5); return s; }
    void operator()(eoBit<F>& b) { ++n; if (b.invalid()) b.fitness(of(b)); }
};
template <class B> std::string text(const B& b) { std::ostringstream o; if (b.invalid()) o << "inv"; else o << (double)b.fitness(); o << ":"; for (bool x : b) o << x; return o.str(); }
template <class B> std::string all(const eoPop<B>& p, size_t max = 1u << 30) { std::string s; for (auto& b : p) { s += text(b) + " "; if (s.size() > max) break; } return s; }
template <class B> eoPop<B> bits(Rand& r, long n, long dim) {
    eoPop<B> p;
    for (; n > 0; --n) { B b((unsigned)dim); for (long i = 0; i < dim; ++i) b[i] = r.flip(); b.invalidate(); p.push_back(b); }
    return p;
}
// the variation operator given to both sides
template <class B> struct Vary {
    eo1PtBitXover<B> x; eoBitMutation<B> m{0.1}; eoSequentialOp<B> op;
    Vary() { op.add(x, 0.8); op.add(m, 0.7); }
};

template <class F> void engine(Rand& r) {
    typedef eoBit<F> B;
    typedef std::shared_ptr<eoSelectOne<B>> S; typedef std::shared_ptr<eoReplacement<B>> R;
    Quiet q;
    Line l;
    long n = r.size(4, 30), dim = r.range(4, 40);
    bool maxi = !minimizing_fitness<B>();
    std::string sel, rep; S s; R p;
    eoHammingDistance<B> dist; std::shared_ptr<eoPerf2Worth<B>> p2w;
    unsigned k = (unsigned)r.range(2, 9); double t = r.range(55, 100) / 100.0;
    bool arg = r.below(5) != 0;
    switch (r.below(8)) {
    case 0: sel = arg ? cat("DetTour(", k, ")") : "DetTour"; s = std::make_shared<eoDetTournamentSelect<B>>(arg ? k : 2); break;
    case 1: sel = arg ? cat("StochTour(", t, ")") : "StochTour"; s = std::make_shared<eoStochTournamentSelect<B>>(arg ? t : 1.0); break;
    case 2: sel = "Random"; s = std::make_shared<eoRandomSelect<B>>(); break;
    case 3: { int w = (int)r.below(3); bool ordered = w != 1; sel = w == 0 ? "Sequential" : w == 1 ? "Sequential(unordered)" : "Sequential(ordered)"; s = std::make_shared<eoSequentialSelect<B>>(ordered); break; }
    case 4: {
        double pr = r.range(11, 20) / 10.0, ex = r.range(5, 30) / 10.0; int w = (int)r.below(5);
        if (w == 0) { sel = "Ranking"; pr = 2; ex = 1; } else if (w == 1) { sel = cat("Ranking(", pr, ")"); ex = 1; }
        else if (w == 2) { sel = cat("Ranking(", r.flip() ? 2.5 : 0.5, ",", ex, ")"); pr = 2; }
        else if (w == 3) { sel = cat("Ranking(", pr, ",", -ex, ")"); ex = 1; }
        else sel = cat("Ranking(", pr, ",", ex, ")");
        p2w = std::make_shared<eoRanking<B>>(pr, ex); s = std::make_shared<eoRouletteWorthSelect<B>>(*p2w); break;
    }
    case 5: if (maxi) { sel = "Roulette"; s = std::make_shared<eoProportionalSelect<B>>(); break; } [[fallthrough]];
    case 6: if (maxi) { double niche = r.range(2, 60) / 10.0; sel = arg ? cat("Sharing(", niche, ")") : "Sharing"; s = std::make_shared<eoSharingSelect<B>>(arg ? niche : 0.5, dist); break; } [[fallthrough]];
    default: s = std::make_shared<eoDetTournamentSelect<B>>(2); // the default
    }
    bool few = true; arg = r.below(5) != 0;
    unsigned k2 = (unsigned)r.range(2, 9); double t2 = r.range(55, 100) / 100.0;
    switch (r.below(7)) {
    case 0: rep = "Plus"; p = std::make_shared<eoPlusReplacement<B>>(); break;
    case 1: rep = arg ? cat("EPTour(", k2, ")") : "EPTour"; p = std::make_shared<eoEPReplacement<B>>(arg ? k2 : 6); break;
    case 2: rep = "SSGAWorst"; p = std::make_shared<eoSSGAWorseReplacement<B>>(); break;
    case 3: rep = arg ? cat("SSGADet(", k2, ")") : "SSGADet"; p = std::make_shared<eoSSGADetTournamentReplacement<B>>(arg ? k2 : 2); break;
    case 4: rep = arg ? cat("SSGAStoch(", t2, ")") : "SSGAStoch"; p = std::make_shared<eoSSGAStochTournamentReplacement<B>>(arg ? t2 : 1.0); break;
    case 5: rep = "Comma"; p = std::make_shared<eoCommaReplacement<B>>(); few = false; break;
    default: p = std::make_shared<eoCommaReplacement<B>>(); few = false;
    }
    eoHowMany how(1.0);
    switch (r.below(3)) {
    case 0: { long c = few ? r.range(1, n) : r.range(n, 2 * n); l.set("nbOffspring", c); how = eoHowMany((int)c); break; }
    case 1: { long c = few ? r.range(10, 100) : r.range(100, 200); l.set("nbOffspring", cat(c, "%")); how = eoHowMany(c / 100.0); break; }
    default: break;
    }
    bool weak = r.flip();
    if (weak) l.set("weakElitism", 1); else if (r.flip()) l.set("weakElitism", "0");
    if (!sel.empty()) l.set("selection", sel);
    if (!rep.empty()) l.set("replacement", rep);
    r.shuffle(l.words);
    for (auto& w : l.words) if (w == "prog") std::swap(w, l.words[0]);
    R full = p;
    if (weak) full = std::make_shared<eoWeakElitistReplacement<B>>(*p);
    Vary<B> v;
    u64 salt = r.next();
    Weigh<F> e1(salt), e2(salt);
    unsigned gens = (unsigned)r.range(1, 8);
    eoGenContinue<B> c1(gens), c2(gens);
    eoPop<B> a = bits<B>(r, n, dim);
    for (auto& x : a) e1(x);
    eoPop<B> b = a;
    e1.n = 0;
    uint32_t seed = (uint32_t)r.next();
    {
        eoState st;
        eoAlgo<B>& algo = make_algo_scalar(l.go(), st, e1, c1, v.op, &dist);
        eo::rng.reseed(seed);
        algo(a);
    }
    eoGeneralBreeder<B> breed(*s, v.op, how);
    eoEasyEA<B> ref(c2, e2, breed, *full);
    eo::rng.reseed(seed);
    ref(b);
    CHECK(all(a) == all(b) && e1.n == e2.n, "engine", "the run of '", l.str(), "' differs from the algorithm it describes (population ", n, ", ", gens, " generations): ", all(a, 200), " / ", all(b, 200));
    event("engine_run"); state(mix(hstr(l.str()), hstr(all(a))));
    if (r.below(10) == 0) sample(l.str());
}
UNIT(engine_max, 500, 8000, "engine_run") { engine<double>(r); }
UNIT(engine_min, 500, 8000, "engine_run") { engine<eoMinimizingFitness>(r); }

// unknown names and values out of range are refused
UNIT(refused_options, 200, 1000, "refused") {
    typedef eoBit<double> B;
    Quiet q;
    Line l; eoState st;
    Vary<B> v; Weigh<double> e(1); eoGenContinue<B> c(3);
    std::string what; bool thrown = false;
    int w = (int)r.below(14);
    static const char* const op[][2] = {{"operator", "GA"}, {"pCross", "1.5"}, {"pCross", "-0.1"}, {"pMut", "1.01"}, {"pMut", "-1"}, {"onePointRate", "-1"}, {"twoPointRate", "-0.5"},
        {"uRate", "-3"}, {"pMutPerBit", "0.6"}, {"pMutPerBit", "-0.1"}, {"bitFlipRate", "-1"}};
    try {
        if (w < 11) { l.set(op[w][0], op[w][1]); eoBooleanGenerator<bool> g; eoInitFixedLength<B> in(5, g); make_op(l.go(), st, in); }
        else if (w == 11) { l.set("selection", "Tour(2)"); make_algo_scalar(l.go(), st, e, c, v.op); }
        else if (w == 12) { l.set("replacement", "ESComma"); make_algo_scalar(l.go(), st, e, c, v.op); }
        else { l.set("maxGen", 0); eoEvalFuncCounter<B> ec(e); make_continue(l.go(), st, ec); }
    } catch (std::exception&) { thrown = true; }
    CHECK(thrown, "refuse", "'", l.str(), "' is accepted");
    event("refused"); state(mix(w, r.next()));
}

// --- general replacement ------------------------------------------------------
UNIT(general_replacement, 400, 5000, "replaced") {
    typedef Ind<double> B;
    Quiet q;
    Line l; eoState st;
    std::shared_ptr<eoReduce<B>> red[3];
    static const char* const names[] = {"reduceParents", "reduceOffspring", "reduceFinal"};
    for (int i = 0; i < 3; ++i) {
        unsigned k = (unsigned)r.range(2, 8); double t = r.range(55, 100) / 100.0; bool arg = r.below(4) != 0; std::string s;
        switch (r.below(6)) {
        case 0: s = r.flip() ? "Deterministic" : "Sequential"; red[i] = std::make_shared<eoTruncate<B>>(); break;
        case 1: s = arg ? cat("EP(", k, ")") : "EP"; red[i] = std::make_shared<eoEPReduce<B>>(arg ? k : 6); break;
        case 2: s = arg ? cat("DetTour(", k, ")") : "DetTour"; red[i] = std::make_shared<eoDetTournamentTruncate<B>>(arg ? k : 2); break;
        case 3: s = arg ? cat("StochTour(", t, ")") : "StochTour"; red[i] = std::make_shared<eoStochTournamentTruncate<B>>(arg ? t : 1.0); break;
        case 4: s = r.flip() ? "Uniform" : "Random"; red[i] = std::make_shared<eoRandomReduce<B>>(); break;
        default: red[i] = std::make_shared<eoTruncate<B>>();
        }
        if (!s.empty()) l.set(names[i], s);
    }
    long n = r.size(4, 40), m = r.range(n, 2 * n);
    long el = r.flip() ? 0 : r.range(1, n / 3 + 1); bool strong = r.flip();
    l.set("elite", el); l.set("eliteType", strong ? "1" : "0");
    // enough individuals must be left to make up the population
    long sp = r.range(0, n - el), so = r.range(std::max(1L, n - sp), m);
    l.set("surviveParents", sp); l.set("surviveOffspring", so);
    eoParamParamType d1("Deterministic"), d2("Deterministic"), d3("Deterministic");
    eoPop<B> a = makePop<B>(r, (unsigned)n, 0), b = makePop<B>(r, (unsigned)m, 1000), a2 = a, b2 = b;
    eoReplacement<B>& rep = make_general_replacement<B>(l.go(), st, eoHowMany(0.0), false, eoHowMany(0.0), d1, eoHowMany(1.0), d2, d3);
    eoReduceMergeReduce<B> ref(eoHowMany((int)el), strong, eoHowMany((int)sp), *red[0], eoHowMany((int)so), *red[1], *red[2]);
    uint32_t seed = (uint32_t)r.next();
    eo::rng.reseed(seed); rep(a, b);
    eo::rng.reseed(seed); ref(a2, b2);
    CHECK(idseq(a) == idseq(a2), "general-replacement", "'", l.str(), "' keeps ", showPop(a), " where the described replacement keeps ", showPop(a2));
    event("replaced"); state(mix(hstr(l.str()), hpop(a)));
}

// --- populations and restart ----------------------------------------------------
template <class B> struct Fixed : public eoInit<B> {
    unsigned dim; Fixed(unsigned d) : dim(d) {}
    void operator()(B& b) { b = B(dim); for (unsigned i = 0; i < dim; ++i) b[i] = eo::rng.flip(); b.invalidate(); }
};
template <class F> void population(Rand& r, u64 idx) {
    typedef eoBit<F> B;
    Quiet q;
    unsigned dim = (unsigned)r.size(1, 40);
    Fixed<B> init(dim);
    long n = r.size(1, 60);
    if (r.below(3) == 0) {
        Line l; eoState st; bool given = r.below(4) != 0;
        uint32_t seed = given ? (uint32_t)r.range(1, 2000000000) : 0;
        if (given) l.set("seed", seed);
        fake_now = r.range(1000, 2000000000);
        bool sized = r.below(4) != 0;
        if (sized) l.set("popSize", n);
        eo::rng.reseed((uint32_t)r.next());
        eoPop<B>& pop = make_pop(l.go(), st, init);
        eo::rng.reseed(given ? seed : (uint32_t)fake_now);
        if (!sized) n = (long)pop.size();
        eoPop<B> ref((unsigned)n, init);
        CHECK((long)pop.size() == n && all(pop) == all(ref), "population", "'", l.str(), "' makes ", pop.size(), " individuals ", all(pop, 100), " instead of ", n, " drawn from the seed ", all(ref, 100));
        CHECK(pop.size() > 0, "population-size", "the default population is empty");
        auto* ps = dynamic_cast<eoValueParam<uint32_t>*>(l.parser->getParamWithLongName("seed"));
        CHECK(ps && ps->value() == (given ? seed : (uint32_t)fake_now), "population-seed", "the seed in use is not the one reported");
        event("population"); state(hstr(all(pop)));
        return;
    }
    // reload
    std::string file = cat(scratch(), "/pop", idx, ".sav");
    long m = r.size(1, 60);
    eoPop<B> saved = bits<B>(r, m, dim);
    Weigh<F> e(r.next());
    bool recompute = r.below(3) == 0;
    for (auto& x : saved) e(x);
    uint32_t after;
    uint32_t seed = (uint32_t)r.next();
    eo::rng.reseed(seed);
    for (long i = r.range(0, 700); i > 0; --i) eo::rng.rand();
    { eoState s; s.registerObject(saved); s.registerObject(eo::rng); s.save(file); }
    eoPop<B> extra;
    if (n > m) extra.append((unsigned)(n - m), init);
    after = eo::rng.rand();
    eo::rng.reseed(seed + 1);
    Line l; eoState st;
    l.set("Load", file).set("popSize", n);
    if (recompute) l.set("recomputeFitness", "1");
    eoPop<B>& pop = make_pop(l.go(), st, init);
    CHECK((long)pop.size() == n, "reload-size", "'", l.str(), "' gives ", pop.size(), " individuals from a file of ", m);
    CHECK(eo::rng.rand() == after, "reload-random", "the random state is not the one saved");
    if (recompute) for (auto& x : saved) x.invalidate();
    if (n >= m) {
        bool ok = (long)pop.size() == n;
        for (long i = 0; ok && i < m; ++i) ok = text(pop[i]) == text(saved[i]);
        for (long i = m; ok && i < n; ++i) ok = text(pop[i]) == text(extra[i - m]);
        CHECK(ok, "reload", "reloaded population differs from the saved one, completed: ", all(pop, 150), " / ", all(saved, 150));
        event("reloaded");
    } else {
        // only the best are kept
        auto worth = [&](const B& b) { typename B::Fitness f = e.of(b); return good(f); };
        std::multiset<std::string> left; for (auto& x : saved) left.insert(text(x));
        double worst = 1e300; bool member = true;
        for (auto& x : pop) { auto it = left.find(text(x)); if (it == left.end()) { member = false; break; } left.erase(it); worst = std::min(worst, worth(x)); }
        CHECK(member, "reload", "an individual of the reloaded population was not in the file");
        if (member) {
            double best = -1e300;
            for (auto& x : saved) { auto it = left.find(text(x)); if (it != left.end()) best = std::max(best, worth(x)); }
            CHECK(best <= worst, "reload-best", "the file holds ", m, " individuals, ", n, " are wanted: one of quality ", best, " is dropped while one of ", worst, " is kept");
        }
        event("reloaded_best");
    }
    remove(file.c_str());
    state(hstr(all(pop)));
}
UNIT(pop_max, 300, 4000, "population,reloaded,reloaded_best") { population<double>(r, idx); }
UNIT(pop_min, 300, 4000, "population,reloaded,reloaded_best") { population<eoMinimizingFitness>(r, idx); }

// --- stopping criteria ------------------------------------------------------------
template <class F> void stopping(Rand& r) {
    typedef eoBit<F> B;
    Quiet q;
    Line l; eoState st;
    Weigh<F> e(1); eoEvalFuncCounter<B> ec(e), ec2(e);
    std::vector<std::shared_ptr<eoContinue<B>>> parts;
    unsigned g = (unsigned)r.range(1, 30), sg = (unsigned)r.range(1, 6), mg = (unsigned)r.range(0, 12); unsigned long me = (unsigned long)r.range(1, 200); double tf = r.range(0, 40);
    bool gen = r.flip(), steady = r.flip(), ev = r.flip(), fit = r.flip();
    if (gen) { l.set("maxGen", g); parts.push_back(std::make_shared<eoGenContinue<B>>(g)); }
    else if (steady || ev || fit) l.set("maxGen", 0);
    else parts.push_back(std::make_shared<eoGenContinue<B>>(100));
    if (steady) { l.set("steadyGen", sg); bool m = r.flip(); if (m) l.set("minGen", mg); parts.push_back(std::make_shared<eoSteadyFitContinue<B>>(m ? mg : 0, sg)); }
    if (ev) { l.set("maxEval", me); parts.push_back(std::make_shared<eoEvalContinue<B>>(ec2, me)); }
    if (fit) { l.set("targetFitness", tf); parts.push_back(std::make_shared<eoFitContinue<B>>(F(tf))); }
    eoCombinedContinue<B> ref(*parts[0]);
    for (size_t i = 1; i < parts.size(); ++i) ref.add(*parts[i]);
    eoContinue<B>& c = make_continue(l.go(), st, ec);
    double level = minimizing_fitness<B>() ? 60 : -20; double dir = minimizing_fitness<B>() ? -1 : 1;
    for (int k = 1; k <= 130; ++k) {
        eoPop<B> pop; B b(3);
        if (r.below(3) == 0) level += dir * r.range(0, 6);
        b.fitness(F(level)); pop.push_back(b);
        long add = r.range(0, 8);
        for (long i = 0; i < add; ++i) { B x(3), y(3); x.invalidate(); y.invalidate(); ec(x); ec2(y); }
        bool a = c(pop), w = ref(pop);
        CHECK(a == w, "stopping", "'", l.str(), "' ", a ? "goes on" : "stops", " at generation ", k, " (best ", level, ", ", ec.value(), " evaluations) where its criteria ", w ? "go on" : "stop");
        state(mix(hstr(l.str()), mix(k, a)));
        event(a ? "goes_on" : "stops");
        if (!w || !a) break;
    }
}
UNIT(stop_max, 300, 4000, "goes_on,stops") { stopping<double>(r); }
UNIT(stop_min, 300, 4000, "goes_on,stops") { stopping<eoMinimizingFitness>(r); }

// --- checkpoints, files and restart --------------------------------------------------
// watches the population at the end of each generation
template <class B> struct Watch : public eoContinue<B> {
    eoContinue<B>& in; std::vector<std::string> pops; std::vector<double> best, avg; std::vector<unsigned long> evals; eoEvalFuncCounter<B>& ec;
    Watch(eoContinue<B>& c, eoEvalFuncCounter<B>& e) : in(c), ec(e) {}
    bool operator()(const eoPop<B>& p) {
        pops.push_back(all(p)); double s = 0; const B* b = &p[0];
        for (auto& x : p) { s += (double)x.fitness(); if (b->fitness() < x.fitness()) b = &x; }
        best.push_back((double)b->fitness()); avg.push_back(s / p.size()); evals.push_back(ec.value());
        return in(p);
    }
};
template <class F> void files(Rand& r, u64 idx) {
    typedef eoBit<F> B;
    Quiet q;
    std::string dir = cat(scratch(), "/res", idx, minimizing_fitness<B>() ? "m" : "M");
    Fixed<B> init((unsigned)r.range(4, 30));
    u64 salt = r.next();
    unsigned gens = (unsigned)r.range(1, 12), freq = (unsigned)r.range(0, 5);
    bool saving = r.below(4) != 0, best = r.flip();
    if (r.flip()) { // a directory left by an earlier run
        mkdir(dir.c_str(), 0700);
        std::ofstream(dir + "/generations1.sav") << "old\n"; std::ofstream(dir + "/old.txt") << "old\n";
    }
    std::vector<std::string> pops;
    auto common = [&](Line& l) {
        l.set("popSize", 5 + (idx % 20)).set("selection", "DetTour(3)").set("replacement", "Plus").set("nbOffspring", "70%").set("resDir", dir).set("useTime", 0).set("printBestStat", idx % 2).set("printPop", (idx / 2) % 2);
    };
    {
        Line l; common(l);
        l.set("seed", r.range(1, 1000000)).set("maxGen", gens);
        if (saving) l.set("saveFrequency", freq);
        if (best) l.set("fileBestStat", 1);
        l.go();
        eoParser& ps = *l.parser; eoState st;
        Weigh<F> e(salt); eoEvalFuncCounter<B> ec(e);
        eoPop<B>& pop = make_pop(ps, st, init);
        eoContinue<B>& c = make_continue(ps, st, ec);
        Watch<B> w(c, ec);
        refused = 0;
        eoCheckPoint<B>& cp = make_checkpoint(ps, st, ec, w);
        CHECK(refused == 0, "directory", "a command outside the result directory was issued");
        Vary<B> v;
        eoAlgo<B>& algo = make_algo_scalar(ps, st, ec, cp, v.op);
        make_help(ps);
        for (auto& x : pop) ec(x);
        algo(pop);
        pops = w.pops;
        CHECK(pops.size() == gens, "run-length", "maxGen=", gens, " runs ", pops.size(), " generations");
        if (pops.size() != gens) return;
        event("file_run");
        CHECK(!((saving || best) && access((dir + "/old.txt").c_str(), F_OK) == 0), "directory", "files of an earlier run are left in the result directory");
        if (best) {
            std::ifstream in(dir + "/best.xg"); std::string line; size_t k = 0;
            CHECK(bool(in), "best-file", "no file of best fitnesses");
            while (std::getline(in, line)) {
                std::istringstream is(line); std::vector<double> x; double d;
                while (is >> d) x.push_back(d);
                if (x.empty()) continue; // a header
                if (k >= gens) { ++k; continue; }
                bool ok = x.size() == 5 && x[0] == (double)(k + 1) && x[1] == (double)w.evals[k] && close(x[2], w.best[k], 1e-4) && close(x[3], w.avg[k], 1e-4);
                CHECK(ok, "best-file", "line ", k + 1, " of the file of best fitnesses is '", line, "' for generation ", k + 1, ", ", w.evals[k], " evaluations, best ", w.best[k], ", average ", w.avg[k]);
                ++k;
            }
            CHECK(k == gens, "best-file", k, " lines in the file of best fitnesses for ", gens, " generations");
            event("best_file");
        }
    }
    if (!saving) { event("not_saving"); if (system(cat("rm -rf ", dir, "/").c_str())) {} return; }
    // every saved file restarts the run where it was
    for (unsigned g = 1; g <= gens; ++g) {
        std::string file = cat(dir, "/generations", g, ".sav");
        bool there = access(file.c_str(), F_OK) == 0, want = g == gens || (freq && g % freq == 0);
        CHECK(there == want, "saved-files", "saveFrequency=", freq, ", ", gens, " generations: state of generation ", g, there ? " was saved" : " was not saved");
        if (!there) continue;
        Line l; common(l);
        bool recompute = r.below(3) == 0;
        l.set("Load", file).set("maxGen", gens == g ? 1 : gens - g);
        if (recompute) l.set("recomputeFitness", 1);
        l.go();
        eoState st; eoParser& ps = *l.parser;
        Weigh<F> e(salt); eoEvalFuncCounter<B> ec(e);
        eoPop<B>& pop = make_pop(ps, st, init);
        for (auto& x : pop) ec(x);
        CHECK(all(pop) == pops[g - 1], "saved-population", "the state saved at generation ", g, " holds another population");
        if (g == gens) continue;
        Watch<B> w(make_continue(ps, st, ec), ec);
        Vary<B> v;
        eoAlgo<B>& algo = make_algo_scalar(ps, st, ec, w, v.op);
        algo(pop);
        bool same = w.pops.size() == gens - g;
        for (size_t i = 0; same && i < w.pops.size(); ++i) same = w.pops[i] == pops[g + i];
        CHECK(same, "restart", "a run restarted from generation ", g, " of ", gens, " does not continue as the original run");
        event("restarted"); state(mix(hstr(pops.back()), g));
    }
    if (system(cat("rm -rf ", dir, "/").c_str())) {}
}
UNIT(files_max, 60, 600, "file_run,best_file,restarted") { files<double>(r, idx); }
UNIT(files_min, 60, 600, "file_run,best_file,restarted") { files<eoMinimizingFitness>(r, idx); }

// --- bit-string genotype and operators --------------------------------------------------
typedef eoBit<double> G;
UNIT(genotype, 100, 800, "made") {
    Quiet q;
    Line l; eoState st;
    unsigned n = (unsigned)r.size(1, 300); bool given = r.below(4) != 0; float bias = r.flip() ? 0.5f : (float)r.real(0, 1);
    if (given) l.set("chromSize", n);
    eo::rng.reseed((uint32_t)r.next());
    auto& init = r.flip() ? make_genotype(l.go(), st, G(), bias) : (bias = 0.5f, make_genotype(l.go(), st, G()));
    if (!given) n = 10;
    long ones = 0, total = 0;
    for (int k = 0; k < 60; ++k) {
        G g; g.fitness(3); init(g);
        CHECK(g.size() == n, "genotype-size", "'", l.str(), "' makes ", g.size(), " bits instead of ", n);
        CHECK(g.invalid(), "genotype-fitness", "a new individual has a fitness");
        for (bool b : g) { ones += b; ++total; }
        event("made");
    }
    CHECK(!deviates(ones, total, bias), "genotype-bias", ones, " ones in ", total, " bits at probability ", bias);
    state(mix(n, ones));
}
struct Bred { eoPop<G> parents, kids; };
Bred breed(Rand& r, Line& l, long pairs, unsigned dim, bool complementary) {
    eoState st; eoBooleanGenerator<bool> g; eoInitFixedLength<G> in(dim, g);
    Bred x;
    x.parents = bits<G>(r, 2 * pairs, dim);
    for (auto& p : x.parents) p.fitness(7.5);
    if (complementary) for (long i = 0; i < pairs; ++i) for (unsigned k = 0; k < dim; ++k) { x.parents[2 * i][k] = false; x.parents[2 * i + 1][k] = true; }
    eoGenOp<G>& op = make_op(l.go(), st, in);
    eo::rng.reseed((uint32_t)r.next());
    eoSeqPopulator<G> it(x.parents, x.kids);
    it.reserve((unsigned)(2 * pairs));
    while (x.kids.size() < x.parents.size()) { op(it); ++it; }
    return x;
}
long flips(const G& a, const G& b) { long n = 0; for (size_t i = 0; i < a.size(); ++i) n += a[i] != b[i]; return n; }
long breaks(const G& a) { long n = 0; for (size_t i = 1; i < a.size(); ++i) n += a[i] != a[i - 1]; return n; }
UNIT(operators, 160, 2000, "crossed,mutated,cloned,mixed") {
    Quiet q;
    Line l;
    unsigned dim = (unsigned)r.range(200, 260); long pairs = 150;
    int mode = (int)(idx % 10);
    double pc = 0, pm = 0;
    if (mode == 0) { l.set("pCross", 0).set("pMut", 0); }
    else if (mode <= 3) { pc = r.flip() ? 1 : r.range(10, 90) / 100.0; l.set("pCross", pc).set("pMut", 0); }
    else if (mode <= 6) { pm = r.flip() ? 1 : r.range(10, 90) / 100.0; l.set("pCross", 0).set("pMut", pm); }
    double r1 = 0, r2 = 0, ru = 0, mb = 0, m1 = 0, mk = 0, pb = r.range(5, 50) / 100.0; unsigned kb = (unsigned)r.range(2, 6);
    if (mode == 1) r1 = 1; if (mode == 2) r2 = 0.7; if (mode == 3) ru = 3;
    if (mode == 4) mb = 0.5; if (mode == 5) m1 = 1; if (mode == 6) mk = 2;
    if (mode == 7) { pc = 1; l.set("pCross", 1).set("pMut", 0); r1 = r.range(0, 5); r2 = r.range(1, 5); ru = r.range(0, 5); }
    if (mode == 8) { l.set("pCross", r.u01()).set("pMut", 0).set("onePointRate", 0).set("twoPointRate", 0).set("uRate", 0); } // no crossover at all
    else if (mode == 9) { l.set("pCross", 0).set("pMut", r.u01()).set("bitFlipRate", 0).set("oneBitRate", 0).set("kBitRate", 0); } // no mutation at all
    else if (mode != 0) {
        if (r1 + r2 + ru == 0) ru = 1;
        if (mb + m1 + mk == 0) m1 = 1;
        l.set("onePointRate", r1).set("twoPointRate", r2).set("uRate", ru).set("bitFlipRate", mb).set("oneBitRate", m1).set("kBitRate", mk).set("kBit", kb).set("pMutPerBit", pb);
    }
    Bred x = breed(r, l, pairs, dim, mode <= 3 || mode == 7);
    CHECK(x.kids.size() == x.parents.size(), "bred-number", x.kids.size(), " offspring from ", x.parents.size(), " parents");
    if (x.kids.size() != x.parents.size()) return;
    long changed = 0, uni = 0, two = 0, one = 0, total = 0, flipped = 0, mutated = 0;
    for (long i = 0; i < pairs; ++i) {
        const G &a = x.parents[2 * i], &b = x.parents[2 * i + 1], &c = x.kids[2 * i], &d = x.kids[2 * i + 1];
        CHECK(c.size() == dim && d.size() == dim, "bred-length", "an offspring has another length than its parents");
        if (c.size() != dim || d.size() != dim) return;
        bool diff = flips(a, c) || flips(b, d);
        for (int k = 0; k < 2; ++k) if (flips(x.parents[2 * i + k], x.kids[2 * i + k])) CHECK(x.kids[2 * i + k].invalid(), "bred-fitness", "a modified offspring keeps the fitness of its parent");
        if (mode == 0 || mode >= 8) { CHECK(!diff, "no-variation", "the rates of all operators are 0 but an offspring differs from its parent"); CHECK(!c.invalid() && !d.invalid(), "no-variation", "the rates of all operators are 0 but an offspring lost its fitness"); event("cloned"); }
        else if (mode <= 3 || mode == 7) {
            for (unsigned k = 0; k < dim; ++k) if (c[k] == d[k]) { CHECK(false, "crossover-exchange", "crossover of complementary parents yields children that are not complementary"); return; }
            if (diff) ++changed;
            long br = breaks(c);
            if (br > 40) ++uni; else if (br >= 2) ++two; else if (br == 1) ++one;
            event("crossed");
        } else {
            for (int k = 0; k < 2; ++k) {
                long f = flips(x.parents[2 * i + k], x.kids[2 * i + k]);
                ++total; if (x.kids[2 * i + k].invalid()) { ++mutated; flipped += f; }
                if (mode == 5) CHECK(f <= 1, "one-bit", "one-bit mutation changes ", f, " bits");
                if (mode == 6) CHECK(f <= (long)kb, "k-bits", "mutation of ", kb, " bits changes ", f);
                event("mutated");
            }
        }
    }
    if (mode == 1) { CHECK(uni == 0 && two == 0, "one-point", "one-point crossover cuts in several points"); CHECK(changed <= pairs && one <= changed + pairs, "one-point", "?"); }
    if (mode == 2) CHECK(uni == 0, "two-points", "two-point crossover cuts in many points");
    if (mode == 3) CHECK(uni == changed, "uniform", "uniform crossover is not uniform");
    if (mode == 3) CHECK(!deviates(uni, pairs, pc), "pCross", uni, " crossovers of ", pairs, " pairs at rate ", pc);
    if (mode == 1 || mode == 2) {
        // a cut may fall at an end and exchange nothing or everything
        double p = pc;
        CHECK(!(changed > pairs * p && deviates(changed, pairs, p)), "pCross", changed, " crossovers of ", pairs, " pairs at rate ", p);
        CHECK(!(changed < pairs * p * 0.95 && deviates(changed, pairs, p * 0.95)), "pCross", changed, " crossovers of ", pairs, " pairs at rate ", p);
    }
    if (mode == 7) {
        double sum = r1 + r2 + ru;
        CHECK(!deviates(uni, pairs, ru / sum), "mixture", uni, " uniform crossovers of ", pairs, " at relative rates ", r1, " ", r2, " ", ru);
        CHECK(!(two > pairs * r2 / sum && deviates(two, pairs, r2 / sum)), "mixture", two, " two-point crossovers of ", pairs, " at relative rates ", r1, " ", r2, " ", ru);
        CHECK(!(two < pairs * 0.95 * r2 / sum && deviates(two, pairs, 0.95 * r2 / sum)), "mixture", two, " two-point crossovers of ", pairs, " at relative rates ", r1, " ", r2, " ", ru);
        event("mixed");
    }
    if (mode >= 4 && mode <= 6) {
        CHECK(!deviates(mutated, total, pm), "pMut", mutated, " mutations of ", total, " at rate ", pm);
        if (mode == 4) CHECK(!deviates(flipped, mutated * (long)dim, pb), "pMutPerBit", flipped, " bits flipped of ", mutated * (long)dim, " at rate ", pb);
        if (mode == 5) CHECK(flipped == mutated, "one-bit", mutated, " one-bit mutations change ", flipped, " bits");
        if (mode == 6) CHECK(flipped <= mutated * (long)kb && flipped * 10 >= mutated * (long)kb * 8, "k-bits", mutated, " mutations of ", kb, " bits change ", flipped);
    }
    state(mix(hstr(l.str()), changed + flipped));
}
// relative rates of the mutations
UNIT(mutation_mix, 40, 500, "mixed") {
    Quiet q;
    Line l; unsigned dim = 240; long pairs = 200;
    double mb = r.range(0, 4), m1 = r.range(1, 4), mk = r.range(0, 4);
    l.set("pCross", 0).set("pMut", 1).set("bitFlipRate", mb).set("oneBitRate", m1).set("kBitRate", mk).set("kBit", 9).set("pMutPerBit", 0.4);
    Bred x = breed(r, l, pairs, dim, false);
    long one = 0, many = 0, n = 0;
    for (size_t i = 0; i < x.kids.size(); ++i) { long f = flips(x.parents[i], x.kids[i]); ++n; if (f == 1) ++one; if (f > 40) ++many; }
    double s = mb + m1 + mk;
    CHECK(!deviates(many, n, mb / s), "mutation-mixture", many, " bit-flip mutations of ", n, " at relative rates ", mb, " ", m1, " ", mk);
    CHECK(!(one < n * m1 / s && deviates(one, n, m1 / s)), "mutation-mixture", one, " one-bit mutations of ", n, " at relative rates ", mb, " ", m1, " ", mk);
    CHECK(!(one > n * (m1 / s + 0.01) && deviates(one, n, std::min(1.0, m1 / s + 0.01))), "mutation-mixture", one, " one-bit mutations of ", n, " at relative rates ", mb, " ", m1, " ", mk);
    event("mixed"); state(mix(one, many));
}
} // namespace
