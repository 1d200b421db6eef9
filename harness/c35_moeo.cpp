// C35: command-line assembly of multi-objective algorithms.
#include "c35.h"
#include "c26.h"
#include <do/make_ea_moeo.h>
#include <do/make_continue_moeo.h>
#include <do/make_checkpoint_moeo.h>
#include <ga.h>
#include <fstream>
#include <unistd.h>
using namespace mob;
namespace {
std::string text(const eoPop<Bits>& p) { std::string s; for (auto& b : p) { for (bool x : b) s += x ? '1' : '0'; s += b.invalidObjectiveVector() ? "? " : " "; } return s; }
struct Vary { eo1PtBitXover<Bits> x; eoBitMutation<Bits> m{0.15}; eoSequentialOp<Bits> op; Vary() { op.add(x, 0.8); op.add(m, 0.7); } };
}
UNIT(moeo_engine, 500, 6000, "moeo_engine") {
    Quiet q;
    Setup s(r, 2, 3);
    World w(r, s, (size_t)r.range(5, 30));
    typedef std::shared_ptr<moeoFitnessAssignment<Bits>> FA;
    Line l;
    FA fa; std::shared_ptr<moeoDiversityAssignment<Bits>> da; std::shared_ptr<moeoComparator<Bits>> cmp; std::shared_ptr<moeoSelectOne<Bits>> sel; std::shared_ptr<moeoReplacement<Bits>> rep;
    std::shared_ptr<moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>> metric;
    bool indicator = false, dummy = false;
    switch (r.below(5)) {
    case 0: l.set("fitness", "Dummy"); fa = std::make_shared<moeoDummyFitnessAssignment<Bits>>(); dummy = true; break;
    case 1: l.set("fitness", "DomDepth"); [[fallthrough]];
    case 2: fa = std::make_shared<moeoDominanceDepthFitnessAssignment<Bits>>(); break;
    default: {
        indicator = true;
        l.set("fitness", "IndicatorBased");
        double rho = 1.1, kappa = 0.05; bool hyper = r.flip();
        if (r.flip()) { rho = r.range(11, 30) / 10.0; l.set("rho", rho); }
        if (r.flip()) { kappa = r.range(1, 40) / 100.0; l.set("kappa", kappa); }
        if (hyper) l.set("indicator", "Hypervolume"); else if (r.flip()) l.set("indicator", "Epsilon");
        if (hyper) metric = std::make_shared<moeoHypervolumeBinaryMetric<OV>>(rho); else metric = std::make_shared<moeoAdditiveEpsilonBinaryMetric<OV>>();
        fa = std::make_shared<moeoExpBinaryIndicatorBasedFitnessAssignment<Bits>>(*metric, kappa);
    }
    }
    bool divers = false;
    switch (r.below(4)) {
    case 0: l.set("diversity", "Dummy"); [[fallthrough]];
    case 1: da = std::make_shared<moeoDummyDiversityAssignment<Bits>>(); break;
    case 2: { double n = 0.5; if (r.below(4)) { n = r.range(1, 30) / 10.0; l.set("diversity", cat("Sharing(", n, ")")); } else l.set("diversity", "Sharing"); da = std::make_shared<moeoFrontByFrontSharingDiversityAssignment<Bits>>(n); divers = true; break; }
    default: l.set("diversity", "Crowding"); da = std::make_shared<moeoFrontByFrontCrowdingDiversityAssignment<Bits>>(); divers = true;
    }
    switch (r.below(4)) {
    case 0: l.set("comparator", "FitnessThenDiversity"); [[fallthrough]];
    case 1: cmp = std::make_shared<moeoFitnessThenDiversityComparator<Bits>>(); break;
    case 2: l.set("comparator", "DiversityThenFitness"); cmp = std::make_shared<moeoDiversityThenFitnessComparator<Bits>>(); break;
    default: l.set("comparator", "Aggregative"); cmp = std::make_shared<moeoAggregativeComparator<Bits>>();
    }
    unsigned t = (unsigned)r.range(2, 8); double p = r.range(55, 100) / 100.0; bool arg = r.below(4) != 0;
    switch (r.below(4)) {
    case 0: l.set("selection", arg ? cat("DetTour(", t, ")") : "DetTour"); sel = std::make_shared<moeoDetTournamentSelect<Bits>>(*cmp, arg ? t : 2); break;
    case 1: l.set("selection", arg ? cat("StochTour(", p, ")") : "StochTour"); sel = std::make_shared<moeoStochTournamentSelect<Bits>>(*cmp, arg ? p : 1.0); break;
    case 2: l.set("selection", "Random"); sel = std::make_shared<moeoRandomSelect<Bits>>(); break;
    default: sel = std::make_shared<moeoDetTournamentSelect<Bits>>(*cmp, 2);
    }
    bool generational = false;
    switch (r.below(divers ? 3 : 4)) {
    case 0: l.set("replacement", "Elitist"); [[fallthrough]];
    case 1: rep = std::make_shared<moeoElitistReplacement<Bits>>(*fa, *da, *cmp); break;
    case 2: l.set("replacement", "Generational"); rep = std::make_shared<moeoGenerationalReplacement<Bits>>(); generational = true; break;
    default: l.set("replacement", "Environmental"); rep = std::make_shared<moeoEnvironmentalReplacement<Bits>>(*fa, *da, *cmp);
    }
    long n = r.range(4, 24);
    eoHowMany how(1.0);
    if (!generational && r.flip()) { long c = r.range(1, 2 * n); if (r.flip()) { l.set("nbOffspring", c); how = eoHowMany((int)c); } else { c = r.range(10, 200); l.set("nbOffspring", cat(c, "%")); how = eoHowMany(c / 100.0); } }
    (void)indicator; (void)dummy;
    Eval e(w);
    eoPop<Bits> a; for (long i = 0; i < n; ++i) { Bits b = w.random(r); e(b); a.push_back(b); }
    eoPop<Bits> b = a;
    unsigned gens = (unsigned)r.range(1, 6);
    Vary v; eoGenContinue<Bits> c1(gens), c2(gens); moeoUnboundedArchive<Bits> arch;
    uint32_t seed = (uint32_t)r.next();
    size_t ev0 = w.evals;
    {
        eoState st;
        moeoEA<Bits>& ea = do_make_ea_moeo(l.go(), st, e, c1, v.op, arch);
        eo::rng.reseed(seed);
        ea(a);
    }
    size_t ev1 = w.evals;
    eoGeneralBreeder<Bits> breed(*sel, v.op, how);
    moeoEasyEA<Bits> ref(c2, e, breed, *rep, *fa, *da, generational);
    eo::rng.reseed(seed);
    ref(b);
    CHECK(text(a) == text(b) && ev1 - ev0 == w.evals - ev1, "moeo-engine", "the run of '", l.str(), "' differs from the algorithm it describes (", n, " individuals, ", gens, " generations): ", text(a).substr(0, 150), " / ", text(b).substr(0, 150));
    event("moeo_engine"); state(mix(hstr(l.str()), hstr(text(a))));
}
UNIT(moeo_refused, 40, 300, "moeo_refused") {
    Quiet q;
    Setup s(r, 2, 2); World w(r, s, 6); Eval e(w); Vary v; eoGenContinue<Bits> c(2); moeoUnboundedArchive<Bits> arch; eoState st; Line l;
    static const char* const bad[][2] = {{"fitness", "Depth"}, {"diversity", "Crowd"}, {"comparator", "Fitness"}, {"selection", "Roulette"}, {"replacement", "Comma"}, {"indicator", "Hyper"}};
    int k = (int)r.below(7); bool thrown = false;
    if (k == 5) l.set("fitness", "IndicatorBased");
    if (k < 6) l.set(bad[k][0], bad[k][1]); else l.set("maxGen", 0).set("CtrlC", 0);
    eoEvalFuncCounter<Bits> ec(e);
    try { if (k < 6) do_make_ea_moeo(l.go(), st, e, c, v.op, arch); else do_make_continue_moeo(l.go(), st, ec); } catch (std::exception&) { thrown = true; }
    CHECK(thrown, "refuse", "'", l.str(), "' is accepted");
    event("moeo_refused"); state(mix(k, r.next()));
}
// stopping criteria, archive kept up to date, files written
UNIT(moeo_run, 120, 1500, "moeo_run,moeo_archive,moeo_files") {
    Quiet q;
    Setup s(r, 2, 3);
    World w(r, s, (size_t)r.range(4, 16));
    Eval e(w); eoEvalFuncCounter<Bits> ec(e);
    Line l;
    std::string dir = cat(scratch(), "/moeo", idx);
    unsigned g = (unsigned)r.range(1, 10); unsigned long me = (unsigned long)r.range(10, 150); bool gen = r.flip(), ev = !gen || r.flip();
    l.set("CtrlC", 0).set("maxGen", gen ? g : 0).set("resDir", dir).set("nbOffspring", r.range(1, 12));
    if (ev) l.set("maxEval", me);
    bool update = r.below(4) != 0, store = r.flip(), cont = r.flip(), ent = r.flip(), save = r.flip(); unsigned freq = (unsigned)r.range(0, 4);
    if (!update) l.set("updateArch", 0);
    if (store) l.set("storeArch", 1);
    if (cont) l.set("contribution", 1);
    if (ent) l.set("entropy", 1);
    if (save) l.set("saveFrequency", freq);
    l.go();
    eoParser& ps = *l.parser;
    std::vector<V> atGen; 
    unsigned gens = 0; unsigned long evals = 0; bool ended = false;
    moeoUnboundedArchive<Bits> arch, mine;
    eoPop<Bits> pop; for (long i = r.range(3, 10); i > 0; --i) { Bits b = w.random(r); pop.push_back(b); }
    {
        eoState st;
        st.registerObject(pop);
        eoContinue<Bits>& c = do_make_continue_moeo(ps, st, ec);
        struct Watch : public eoContinue<Bits> {
            eoContinue<Bits>& in; moeoUnboundedArchive<Bits>& mine; unsigned gens = 0; eoEvalFuncCounter<Bits>& ec; unsigned g; unsigned long me; bool gen, ev, bad = false, stopped = false;
            Watch(eoContinue<Bits>& c, moeoUnboundedArchive<Bits>& m, eoEvalFuncCounter<Bits>& e_) : in(c), mine(m), ec(e_) {}
            bool operator()(const eoPop<Bits>& p) {
                ++gens; mine(p);
                bool go = in(p), want = !(gen && gens >= g) && !(ev && ec.value() >= me);
                if (go != want) bad = true;
                stopped = !go;
                return go && gens < 400;
            }
        } watch(c, mine, ec);
        watch.g = g; watch.me = me; watch.gen = gen; watch.ev = ev;
        eoCheckPoint<Bits>& cp = do_make_checkpoint_moeo(ps, st, ec, watch, pop, arch);
        Vary v;
        moeoEA<Bits>& ea = do_make_ea_moeo(ps, st, ec, cp, v.op, arch);
        for (auto& b : pop) ec(b);
        eo::rng.reseed((uint32_t)r.next());
        ea(pop);
        gens = watch.gens; evals = ec.value(); ended = watch.stopped;
        CHECK(!watch.bad && ended, "moeo-stopping", "'", l.str(), "' ran ", gens, " generations and ", evals, " evaluations");
    }
    auto values = [](const eoPop<Bits>& a) { std::vector<V> v; for (size_t i = 0; i < a.size(); ++i) v.push_back(plain(a[i].objectiveVector())); std::sort(v.begin(), v.end()); return v; };
    if (update) { CHECK(values(arch) == values(mine), "moeo-archive", "'", l.str(), "': the archive holds ", arch.size(), " vectors, the populations of the run had ", mine.size(), " non-dominated ones"); event("moeo_archive"); }
    else CHECK(arch.empty(), "moeo-archive", "the archive was updated although updateArch is off");
    auto lines = [](const std::string& f) { std::ifstream in(f); std::vector<std::string> v; std::string x; while (std::getline(in, x)) v.push_back(x); return v; };
    if (store) {
        auto v = lines(dir + "/arch"); std::vector<V> have;
        for (auto& x : v) { std::istringstream is(x); double d; V o; while (is >> d) o.push_back(d); have.push_back(o); }
        std::sort(have.begin(), have.end());
        CHECK(have == values(arch), "moeo-files", "the stored archive has ", have.size(), " vectors, the archive ", arch.size());
        event("moeo_files");
    } else CHECK(access((dir + "/arch").c_str(), F_OK) != 0, "moeo-files", "the archive was stored although storeArch is off");
    size_t want = update && gens ? gens - 1 : 0;
    size_t nc = lines(dir + "/contribution").size(), ne = lines(dir + "/entropy").size();
    CHECK(nc == (cont ? want : 0) && ne == (ent ? want : 0), "moeo-files", "'", l.str(), "', ", gens, " generations: ", nc, " contributions and ", ne, " entropies stored");
    for (unsigned k = 1; k <= gens; ++k) {
        bool there = access(cat(dir, "/generations", k, ".sav").c_str(), F_OK) == 0, need = save && (k == gens || (freq && k % freq == 0));
        CHECK(there == need, "moeo-saved", "'", l.str(), "', ", gens, " generations: the state of generation ", k, there ? " was saved" : " was not saved");
    }
    if (system(cat("rm -rf ", dir, "/").c_str())) {}
    event("moeo_run"); state(mix(hstr(text(pop)), gens));
}
