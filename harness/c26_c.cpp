// C26: archive-based evolutionary algorithms and the general algorithm.
#include "c26_kit.h"
#include <algo/moeoSPEA2.h>
#include <algo/moeoSEEA.h>
#include <algo/moeoASEEA.h>

UNIT(spea2, 350, 7000, "run,generation,by-generations,membership,archive-checked,operators-used,bounded") {
    Quiet q; Kit k(r, false); Watch o(k.w, "SPEA2", GENERATION, true, k.pop);
    o.bredFirst = false;
    bool bounded = r.flip(0.3);
    unsigned cap = (unsigned)r.range(1, 12);
    moeoUnboundedArchive<Bits> all(r.flip());
    moeoSPEA2Archive<Bits> some(cap);
    moeoArchive<Bits>& arch = bounded ? (moeoArchive<Bits>&)some : (moeoArchive<Bits>&)all;
    if (bounded) o.archive = [&] { k.w.right(some, "archive of SPEA2", 0); CHECK(some.size() <= cap, "archive-size", "the archive of SPEA2 holds ", some.size(), ", its maximum is ", cap); event("bounded"); };
    else o.archive = [&] { k.w.holds(all, "archive of SPEA2"); };
    bool nocopy = r.flip();
    run<moeoSPEA2<Bits>>(k, o, (int)(idx % 7), arch, 1u, nocopy);
}
UNIT(seea, 350, 7000, "run,generation,by-generations,archive-checked,operators-used") {
    Quiet q; Kit k(r, false); Watch o(k.w, "SEEA", GENERATION, true, k.pop);
    o.bredFirst = false;
    moeoUnboundedArchive<Bits> all(r.flip());
    o.archive = [&] { k.w.holds(all, "archive of SEEA"); };
    run<moeoSEEA<Bits>>(k, o, (int)(idx % 5), (moeoArchive<Bits>&)all);
}
UNIT(aseea, 300, 6000, "run,generation,by-generations,archive-checked,operators-used") {
    Quiet q; Kit k(r, false); Watch o(k.w, "ASEEA", GENERATION, false, k.pop);
    o.bredFirst = false;
    moeoUnboundedArchive<Bits> all(r.flip());
    o.archive = [&] { k.w.holds(all, "archive of ASEEA"); };
    static const int hows[] = {0, 3, 4, 5, 6};
    run<moeoASEEA<Bits>>(k, o, hows[idx % 5], (moeoArchive<Bits>&)all, (unsigned)r.range(1, 12));
}
UNIT(easy, 400, 8000, "run,generation,rank-checked,elitist,generational-replacement,each-generation,size-exception") {
    Quiet q; Kit k(r, false);
    bool gen = r.flip(0.3), again = r.flip();
    Watch o(k.w, "moeoEasyEA", gen ? NONE : DEPTH, true, k.pop);
    moeoDominanceDepthFitnessAssignment<Bits> depth;
    moeoFrontByFrontCrowdingDiversityAssignment<Bits> crowd;
    moeoGenerationalReplacement<Bits> gr;
    moeoElitistReplacement<Bits> er(depth, crowd);
    moeoReplacement<Bits>& rep = gen ? (moeoReplacement<Bits>&)gr : (moeoReplacement<Bits>&)er;
    moeoDetTournamentSelect<Bits> sel(2);
    // a generational run with too many or too few offspring changes the size, which is refused
    double rate = gen && k.pop.size() > 3 && r.flip(0.2) ? (r.flip() ? 1.5 : 0.5) : 1.0;
    eoGeneralBreeder<Bits> breed(sel, k.op, rate);
    eoSelectMany<Bits> many(sel, rate);
    if (gen) again = true;
    Eval ev(k.w);
    PopEval pe(o);
    Cont c(o, k.gens);
    std::shared_ptr<moeoEasyEA<Bits>> a;
    switch (idx % 4) {
    case 0: a = std::make_shared<moeoEasyEA<Bits>>(c, ev, breed, rep, depth, crowd, again); break;
    case 1: a = std::make_shared<moeoEasyEA<Bits>>(c, pe, breed, rep, depth, crowd, again); break;
    case 2: a = std::make_shared<moeoEasyEA<Bits>>(c, ev, many, k.tr, rep, depth, crowd, again); break;
    default: a = std::make_shared<moeoEasyEA<Bits>>(c, pe, many, k.tr, rep, depth, crowd, again);
    }
    bool refused = false;
    try { (*a)(k.pop); } catch (std::exception&) { refused = true; }
    CHECK(refused == (rate != 1), "size-exception", "moeoEasyEA: a generational run with ", rate, " offspring per parent is ", refused ? "refused" : "accepted");
    if (refused) { event("size-exception"); return; }
    CHECK(o.gens == k.gens, "generations", "moeoEasyEA: ", o.gens, " generations, the criterion allows ", k.gens);
    CHECK(k.pop.size() == o.size, "size", "moeoEasyEA: the run ends with ", k.pop.size(), " individuals, it started with ", o.size);
    CHECK(idx % 4 < 2 ? k.op.calls > 0 : k.tr.calls > 0, "operators", "moeoEasyEA: the operators given are never used");
    k.w.right(k.pop, "moeoEasyEA", 0);
    event(gen ? "generational-replacement" : "elitist");
    if (again) event("each-generation");
    event("run");
    state(mix(k.w.evals, mix(o.size, idx % 4)));
}
