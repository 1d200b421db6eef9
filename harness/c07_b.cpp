// C07: local searches and multi-objective runs.
#include "mon.h"
#include <eo>
#include <ga.h>
#include <es.h>
#include <mo>
#include <moeo>
using namespace mon;

typedef eoBit<double> Bit;
typedef moBitNeighbor<double> BN;
struct Full : public eoEvalFunc<Bit> { void operator()(Bit& b) { double s = 0; for (size_t i = 0; i < b.size(); ++i) s += (b[i] ? 1 : 0) * (double)((i * 7 + 3) % 5) - ((b[i] && b[(i + 1) % b.size()]) ? 1.5 : 0); b.fitness(s); } };
struct Moves : public moStatBase<Bit> { void operator()(Bit& b) { event("move"); state(mix(hvec(b), hdbl(b.fitness()))); } };
template <class LS> void go(LS& ls, Bit s, Full& f) { f(s); ls(s); event("run"); state(mix(hvec(s), hdbl(s.fitness()))); }
UNIT(local_search, 160, 2000, "run,move") {
    unsigned n = (unsigned)r.range(3, 14);
    Full f; moFullEvalByCopy<BN> ne(f);
    moRndWithReplNeighborhood<BN> rw(n, (unsigned)r.range(2, 20)); moRndWithoutReplNeighborhood<BN> ro(n); moOrderNeighborhood<BN> on(n);
    Moves mv; moIterContinuator<BN> it((unsigned)r.range(1, 15), false); moCheckpoint<BN> cp(it); cp.add(mv);
    moSolNeighborComparator<BN> sn; moNeighborComparator<BN> nn;
    Bit s(n, false); for (unsigned i = 0; i < n; ++i) s[i] = r.flip();
    moIndexNeighborhood<BN>& nh = r.flip() ? (moIndexNeighborhood<BN>&)rw : ro;
    switch (idx % 9) {
    case 0: { moSimpleHC<BN> a(on, f, ne, cp); go(a, s, f); break; }
    case 1: { moFirstImprHC<BN> a(nh, f, ne, cp); go(a, s, f); break; }
    case 2: { moRandomBestHC<BN> a(on, f, ne, cp); go(a, s, f); break; }
    case 3: { moNeutralHC<BN> a(on, f, ne, 8, cp); go(a, s, f); break; }
    case 4: { moRandomWalk<BN> a(rw, f, ne, cp); go(a, s, f); break; }
    case 5: { moMetropolisHasting<BN> a(rw, f, ne, 12, cp); go(a, s, f); break; }
    case 6: { moSimpleCoolingSchedule<Bit> cs(3, 0.9, 3, 0.5); moSA<BN> a(rw, f, ne, cs, cp); go(a, s, f); break; }
    case 7: { moTS<BN> a(on, f, ne, 1, 4); moIterContinuator<BN> c2(10, false); moNeighborVectorTabuList<BN> tl(3, 0); moDummyIntensification<BN> di; moDummyDiversification<BN> dd; moBestImprAspiration<BN> as; moTS<BN> b(on, f, ne, cp, tl, as); go(b, s, f); break; }
    default: { // variable neighbourhoods in random order
        moSimpleHC<BN> l1(on, f, ne), l2(on, f, ne), l3(on, f, ne);
        eoOneBitFlip<Bit> s1; eoDetBitFlip<Bit> s2(2); eoBitMutation<Bit> s3(0.3);
        moRndVectorVNSelection<Bit> sel(l1, s1, true); sel.add(l2, s2); sel.add(l3, s3);
        for (int k = 0; k < 4; ++k) { sel.init(s); for (int j = 0; j < 3 && sel.cont(s); ++j) { Bit c(s); sel.getShake()(c); state(hvec(c)); sel.next(s); } }
        event("run"); event("move"); }
    }
}
struct OT : public moeoObjectiveVectorTraits { static bool minimizing(int) { return true; } static bool maximizing(int) { return false; } static unsigned nObjectives() { return 2; } };
typedef moeoRealObjectiveVector<OT> OV;
struct Sol : public moeoRealVector<OV, double, double> { Sol() : moeoRealVector<OV, double, double>(4) {} };
struct MEval : public moeoEvalFunc<Sol> { void operator()(Sol& s) { OV o; double a = 0, b = 0; for (double x : s) { a += x * x; b += (x - 2) * (x - 2); } o[0] = a; o[1] = b; s.objectiveVector(o); } };
static void note(const eoPop<Sol>& p) { for (auto& s : p) { state(mix(hvec(s), hvec(s.objectiveVector()))); } }
UNIT(multi_objective, 60, 800, "run") {
    std::vector<bool> mins(2, true); OT::setup(2, mins);
    MEval ev; eoPopLoopEval<Sol> pe(ev);
    eoRealVectorBounds b(4, 0.0, 2.0); eoRealInitBounded<Sol> init(b);
    unsigned n = (unsigned)r.range(6, 20);
    eoPop<Sol> pop(n, init);
    eoSegmentCrossover<Sol> x(b); eoUniformMutation<Sol> m(b, 0.2); eoSGAGenOp<Sol> op(x, 0.8, m, 0.5);
    eoGenContinue<Sol> c((unsigned)r.range(1, 6));
    switch (idx % 6) {
    case 0: { moeoNSGAII<Sol> a(c, ev, op); a(pop); break; }
    case 1: { moeoNSGA<Sol> a(c, ev, op); a(pop); break; }
    case 2: { moeoAdditiveEpsilonBinaryMetric<OV> ind; moeoIBEA<Sol> a(c, ev, op, ind); a(pop); break; }
    case 3: { moeoMOGA<Sol> a(c, ev, op); a(pop); break; }
    case 4: { moeoSPEA2Archive<Sol> ar(8); moeoSPEA2<Sol> a(c, ev, x, 0.8, m, 0.5, ar); a(pop); note(ar); break; }
    default: { for (auto& s : pop) ev(s); moeoUnboundedArchive<Sol> ar; ar(pop); note(ar); moeoDetArchiveSelect<Sol> ds(ar, 2, 1); eoPop<Sol> out; ds(pop, out); note(out); }
    }
    event("run"); note(pop);
    // archives and unvisited ones
    for (auto& s : pop) s.flag(0);
    moeoNumberUnvisitedSelect<Sol> us(2);
    for (auto i : us(pop)) state(i);
}
