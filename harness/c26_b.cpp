// C26: whole runs of the multi-objective evolutionary algorithms, watched generation by generation.
#include "c26_kit.h"

UNIT(nsga2, 500, 12000, "run,generation,rank-checked,rank-boundary,front-complete,front-crowded,by-generations,membership,evaluated-before") {
    Quiet q; Kit k(r, idx % 97 == 0); Watch o(k.w, "NSGA-II", DEPTH, true, k.pop);
    run<moeoNSGAII<Bits>>(k, o, (int)(idx % 5));
}
UNIT(nsga, 250, 6000, "run,generation,rank-checked,rank-boundary,front-complete,front-crowded,by-generations,membership") {
    Quiet q; Kit k(r, idx % 97 == 0); Watch o(k.w, "NSGA", DEPTH, true, k.pop);
    run<moeoNSGA<Bits>>(k, o, (int)(idx % 5), r.pick(std::vector<double>{0.5, 0.1, 2}));
}
UNIT(moga, 250, 6000, "run,generation,rank-checked,front-checked,by-generations,membership") {
    Quiet q; Kit k(r, idx % 97 == 0); Watch o(k.w, "MOGA", COUNT, true, k.pop);
    run<moeoMOGA<Bits>>(k, o, (int)(idx % 5), r.pick(std::vector<double>{0.5, 0.1, 2}));
}
UNIT(ibea, 300, 6000, "run,generation,by-generations,membership,epsilon,hypervolume,own-assignment") {
    Quiet q; Kit k(r, false, 3); Watch o(k.w, "IBEA", NONE, true, k.pop);
    moeoAdditiveEpsilonBinaryMetric<OV> eps;
    moeoHypervolumeBinaryMetric<OV> hyp;
    bool e = r.flip();
    moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>& m = e ? (moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>&)eps : (moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>&)hyp;
    double kappa = r.pick(std::vector<double>{0.05, 0.5, 1});
    event(e ? "epsilon" : "hypervolume");
    if (r.flip(0.3)) {
        moeoExpBinaryIndicatorBasedFitnessAssignment<Bits> fa(m, kappa);
        event("own-assignment");
        run<moeoIBEA<Bits>>(k, o, 1 + (int)(idx % 2), (moeoBinaryIndicatorBasedFitnessAssignment<Bits>&)fa);
    } else run<moeoIBEA<Bits>>(k, o, (int)(idx % 5), m, kappa);
}
