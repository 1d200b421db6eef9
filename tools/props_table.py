p("C01", "Fitness carried by an individual is never stale",
  "After every generation of every shipped single-objective evolutionary algorithm, each individual of the population carries a valid fitness equal to what evaluating its current genotype anew returns. Every shipped variation operator that changes a genotype reports the change, so that the operator wrappers and breeders invalidate the fitness of a changed individual and never let it keep the old value.",
  ["inputs", "histories", "configurations"], "any algorithm, breeder, operator mix and rates, any initial population, any number of generations",
  "The tests run a few algorithms on one seed and print the result; they never re-evaluate a population, so an operator that edits genes without reporting it passes unnoticed.",
  ["eo/src/EO.h", "eo/src/eoOp.h", "eo/src/eoGenOp.h", "eo/src/eoProportionalCombinedOp.h", "eo/src/eoSGATransform.h", "eo/src/eoSGA.h", "eo/src/eoGeneralBreeder.h", "eo/src/eoEasyEA.h", "eo/src/eoBreed.h", "eo/src/eoCloneOps.h", "eo/src/eoInvalidateOps.h"],
  [("operators return whether they modified their argument and wrappers call invalidate()", "eo/src/eoGenOp.h, eo/src/eoInvalidateOps.h, eo/src/eoSGATransform.h"), ("population evaluation after breeding", "eo/src/eoEasyEA.h, eo/src/eoPopEvalFunc.h")],
  ["continuator call at the end of each generation", "return value of every operator call"])
p("C02", "Evaluations are made exactly when needed and counted exactly",
  "Evaluating a population calls the objective function exactly once for each individual without a valid fitness and leaves every individual valid. Evaluation counters report exactly the number of evaluations performed on invalid individuals, and an evaluation budget lets exactly the allowed number of evaluations through and signals its exhaustion, never earlier and never later; a time budget refuses evaluations from its deadline on.",
  ["inputs", "histories"], "any population mixing valid and invalid individuals, any sequence of evaluations, any budget",
  "Tests evaluate fresh populations once; mixed validity, repeated calls and exact budgets over whole runs are not sampled.",
  ["eo/src/eoPopEvalFunc.h", "eo/src/eoEvalFunc.h", "eo/src/eoEvalFuncPtr.h", "eo/src/eoEvalFuncCounter.h", "eo/src/eoEvalCounterThrowException.h", "eo/src/eoEvalContinue.h", "eo/src/apply.h"],
  [("evaluate-if-invalid guard and counting wrappers", "eo/src/eoEvalFuncPtr.h, eo/src/eoEvalFuncCounter.h")])
p("C03", "Replacement keeps population size and never invents individuals",
  "After a replacement or reduction the surviving population has exactly the announced size, and its members form a sub-multiset of the individuals that were available (parents and offspring), each with genotype and fitness unchanged. Deterministic truncation keeps precisely the best ones, random elimination gives every individual the same chance, and generational or comma replacement keeps offspring only.",
  ["inputs", "configurations"], "any parent and offspring population sizes, any fitness values including ties, every shipped replacement, reduction, merge and split scheme",
  "Tests run each scheme on one small population and print it; sizes, ties and multiplicity conservation are never compared.",
  ["eo/src/eoReplacement.h", "eo/src/eoReduce.h", "eo/src/eoMerge.h", "eo/src/eoMergeReduce.h", "eo/src/eoReduceMerge.h", "eo/src/eoReduceMergeReduce.h", "eo/src/eoReduceSplit.h", "eo/src/eoMGGReplacement.h"],
  [("merge followed by reduce to the original size", "eo/src/eoMergeReduce.h, eo/src/eoReduceMerge.h, eo/src/eoMGGReplacement.h")])
p("C04", "Elitist schemes never lose the best individual",
  "Under every elitist scheme (plus strategies, weak elitism, elitist merge, truncation of parents plus offspring) the best fitness in the population never gets worse from one generation to the next. A strongly elitist merge transfers exactly the requested number of best parents, unaltered.",
  ["inputs", "histories", "configurations"], "any populations with ties, any elite count or rate, maximisation and minimisation, any number of generations",
  "Tests look at one replacement on one population; the guarantee concerns every generation of every run and every tie pattern.",
  ["eo/src/eoReplacement.h", "eo/src/eoMerge.h", "eo/src/eoMergeReduce.h", "eo/src/eoReduceMergeReduce.h", "eo/src/eoSurviveAndDie.h", "eo/src/eoMGGReplacement.h"],
  [("weak elitism wrapper and elitist merge", "eo/src/eoReplacement.h, eo/src/eoMerge.h")])
p("C05", "Selection returns members, in the right number and with the right pressure",
  "Every selector returns only members of the population it was given, leaves that population unchanged, and multi-selectors return exactly the requested number. Each selector realises its documented rule: a tournament returns the best of uniformly drawn contestants, truncation and deterministic selection return the best ones the right number of times, sequential selection visits everybody equally often in the documented order, and proportional, ranking and scaling selections pick individuals with the documented probabilities.",
  ["inputs", "configurations"], "any population size including 1, any fitness values including ties, zero and maximisation/minimisation, every shipped selector and selection-count setting",
  "Tests print frequencies for one tiny population for a human to look at.",
  ["eo/src/eoSelect.h", "eo/src/eoSelectMany.h", "eo/src/eoSelectNumber.h", "eo/src/eoSelectPerc.h", "eo/src/eoSelectFromWorth.h", "eo/src/eoDetSelect.h", "eo/src/eoDetTournamentSelect.h", "eo/src/eoStochTournamentSelect.h", "eo/src/eoProportionalSelect.h", "eo/src/eoStochasticUniversalSelect.h", "eo/src/eoRankingSelect.h", "eo/src/eoRanking.h", "eo/src/eoRankMuSelect.h", "eo/src/eoSequentialSelect.h", "eo/src/eoTruncatedSelectOne.h", "eo/src/eoTruncatedSelectMany.h", "eo/src/eoFitnessScalingSelect.h", "eo/src/eoSharingSelect.h", "eo/src/utils/selectors.h"],
  [("tournament, roulette and truncation primitives", "eo/src/utils/selectors.h"), ("worth computation", "eo/src/eoPerf2Worth.h, eo/src/eoRanking.h, eo/src/eoLinearFitScaling.h")])
p("C06", "Breeding yields the requested offspring and never alters parents",
  "Every breeder produces exactly the configured number of offspring, each derived only from genes of selected parents or from the variation operators given. Parents are never modified by breeding, and combined operators apply their components with the configured rates.",
  ["inputs", "configurations", "histories"], "any population size, offspring count or rate, any mix of operators of every arity, any rates including 0 and 1",
  "Tests print a bred population of one fixed size.",
  ["eo/src/eoGeneralBreeder.h", "eo/src/eoOneToOneBreeder.h", "eo/src/eoSGATransform.h", "eo/src/eoBreed.h", "eo/src/eoPopulator.h", "eo/src/eoGenOp.h", "eo/src/eoOpContainer.h", "eo/src/eoProportionalCombinedOp.h", "eo/src/utils/eoHowMany.h"],
  [("populator hands out copies of selected parents and grows the offspring vector", "eo/src/eoPopulator.h"), ("offspring count from rate or absolute number", "eo/src/utils/eoHowMany.h")])
p("C07", "A run is a pure function of its seed and of its restored random state",
  "With the global random generator seeded identically (and its cached normal draw cleared), any serial run of the library (initialisation, selection, variation, replacement, local search, shuffling) produces exactly the same individuals in the same order, in the same process or in another one. Saving the generator and restoring it later makes the sequence of all subsequent draws continue exactly as if there had been no interruption.",
  ["inputs", "histories", "configurations"], "any seed, any component mix without wall-clock stopping, any point of interruption in the draw sequence",
  "No test runs the same configuration twice and compares; draws hidden behind other random sources are invisible to single runs.",
  ["eo/src/utils/eoRNG.h", "eo/src/utils/eoRNG.cpp", "eo/src/eoPop.h", "eo/src/eoInit.h", "eo/src/utils/rnd_generators.h", "eo/src/utils/eoState.h", "mo/src/neighborhood"],
  [("one global Mersenne Twister used by every component", "eo/src/utils/eoRNG.h"), ("generator state written and read as text", "eo/src/utils/eoRNG.h")])
p("C08", "Random draws respect their documented range and distribution",
  "Integer draws lie in [0,n), real draws in the requested half-open interval, biased coin flips at rates 0 and 1 are deterministic, and shuffles are permutations. Uniform, normal, negative-exponential, Bernoulli, roulette and random-generator functors have the documented mean, variance and frequencies.",
  ["inputs", "histories"], "any parameter values and any position in the draw sequence",
  "Tests draw a few values and check nothing or a rough mean.",
  ["eo/src/utils/eoRNG.h", "eo/src/utils/rnd_generators.h", "eo/src/utils/eoRndGenerators.h", "eo/src/eoPop.h"],
  [("generator methods", "eo/src/utils/eoRNG.h")])
p("C09", "Fixed-length operators preserve length and gene provenance",
  "Bit-string and fixed-length vector operators never change the length, mutate exactly the number or kind of positions they announce, and crossovers exchange genes position by position so that at every position the pair of children holds the pair of parents' genes. An operator that returns 'unchanged' left its arguments identical.",
  ["inputs", "configurations"], "any two genotypes of equal length from 2 up, any rates and numbers of points, every shipped bit and fixed-length vector operator and initialiser",
  "Tests apply each operator once to a fixed pair of strings.",
  ["eo/src/ga/eoBitOp.h", "eo/src/ga/eoBit.h", "eo/src/ga/eoBitOpFactory.h", "eo/src/eoInit.h", "eo/src/eoFlOrQuadOp.h", "eo/src/eoFlOrBinOp.h", "eo/src/eoFlOrMonOp.h", "eo/src/ga/eoStandardBitMutation.h", "eo/src/eoSwapMutation.h", "eo/src/eoShiftMutation.h", "eo/src/eoInt.h", "eo/src/eoVector.h"],
  [("in-place gene exchange loops", "eo/src/ga/eoBitOp.h")])
p("C10", "Permutation operators and initialisers always yield permutations",
  "Every permutation initialiser, mutation (swap, shift, two-opt, inversion) and crossover (order, partially mapped) produces a valid permutation of the same elements, whatever the starting index. Mutations make exactly the kind of change they are named for (exchange, displacement, segment reversal), and crossover children respect the documented relative order of their parents.",
  ["inputs", "configurations"], "any permutation size and start index, any pair of parents, any number of swaps, any random draw",
  "Tests check one permutation of one size.",
  ["eo/src/eoSwapMutation.h", "eo/src/eoShiftMutation.h", "eo/src/eoTwoOptMutation.h", "eo/src/eoOrderXover.h", "eo/src/eoInit.h", "eo/src/eoInt.h"],
  [("order crossover fill-in", "eo/src/eoOrderXover.h"), ("in-place segment moves", "eo/src/eoShiftMutation.h, eo/src/eoTwoOptMutation.h")])
p("C11", "Bounds are always respected and repaired consistently",
  "Real and integer bounds agree with themselves: a value is reported in bounds exactly when it lies between the limits, folding and truncating always give a value inside (leaving inside values unchanged), and uniform draws fall inside. Every bounded real-valued initialiser, mutation and crossover yields genotypes within the bounds, arithmetic crossovers keep each child gene inside the parents' interval, and bounds written as text parse back to equal bounds. Mutations and simulated binary crossovers change each gene at the stated rate with steps following the stated law, self-adapted deviations and rotation angles of evolution strategies included.",
  ["inputs", "configurations"], "any finite limits including negative, tiny and huge, any in- or out-of-range value, half-bounded and unbounded, every shipped real operator",
  "Tests try a handful of values for one interval.",
  ["eo/src/utils/eoRealBounds.h", "eo/src/utils/eoRealBounds.cpp", "eo/src/utils/eoIntBounds.h", "eo/src/utils/eoIntBounds.cpp", "eo/src/utils/eoRealVectorBounds.h", "eo/src/es/eoRealOp.h", "eo/src/es/eoNormalMutation.h", "eo/src/es/eoRealInitBounded.h", "eo/src/es/eoSBXcross.h", "eo/src/es/eoEsMutate.h", "problems/DTLZ/src/SBXCrossover.h", "problems/DTLZ/src/PolynomialMutation.h"],
  [("foldsInBounds/truncate/isInBounds", "eo/src/utils/eoRealBounds.h"), ("fold after perturbation", "eo/src/es/eoRealOp.h, eo/src/es/eoNormalMutation.h")])
p("C12", "What is written as text is read back identical",
  "Individuals of every shipped evolutionary representation, with valid or invalid fitness, populations, random generators, parameters and whole state files, once printed and read back, compare equal to the original (genes, fitness validity and values up to the printed precision), element for element and in order. Reading a state consisting of several named objects restores each one whatever their order in the file.",
  ["inputs", "histories"], "any genotype of finite values, population size, fitness value or validity, any set of registered objects",
  "Tests save one state and look at the file.",
  ["eo/src/EO.h", "eo/src/eoVector.h", "eo/src/ga/eoBit.h", "eo/src/eoPop.h", "eo/src/es/eoEsSimple.h", "eo/src/es/eoEsStdev.h", "eo/src/es/eoEsFull.h", "eo/src/utils/eoState.cpp", "eo/src/utils/eoRNG.h", "eo/src/utils/eoParam.h", "moeo/src/core/MOEO.h"],
  [("printOn/readFrom pairs", "eo/src/EO.h, eo/src/eoPop.h, eo/src/eoVector.h"), ("sectioned state file", "eo/src/utils/eoState.cpp")])
p("C13", "Command-line and parameter-file settings reach the program exactly",
  "For every registered parameter the program sees the value given by long name, short name or parameter file, the command line winning over the file, and its default when it was not given. Writing the current settings out and parsing them back reproduces every value, and asking for an unknown or missing required parameter is reported, never silently ignored.",
  ["inputs", "configurations"], "any set of parameters of any supported type, any values without white space, any order and spelling of arguments, any mix of file and command line",
  "Tests call one command line each.",
  ["eo/src/utils/eoParser.h", "eo/src/utils/eoParser.cpp", "eo/src/utils/eoParam.h"],
  [("two-pass parsing, long and short name maps", "eo/src/utils/eoParser.cpp"), ("string conversions per type", "eo/src/utils/eoParam.h")])
p("C14", "Stopping criteria and checkpoints fire exactly when specified",
  "Each stopping criterion stops the run at precisely the generation, evaluation count, fitness target, stagnation length or period it was configured with, and a combination stops as soon as any member says stop. A checkpoint computes every statistic, then calls every updater and every monitor, then consults every continuator, each exactly once per generation, and performs the final call of each exactly once at the end. Monitors, counters and periodic updaters write or change exactly what they were given, at exactly the calls, periods and times they were configured for.",
  ["inputs", "histories", "configurations"], "any sequence of populations, any limits and combinations of criteria, any number of registered statistics, updaters and monitors",
  "Tests run one criterion with one setting.",
  ["eo/src/eoGenContinue.h", "eo/src/eoSteadyFitContinue.h", "eo/src/eoFitContinue.h", "eo/src/eoEvalContinue.h", "eo/src/eoPeriodicContinue.h", "eo/src/eoCombinedContinue.h", "eo/src/eoCtrlCContinue.h", "eo/src/utils/eoCheckPoint.h", "eo/src/utils/eoUpdater.h", "mo/src/continuator"],
  [("generation counters and thresholds", "eo/src/eoGenContinue.h, eo/src/eoSteadyFitContinue.h"), ("checkpoint loop", "eo/src/utils/eoCheckPoint.h, mo/src/continuator/moCheckpoint.h")])
p("C15", "Population order and statistics describe the population exactly",
  "Sorting, best, worst, n-th and shuffle operations agree with the fitness order of the individuals for maximised and minimised fitnesses, and never lose or duplicate anybody. Every population statistic (best, average, variance, median, n-th element, interquartile range, feasible ratio, fitness-distance correlation) equals its textbook definition on the population it was given.",
  ["inputs"], "any population size from 1 up, any fitness values with ties, negative and huge, any requested rank",
  "Tests compute each statistic on one population.",
  ["eo/src/eoPop.h", "eo/src/EO.h", "eo/src/eoScalarFitness.h", "eo/src/eoDualFitness.h", "eo/src/utils/eoStat.h", "eo/src/utils/eoFDCStat.h", "eo/src/utils/eoFeasibleRatioStat.h", "eo/src/utils/eoDistance.h"],
  [("comparison of individuals through their fitness", "eo/src/EO.h, eo/src/eoScalarFitness.h, eo/src/eoDualFitness.h"), ("statistics functors", "eo/src/utils/eoStat.h")])
p("C16", "Variable-length and tree genotypes stay well-formed",
  "Variation of variable-length genotypes and of program trees always yields structurally valid genotypes: exchanged or inserted material comes from the parents or the generator, nothing else changes, and length, size and depth limits are respected; strongly typed operators keep every argument's type (and do not cut trees to a size). A program tree's recorded sizes and depths always agree with its structure, and copying, printing and reading a tree gives an equal tree.",
  ["inputs", "histories", "configurations"], "any tree shapes and arities, any lengths, any sequence of crossovers and mutations",
  "Tests evolve one symbolic regression for a few generations and look at nothing.",
  ["eo/src/gp/parse_tree.h", "eo/src/gp/eoParseTree.h", "eo/src/gp/eoParseTreeOp.h", "eo/src/gp/eoParseTreeDepthInit.h", "eo/src/other/external_eo", "eo/src/eoVariableLengthMutation.h", "eo/src/eoVariableLengthCrossover.h"],
  [("subtree exchange with depth/size bookkeeping", "eo/src/gp/parse_tree.h"), ("size-limited crossover", "eo/src/gp/eoParseTreeOp.h")])
p("C17", "Neighbours undo exactly and neighbourhoods enumerate completely",
  "Applying a neighbour changes the solution exactly as the neighbour describes, and undoing it restores the genotype identically. Complete neighbourhoods enumerate every neighbour exactly once per pass (in order, in random order without repetition, or by their pair structure) and never produce a neighbour outside, while neighbourhoods with replacement stay inside.",
  ["inputs", "histories"], "any solution of any size, every shipped neighbour and neighbourhood, any number of passes",
  "Tests enumerate a neighbourhood of one small size once.",
  ["mo/src/neighborhood", "mo/src/problems/bitString", "mo/src/problems/permutation", "mo/src/problems/partition"],
  [("index to move mapping and move/moveBack pairs", "mo/src/problems/permutation, mo/src/problems/bitString"), ("init/next/cont protocol", "mo/src/neighborhood")])
p("C18", "Incremental neighbour evaluation equals full evaluation",
  "For every problem that ships an incremental evaluation, the fitness it gives a neighbour equals the fitness obtained by applying the move and evaluating the solution from scratch. It leaves the solution it was given untouched, so any sequence of accepted moves keeps the incrementally tracked fitness exact.",
  ["inputs", "histories"], "any instance, any solution, any neighbour, any length of walk",
  "Tests compare one or two hand-picked neighbours.",
  ["mo/src/problems/eval", "mo/src/eval", "problems/eval"],
  [("delta computation per problem", "mo/src/problems/eval"), ("copying or undoing full evaluation adapters", "mo/src/eval")])
p("C19", "Hill climbers only improve and stop at a local optimum",
  "Along any hill-climbing run every accepted move follows the climber's rule (best, first, random best or neutral neighbour at least as good) so fitness never gets worse. When it stops by itself the returned solution is a local optimum for its neighbourhood with a valid, correct fitness, for maximisation and minimisation alike.",
  ["inputs", "histories", "configurations"], "any starting point, landscape, neighbourhood and comparator, any run length",
  "Tests run one climber on one function from one start.",
  ["mo/src/algo", "mo/src/explorer", "mo/src/comparator"],
  [("explorer selection and acceptance", "mo/src/explorer"), ("local search loop", "mo/src/algo/moLocalSearch.h")])
p("C20", "Metaheuristics obey their acceptance rules and return the best found",
  "Tabu search never takes a tabu move unless it improves on the best found, annealing always accepts improving moves and accepts worsening ones with the Metropolis probability under a temperature that follows its cooling schedule, and iterated and variable-neighbourhood searches accept only what their criterion allows. Tabu and variable-neighbourhood search return a solution at least as good as every solution they accepted during the run, annealing and iterated search return the last one they accepted, and neutral walks never change fitness, all with correct fitness.",
  ["inputs", "histories", "configurations"], "any landscape, start, memory sizes, cooling parameters and run length",
  "Tests run a few iterations and check one accepted move.",
  ["mo/src/algo", "mo/src/explorer", "mo/src/memory", "mo/src/coolingSchedule", "mo/src/acceptCrit", "mo/src/perturb"],
  [("tabu list and aspiration", "mo/src/memory, mo/src/explorer/moTSexplorer.h"), ("Metropolis rule and cooling", "mo/src/explorer/moSAexplorer.h, mo/src/coolingSchedule")])
p("C21", "Search statistics and samplings describe the trajectory exactly",
  "Neighbourhood statistics (size, minimum, maximum, average, deviation, degrees of neutrality, quartiles) equal those obtained by evaluating every neighbour of the current solution by hand. Counters, best-so-far, distance and solution-trace statistics, autocorrelations, and every column recorded or exported by a sampling, equal the values recomputed from the recorded trajectory. A search checkpoint updates each registered statistic at exactly the configured interval.",
  ["inputs", "histories"], "any solution, neighbourhood, walk and sample size",
  "Tests check single hand-computed points.",
  ["mo/src/continuator", "mo/src/sampling"],
  [("neighbourhood statistics pass", "mo/src/continuator/moNeighborhoodStat.h"), ("trajectory statistics", "mo/src/continuator, mo/src/sampling")])
p("C22", "Dominance relations are lawful strict orders",
  "Pareto dominance and every derived objective-vector relation (weak, strict, epsilon, g-, per-objective, lexicographic) agrees with its definition for every mix of minimised and maximised objectives, and the strict ones are irreflexive, asymmetric and transitive. Comparators of individuals by fitness, diversity, objectives or weights are strict weak orders consistent with their documented priority.",
  ["inputs"], "any objective vectors of any dimension including ties and near-ties within the stated tolerance",
  "Tests compare a few fixed vectors.",
  ["moeo/src/comparator", "moeo/src/core/moeoRealObjectiveVector.h", "moeo/src/core/moeoObjectiveVector.h"],
  [("component-wise comparison with per-objective direction", "moeo/src/comparator")])
p("C23", "Archives hold exactly the non-dominated solutions seen",
  "After any sequence of insertions an unbounded archive contains no two solutions one of which dominates the other, no two equal objective vectors, and for every solution ever offered an archived one that equals or dominates it. Bounded archives never exceed their capacity, hold no dominated or equal solutions unless they are of the fixed-size (SPEA2) kind, and on overflow drop the worst by their own criterion (fitness and diversity, or contribution to the hypervolume). Every insertion into an unbounded, improvement-only or two-objective archive reports truthfully whether something was accepted.",
  ["inputs", "histories"], "any insertion sequence with duplicates and ties, one by one or by populations, any capacity, any number of objectives and directions",
  "Tests insert five solutions.",
  ["moeo/src/archive", "moeo/src/comparator"],
  [("dominance-based update", "moeo/src/archive/moeoArchive.h, moeo/src/archive/moeoUnboundedArchive.h"), ("bounded variants", "moeo/src/archive")])
p("C24", "Multi-objective ranking and diversity match their definitions",
  "Fitness assignments (dominance depth, rank, count, count-ranking, indicator based, achievement scalarising, aggregation) give every individual the value of their textbook definition, and never rank an individual at least as good as one that dominates it (individuals with equal objective values may be told apart). Diversity assignments (crowding, nearest neighbour, sharing) equal their definition, with boundary solutions of a front preferred, and are defined for every population.",
  ["inputs", "configurations"], "any population size, number of objectives, directions, duplicates and degenerate fronts",
  "Tests assign values to four or five fixed solutions.",
  ["moeo/src/fitness", "moeo/src/diversity", "moeo/src/distance", "moeo/src/utils"],
  [("front peeling, dominance matrix", "moeo/src/fitness, moeo/src/utils/moeoDominanceMatrix.h"), ("crowding distances", "moeo/src/diversity")])
p("C25", "Performance metrics equal the quantities they are named for",
  "Hypervolume, hypervolume difference, additive and multiplicative epsilon, contribution, entropy and distance metrics give the value of their mathematical definition for every pair of fronts, whatever the directions of the objectives and the order of the points. Adding a dominated or duplicate point leaves the hypervolume unchanged, and adding a non-dominated one never decreases it. Statistics over the objective vectors of a population (average, best, metric against the previous generation) and the fronts and metric values saved to files each generation are those of the population and archive they watch.",
  ["inputs", "configurations"], "any fronts of any size and dimension, any reference point dominated by all of them",
  "Tests evaluate fixed fronts of three points.",
  ["moeo/src/metric", "moeo/src/utils"],
  [("hypervolume slicing recursion", "moeo/src/metric/moeoHyperVolumeMetric.h"), ("epsilon loops", "moeo/src/metric")])
p("C26", "Multi-objective algorithms keep size, validity, elites and archives",
  "Through every generation of the shipped multi-objective evolutionary and dominance-based local-search algorithms every individual has valid, correct objective values, and the population keeps its size (the archive-driven algorithms that empty it aside). Elitist replacement keeps the best ranked of parents plus offspring and environmental replacement repeatedly drops the worst and reassesses, so with dominance-based ranks a non-dominated solution is lost only to another one; selection follows its stated probabilities. The unbounded archive attached to a run holds the non-dominated set of everything evaluated, and dominance-based local search ends by itself only when no neighbour of the archive could enter it.",
  ["inputs", "histories", "configurations"], "any problem, population size, operators, number of generations and seeds",
  "Tests run each algorithm for a few generations and check nothing.",
  ["moeo/src/algo", "moeo/src/replacement", "moeo/src/selection", "moeo/src/explorer"],
  [("merge, assign, sort, truncate", "moeo/src/replacement"), ("generation loops", "moeo/src/algo")])
p("C27", "Estimated distributions match the data and samples match the distribution",
  "Each distribution estimator returns the parameters defined by the sample it was given (means, variances and covariances, bounds, bit frequencies; the adaptive estimator the published covariance matrix adaptation update), and each sampler draws solutions of the right dimension whose distribution has these parameters. Re-centring a law moves exactly its mean, repairers and bounders always return solutions within their bounds, leave admissible components untouched and invalidate what they change. Estimation-of-distribution algorithms keep population size and valid fitness, and stop when their criteria on the population or on the law say so.",
  ["inputs", "configurations"], "any sample size and dimension, any mean, covariance and bounds",
  "Tests run one estimation on one population and write files.",
  ["edo/src"],
  [("moment estimators", "edo/src/edoEstimatorNormalMono.h, edo/src/edoEstimatorNormalMulti.h, edo/src/edoEstimatorUniform.h, edo/src/edoEstimatorBinomial.h"), ("samplers with matrix factorisation", "edo/src/edoSamplerNormalMulti.h, edo/src/edoSamplerNormalAdaptive.h")])
p("C28", "Parallel evaluation is exactly-once and equals sequential evaluation",
  "When a population is processed by the shared-memory scheduler, under the linear or the progressive policy and with any number of workers, the function is applied exactly once to every individual, all of it before the call returns, and never concurrently to the same individual. No data race occurs, and a master-worker run of the generational algorithm or of the synchronous particle swarm gives the same result as its sequential run.",
  ["schedules", "inputs", "configurations"], "any thread interleaving, task duration, population size (including fewer individuals than workers, or none), worker count and repetition",
  "Tests use one size and one schedule and cannot control interleavings.",
  ["smp/src/scheduler.h", "smp/src/scheduler.cpp", "smp/src/MWModel.h", "smp/src/MWModel.cpp", "smp/src/PPExpander.h"],
  [("package queues protected per worker, completion flag", "smp/src/scheduler.cpp"), ("join before return", "smp/src/scheduler.cpp")])
p("C29", "Island migration is faithful, topology-bound and terminates",
  "In an island model migrants travel only along edges of the topology in force, each emission reaches every running neighbour of its island exactly once and unaltered while both are running, and migrants are evaluated at their destination before they are integrated. Every island emits when its criteria say so, keeps its population size and valid fitness values and runs until its own stopping criterion, the model returns once all islands have finished and can be run again or given another topology at any time. No data race occurs between islands whose components share no state.",
  ["schedules", "configurations", "histories"], "any interleaving of islands, topology, migration period and selection, population sizes, run lengths and heterogeneous islands",
  "Tests run one small model once and only check that it returns.",
  ["smp/src/island.h", "smp/src/island.cpp", "smp/src/islandModel.h", "smp/src/islandModel.cpp", "smp/src/migPolicy.h", "smp/src/policyElement.h", "smp/src/intPolicy.h", "smp/src/notifier.h"],
  [("emigrant and immigrant queues under locks", "smp/src/islandModel.cpp, smp/src/island.cpp")])
p("C30", "Topologies connect exactly the announced nodes and isolate cleanly",
  "For every number of nodes each shipped topology has exactly its defining edges: complete, one-way ring, star towards its chosen centre, hypercube, rectangular mesh with the ratio closest to the requested one, and custom matrices as read (stochastic ones with the given probability per edge). Isolating a node removes exactly the edges from and to it, and constructing again restores the defining structure. Neighbours are reported once each, built topologies never link a node to itself, and a custom matrix that is not square or does not match the number of nodes is refused.",
  ["inputs", "histories"], "any number of nodes, centre, ratio or matrix, any sequence of isolations and rebuilds",
  "Tests build one size per topology.",
  ["smp/src/topology"],
  [("construction functors over a boolean neighbour matrix", "smp/src/topology")])
p("C31", "Benchmark problems compute the objective they are named for",
  "The shipped benchmark objective functions (counting ones, royal road and building-block royal road, long path, NK landscapes and their two neutral variants, maximum satisfiability, quadratic assignment, quadratic binary programming, queens, and the seven scalable multi-objective problems) return the value of their published definition for every solution and leave the solution's variables unchanged. Random instances have the structure and the law of their definition (links, clauses, contributions). Instances written to a file and read back, also over another instance, or given in the documented file format, assign the same values.",
  ["inputs", "configurations"], "any solution, instance size and parameter setting",
  "Tests compare a few known points.",
  ["problems/eval", "problems/DTLZ/src", "mo/src/problems/eval"],
  [("evaluation functors", "problems/eval, problems/DTLZ/src")])
p("C32", "Distributed jobs are assigned, processed and collected exactly once",
  "A distributed apply job processes every element of the table exactly once, whichever worker gets it and however packets are cut, and the master returns only when every result is back in its place, so that a population evaluated this way is the one a local evaluation gives. Static assignment gives workers task counts that differ by at most one and sum to the number of runs, dynamic assignment never hands a task to a busy worker, and all workers are released at the end, also when a job is run again or a worker is itself the master of an inner job. A distributed multi-start performs the requested number of runs and returns the best solution of each, every worker starting from its own seed.",
  ["schedules", "inputs", "configurations"], "any number of workers, table size, packet size, reuse of a job and order of completion",
  "The message-passing tests are not even built in this configuration.",
  ["eo/src/mpi/eoMpi.h", "eo/src/mpi/eoParallelApply.h", "eo/src/mpi/eoMultiStart.h", "eo/src/mpi/eoMpiAssignmentAlgorithm.h", "eo/src/mpi/eoMpiAssignmentAlgorithm.cpp", "eo/src/mpi/implMpi.h", "eo/src/mpi/implMpi.cpp", "eo/src/apply.h", "eo/src/eoPopEvalFunc.h"],
  [("assignment algorithms", "eo/src/mpi/eoMpiAssignmentAlgorithm.cpp"), ("send/handle/finish protocol", "eo/src/mpi/eoMpi.h, eo/src/mpi/eoParallelApply.h")])
p("C33", "No memory error or undefined behaviour under any documented use",
  "Running any shipped component within its documented preconditions never reads or writes outside an object, uses freed or uninitialised storage, overflows a signed integer, divides an integer by zero, or hangs. This holds for degenerate but legal inputs too: populations of one individual, single-gene genotypes where allowed, constant fitness and duplicate solutions.",
  ["inputs", "configurations", "histories"], "every component exercised by the other properties, with ordinary and degenerate sizes and values",
  "The test suite runs without sanitizers and on comfortable sizes, so out-of-range accesses that happen to hit mapped memory pass.",
  ["eo/src", "mo/src", "moeo/src", "edo/src", "smp/src", "problems"],
  [("container discipline throughout; ownership in functor stores", "eo/src/eoFunctorStore.h, eo/src/utils/eoState.h")])
p("C34", "Particle swarms move and inform as defined",
  "In a particle swarm each new velocity is the documented combination of inertia (or constriction), attraction to the particle's own best position and to the best position known in its neighbourhood (and in the whole swarm for the extended form), with attraction factors drawn uniformly up to their coefficients and the result kept within the velocity bounds in force; a move adds it to the position within the position bounds, or draws each bit with its sigmoid probability, and makes the particle's current fitness invalid but not its best one. With star, ring and linear topologies, every particle's, neighbourhood's and swarm's best is the best evaluation (fitness and position) reported so far by the particles concerned. The asynchronous swarm moves, evaluates and informs one particle at a time, the synchronous one moves all, evaluates all, then informs all, each evaluating every particle once per generation until the continuator stops it.",
  ["inputs", "histories", "configurations"], "any swarm and neighbourhood size, dimension, coefficients, bounds and fitness direction",
  "Tests run one swarm and print the result.",
  ["eo/src/eoStandardVelocity.h", "eo/src/eoExtendedVelocity.h", "eo/src/eoIntegerVelocity.h", "eo/src/eoConstrictedVelocity.h", "eo/src/eoFixedInertiaWeightedVelocity.h", "eo/src/eoVariableInertiaWeightedVelocity.h", "eo/src/eoConstrictedVariableWeightVelocity.h", "eo/src/eoStandardFlight.h", "eo/src/eoSigBinaryFlight.h", "eo/src/eoStarTopology.h", "eo/src/eoRingTopology.h", "eo/src/eoLinearTopology.h", "eo/src/eoEasyPSO.h", "eo/src/eoSyncEasyPSO.h", "eo/src/eoInitializer.h", "eo/src/PO.h"],
  [("velocity and flight functors", "eo/src/eo*Velocity.h, eo/src/eo*Flight.h"), ("updateNeighborhood, best, globalBest", "eo/src/eo*Topology.h"), ("swarm loops", "eo/src/eoEasyPSO.h, eo/src/eoSyncEasyPSO.h")])
p("C36", "Serialised objects and exchanged messages read back equal",
  "Objects, arrays, strings and numbers written to the library's textual object format and parsed again give an equal structure whatever their nesting, names, sizes and values, with real numbers keeping their full precision. Values and serialisable objects sent from one process to another arrive equal, in the order in which they were sent. Timers report the whole seconds elapsed, carrying fractions from one measure to the next, and their recorded measures survive serialisation.",
  ["inputs", "histories", "schedules"], "any nesting depth, key, string length, number magnitude, message size and interleaving of senders",
  "Tests write and parse a handful of fixed objects.",
  ["eo/src/serial/Object.h", "eo/src/serial/Array.h", "eo/src/serial/String.h", "eo/src/serial/Parser.cpp", "eo/src/serial/Utils.h", "eo/src/mpi/implMpi.cpp", "eo/src/utils/eoTimer.h"],
  [("print and parse", "eo/src/serial/*.cpp"), ("send and recv", "eo/src/mpi/implMpi.cpp"), ("start/stop borrow", "eo/src/utils/eoTimer.h")])
p("C35", "Command-line options assemble exactly the algorithm they describe",
  "Given the parsed options, the assembly functions build what these say or default to: selection, replacement, elitism, offspring number and variation operators with the stated arguments, rates and bounds, genotypes of the stated size, bounds and initial deviations, stopping criteria, single- and multi-objective alike, and refuse unknown names and invalid rates. The population has the requested size, is drawn from the requested seed (the clock without one), or is reloaded with its fitnesses and random state from a saved file, completed with new individuals when too small and reduced to its best when too large, so that a run restarted from a saved state continues exactly as the original would have. The checkpoint writes the requested files in the result directory and nowhere else: one line of statistics per generation, the states of the generations asked for and of the last one, the archive and its metrics.",
  ["inputs", "configurations", "histories"], "any combination of options and arguments, any saved state, seed, population and run length",
  "Tests run one default command line and look at nothing but the exit code.",
  ["eo/src/do", "eo/src/ga/make_op.h", "eo/src/ga/make_genotype_ga.h", "eo/src/es/make_op_real.h", "eo/src/es/make_op_es.h", "eo/src/es/make_genotype_real.h", "eo/src/utils/make_help.cpp", "moeo/src/do"],
  [("option names to components", "eo/src/do/make_algo_scalar.h, eo/src/do/make_general_replacement.h, moeo/src/do/make_ea_moeo.h"), ("population from seed or file", "eo/src/do/make_pop.h"), ("operators and rates", "eo/src/ga/make_op.h, eo/src/es/make_op_real.h, eo/src/es/make_op_es.h"), ("files", "eo/src/do/make_checkpoint.h, moeo/src/do/make_checkpoint_moeo.h")])
p("C37", "Foundries build and run exactly the algorithm that was encoded",
  "A slot of a forge or foundry, asked for by index or name, yields a component of the declared type built with the declared arguments (those passed by reference staying linked), a fresh one at each request or the same one when caching is on, built only on request, and the new definition once the slot is set up again; stores and forges release what they own exactly once. An algorithm foundry given an encoding runs exactly the algorithm made of the encoded operators, rates and sizes, within its evaluation budget, and evaluating an encoded algorithm gives it the best fitness its run reaches on the sub-problem, or the penalty when a rank is out of range. The fast genetic algorithm makes each offspring either by crossing two selected parents, selecting one of the two evaluated children and mutating it with the mutation rate, or by mutating one selected parent, in the proportion of the crossover rate, then evaluates and replaces once per generation until its continuator stops it.",
  ["inputs", "histories", "configurations"], "any set of slots, types of arguments, sequence of declarations and requests, encoding, rates and sizes",
  "Tests instantiate three slots and run one foundry without checking what it ran.",
  ["eo/src/eoForge.h", "eo/src/eoFunctorStore.h", "eo/src/eoAlgoFoundry.h", "eo/src/eoAlgoFoundryEA.h", "eo/src/eoAlgoFoundryFastGA.h", "eo/src/eoEvalFoundryEA.h", "eo/src/eoFastGA.h"],
  [("instantiate and setup", "eo/src/eoForge.h"), ("assembly in operator()", "eo/src/eoAlgoFoundryEA.h, eo/src/eoAlgoFoundryFastGA.h"), ("generation loop", "eo/src/eoFastGA.h")])
p("C38", "Covariance matrix adaptation follows its published update",
  "A covariance-matrix-adaptation strategy draws from the normal law whose mean, covariance and step size result from the published update on the ranked parents of every generation so far (weighted recombination, evolution paths, rank-one and rank-mu terms, step-size control, minimal deviations), its axes being those of the last eigen decomposition asked for, which reproduces the covariance matrix or reports that it did not converge. The strategy constants have their published defaults, or follow from the sizes, weights and deviations given as options. Breeding learns from its parents by rank without altering them and yields the requested number of unevaluated offspring, and a copied strategy evolves on its own.",
  ["inputs", "histories", "configurations"], "any dimension, sizes, weighting, deviations, objective, direction and number of generations",
  "The test runs one optimisation and looks at nothing but the exit code.",
  ["eo/src/es/CMAParams.cpp", "eo/src/es/CMAState.cpp", "eo/src/es/eig.cpp", "eo/src/es/eoCMABreed.h", "eo/src/es/eoCMAInit.h"],
  [("reestimate, treatNumericalIssues, updateEigenSystem", "eo/src/es/CMAState.cpp"), ("defaults and options", "eo/src/es/CMAParams.cpp"), ("Householder and QL", "eo/src/es/eig.cpp")])
