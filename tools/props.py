"""The table of properties: one entry per property, in the order of properties.jsonl."""

PROPS = []
NA = {}


def P(id, title, statement, over, quant, why, files, mech, technique, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note, observe=list(observe)))


EXH = "exhaustive bounded exploration of the real code against a reference model"
RUNX = "stateless exploration of complete runs of the real code under an environment that answers every scripted way"
RNGX = "stateless exploration of the real operators under a random generator whose every answer is enumerated"
SCH = "exhaustive enumeration of interleavings / schedules of the real code"
NOTE = "Complete for the bounds written into the evidence file; nothing is claimed beyond them. "

P("P01", "Non-dominated sorting matches the definition in every implementation",
  "For every objective matrix, each sorting method (python or compiled, any number of objectives, with ties, duplicates and infinities) returns exactly "
  "the Pareto fronts of the definition: every row in exactly one front, front k being the rows only dominated by rows of earlier fronts. "
  "Ranks agree with the fronts, asking for only the first front or stopping early returns a prefix of the full answer, and the non-dominated filter returns exactly the first front.",
  ["inputs", "configurations"], "all objective matrices x all sorting implementations x all early-stop arguments",
  "tests compare the methods with each other on a few random matrices, which almost never contain ties, duplicates or partial dominance patterns",
  ["pymoo/util/nds/", "pymoo/functions/standard/", "pymoo/functions/compiled/", "pymoo/util/dominator.py"],
  [("NonDominatedSorting.do", "pymoo/util/nds/non_dominated_sorting.py"), ("compiled sorting", "pymoo/functions/compiled/non_dominated_sorting.pyx")],
  EXH, NOTE + "Small-scope argument: the sorts only compare values, so small grids contain every order type of that size.")

P("P02", "The reported optimum is honest and feasibility-first",
  "Whatever values the problem returns, everything an algorithm reports (population, optimum and the X/F/G/CV of the result) are values the problem really returned for that very solution. "
  "The optimum contains a feasible solution whenever the population does and never mixes in infeasible or dominated ones; success is reported exactly when it is feasible. "
  "When nothing feasible was found, nothing is reported unless the least infeasible solution was asked for, and then it is a member of the population with the smallest violation.",
  ["inputs", "histories", "configurations"], "all algorithms x all scripted problem answers (feasible, infeasible, tied, extreme) at every evaluation",
  "tests run each algorithm on a few smooth benchmark problems, where ties, all-infeasible phases and late infeasible rows do not happen",
  ["pymoo/core/algorithm.py", "pymoo/util/optimum.py", "pymoo/algorithms/"],
  [("filter_optimum", "pymoo/util/optimum.py"), ("Algorithm.result", "pymoo/core/algorithm.py"), ("Algorithm._set_optimum", "pymoo/core/algorithm.py")],
  RUNX, NOTE + "Every algorithm runs with tiny populations and one fixed seed per script; the explored nondeterminism is the answers of the problem.")

P("P03", "A single-objective search never loses the best solution it evaluated",
  "For every elitist single-objective algorithm and every sequence of problem answers, the optimum after each iteration is as good (feasible before infeasible, then smaller violation or objective) as the best of all solutions evaluated so far. "
  "It therefore never gets worse from one iteration to the next, and the final result is the best solution ever evaluated.",
  ["inputs", "histories"], "all elitist single-objective algorithms x all scripted answer sequences, constrained and unconstrained",
  "tests only check that the final value on smooth functions is small",
  ["pymoo/algorithms/soo/", "pymoo/core/replacement.py", "pymoo/core/survival.py"],
  [("FitnessSurvival", "pymoo/algorithms/soo/nonconvex/ga.py"), ("ImprovementReplacement / is_better", "pymoo/core/replacement.py")],
  RUNX, NOTE + "Comma strategies (ES, SRES, ISRES) and CMA-ES are not elitist and excluded.")

P("P04", "Survival selection is elitist and feasibility-first",
  "Given any population, environmental selection returns exactly as many distinct members of it as asked for (all if fewer), adds nothing and alters no objective, constraint or design value. "
  "No infeasible solution survives while a feasible one is dropped, infeasible survivors have the smallest violations, and for survival by non-dominated rank no dropped feasible solution belongs to an earlier front than a surviving one (NicheGA and RVEA choose by niche, and SRES by stochastic ranking, and are held to membership and count only). "
  "For the single-objective survival the survivors are the best ones in order.",
  ["inputs", "configurations"], "all small populations (objectives and constraints from a grid) x all survival operators x all survivor counts",
  "tests select from a handful of random populations; ties, duplicates and constraint mixtures in the splitting front decide here",
  ["pymoo/core/survival.py", "pymoo/operators/survival/", "pymoo/algorithms/moo/", "pymoo/algorithms/soo/nonconvex/ga.py"],
  [("Survival.do / split_by_feasibility", "pymoo/core/survival.py"), ("RankAndCrowding", "pymoo/operators/survival/rank_and_crowding/")],
  EXH, NOTE)

P("P05", "Diversity metrics equal their definition, compiled or not",
  "For every front, each crowding metric (crowding distance, pruning crowding, entropy, nearest-neighbor products) equals its definition: extreme points always rank highest, the pruning variants equal removing the worst solution one at a time and recomputing. "
  "The compiled and the pure python implementation agree up to ties and a common factor, and none of them changes the objective values it was given.",
  ["inputs", "configurations"], "all small fronts, including ties, duplicates, constant objectives x all metrics x all numbers of solutions to remove",
  "tests use two example fronts", ["pymoo/operators/survival/rank_and_crowding/metrics.py", "pymoo/functions/"],
  [("get_crowding_function", "pymoo/operators/survival/rank_and_crowding/metrics.py"), ("calc_pcd/calc_mnn", "pymoo/functions/compiled/")],
  EXH, NOTE)

P("P06", "Constraint violation and feasibility follow the constraint values",
  "For every combination of inequality and equality values, the aggregated violation is the configured aggregate of the positive parts beyond the tolerances, zero exactly for solutions within tolerance, and feasibility is violation within the configured limit. "
  "A solution whose constraint values change, is copied, reset or evaluated again always shows the violation of its current values, for one solution or for the whole population alike. "
  "An adaptive tolerance follows its schedule, is the same for all solutions, decides the selection of its generation and has no effect outside of it.",
  ["inputs", "histories", "configurations"], "all small constraint vectors x aggregation settings x all short sequences of set/copy/reset/evaluate/read operations",
  "tests read the violation once, after evaluating; a stale or shared cache shows only in particular operation orders",
  ["pymoo/core/individual.py", "pymoo/core/population.py", "pymoo/constraints/"],
  [("calc_cv/constr_to_cv", "pymoo/core/individual.py"), ("Individual.CV cache", "pymoo/core/individual.py")],
  EXH, NOTE)

P("P07", "Every solution is evaluated exactly once and keeps its own values",
  "Evaluating a population calls the problem exactly for the solutions that lack a requested value, in order and once each, attaches to each solution the values of its own row, and increases the evaluation counter by exactly that number. "
  "Over a whole run the counter reported by an algorithm equals the number of rows the problem was asked for, and no solution of the population or the optimum is unevaluated.",
  ["histories", "configurations"], "all populations of partly evaluated solutions x requested values x skip flags; all algorithms over complete runs",
  "tests count evaluations of a few standard runs; partially evaluated populations and failing evaluations are not covered",
  ["pymoo/core/evaluator.py", "pymoo/core/problem.py", "pymoo/core/initialization.py"],
  [("Evaluator.eval", "pymoo/core/evaluator.py"), ("Problem.evaluate", "pymoo/core/problem.py")], EXH, NOTE)

P("P08", "Vectorized, elementwise and parallel evaluation give the same values",
  "A problem evaluated row by row, as a whole matrix, or by any parallel runner returns identical arrays in the order of the given solutions, for every order in which parallel workers happen to finish. "
  "Shapes follow the declared numbers of objectives and constraints, a single vector is answered with single vectors, and an exception of one evaluation reaches the caller instead of being swallowed.",
  ["schedules", "inputs", "fault_sequences"], "all problem shapes x runners x completion orders x failure points",
  "tests run one thread pool whose workers finish in the lucky order", ["pymoo/core/problem.py", "pymoo/parallelization/"],
  [("Problem._evaluate_elementwise", "pymoo/core/problem.py"), ("runners", "pymoo/parallelization/")], SCH, NOTE)

P("P09", "Budget terminations stop exactly when the budget is used up",
  "A run limited by iterations performs exactly that many, a run limited by evaluations stops after the first iteration in which the counter reaches the limit and never starts another, and a run limited by time stops at the first check at or after the limit. "
  "Progress never decreases, reaches at least 1 exactly when the run ends, and a combination of criteria ends with the first one met; equivalent ways to write a budget behave the same.",
  ["histories", "configurations"], "all algorithms x budgets; all increment patterns of the counter or clock up to a depth",
  "tests use a couple of budgets that are multiples of the population size", ["pymoo/termination/", "pymoo/core/termination.py", "pymoo/core/algorithm.py", "pymoo/util/misc.py"],
  [("Termination.update", "pymoo/core/termination.py"), ("termination_from_tuple", "pymoo/util/misc.py")], EXH, NOTE)

P("P10", "Convergence terminations fire exactly at the documented moment",
  "For every trajectory of objective, design and violation values, a tolerance-based termination with period, tolerance, number of skipped iterations and iteration limits stops exactly at the iteration its definition names, neither earlier nor later. "
  "Robust and delayed terminations, the all-of and any-of combinations and the manual stop follow their definition for every sequence of progress values of their parts.",
  ["histories", "configurations"], "all sequences of progress values / optimum trajectories over a small alphabet up to a depth x settings",
  "tests let one run converge and look only at the end", ["pymoo/termination/", "pymoo/core/termination.py"],
  [("DeltaToleranceTermination", "pymoo/termination/delta.py"), ("RobustTermination", "pymoo/termination/robust.py"), ("TerminationCollection", "pymoo/core/termination.py")], EXH, NOTE)

P("P11", "An archive holds exactly the non-dominated set of everything added",
  "After any sequence of additions, an archive holds exactly the feasible, mutually non-dominated, distinct solutions of everything that was added (while nothing feasible was added: the least violating ones), and never more than its capacity. "
  "When a capacity truncates it, what remains is a subset of that set, and an algorithm run with an archive ends with exactly that set of all the solutions it proposed.",
  ["histories", "configurations"], "all sequences of additions up to a depth x archive kinds x capacities",
  "tests add two populations", ["pymoo/util/archive.py", "pymoo/util/sliding_window.py"],
  [("MultiObjectiveArchive/SingleObjectiveArchive", "pymoo/util/archive.py")], EXH, NOTE)

P("P12", "Duplicate elimination removes exactly the duplicates",
  "For every population and reference populations, duplicate elimination keeps one of each distinct solution in the given order (by distance: the first), removes exactly the others and those within tolerance of a reference solution, and never changes what is kept. "
  "An algorithm that eliminates duplicates never evaluates two equal designs in one iteration nor one equal to a member of its population, for every outcome of its random operators.",
  ["inputs", "histories"], "all small populations x reference populations x tolerances x kinds of elimination; complete runs on tiny design spaces",
  "tests use a few fixed populations", ["pymoo/core/duplicate.py", "pymoo/core/infill.py", "pymoo/core/initialization.py"],
  [("DuplicateElimination.do", "pymoo/core/duplicate.py"), ("InfillCriterion.do", "pymoo/core/infill.py")], EXH, NOTE)

P("P13", "Variation operators stay closed for every outcome of the random generator",
  "For every possible answer of the random generator, sampling, crossover, mutation and repair return the requested number and shape of solutions inside the variable bounds and of the right type: real vectors within bounds, integers, booleans, permutations that stay permutations; discrete crossovers only share out the genes of the parents. "
  "Designs that reach the problem are never NaN or out of bounds, with tight, degenerate or integer bounds and parents on the bounds included.",
  ["inputs", "configurations"], "all operators x parents from a grid incl. bounds x every answer (quantised incl. extremes) of every random draw",
  "tests draw a few hundred random numbers; the extreme draws and parents on the bounds are never met", ["pymoo/operators/", "pymoo/core/crossover.py", "pymoo/core/mutation.py", "pymoo/core/sampling.py"],
  [("SBX, PM, DEX, ...", "pymoo/operators/"), ("repair functions", "pymoo/operators/repair/")], RNGX, NOTE)

P("P14", "Operators and algorithms never alter what they were given",
  "Applying an operator, a sorting, a survival or a duplicate elimination leaves its input populations, parents, arrays and problem untouched, and offspring do not share memory with their parents; in-place mutation and the repair of a given population are in place by contract. "
  "An entry of the saved history never changes afterwards, and the algorithm object (with everything it was given) and the termination passed to a minimization call are left unchanged.",
  ["inputs", "histories"], "all operators and functions on frozen copies of their inputs; complete runs with history, all algorithms",
  "tests look at outputs only; aliasing shows only when the input is used again", ["pymoo/core/", "pymoo/operators/", "pymoo/util/", "pymoo/optimize.py"],
  [("deepcopy in minimize", "pymoo/optimize.py"), ("Individual.copy", "pymoo/core/individual.py")], EXH, NOTE)

P("P15", "A seeded run depends on nothing but its seed",
  "Two runs with equal algorithm, problem, termination and seed evaluate the same solutions and return the same result, whatever the global random state is, whichever other runs happened before or are interleaved with it in the same process, and in whichever process it happens. "
  "A run neither reads nor changes the global random state.",
  ["schedules", "histories", "configurations"], "all algorithms x all interleavings of two runs step by step x global generator perturbations at every step",
  "tests repeat whole runs back to back from the same global state", ["pymoo/core/algorithm.py", "pymoo/util/__init__.py", "pymoo/operators/", "pymoo/algorithms/"],
  [("Algorithm.random_state", "pymoo/core/algorithm.py"), ("default_random_state", "pymoo/util/__init__.py")], SCH, NOTE)

P("P16", "A run resumed from a checkpoint equals the uninterrupted run",
  "Copying or serializing an algorithm after any iteration and continuing with the copy evaluates the same solutions and gives the same result as continuing the original, and continuing one of them does not disturb the other. "
  "Raising the budget of a finished run and continuing equals a run with the larger budget from the start (RVEA schedules by its budget and is exempt). "
  "Algorithms whose state lives in a running generator cannot be copied and say so with an error.",
  ["crash_points", "histories", "configurations"], "all algorithms x all iterations as checkpoint x deepcopy/pickle x continuation orders",
  "tests checkpoint one algorithm at one point", ["pymoo/core/algorithm.py", "pymoo/optimize.py", "pymoo/core/"],
  [("copy/pickle of Algorithm", "pymoo/core/algorithm.py")], "exhaustive enumeration of crash/checkpoint points on the real code", NOTE)

P("P17", "Ask-and-tell, stepwise and one-call use are the same run",
  "Driving an algorithm by ask and tell with external evaluation, by stepping it, by running it, or by a single minimize call evaluates the same solutions in the same order and gives the same result. "
  "Asking never evaluates anything by itself, extra attributes attached by the caller survive, and the callback is called exactly once per iteration in every mode.",
  ["histories", "configurations", "schedules"], "all algorithms x all mixtures of drive modes over the first iterations",
  "tests compare one algorithm in one mode", ["pymoo/core/algorithm.py", "pymoo/optimize.py"],
  [("Algorithm.ask/tell/next/run", "pymoo/core/algorithm.py"), ("minimize", "pymoo/optimize.py")], SCH, NOTE)

P("P18", "Decomposition functions equal their formulas",
  "Every scalarisation (weighted sum, Tchebicheff, PBI, ASF, AASF, perpendicular distance) equals its formula for every objective matrix and weight matrix, one-to-one, one-to-many and many-to-many alike, with and without ideal and nadir points. "
  "For weighted sum, Tchebicheff and the (augmented) achievement functions, improving every objective above the utopian point never worsens the scalar value, and the inputs are unchanged.",
  ["inputs", "configurations"], "all small objective and weight matrices incl. zero weights x shapes x reference points",
  "tests check single vectors", ["pymoo/decomposition/", "pymoo/core/decomposition.py"],
  [("Decomposition.do", "pymoo/core/decomposition.py")], EXH, NOTE)

P("P19", "Performance indicators equal their mathematical definition",
  "Hypervolume (exact and approximated contributions), GD, GD+, IGD, IGD+, epsilon (positive values for the multiplicative one) and spacing (two or more points) equal brute-force evaluation of their definition for every pair of point sets, independent of the order of rows and unaffected by duplicates where the definition says so. "
  "Points outside the reference box contribute nothing, an added non-dominated point never worsens the hypervolume, normalisation does what was asked for, and asking again gives the same value and leaves the inputs unchanged.",
  ["inputs", "configurations"], "all small point sets over a grid x reference points x indicator options",
  "tests use two or three example sets", ["pymoo/indicators/", "pymoo/functions/"],
  [("Hypervolume", "pymoo/indicators/hv/"), ("DistanceIndicator", "pymoo/indicators/distance_indicator.py")], EXH, NOTE)

P("P20", "Reference directions lie on the unit simplex, exactly as requested",
  "Every construction of reference directions returns the requested number of distinct, non-negative vectors with unit sum, and the structured one returns exactly the full simplex lattice for every number of partitions and objectives. "
  "Scaled and layered variants contain exactly the union of their layers (equal floats once), and equal seeds give equal directions.",
  ["inputs", "configurations"], "all (objectives, partitions, scaling, layers) up to a bound; energy-based methods for small sizes",
  "tests check a few sizes", ["pymoo/util/ref_dirs/", "pymoo/util/reference_direction.py"],
  [("das_dennis", "pymoo/util/reference_direction.py"), ("get_reference_directions", "pymoo/util/ref_dirs/__init__.py")], EXH, NOTE)

P("P21", "Normalization maps bounds to 0 and 1 and back exactly",
  "For every combination of lower and upper bounds (present, missing, NaN, equal), normalising maps the bounds to 0 and 1, passes through what has no bounds, never divides by zero, and denormalising gives back the original. "
  "The adaptive ideal point kept by reference-based algorithms is the componentwise minimum of everything seen, and the nadir lies above it and not beyond the worst value seen.",
  ["inputs", "configurations", "histories"], "all small bound patterns x values; all short sequences of fronts",
  "tests use a few bound arrays", ["pymoo/util/normalization.py", "pymoo/algorithms/moo/nsga3.py", "pymoo/algorithms/moo/age.py"],
  [("ZeroToOneNormalization", "pymoo/util/normalization.py"), ("HyperplaneNormalization", "pymoo/algorithms/moo/nsga3.py")], EXH, NOTE)

P("P22", "The cache of downloaded data survives crashes, truncation and races",
  "Whatever happens while a data file is fetched (failure, detectable truncation or process death at any point, two processes at once), a later load never returns partial data: it returns the complete file or raises an error. "
  "A failed attempt leaves nothing behind that would be taken for a valid file, and a valid cached file is used without any network access.",
  ["crash_points", "fault_sequences", "schedules"], "all failure points of one download, all interleavings of two",
  "tests need the network", ["pymoo/util/remote.py"],
  [("Remote.load", "pymoo/util/remote.py")], "exhaustive fault injection on the real code", NOTE)

P("P23", "Wrapped problems agree with the problem they wrap",
  "A meta problem (static view, zero-to-one scaling, scalarised objectives, constraints as penalty, objective or bounds, functional problems) returns for every design exactly what its definition derives from the wrapped problem. "
  "It declares matching numbers of objectives, constraints and bounds, passes everything else through, and leaves the wrapped problem unchanged.",
  ["inputs", "configurations"], "all wrappers x problem shapes (objectives, constraints) x designs on a grid x batch sizes",
  "tests wrap one problem", ["pymoo/core/meta.py", "pymoo/problems/", "pymoo/constraints/"],
  [("Meta", "pymoo/core/meta.py"), ("ConstraintsAsPenalty", "pymoo/constraints/as_penalty.py")], EXH, NOTE)

P("P24", "Reading and writing hyperparameters is a faithful round trip",
  "Every hyperparameter reported for an algorithm or operator can be read and written, writing one changes exactly that one and acts as if it had been given at construction, and writing back what was read changes nothing. "
  "Parameters constrained to an interval or a set of options are only sampled within it, and per-individual values have the requested length.",
  ["configurations", "histories"], "all algorithms x every reported parameter x representative values; all samples under an enumerated generator",
  "tests set one parameter of one algorithm", ["pymoo/core/parameters.py", "pymoo/core/variable.py"],
  [("get_params/set_params", "pymoo/core/parameters.py"), ("Variable", "pymoo/core/variable.py")], EXH, NOTE)

P("P25", "Mating selection obeys its rules for every random outcome",
  "For every outcome of the random generator, selection returns the requested number of valid parent indices, uses every solution equally often within one pass over the population (differential evolution instead never uses a solution twice in one difference), and a tournament is always won by the solution the algorithm's rule calls better: feasible over infeasible, smaller violation (not in C-TAEA), then rank, dominance or fitness, then crowding or distance. "
  "Ties are decided only by the run's own generator.",
  ["inputs", "configurations"], "all small populations x all tournaments x all answers of the generator",
  "tests sample tournaments", ["pymoo/operators/selection/", "pymoo/algorithms/moo/nsga2.py", "pymoo/algorithms/soo/nonconvex/ga.py"],
  [("TournamentSelection", "pymoo/operators/selection/tournament.py"), ("compare", "pymoo/operators/selection/tournament.py")], RNGX, NOTE)

P("P26", "Mixed-variable search only proposes valid values of every variable",
  "For every outcome of the random generator, each solution proposed for a problem with real, integer, binary, categorical (choice) variables assigns every variable a value of its own type inside its own domain, with every variable present. "
  "This holds from sampling through crossover, mutation and duplicate elimination to what the problem is asked to evaluate.",
  ["inputs", "configurations"], "all subsets of variable types x every answer of the generator up to a deviation bound; complete runs",
  "tests run a couple of mixed problems", ["pymoo/core/mixed.py", "pymoo/core/variable.py"],
  [("MixedVariableMating", "pymoo/core/mixed.py")], RNGX, NOTE)

P("P27", "A population behaves like an ordered collection of solutions",
  "Creating, indexing, slicing, merging, copying, collecting and setting attributes of a population behave like the same operations on a plain list of solutions, for every sequence of operations. "
  "A value set for the k-th solution is read back from exactly that solution; a deep copy shares nothing with its source that a later assignment could reveal.",
  ["histories", "inputs"], "all operation sequences up to a depth on small populations against a list model",
  "tests use two or three sequences", ["pymoo/core/population.py", "pymoo/core/individual.py"],
  [("Population.set/get/merge/create", "pymoo/core/population.py")], EXH, NOTE)

P("P28", "Decision-making picks the solution its definition names",
  "For every front and preference, compromise programming returns a minimiser of its scalarisation, pseudo-weights are non-negative, sum to one and equal their formula, and the solution picked for a preference is the closest in weight space. "
  "High trade-off points are exactly those whose trade-off exceeds the outlier threshold.",
  ["inputs", "configurations"], "all small fronts over a grid x preferences",
  "tests check one front", ["pymoo/mcdm/", "pymoo/core/decision_making.py"],
  [("PseudoWeights", "pymoo/mcdm/pseudo_weights.py"), ("HighTradeoffPoints", "pymoo/mcdm/high_tradeoff.py")], EXH, NOTE)

P("P29", "Benchmarks are functions agreeing with their formulas and documented optima",
  "Every shipped benchmark is a function: evaluating a design alone, in any batch or in any order gives the same finite values of the declared shape, for every design inside the bounds including the corners, and leaves its arguments alone. "
  "The classical suites (single-objective functions, ZDT, DTLZ and its constrained variants, WFG, CTP, MW, DAS-CMOP, the G functions, SYM-PART and Omni-test, the engineering problems, tours, schedules and knapsacks) evaluate to their published formulas. "
  "No feasible design evaluates better than the documented optimum or dominates the documented Pareto front; documented fronts are feasible, mutually non-dominated and not better than the designs known to be optimal, whichever reference directions they are asked for, and documented optimal designs lie within bounds, are feasible and reach the documented values.",
  ["inputs", "configurations"], "all registered problems and settings x all corners, grid points and batches",
  "tests evaluate a few stored points and never ask for the fronts at other settings", ["pymoo/problems/"],
  [("get_problem", "pymoo/problems/__init__.py"), ("_calc_pareto_front", "pymoo/problems/")], EXH, NOTE + "Fronts that have to be downloaded, and those of ZCAT, are not checked; dynamic problems belong to P30.")

P("P30", "Time-dependent problems change only when time is advanced",
  "A dynamic problem is a function of design and time: the same design and time give the same values alone, in any batch and after any history of ticking, setting the time, copying and asking for fronts, and they are those of its published formula. "
  "The time is the number of completed steps divided by the severity and changes only when the clock completes a step; a copy has its own clock. "
  "The reference front and its ideal and nadir always belong to the current time, even if an earlier one was asked for before, are attained by optimal designs and not beaten by any design. "
  "The simulation of time advances exactly once per iteration, an algorithm that detects changes re-evaluates what it keeps so that reported values belong to the current time (without a change nothing is lost), and the mean IGD records the distance at the current time.",
  ["histories", "configurations"], "all histories of tick / set / evaluate / front / copy up to a depth x all dynamic problems; all change schedules x settings of the dynamic algorithms",
  "tests evaluate at fixed times", ["pymoo/problems/dyn.py", "pymoo/problems/dynamic/", "pymoo/util/cache.py", "pymoo/algorithms/moo/dnsga2.py", "pymoo/algorithms/moo/kgb.py", "pymoo/indicators/migd.py"],
  [("TimeSimulation", "pymoo/problems/dyn.py"), ("Cache", "pymoo/util/cache.py")], EXH, NOTE)

P("P31", "Gradients agree with the function they differentiate",
  "For automatic differentiation (vectorized and element-wise, both backends) and the complex step, the gradients of objectives and constraints have the declared shape and equal the derivative of the program that computes the values, whichever values and gradients are requested and also for constant outputs. "
  "The values are those without gradients, and no evaluation, not even a failing one, leaves a backend active or changes a later evaluation.",
  ["inputs", "configurations", "histories"], "all programs (expression trees) up to two levels x tools x splits into objectives and constraints x subsets requested; all histories of gradient, plain and failing evaluations up to a depth",
  "tests check a few problems at random points with everything requested at once",
  ["pymoo/gradient/"], [("AutomaticDifferentiation", "pymoo/gradient/automatic.py"), ("ComplexNumberGradient", "pymoo/gradient/grad_complex.py")], EXH,
  NOTE + "The space enumerated is that of programs and histories; designs are a few points at which every program is analytic. Complex steps are only held to analytic functions.")

P("P32", "Variation operators do what their definition says",
  "For every outcome of the random generator, the offspring stand in the relation to their parents that the operator's definition prescribes: exactly the genes of one or more cut points, of one block or of a mask are exchanged; simulated binary crossover and polynomial mutation land on a value of their distribution; "
  "differential vectors are base plus F times the differences (dithered and jittered as asked), repaired between the violated bound and the base; order and edge recombination keep the positions and neighborhoods their definition keeps. "
  "A probability of zero changes nothing, of one always applies, each mating and solution uses its own parameters, and everything the definition allows can happen. Random samples cover the whole domain, Latin hypercubes one point per cell.",
  ["inputs", "configurations"], "all answers of the generator up to a deviation bound (all of them on small inputs) x all operators and settings",
  "tests look at shapes and bounds of a few random offspring", ["pymoo/operators/", "pymoo/core/crossover.py", "pymoo/core/mutation.py"],
  [("Crossover.do", "pymoo/core/crossover.py"), ("cross_sbx", "pymoo/operators/crossover/sbx.py"), ("mut_pm", "pymoo/operators/mutation/pm.py")], RNGX,
  NOTE + "Frequencies are not judged, only which results are possible.")

P("P33", "Selection steps of multi-objective algorithms follow their publication",
  "For every population, one selection step leaves what the published rule leaves, up to ties: SMS-EMOA removes the smallest hypervolume contribution of the worst front; SPEA2 the worst strength fitness and then, one by one, the most crowded solution; "
  "NSGA-III fills the least crowded niches of the normalised last front; RVEA keeps the smallest angle-penalised distance per vector and adapts its vectors when due; "
  "GDE3 keeps parent, trial or both by constrained dominance; MOEA/D lets an offspring replace exactly the neighbors whose scalarised value it improves, sequentially and in parallel. Ideal points, extreme points and normalisation are those of everything seen so far.",
  ["inputs", "configurations", "histories"], "all small populations over a grid x every survivor count x ties x answers of the generator; whole steps of algorithms under all answers",
  "tests compare final metrics of single runs",
  ["pymoo/algorithms/moo/sms.py", "pymoo/algorithms/moo/spea2.py", "pymoo/algorithms/moo/nsga3.py", "pymoo/algorithms/moo/rvea.py", "pymoo/algorithms/moo/moead.py", "pymoo/algorithms/moo/gde3.py"],
  [("LeastHypervolumeContributionSurvival", "pymoo/algorithms/moo/sms.py"), ("ReferenceDirectionSurvival", "pymoo/algorithms/moo/nsga3.py"), ("APDSurvival", "pymoo/algorithms/moo/rvea.py"), ("MOEAD._replace", "pymoo/algorithms/moo/moead.py")], EXH, NOTE)

P("P34", "Local and univariate searches run in lock-step with their published rule",
  "For every sequence of answers of the problem, the next points requested by Nelder-Mead, pattern search, DIRECT, golden section and quadratic interpolation are those prescribed by the published method after these answers, and never outside of the bounds. "
  "The boxes of DIRECT always tile the search space, are divided along their longest sides, and exactly the potentially optimal ones are divided; the bracket of a univariate search shrinks and always contains the best point. "
  "A step returned by the Wolfe line search satisfies both conditions.",
  ["histories", "inputs", "configurations"], "all sequences of classes of answers up to a length x dimensions, starts and parameters",
  "tests run a search to its end on one smooth function and look at the result",
  ["pymoo/algorithms/soo/nonconvex/nelder.py", "pymoo/algorithms/soo/nonconvex/pattern.py", "pymoo/algorithms/soo/nonconvex/direct.py", "pymoo/algorithms/soo/univariate/"],
  [("NelderMead", "pymoo/algorithms/soo/nonconvex/nelder.py"), ("DIRECT", "pymoo/algorithms/soo/nonconvex/direct.py"), ("GoldenSectionSearch", "pymoo/algorithms/soo/univariate/golden.py"), ("wolfe_line_search", "pymoo/algorithms/soo/univariate/wolfe.py")], EXH,
  NOTE + "ExponentialSearch and the WolfeSearch class never advance on the current tree and are left out of the property.")

P("P35", "One generation of every single-objective population search follows its rule",
  "Whatever the random generator and the problem answer, the solutions proposed in a generation are ones the published rule can draw from the current population, and those kept are the ones it prescribes: "
  "differential evolution (selection, difference, crossover, one-to-one replacement of the target), particle swarms (velocity, personal and neighborhood bests, adaptation), evolution strategies with stochastic ranking (strategy parameters, best of the offspring), "
  "biased random keys (elites, mutants, biased inheritance), parent-centric replacement of a family, Newton-Raphson-based search, clearing of niches, and replacement by better offspring. Worse solutions never displace better ones where the method is elitist.",
  ["histories", "inputs", "configurations"], "all deviations from streams of random answers x all sequences of answers of the problem for some generations x configurations",
  "tests compare the best value found in a single run",
  ["pymoo/algorithms/soo/nonconvex/", "pymoo/core/replacement.py", "pymoo/core/survival.py"],
  [("DE", "pymoo/algorithms/soo/nonconvex/de.py"), ("PSO", "pymoo/algorithms/soo/nonconvex/pso.py"), ("ES", "pymoo/algorithms/soo/nonconvex/es.py"), ("BRKGA", "pymoo/algorithms/soo/nonconvex/brkga.py"), ("NRBO", "pymoo/algorithms/soo/nonconvex/nrbo.py")], RNGX,
  NOTE + "Only which results are possible is judged, not their frequency.")

P("P36", "Progress reports show the real state of the run",
  "At every iteration of every run, the row that is printed contains the number of the iteration, the number of solutions evaluated, and the violations, objective values, distances to the known front, hypervolume or change of the current optimum as they are at that moment; numbers are readable back to the precision of their column and never cut. "
  "Callbacks are initialized once and called once per iteration with the state after it; recorders keep exactly the entries that are due; the progress bar shows the termination's progress and never goes back; the running metric of every generation equals its definition over the window of generations kept.",
  ["histories", "inputs", "configurations"], "all histories of populations up to a length x outputs; all runs with up to one deviating answer; all numbers of a grid",
  "tests do not read what is printed",
  ["pymoo/util/display/", "pymoo/util/running_metric.py", "pymoo/util/sliding_window.py", "pymoo/core/recorder.py", "pymoo/core/callback.py"],
  [("MultiObjectiveOutput.update", "pymoo/util/display/multi.py"), ("SingleObjectiveOutput.update", "pymoo/util/display/single.py"), ("RunningMetric.update", "pymoo/util/running_metric.py"), ("Recorder.notify", "pymoo/core/recorder.py")], EXH, NOTE)

P("P37", "The preference of a decision maker is asked for, modelled and used as given",
  "Whatever preference a decision maker has (with ties) and however often an answer is invalid, the ranking derived from the answers is exactly that preference; PI-NSGA-II shows different solutions of the first front, every tau generations and only then. "
  "A value function reported as fitted reproduces the ranking with its margin and obeys its constraints, whatever order the solutions are listed in, and changes none of its arguments; fitting never fails with an error. "
  "If no fit is found, the second best solution is left out until one is or the preference is dropped. From then on solutions better than the second best dominate worse ones, in addition to Pareto dominance, independently of their order in the population; without any preference, plain dominance is used, also while nothing is feasible.",
  ["inputs", "histories", "configurations"], "all weak orders of a few solutions x all dialogues with an invalid answer; all point sets and rankings of a grid x models x solvers; all outcomes of the fits; all small sets under the relation",
  "tests fit one fully ranked set and run the algorithm for fewer generations than it takes until the model is used",
  ["pymoo/algorithms/moo/pinsga2.py", "pymoo/util/value_functions.py", "pymoo/util/vf_dominator.py"],
  [("PINSGA2._advance", "pymoo/algorithms/moo/pinsga2.py"), ("PINSGA2._get_pairwise_ranks", "pymoo/algorithms/moo/pinsga2.py"), ("VFDominator.calc_domination_matrix", "pymoo/util/vf_dominator.py"), ("create_vf_scipy_poly", "pymoo/util/value_functions.py")], EXH,
  NOTE + "A fit is only judged if it is reported as successful; that one is found whenever it exists is not claimed (the solvers are numerical).")
P("P38", "A plot shows exactly the data it was given",
  "Every solution added to a scatter, parallel coordinate, radviz, star coordinate, petal or radar plot or a heatmap is drawn exactly once, at the position, with the colour or style and in the panel that the definition of the plot assigns to it under the given boundaries, normalisation, reversal and order; names of the objectives and solutions, titles and legends stand where they belong. "
  "The picture is a function of the data added and the options: not of how often or when the plot is drawn or reset, nor of other figures that are open, and neither the data nor the options given are changed. "
  "Landscapes show the value of the function at each point of the grid, in one and two variables; an animation shows a frame for the first and every n-th generation and no other, with the population, its new members and the offspring of that generation.",
  ["inputs", "histories", "configurations"], "all short sequences of solutions of a grid x options of each plot; all histories of adding, drawing, resetting and drawing elsewhere; all small landscapes; all runs of a few populations",
  "tests draw one random set once and, at most, save the picture",
  ["pymoo/visualization/", "pymoo/core/plot.py"],
  [("Plot.do", "pymoo/core/plot.py"), ("Scatter._do", "pymoo/visualization/scatter.py"), ("normalize", "pymoo/visualization/util.py"), ("Heatmap._do", "pymoo/visualization/heatmap.py"), ("AnimationCallback.update", "pymoo/visualization/video/callback_video.py")], EXH,
  NOTE + "A picture is judged by the elements handed to matplotlib (coordinates, colours, texts, panels), not by its pixels.")

P("P39", "Multi-objective swarms and differential searches follow their published rules",
  "Whatever the random generator and the problem answer, every trial of multi-objective differential evolution (NSDE, GDE3, NSDER) is one its selection, difference, crossover and repair can draw from the current population for its target; "
  "every particle of MOPSO-CD and CMOPSO moves by the published velocity equation from its own best and a member of the archive within the velocity and variable bounds. Own bests are only displaced by solutions that are not worse, constraints first; "
  "archives hold non-dominated (or least infeasible) solutions found, each once, miss none while they are not full and never exceed their size; the optimum MOPSO-CD reports is its archive; leaders win tournaments by crowding distance or angle; in GDE3 a trial replaces its target if it is better, is dropped if it is worse, and both compete otherwise.",
  ["histories", "inputs", "configurations"], "all deviations from streams of random answers x sequences of answers of the problem for some generations x variants and populations; all tournaments",
  "tests compare a fixed seed's final front with a stored one",
  ["pymoo/algorithms/moo/nsde.py", "pymoo/algorithms/moo/gde3.py", "pymoo/algorithms/moo/nsder.py", "pymoo/algorithms/moo/mopso_cd.py", "pymoo/algorithms/moo/cmopso.py", "pymoo/operators/crossover/dex.py"],
  [("VariantDE", "pymoo/algorithms/moo/nsde.py"), ("MOPSO_CD._update_archive", "pymoo/algorithms/moo/mopso_cd.py"), ("cmopso_equation", "pymoo/algorithms/moo/cmopso.py"), ("MultiObjectiveArchive", "pymoo/util/archive.py")], RNGX,
  NOTE + "Only which results are possible is judged, not their frequency, except for the tournaments.")

P("P40", "Archive-, geometry-, loose-dominance- and preference-based survival",
  "Whatever the population, the survivors of the less common multi-objective selections are those their published rules define. Omni-optimizer: fronts by epsilon-dominance, feasible solutions first, inside the last front the largest crowding in objective and variable space; "
  "its restricted tournament pairs each solution with its nearest neighbour and every solution takes part once in a pass. R-NSGA-II: fronts first, then the rank by normalized weighted distance to the reference points, with all but one of a group closer than epsilon cleared; the points of the user are never altered; R-NSGA-III: niche preservation over shrunken simplices around the points where their rays meet the normalized simplex. "
  "AGE-MOEA and AGE-MOEA-II: fronts first, extreme solutions, then diversity times proximity under the estimated curvature. C-TAEA: the convergence archive drops infeasible solutions first and the worst of the most crowded region next; "
  "the diversity archive fills the regions the convergence archive leaves empty and ignores constraints; the ideal point is the best found; a mating winner is the non-dominated feasible one.",
  ["inputs", "histories", "configurations"], "all populations of a few of a grid's points x all counts of survivors x options; two consecutive selections; all tournaments",
  "tests compare a fixed seed's final front with a stored one",
  ["pymoo/algorithms/moo/omni.py", "pymoo/algorithms/moo/rnsga2.py", "pymoo/algorithms/moo/rnsga3.py", "pymoo/algorithms/moo/age.py", "pymoo/algorithms/moo/age2.py", "pymoo/algorithms/moo/ctaea.py"],
  [("CADASurvival", "pymoo/algorithms/moo/ctaea.py"), ("RankAndModifiedCrowdingSurvival", "pymoo/algorithms/moo/rnsga2.py"), ("AGEMOEASurvival", "pymoo/algorithms/moo/age.py"), ("OmniOptimizer", "pymoo/algorithms/moo/omni.py")], EXH,
  NOTE + "The curvature estimate of AGE-MOEA-II is compared with a tolerance of 2e-2.")
