"""Per-property notes for DESIGN.md."""
COST = {}
for _i, _q, _t in [l.split("|") for l in """P01|18 s|4 min
P02|66 s|10 min
P03|40 s|5 min
P04|75 s|6 min
P05|25 s|4 min
P06|3 s|4 min
P07|10 s|5 min
P08|4 s|5 min
P09|9 s|6 min
P10|10 s|5 min
P11|43 s|8 min
P12|69 s|10 min
P13|105 s|10 min
P14|12 s|10 min
P15|58 s|15 min
P16|54 s|15 min
P17|32 s|15 min
P18|2 s|4 min
P19|7 s|5 min
P20|109 s|5 min
P21|10 s|4 min
P22|16 s|6 min
P23|6 s|5 min
P24|75 s|6 min
P25|44 s|5 min
P26|73 s|6 min
P27|73 s|5 min
P28|30 s|4 min
P29|60 s|5 min
P30|10 s|77 s
P31|16 s|5 min
P32|31 s|5 min
P33|31 s|6 min
P34|35 s|6 min
P35|55 s|8 min
P36|20 s|4 min
P37|50 s|8 min
P38|90 s|10 min
P39|40 s|12 min
P40|40 s|5 min""".splitlines()]:
    COST[_i] = (_q, _t)

NOTES = {
"P40": """The real survival objects are called on every population (order rotated) of the grid's points and every number of survivors; the oracle computes scores from the definitions and, where equal scores are resolved by position or chance, the set of all outcomes. Two consecutive calls are made where the operator has a memory (ideal point, extreme points, diversity archive). R-NSGA-II replaced the user's reference points by only the extreme ones, R-NSGA-III exchanged two worst points and could report no optimum (repaired). The scores of AGE-MOEA use another solution's norm and leave out the last front taken: known findings, because the repository's golden results pin them.""",
"P39": """Same machinery as P35 (`PalRNG`, single and paired deviations). A trial is explained by an exhaustive search over base, difference vectors, palette values of F and jitter, crossover masks and repair; a move by the attractors in the archive and the palette multiples. The archive is compared with the set of non-dominated solutions found so far; leaders: all tournaments of one particle are enumerated and the share each archive member wins must be the one its rank by crowding distance (or angle) implies. MOPSO-CD's personal bests ignored constraints (repaired). Its archive counts solutions twice and is pruned a second time, at random, after the optimum was reported: known findings, because golden results of the repository pin them.""",
"P38": """Every picture is drawn by the real classes on the non-interactive backend and read back from the figure: points, lines, polygons, cells and texts of every panel, compared with positions computed in the check from the published definition of the plot (radviz: weighted mean of the anchors, star: sum of the axes, and so on). The histories {add, add, do, reset, open a figure, draw another plot} are enumerated to depth 4 (3 where a picture has many panels); the picture must be that of the data added since the last reset. Drawing in the current pyplot axes instead of the own ones, styles lost on redrawing, boundaries kept from earlier data, surfaces with exchanged variables: eleven defects came out of it. Default colours of what is drawn over an existing picture are matplotlib's choice and not judged.""",
"P01": """
Oracle: `refs.fronts`, the definition by pairwise comparison. All implementations (fast, best-order, efficient with sequential / binary search, tree-based, two-objective log-linear; python and compiled; dominance degree;
epsilon and custom dominators; the filter `NonDominated`) are called with every early-stop argument; ranks are compared with the fronts. The result is compared as ordered list of sets, so the order inside a front is not prescribed.""",
"P02": """
The environment is a scripted problem: the answer to the k-th row is a function of the default (feasible or infeasible phase) and of the deviations placed on rows. All placements of the deviations from the answer classes (better, worse, tied, best again,
slightly infeasible, on the limit, objective differences below 1e-6, several constraints of different sign) are run to the end. A monitor records what was really answered; everything reported must be one of those rows. Exempt: RVEA reports its whole feasible population (known finding, pinned by a golden test of the repository).""",
"P03": """As P02, with a running best (feasible before infeasible, then CV, then F) of *all* rows answered so far as the oracle at every iteration. Comma strategies and CMA-ES are not elitist and excluded.""",
"P04": """Survival operators are called on real populations built from every multiset of kinds (objective vector x violation). Oracle: membership by identity, count, untouched values, feasibility order, front order by `refs.fronts`. Randomised operators run under the enumerated generator. Values of the violation include differences of 0.01 so that rounding or tolerances in the order are seen.""",
"P05": """Oracle: literal definitions; for pruning metrics the removal of the worst solution one by one with every tie resolved in every possible way (the implementation has to agree with at least one resolution).""",
"P06": """The reference model of a solution is a dictionary of its current constraint values and the configured tolerance; after every operation of every history the violation and the feasibility are read in all ways (individual, population, lower case/upper case).""",
"P07": """The scripted problem numbers the rows it was asked for; a value of a solution reveals the row it came from. All evaluation masks, requested values and skip flags are enumerated; histories include failing evaluations.""",
"P08": """Runners are real (loop, thread pool, joblib threads) or scripted at the seam of the public runner interface (starmap, Dask client, Ray): the script decides the order in which workers run, interleave and finish. All orders are enumerated. A separate free-running pass with a real thread pool is part of the check.""",
"P09": """The budgets, the way they are written and the increments of the counter / clock are enumerated; the clock of the time termination is replaced by a virtual one. Oracle: first index at which the cumulated counter reaches the limit.""",
"P10": """Independent re-implementation of every definition over the list of optima; every trajectory over the alphabet is fed to the real termination.""",
"P11": """Oracle: definition applied to the set of everything added. Whole runs: CMA-ES and D-NSGA-II are excluded (the former re-proposes internally repaired copies, the latter re-evaluates old ones), MOPSO_CD owns a large internal archive.""",
"P12": """Oracle: list comprehension with the distance. Runs: tiny design spaces (4 or 8 designs) make collisions unavoidable; each single deviation of the first 40 random draws is run.""",
"P13": """`ScriptRNG` answers with the extremes (0, the largest double below 1, quartiles; normals up to +-9 sigma; every permutation / choice). Parents on, next to and between the bounds. Oracle: shape, bounds, type, permutation property, parents' genes.""",
"P14": """Deep fingerprints of all inputs before and after; `np.shares_memory` between offspring and parents; history entries fingerprinted at every iteration. Exempt by contract: mutation with `inplace=True`, repair of a population, sorting functions documented to sort in place.""",
"P15": """The oracle is the same run in another environment. Environments are enumerated: global generator states at every step, answers of generators created without a seed (intercepted), history of the process, interleavings with another run step by step, other processes with other hash seeds.""",
"P16": """Crash / checkpoint points are the iterations; a set of them is chosen in every possible way, copies are continued in all orders. Oracle: trace of the uninterrupted run. Algorithms living in a running generator (`LoopwiseAlgorithm`) raise `TypeError`: recorded as known findings.""",
"P17": """All assignments of drive modes to iterations. Oracle: the one-call run. Nelder-Mead and other loopwise algorithms evaluate single solutions, which the harness respects.""",
"P18": """Scalar loops over the formulas. Monotonicity is only claimed above the utopian point (as stated).""",
"P19": """Brute force: hypervolume by inclusion-exclusion over grid cells, distances by double loops. R-metric and KKTPM are only held to purity, determinism and ordering facts (their definitions depend on published heuristics).""",
"P20": """Oracle: integer compositions for the lattice; counts, simplex membership (1e-12), distinctness for the others.""",
"P21": """Scalar model of the four operations; histories of fronts for the adaptive points; whole runs under deviations. Infinite bounds and constant columns of `standardize` are excluded (no definition).""",
"P22": """Real code against a loopback HTTP server with scripted answers in a scratch folder. Process death is a forked child that `_exit`s at the k-th step (line of the module, audited interpreter operation, chunk written); thread interleavings are enumerated at lines by a cooperative scheduler with a preemption bound. Truncation is only detectable if the server states a length.""",
"P23": """Every wrapper and nesting of two (three) is compared with the composition of scalar definitions written in the check.""",
"P24": """Reads back, restores and compares behaviour of objects written with objects constructed. Sharing of default operators between objects is a recorded finding.""",
"P25": """Oracle: the rule of each algorithm written as a comparison function; all ordered pairs of solutions of the grid; all answers of the generator for permutations and ties.""",
"P26": """Oracle: type and domain membership of every value in everything the problem is asked for. All deviations of the generator at the first points.""",
"P27": """Reference model: python list of dictionaries; compared after each operation by order, identity and values.""",
"P28": """Definitions by loops over all points. PBI below the ideal point and radii that equal a distance are skipped (see section 5).""",
"P29": """Published formulas (`formulas.py`, `formulas2.py`: every suite except ZCAT, MODAct, the clutch and crash problems, G16, G19 and G20), functional behaviour in every batch and order, and documented optima against grids, corners, neighbours of the documented optimum and designs known to be optimal. Not checked: fronts that are downloaded, ZCAT fronts, the continuous front of ZDT5, the optimum of G20 (no feasible one is known).""",
"P30": """Reference model: time = completed steps / severity, design -> formula(design, time). Histories of the clock are enumerated to a depth on the real objects, with fronts being asked for in between (cache). Runs of the dynamic algorithms under every schedule of changes.""",
"P31": """Oracle: forward-mode dual numbers written in the check, over all expression trees up to two levels.""",
"P32": """The generator is scripted with a palette of numbers; a result is right if *some* number of the palette explains it under the published formula, so how the generator is used is not prescribed. Where all sequences are enumerated (masks, permutations, samplings), the set of results must also be complete. The exchange of children in SBX is a known finding: it is the complement of the documented probability for one order of the parents.""",
"P33": """The survivors are compared with the set of all outcomes the published rule allows, computed by exhaustive search over its ties (and, for randomised rules, over its draws). Populations are built from all multisets over a grid; stateful rules are driven for two generations with all combinations. For MOEA/D, the reference model is the state of the subproblems; an offspring without improvement must leave them alone.""",
"P34": """The environment answers with classes relative to what the search has seen (better than all, between, worse, tied, infeasible); the reference model of each method is advanced with the same answers and yields the set of requests allowed next. ExponentialSearch and WolfeSearch never advance on this tree and are outside of the property.""",
"P35": """`PalRNG` answers from a palette following a fixed stream, and every single answer (thorough: every pair) is replaced by every other of the palette. Each proposed solution must be explained by some choice of parents and palette values under the published formula, each survivor by the replacement rule; the state of strategies (step sizes, velocities, personal bests) is part of the model. Where all choices are enumerated, all of them must occur.""",
"P36": """Standard output is captured and the rows are parsed; every cell is compared with the value computed from the population and the optimum at that moment by definitions written in the check (plain loops). Numbers are read back with the precision of the column. The `eps` column measures from the last optimum that differed by more than the tolerance (as in P10). The bar library is replaced by a stub that records what it is told.""",
"P37": """The decision maker is a table (every weak order of a few solutions), its answers go through the real dialogue with an invalid answer at every question; what is typed is every short list of numbers. Fits are judged only if they report success: order, ties, margin, convex weights, terms, and that nothing given is changed. The relation of `VFDominator` is compared with the definition for every ordered triple of a grid under five models and several thresholds, which is how it came out that the preference only counted for solutions later in the population. The use of the ranking in the algorithm is driven by a stub for the fit, over all rankings of four solutions and all numbers of failing fits. `PINSGA2` is also run for four generations with four decision makers, all intervals, and the first random choice enumerated.""",
}
