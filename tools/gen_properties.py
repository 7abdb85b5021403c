#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties; edit here, then run)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every candidate of a run is a valid chromosome of its encoding",
 "During a run of any built-in encoding, with any combination of the built-in operators, algorithms and settings, every chromosome that reaches the fitness function, the population or the returned solutions has the chromosome length of the fitness function and each gene within the bounds of its position (0/1 for binary genes), and a permutation chromosome contains each of 0..n-1 exactly once. This also holds for runs that start from a valid user supplied initial population.",
 ["configurations", "inputs", "histories"],
 "all encodings x crossover x mutation x algorithm x population size x chromosome length (including 1) x bounds (including degenerate and per-gene bounds) x rates x thread counts x initial populations, in every generation",
 "The unit tests call each operator on one or two fixed parents, the integration tests only look for crashes on a few fixed problems.",
 ["src/core/ga_base.impl.hpp", "src/encoding", "src/crossover", "src/mutation"],
 [("operators are closed over the valid chromosomes", "src/crossover/*.cpp, src/mutation/*.cpp"), ("generateCandidate()", "src/encoding/*.cpp"), ("clamping to the gene bounds", "src/crossover/real.cpp, src/mutation/real.cpp")],
 [("population_", "the current generation", "src/core/ga_base.decl.hpp")],
 ["arguments of the fitness function", "population() in the generation callback", "return value of solve()"])

prop("C02", "A candidate's fitness is always the fitness of its own chromosome",
 "With a static fitness function, after the initial generation and after every later one, each candidate in the population and in the solutions is marked evaluated and carries exactly the fitness vector that the function returns for that candidate's chromosome (or, for real genes, for a chromosome that compares equal to it under the floating-point tolerances), and row i of the reported fitness matrix equals the fitness of candidate i. This holds for every setting of the fitness cache, of the repair function, of the operators and of the thread count, for repeated runs on other fitness functions, and with unevaluated candidates in the initial population; candidates supplied already evaluated keep the fitness they came with.",
 ["configurations", "histories", "schedules"],
 "all runs with static fitness functions, single- and multi-objective, with cache sizes 0..4, repair functions, initial populations (unevaluated) and thread counts",
 "No unit test recomputes the fitness of the candidates of a run; a stale fitness would be invisible to them.",
 ["src/core/ga_base.impl.hpp", "src/crossover/crossover_base.impl.hpp", "src/mutation/mutation_base.impl.hpp", "src/utility/cache.hpp"],
 [("is_evaluated flag handling in crossover / mutation / repair", "src/crossover/crossover_base.impl.hpp, src/mutation/mutation_base.impl.hpp, src/core/ga_base.impl.hpp"), ("fitness cache lookup", "src/core/ga_base.impl.hpp evaluate()")],
 [("is_evaluated", "whether the stored fitness belongs to the chromosome", "src/core/candidate.hpp")],
 ["population()", "fitness_matrix()", "solutions()"])

prop("C03", "Fitness evaluations are counted exactly and never wasted or skipped",
 "At the end of every generation the reported number of evaluations equals the number of calls made to the fitness function since the start of the run, not counting the initial probing call that finds the number of objectives; for a dynamic fitness function every new candidate is evaluated, population size times generations in total, and caching is off whatever cache size is set. For a static fitness function a child that is an unchanged copy of one of its parents is not evaluated again, and with k generations cached neither is a chromosome that first entered the population in one of the k generations before that of the parents. Turning the cache on never changes the populations and solutions a seeded run goes through, and never increases the number of evaluations.",
 ["configurations", "histories", "schedules"],
 "all runs with static and dynamic fitness functions x cache sizes x rates x repeated runs of one object x thread counts",
 "Tests check the evaluation counter of one metric on one configuration; caching is only tested on the cache container itself.",
 ["src/core/ga_base.impl.hpp", "src/utility/cache.hpp", "src/metrics/misc_metrics.cpp"],
 [("evaluate()", "src/core/ga_base.impl.hpp"), ("fifo_cache", "src/utility/cache.hpp")],
 [("num_fitness_evals_", "number of evaluations in this run", "src/core/ga_info.hpp")],
 ["num_fitness_evals()", "calls received by the fitness function", "FitnessEvaluations metric"])

prop("C04", "solve() returns exactly the unique Pareto-optimal candidates",
 "By default the returned solutions are exactly the non-dominated candidates of the last generation, with each distinct chromosome listed once. When all optimal solutions are kept, they are exactly the non-dominated candidates among all populations of the run, again each distinct chromosome once, and after every generation the solution set equals this set for the generations so far. The returned list and the solutions reported by the algorithm object afterwards are the same.",
 ["configurations", "histories"],
 "all runs x number of objectives 1..4 x tie-heavy and continuous fitness functions x keep-all on/off x max generations including 1",
 "The integration tests only print the solutions; the unit tests merge hand-written sets.",
 ["src/core/ga_base.impl.hpp", "src/core/population.hpp", "src/core/population.cpp", "src/algorithm"],
 [("updateOptimalSolutions()", "src/core/ga_base.impl.hpp"), ("mergeParetoSets / optimalSolutions", "src/core/population.hpp, src/algorithm/*.cpp")],
 [("solutions_", "pareto-optimal set", "src/core/ga_base.decl.hpp")],
 ["return value of solve()", "solutions()"])

prop("C05", "A run follows the documented generation protocol",
 "A run goes through at most the configured maximum number of generations (the initial population counts as the first) and through exactly that number unless the early-stop condition requests a stop, in which case the generation after whose evaluation it was requested is the last. The generation callback is called exactly once per generation, on a population of exactly the configured size, with a generation number that counts 0,1,2,... without gaps or repeats; the early-stop condition is initialized once per run and queried exactly once after each generation. The maximum number of generations passed for one run does not outlive that run, and the first candidates of a supplied initial population form the initial generation in order, the rest being generated.",
 ["configurations", "histories"],
 "all encodings x population sizes (1, 2, odd, even) x max generations (from 1) x early-stop schedules x initial populations smaller, equal and larger than the population x solve() overloads x repeated runs",
 "No unit test records the sequence of generations; the integration tests run fixed configurations and only fail on crashes.",
 ["src/core/ga_base.impl.hpp", "src/core/ga_info.hpp", "src/stop_condition/stop_condition_base.cpp"],
 [("solve()/advance()/initializeAlgorithm()", "src/core/ga_base.impl.hpp"), ("StopCondition::operator()", "src/stop_condition/stop_condition_base.cpp")],
 [("generation_cntr_", "number of the current generation", "src/core/ga_info.hpp")],
 ["on_generation_end callback", "generation_cntr()", "stop condition calls"])

prop("C06", "Runs are reproducible from the random seed",
 "Seeding the generator with the same value before each of two runs of identically configured objects, with the same number of threads, makes both runs produce identical populations in every generation, identical solutions and identical metrics, for any thread count from 1 up and whatever was run before (including aborted runs and changes of the thread count that were undone). The same holds for sequences of direct draws from the random utilities on one thread. A new process behaves as if it had been seeded with GAPP_SEED, using one thread for each hardware thread.",
 ["configurations", "schedules", "histories"],
 "all encodings x algorithms x operators x thread counts 1..8 x seeds x preceding activity (other runs, exceptions thrown by the fitness function, thread count changes)",
 "One unit test repeats a handful of fixed configurations; the statement covers every configuration and every schedule of the worker threads.",
 ["src/utility/rng.hpp", "src/utility/thread_pool.hpp", "src/core/ga_base.impl.hpp"],
 [("per-thread generators and static work partitioning", "src/utility/rng.hpp, src/utility/thread_pool.hpp"), ("reset_scheduler()", "src/core/ga_base.impl.hpp")],
 [("rng::prng", "global generator", "src/utility/rng.hpp")],
 ["population() per generation", "solve() result", "metrics"])

prop("C07", "A GA object can be reused, reconfigured and moved without leftovers",
 "Running solve() on an object that has already been used (for any earlier problem, population size, cache size, run that threw), or that was moved to another object, gives from the same seed the same run as a freshly constructed object with the same settings. Settings that were left to be deduced (algorithm from the number of objectives, mutation rate from the chromosome length) are deduced anew for each run, and settings made explicitly are kept.",
 ["histories", "configurations"],
 "all sequences of configuration changes, runs on problems of different chromosome lengths and numbers of objectives, throwing runs and moves",
 "The tests use a fresh object for nearly every run.",
 ["src/core/ga_base.impl.hpp", "src/core/ga_info.cpp", "src/core/ga_base.decl.hpp"],
 [("initializeAlgorithm() resets the state", "src/core/ga_base.impl.hpp"), ("use_default_* flags", "src/core/ga_base.impl.hpp, src/core/ga_info.cpp")],
 [("use_default_algorithm_, use_default_mutation_rate_", "what is to be deduced", "src/core/ga_info.hpp, src/core/ga_base.decl.hpp")],
 ["population() per generation", "algorithm()", "mutation_rate()"])

prop("C08", "Single-objective replacement keeps exactly the candidates it promises",
 "Keeping the best selects population-size many candidates with the best fitness values out of parents and children, elitism with n elites keeps the n best parents and otherwise children, of which it loses no more than n, and keeping the children returns exactly the children. The next generation always consists of population-size distinct members (by position) of the parents and children, and the best fitness in the population never decreases from one generation to the next with keep-best or with at least one elite. (Fitness values that differ by less than the floating-point tolerances may be exchanged for each other.)",
 ["inputs", "configurations", "histories"],
 "all fitness vectors (ties, negative, infinite), population sizes from 1, elite counts 0..population size, and full runs",
 "Tests use one hand-written population.",
 ["src/algorithm/soga_replacement.cpp", "src/algorithm/single_objective.cpp"],
 [("nextPopulationImpl of the replacement policies", "src/algorithm/soga_replacement.cpp")],
 [], ["next population of a run", "replacement object results"])

prop("C09", "Selection operators favour fitter candidates and follow their distributions",
 "For any finite fitness values (negative, equal, huge) and any valid parameters each built-in single-objective selection method selects a valid member of the population and never gives a candidate with a better fitness a lower selection probability than one with a worse fitness. Empirical selection frequencies match the documented distributions: roulette proportional to the fitness (shifted to be positive if there are negative values), rank linear in the position in the sorted population between the minimum and maximum weight, tournament the best of k uniformly drawn candidates, sigma scaling max(0, 1 + (f - mean) / (scale * standard deviation)), and Boltzmann exp(normalized fitness / temperature) with the temperature of the current generation.",
 ["inputs", "configurations"],
 "all fitness matrices with one objective, population sizes 1..200, operator parameters",
 "Tests check one population of fixed fitness values per operator and only loosely.",
 ["src/algorithm/soga_selection.cpp", "src/algorithm/soga_selection.hpp", "src/utility/rng.hpp"],
 [("prepareSelectionsImpl / selectImpl", "src/algorithm/soga_selection.cpp"), ("weightsToCdf, sampleCdf", "src/algorithm/soga_selection.cpp, src/utility/rng.hpp")],
 [], ["index returned by select()"])

prop("C10", "Non-dominated sorting returns the true Pareto fronts",
 "For every fitness matrix each non-dominated sorting procedure of the library returns every row exactly once, grouped into fronts in which no member dominates another, rank 0 being exactly the non-dominated rows and each row of rank r > 0 being dominated by some row of rank r-1. All procedures therefore return the same ranks, whatever the number of rows, objectives and threads, and the front that is split when only a given number of rows is to be kept is the one at which that number of rows falls. (Values are equal or differ by more than the floating-point tolerances.)",
 ["inputs", "schedules"],
 "all fitness matrices: 0..~400 rows, 1..8 objectives, with duplicates, ties, infinities, chains and anti-chains; repeated calls with changing sizes",
 "Tests use two fixed small matrices.",
 ["src/algorithm/nd_sort.cpp", "src/algorithm/nd_sort.hpp"],
 [("fastNonDominatedSort, dominanceDegreeSort, efficientNonDominatedSort", "src/algorithm/nd_sort.cpp")],
 [], ["(index, rank) pairs", "front ranges"])

prop("C11", "Pareto-front extraction and merging agree with the definition of dominance",
 "Extracting the Pareto-front of a fitness matrix by any of the available methods returns exactly the indices of the rows that no other row dominates, each once, for values that are equal or differ by more than the floating-point tolerances. Merging two mutually non-dominated candidate sets returns exactly the candidates of both sets not dominated by any candidate of either, losing and inventing none.",
 ["inputs", "schedules"],
 "all fitness matrices with 1..8 objectives (ties, duplicates, infinite values) and all pairs of candidate sets, with any number of threads",
 "Tests use a few fixed matrices and sets.",
 ["src/core/population.cpp", "src/core/population.hpp"],
 [("findParetoFront*, mergeParetoSets", "src/core/population.cpp, src/core/population.hpp")],
 [], ["returned indices / candidates"])

prop("C12", "NSGA-II keeps the best fronts and breaks ties by crowding distance",
 "The next generation of NSGA-II consists of population-size distinct members of parents and children such that no discarded candidate has a better Pareto rank than a kept one, and within the last accepted front no discarded candidate has a larger crowding distance (the sum over the objectives of the gap between its neighbours in the front relative to the range of the front, infinite at the extremes) than a kept one. Parents are chosen by binary comparison of two candidates: lower rank first, then larger crowding distance, using ranks and distances that belong to the current population; its reported optimal solutions are the first front.",
 ["inputs", "configurations", "histories"],
 "all populations and children fitness matrices (2..5 objectives, ties, duplicates), population sizes from 2, over several consecutive generations",
 "There is no unit test of NSGA-II; the integration tests only run it.",
 ["src/algorithm/nsga2.cpp", "src/algorithm/nd_sort.cpp"],
 [("initializeImpl, nextPopulationImpl, selectImpl, crowdingDistances", "src/algorithm/nsga2.cpp")],
 [("ranks_, dists_", "rank and crowding distance of each member of the population", "src/algorithm/nsga2.hpp")],
 ["population() between generations", "selected candidates"])

prop("C13", "NSGA-III keeps the best fronts and spreads survivors over its niches",
 "The next generation of NSGA-III consists of population-size distinct members of parents and children such that no discarded candidate has a better Pareto rank than a kept one, each candidate being associated with the reference direction closest to its fitness normalized by the best value of each objective so far and the nadir of the extreme points so far. The survivors of the last accepted front come from the niches with the fewest members, the closest candidate of the niche first: filling never prefers a niche that already has more members while a less populated niche still has candidates left in that front. Of two candidates of the same niche the one of lower rank, then of lower distance, is chosen as parent, otherwise either with equal probability.",
 ["inputs", "configurations", "histories"],
 "all populations and children fitness matrices (2..6 objectives, ties, duplicates, degenerate fronts), population sizes from 2, over several consecutive generations",
 "There is no unit test of NSGA-III; the integration tests only run it.",
 ["src/algorithm/nsga3.cpp", "src/algorithm/reference_lines.cpp", "src/utility/cone_tree.cpp"],
 [("nextPopulationImpl, associatePopWithRefs, niche counting", "src/algorithm/nsga3.cpp")],
 [("sol_info_, niche_counts_", "niche association of the population", "src/algorithm/nsga3.cpp")],
 ["population() between generations"])

prop("C14", "Reference lines lie on the unit simplex and low-discrepancy points in the cube",
 "Every method of generating reference lines returns exactly the requested number of points of the requested dimension, each with non-negative coordinates summing to 1 (up to rounding), for any dimension and count; the points of the Sort, Root and Log methods (and of the Mirror method in up to 4 dimensions) are spread evenly over the simplex; the sparse subset consists of that many of the generated points, each chosen to be the farthest from those already chosen. The quasi-random sequence returns points of the half-open unit cube of the requested dimension, point n being the fractional part of seed + n * phi^-(i+1) in coordinate i (phi being the positive root of x^(dim+1) = x + 1), is the same after a reset, and can be restarted or advanced consistently.",
 ["inputs"],
 "all dimensions 1..~50, counts 0..~2000 and all generator functions",
 "Tests check a few fixed dimensions and counts.",
 ["src/algorithm/reference_lines.cpp", "src/utility/qrng.hpp"],
 [("quasirandomSimplexPoints*, pickSparseSubset", "src/algorithm/reference_lines.cpp"), ("QuasiRandom", "src/utility/qrng.hpp")],
 [], ["returned points"])

prop("C15", "Permutation crossovers produce permutations with the inherited structure",
 "Each permutation crossover, applied to any two equally long permutations, returns two permutations of the same elements with the structure its definition prescribes: cycle crossover gives every position a gene one of the parents has there and takes whole cycles, order and position crossovers keep the chosen segment or positions of one parent and the relative (for Order1 cyclic) order of the other for the rest, the partially mapped crossover keeps a segment and, outside it, the other parent's gene wherever this is possible, and edge crossover continues with an unused neighbour of the last gene in one of the parents, one with the fewest unused neighbours of its own, where there is one (or with a gene that has fewer unused neighbours still). Equal parents give equal children, and the segments and positions are drawn uniformly.",
 ["inputs"],
 "all pairs of permutations of length 1..~100 and every random choice of the operator, for both available implementations of each operator",
 "Tests apply each operator to one pair of parents with fixed cut points.",
 ["src/crossover/permutation.cpp", "src/crossover/crossover_impl.hpp", "src/crossover/neighbour_list.hpp"],
 [("order1CrossoverImpl, order2CrossoverImpl, positionCrossoverImpl, cycleCrossoverImpl, edgeCrossoverImpl, pmxCrossoverImpl", "src/crossover/crossover_impl.hpp")],
 [], ["children chromosomes"])

prop("C16", "Binary, integer and real crossovers recombine only what the parents contain",
 "The point and uniform crossovers give each child at every position the gene of one parent and its sibling the other parent's gene there, switching between parents at exactly the requested number of distinct points (all of them if there are more than positions), and the uniform crossover switching each gene with the configured probability. Real crossovers return children in bounds that satisfy their definition: arithmetic children are the complementary weighted means of their parents with one random weight, blend children lie in the extended interval [min - alpha * range, max + alpha * range] of each gene, simulated binary children lie on both sides of the parents' mean and more often far from the parents for larger eta, and Wright children are the better parent (either one if neither is better) plus random multiples in [0, 1] of its difference from the other, everything clamped to the bounds.",
 ["inputs", "configurations"],
 "all pairs of parents, chromosome lengths from 1, crossover points 1..beyond the length, parameters and bounds",
 "Tests use one pair of parents and a single draw or two.",
 ["src/crossover/binary.cpp", "src/crossover/integer.cpp", "src/crossover/real.cpp", "src/crossover/crossover_impl.hpp"],
 [("singlePoint/twoPoint/nPoint/uniform CrossoverImpl", "src/crossover/crossover_impl.hpp"), ("real crossovers", "src/crossover/real.cpp")],
 [], ["children chromosomes"])

prop("C17", "Mutation operators change exactly what they promise at the promised rate",
 "The permutation mutations apply, with the configured probability per chromosome, one move of their kind at a uniformly distributed position: a swap of two elements, a cyclic move of three, or the reversal, shuffle or shift of a segment whose length is uniform between the smallest possible and the configured maximum range; chromosomes too short for the move are left alone. The gene-wise mutations change each gene independently with the configured probability, to the other value for bits, uniformly to a different value in bounds for integers, and for real genes to a value in bounds of the documented distribution (uniform; one of the two bounds with equal probability for boundary; steps shrinking with the generations for non-uniform; centred on the gene for Gauss and polynomial). Rate 0 changes nothing and rate 1 mutates everything.",
 ["inputs", "configurations"],
 "all chromosomes, lengths from 1, rates in [0,1], range parameters, bounds and generations",
 "Tests apply each mutation to one fixed candidate a few times.",
 ["src/mutation/binary.cpp", "src/mutation/integer.cpp", "src/mutation/real.cpp", "src/mutation/permutation.cpp"],
 [("mutate() of each operator", "src/mutation/*.cpp"), ("binomial number of mutated genes and unique sampling", "src/mutation/*.cpp, src/utility/rng.hpp")],
 [], ["mutated chromosomes"])

prop("C18", "Operator wrappers respect rates and evaluation flags",
 "A crossover or mutation operator applied through its public call performs the operation with exactly its configured probability (never at 0, always at 1 when the parents differ) and returns children marked as evaluated only if they are equal to a parent whose fitness they then carry; a mutated candidate stays marked as evaluated only if its chromosome did not change. This also holds for user supplied operators and for operators that apply other operators. Probability-, positivity- and range-typed parameters accept exactly the values of their ranges (NaN being in none) and hold the value given.",
 ["inputs", "configurations"],
 "all built-in and user supplied operators, parents (equal, evaluated or not), rates",
 "Tests use fixed parents and mostly rates of 0.8 or 1.",
 ["src/crossover/crossover_base.impl.hpp", "src/mutation/mutation_base.impl.hpp", "src/utility/bounded_value.hpp"],
 [("Crossover::operator()", "src/crossover/crossover_base.impl.hpp"), ("Mutation::operator()", "src/mutation/mutation_base.impl.hpp")],
 [], ["returned candidates"])

prop("C19", "Early-stop conditions stop in exactly the documented generation",
 "Over any history of fitness values and evaluation counts, the evaluation limit stops once the limit is reached; the threshold condition stops exactly when some candidate is at least as good as the threshold in every objective; the stall conditions stop exactly when for more than patience consecutive generations neither the best nor respectively the mean fitness improved on the best seen by at least delta in any objective. Conditions start fresh with every run, and every condition requests a stop in the last allowed generation.",
 ["histories", "configurations"],
 "all histories of fitness matrices with 1..4 objectives (ties, negative, slowly improving, oscillating values), patience and delta values, thresholds, repeated runs",
 "There is no unit test of the stop conditions.",
 ["src/stop_condition/stop_condition.cpp", "src/stop_condition/stop_condition.hpp"],
 [("stop_condition() and initialize() of each condition", "src/stop_condition/stop_condition.cpp")],
 [("cntr_, best_fitness_", "generations left and best value so far", "src/stop_condition/stop_condition.hpp")],
 ["stop condition results per generation", "number of generations of a run"])

prop("C20", "Composite stop conditions are the logical combination of their parts",
 "For any nesting of AND, OR and NOT over early-stop conditions, each component sees every generation of the run exactly once and is initialized exactly once per run, and the composite requests a stop in exactly those generations in which the logical combination of the results of its components is true (in the last allowed generation every condition requests a stop).",
 ["programs", "histories"],
 "all expression trees over stateful and stateless components, all histories of component results",
 "There is no unit test of the composite conditions.",
 ["src/stop_condition/composite.hpp"],
 [("OR, AND, NOT", "src/stop_condition/composite.hpp")],
 [], ["calls received by the components", "composite result per generation"])

prop("C21", "Metrics record the correct value for every generation",
 "After a run every tracked metric has exactly one entry per generation of that run, entry i being the documented statistic of generation i's population: minimum, maximum, mean, sample variance and standard deviation and nadir point per objective, the number of evaluations made for that generation, and the hypervolume relative to the given reference point or to one common reference point fixed for the whole run. Tracking any set of metrics returns each of them, an untracked one is reported as absent, and (with one execution thread, where the assignment of work to threads cannot shift) metrics never change the course of a seeded run.",
 ["histories", "configurations"],
 "all runs (1..4 objectives, population sizes, numbers of generations, repeated runs) and all sets of tracked metrics",
 "Tests check sizes of the recorded data and a few fixed values.",
 ["src/metrics/fitness_metrics.cpp", "src/metrics/misc_metrics.cpp", "src/metrics/distribution_metrics.cpp", "src/metrics/pop_stats.cpp", "src/metrics/metric_set.cpp"],
 [("updateImpl/initializeImpl of each metric", "src/metrics/*.cpp"), ("MetricSet", "src/metrics/metric_set.hpp")],
 [], ["get_metric<>() entries"])

prop("C22", "The hypervolume indicator is exact",
 "For every set of points and every reference point the computed hypervolume equals the volume of the union of the boxes spanned by the reference point and the points (up to rounding; the reference point is not better than any of them in any objective), independent of the order of the points, of duplicates and dominated points, of the floating-point tolerances and of the number of threads, and it never decreases when a point is added.",
 ["inputs", "schedules"],
 "all sets of 0..~12 points in 1..6 dimensions against inclusion-exclusion, larger sets against a sweep and metamorphic relations",
 "Tests use a few fixed point sets.",
 ["src/metrics/pop_stats.cpp"],
 [("hypervolume() / WFG recursion", "src/metrics/pop_stats.cpp")],
 [], ["returned volume"])

prop("C23", "Fitness comparisons obey their laws and tolerances",
 "Tolerant floating-point comparisons are consistent with each other: exactly one of less, equal and greater holds, comparing with swapped arguments gives the mirrored result, values compare equal exactly if they differ by at most the absolute or the relative tolerance (infinities being equal only to themselves), and with zero tolerances they coincide with the built-in comparisons. Pareto comparison of two vectors is -1, 0 or 1 exactly according to the element-wise comparisons, antisymmetric and irreflexive, and temporary tolerances are restored when their scope ends. Candidates are equal exactly if their chromosomes are (of the same length and, for real genes, equal within the tolerances), whatever their fitness, and candidates with the same chromosome have the same hash. Relative tolerances are at most 1.",
 ["inputs", "configurations"],
 "all pairs of doubles (near ties, negative, huge, tiny, infinite) and vectors of them, and tolerance settings",
 "Tests use a few fixed pairs and the default tolerances.",
 ["src/utility/math.hpp", "src/utility/math.cpp"],
 [("floatCompare family, paretoCompare family, ScopedTolerances", "src/utility/math.hpp, src/utility/math.cpp")],
 [], ["comparison results"])

prop("C24", "Random sampling utilities stay in range and follow their distributions",
 "Random integers, reals, indices, elements, subset samples and weighted samples always lie in their requested range for every finite argument of every supported type, samples without replacement contain no duplicates and have the requested size, and weighted sampling never returns an element of zero weight. Their frequencies match the uniform, Bernoulli, binomial (approximate for more than a few trials), Poisson, normal or weighted distribution they are named after.",
 ["inputs"],
 "all argument ranges (including full-width, single-value and very large ranges) and sample sizes of every supported type",
 "Tests try a handful of ranges.",
 ["src/utility/rng.hpp", "src/utility/distribution.hpp"],
 [("randomInt, randomReal, randomBinomial, sampleUnique, sampleCdf ...", "src/utility/rng.hpp")],
 [], ["returned values"])

prop("C25", "Parallel loops run every iteration exactly once and deliver exceptions",
 "A parallel loop over any range, with any number of threads and block size and at any nesting depth, runs its body exactly once for each element and returns only after all iterations that were started have ended. If some iterations throw, one of the thrown exceptions is rethrown to the caller after all running iterations have ended and the pool remains usable; changing the number of threads between loops never loses work, and the iterations of a loop run on at most that many threads (zero meaning one, and one being the thread of the caller). The concurrent queue used underneath delivers every element exactly once, in order per producer; locks exclude each other and a latch opens only after every arrival.",
 ["schedules", "inputs", "fault_sequences"],
 "range sizes 0..10^4, thread counts 1..16, block sizes, nesting depths up to 3, throwing iterations anywhere, histories of thread count changes",
 "Tests run two fixed loops.",
 ["src/utility/thread_pool.hpp", "src/utility/concurrent_queue.hpp", "src/utility/latch.hpp"],
 [("thread_pool::execute_loop, parallel_for", "src/utility/thread_pool.hpp"), ("concurrent_queue", "src/utility/concurrent_queue.hpp")],
 [], ["calls of the loop body", "exception received"])

prop("C26", "The fitness cache and the ring buffer behave like their reference models",
 "After any history of operations the first-in-first-out cache returns for every key exactly the value most recently stored for it if it is among the retained most recent insertions (updating the value of a key does not make it newer) and nothing otherwise, never holding more than its capacity. The ring buffer always contains the last capacity-many pushed and not popped elements in order, with element access, iteration, comparison, resizing (which keeps the oldest elements) and swapping consistent with that. No history leaks, double frees or touches dead elements, and containers stay valid, even when element operations throw.",
 ["histories", "fault_sequences"],
 "all operation sequences, capacities from 0, key collisions, throwing element types",
 "Tests run short fixed sequences.",
 ["src/utility/cache.hpp", "src/utility/circular_buffer.hpp"],
 [("fifo_cache", "src/utility/cache.hpp"), ("circular_buffer", "src/utility/circular_buffer.hpp")],
 [], ["lookups", "contents"])

prop("C27", "The small-buffer vector is equivalent to a standard vector",
 "After any sequence of constructions, insertions, erasures, assignments, resizes, moves and swaps the small-buffer vector holds the same elements in the same order as a standard vector subjected to the same operations, whether its elements are stored inline or on the heap, and comparison and element access agree. Every element is constructed and destroyed exactly once and no memory is leaked or accessed out of bounds, also if an element operation throws.",
 ["histories", "fault_sequences"],
 "all operation sequences over trivial, non-trivial, move-only and throwing element types, across the inline/heap boundary, including arguments that alias elements of the vector",
 "Tests run each operation on one or two fixed sizes and values.",
 ["src/utility/small_vector.hpp"],
 [("small_vector", "src/utility/small_vector.hpp")],
 [], ["contents", "element lifetimes"])

prop("C28", "Bitsets and matrices behave like their reference models",
 "After any sequence of resizes, assignments, fills, flips, copies, moves and swaps the dynamic bitset holds the same bits as a vector of booleans subjected to the same operations, and its counts, searches, any/all/none queries, comparisons and complement agree with it. The matrix holds the same rows as a vector of rows under appending and removing rows, resizing (reshaping the row-major elements when the number of columns changes), swapping, copying, moving, row assignment and row or element access.",
 ["histories"],
 "all operation sequences with sizes across word boundaries including 0",
 "Tests run short fixed sequences.",
 ["src/utility/dynamic_bitset.hpp", "src/utility/matrix.hpp"],
 [("dynamic_bitset", "src/utility/dynamic_bitset.hpp"), ("Matrix", "src/utility/matrix.hpp")],
 [], ["contents"])

prop("C29", "Nearest-direction search in the cone tree equals exhaustive search",
 "For every set of points and every query vector the tree search returns a point of the set with the maximal inner product with the query, and that inner product, equal (up to rounding) to the result of a linear scan, for any number of points and dimensions, including duplicate, collinear and zero points.",
 ["inputs"],
 "all point sets with 1..~500 points in 1..10 dimensions and queries",
 "Tests use one random point set.",
 ["src/utility/cone_tree.cpp", "src/utility/cone_tree.hpp"],
 [("ConeTree::findBestMatch", "src/utility/cone_tree.cpp")],
 [], ["best match returned"])

prop("C30", "Benchmark problems attain their stated optimum and never exceed it",
 "For every benchmark problem and dimension, evaluating the stated optimum gives the stated optimal value (up to rounding, 1 % where the published value is approximate), no point inside the stated bounds evaluates to more than the optimal value (single-objective) or beyond the ideal point and the known Pareto front (multi-objective), values agree with the published formulas, and bounds, lengths and objective counts are mutually consistent. A problem used with the binary encoding evaluates exactly like the real-encoded problem at the decoded point, and decoding covers the bounds. Travelling salesman tours are scored by their cyclic length, invariant to reversal and to relabelling the cities, and the built-in instances have their published optimal lengths.",
 ["inputs"],
 "all problems x dimensions x objective counts x points and bit strings",
 "Tests evaluate the optimum only, for one or two dimensions.",
 ["src/problems"],
 [("invoke() of each problem", "src/problems/*.cpp"), ("convert()", "src/problems/benchmark_function.cpp")],
 [], ["fitness values"])

prop("C31", "The sequence algorithms agree with their reference definitions",
 "The library's sequence utilities (sorting by index, full and partial; largest, smallest, lower bound and other searches; finding all or counting; membership and duplicate detection and removal; selecting by index; shuffles, element-wise and fold helpers) give the results of their straightforward definitions for all inputs, including empty ranges, ties and custom comparators. Its iterators obey the laws of random access iterators, including negative distances, and stay valid as documented when the container grows; bit utilities and scope guards do exactly what they state.",
 ["inputs"],
 "all input sequences up to length ~200 with ties, boundaries and custom comparators/predicates",
 "Tests use one or two fixed sequences per function.",
 ["src/utility/algorithm.hpp", "src/utility/functional.hpp", "src/utility/iterators.hpp"],
 [("argsort, partial_argsort, max_element, erase_duplicates, ...", "src/utility/algorithm.hpp")],
 [], ["returned sequences"])

prop("C32", "Parallel runs are free of data races and memory errors",
 "With thread-safe user callbacks, running any configuration with several threads performs no conflicting unsynchronized memory accesses and no invalid memory access, including callbacks and operators that read the state of the algorithm (the evaluation counter also from the fitness function), concurrent use of the random utilities and parallel loops by user threads, nested parallel loops, different algorithms solved at the same time on user threads or inside the fitness function of another one, hand-overs of data by the library's locks, latches, queues and read-copy-update objects (what a reader got stays valid until it unlocks), and changes of the thread count between runs.",
 ["schedules", "configurations"],
 "all multi-threaded configurations of the library, observed under a happens-before race detector (so mostly independent of the particular interleaving)",
 "The tests run without race detection here and with one configuration each.",
 ["src/utility/thread_pool.hpp", "src/utility/rng.hpp", "src/core/ga_base.impl.hpp"],
 [("thread pool synchronization", "src/utility/thread_pool.hpp"), ("thread local generators", "src/utility/rng.hpp")],
 [], ["sanitizer reports"])


prop("C33", "User-defined encodings and varying chromosome lengths work like built-in ones",
 "A GA over a user-defined gene type (any copyable, comparable, hashable type, owning memory or not, bounded or not), and any GA whose crossover, mutation and repair function allow chromosomes of varying length, gives the guarantees of the built-in encodings: parents given to the crossover are different, evaluated members of the current population, each child is mutated and repaired exactly once per generation, every candidate carries the fitness of its own chromosome, the evaluation counter and the cache are exact, the solutions are the unique Pareto-optimal candidates, and seeded runs repeat exactly. The hook initialize() is called once per run, with the fitness function and the bounds already set and before any candidate is generated; exactly the missing candidates of the initial population (and one probe) come from generateCandidate(); the default operators and mutation rate of the encoding's GaTraits are used unless others are set.",
 ["configurations", "histories"],
 "all gene types, operator behaviours (including those that change the length), settings and run histories",
 "The tests only use the four built-in encodings with a constant chromosome length.",
 ["src/core/ga_base.impl.hpp", "src/core/ga_traits.hpp", "src/core/candidate.hpp"],
 [("initializeAlgorithm(), generatePopulation(), advance()", "src/core/ga_base.impl.hpp"), ("Crossover::operator(), Mutation::operator()", "src/crossover/crossover_base.impl.hpp")],
 [], ["populations, evaluation counts and solutions", "calls of the user-defined parts"])

prop("C34", "Each stage of a generation gets exactly what the stages before it made",
 "In every generation of a run of any built-in encoding, the algorithm is asked once to prepare, and then once for each parent of each pair; the candidates it selects from the current population, and no others, go pairwise to the crossover; the children of the crossovers (or the unchanged parents of a pair that is not crossed over) go each exactly once through the mutation, the mutated ones each exactly once through the repair function, whose result - however little it differs - is what is evaluated; the replacement is given the fitness of the parents in their order, followed by that of the children; and the candidates it picks, in the order it picks them, are the next population, unchanged. The algorithm is initialized once per run, when the initial population has been evaluated, and the solutions are those that it names (by default the Pareto-optimal ones).",
 ["configurations", "schedules", "histories"],
 "all runs x operators x rates x population sizes (odd, even, 1) x user-defined algorithms or selection and replacement objects x repair functions x thread counts x static and dynamic fitness functions x cache sizes",
 "The unit tests call the stages in isolation, and the integration tests only look at the end of a run; a child that is lost, doubled or skipped by a stage would not be noticed.",
 ["src/core/ga_base.impl.hpp", "src/algorithm/algorithm_base.impl.hpp", "src/algorithm/single_objective.cpp", "src/crossover/crossover_base.impl.hpp"],
 [("advance()", "src/core/ga_base.impl.hpp"), ("select(), nextPopulation(), optimalSolutions()", "src/algorithm/algorithm_base.impl.hpp"), ("repair()", "src/core/ga_base.impl.hpp")],
 [], ["calls received by user-defined operators and algorithms", "populations"])


prop("C35", "A setting means the same whenever and in whichever form it is made",
 "Every setting of a GA, an operator, an algorithm or a stop condition reads back as it was last made, no setting changes another one (except that a new crossover or mutation method brings its own rate), and settings survive runs and moves. An object whose settings were made step by step, in any order and form, runs exactly like one that was constructed with them: a component may be given as an object, a pointer or a callable, to a constructor or a setter, and its parameters in its constructor or later; no algorithm means the default one for the number of objectives, no stop condition means none, a callable mutation has the deduced mutation rate and a callable crossover the default rate. All forms of solve() (function object or pointer, one pair of bounds or one for each gene, the generation limit in the call or set before, with or without an initial population) make the same run with the given limit, length, bounds and function, and leave max_gen() as it was. What is not given has its documented default, and a rate changed during a run is that of the next generation.",
 ["configurations", "histories"],
 "all sequences of settings, runs and moves x all forms of constructors, setters and calls of solve() x all components and parameter values",
 "The unit tests use one or two of the constructors and forms of solve() each, and compare at most a few of the values they set.",
 ["src/core/ga_base.impl.hpp", "src/core/ga_base.decl.hpp", "src/core/ga_info.cpp", "src/algorithm/single_objective.cpp"],
 [("constructors, setters and the overloads of solve()", "src/core/ga_base.impl.hpp"), ("algorithm(), stop_condition()", "src/core/ga_info.cpp"), ("SingleObjective: constructors and setters", "src/algorithm/single_objective.hpp"), ("setters of the operators and stop conditions", "src/crossover/real.hpp")],
 [], ["values of the getters", "seeded runs", "candidates made by operators"])

prop("C36", "Vector and statistics helpers compute what they are defined to be",
 "For all vectors whose results are representable - of any length, with elements that are equal, zero, of very different magnitudes, or large compared with their differences - the norm, the normalized vector, the squared distance of two points and of a point from a line through the origin, the volume of the box between two points, the mean and the (population) standard deviation, with the mean given or not, and the antiderivative of a power of the sine are what their definitions say, up to rounding errors of a stable computation; distances and volumes are symmetric, and the distance from a line depends on neither the length nor the sign of its direction. The minimum, maximum, mean, sample variance and deviation of the fitness of a part of a population are, for each objective, those of that column (the variance of one element being zero).",
 ["inputs"],
 "vectors of 1 to 300 elements and fitness matrices of up to 60 x 8, with magnitudes of 1e-36 to 1e36",
 "The unit tests use one or two short vectors of small numbers each, where an unstable formula is as good as a stable one.",
 ["src/utility/math.cpp", "src/metrics/pop_stats.cpp"],
 [("euclideanNorm, normalizeVector, euclideanDistanceSq, perpendicularDistanceSq, volumeBetween, mean, stdDev, integralSinPow", "src/utility/math.cpp"), ("minFitness, maxFitness, fitnessMean, fitnessVariance, fitnessStdDev", "src/metrics/pop_stats.cpp")],
 [], ["returned numbers"])


out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
