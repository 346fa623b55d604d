"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Pareto dominance is the textbook strict partial order everywhere it is used",
  "For any two objective vectors of equal length (minimisation), 'a dominates b' is answered true exactly when a is no worse than b in every objective and strictly better in at least one, and the three-way comparison answers +1, -1 or 0 accordingly; every algorithm that has its own dominance test (plain, epsilon-relaxed with epsilon zero, or on stored objective values) gives the same answers. The relation is therefore irreflexive, asymmetric and transitive.",
  ["inputs"], "all pairs (and triples) of real objective vectors of any common length, with ties, duplicates and single objectives",
  "The unit tests evaluate a handful of 2-3 dimensional vectors; the guarantee is over all vectors of all lengths and over five separate implementations.",
  ["evotools/ea_utils.py", "algorithms/NSGAII/NSGAII.py", "algorithms/SPEA2/SPEA2.py", "algorithms/OMOPSO/OMOPSO.py", "algorithms/NSGAIII/NSGAIII.py"],
  [("three-way comparison with early exit on conflict", "evotools/ea_utils.py: domination_cmp, dominates"),
   ("weak/strict dominance on individuals", "algorithms/NSGAII/NSGAII.py: dominates_weak, dominates"),
   ("archive dominance with relaxation factor", "algorithms/OMOPSO/OMOPSO.py: Individual.dominates"),
   ("delegation", "algorithms/SPEA2/SPEA2.py: SPEA2.dominates"),
   ("per-cluster theta dominance", "algorithms/NSGAIII/NSGAIII.py: dominates")])

p("C02", "Non-dominated filtering and archives keep exactly the non-dominated points",
  "Filtering a finite set of points for non-dominated ones returns only points of the input, returns no point that another input point dominates, and loses no non-dominated point. An archive that is fed points one at a time never contains two points of which one dominates the other (under the archive's own dominance relaxation), and a rejected or evicted point is always dominated by, equal to, or - in a size-limited archive - crowded out by archived points, whatever the order of insertion.",
  ["inputs", "histories"], "all finite point sets and all insertion sequences, including duplicates and ties",
  "Tests never call the archives and sample only a few fixed fronts; mutual non-domination must survive every insertion history.",
  ["metrics/metrics_utils.py", "algorithms/BOGO/BOGO.py", "algorithms/OMOPSO/OMOPSO.py", "problems/ZDT3/problem.py"],
  [("incremental filter", "metrics/metrics_utils.py: filter_not_dominated"),
   ("quadratic filter", "metrics/metrics_utils.py: filter_not_dominated2"),
   ("archive refresh", "algorithms/BOGO/BOGO.py: BOGO.refresh_archive"),
   ("bounded and unbounded archives", "algorithms/OMOPSO/OMOPSO.py: Archive.add, LeaderArchive.add/prune"),
   ("reference front trimming", "problems/ZDT3/problem.py: is_non_dominated, trim_dominated")],
  state=[{"name": "archive", "meaning": "current non-dominated points", "where": "BOGO.archive, OMOPSO Archive.archive"}])

p("C03", "Ranking sorts any population into correct Pareto fronts",
  "Sorting a population into fronts assigns every individual to exactly one front; no individual in a front is dominated by a member of the same or a later front, and every individual of a front after the first is dominated by some member of the front just before it. Flattening the fronts gives a best-to-worst ordering that is a permutation of the population.",
  ["inputs"], "all finite populations, with duplicated objective vectors, chains, and any number of objectives",
  "Tests check a few hand-written populations of one of the five sorting routines.",
  ["evotools/ea_utils.py", "algorithms/base/drivertools.py", "algorithms/NSGAII/NSGAII.py", "algorithms/SMSEMOA/SMSEMOA.py", "algorithms/NSGAIII/NSGAIII.py", "algorithms/NSLS/NSLS.py"],
  [("layer peeling", "evotools/ea_utils.py: paretofront_layers"), ("flattening", "algorithms/base/drivertools.py: rank"),
   ("fast non-dominated sort", "NSGAII._nd_sort, SMSEMOA.nd_sort, NSLS.nd_sort, NSGAIII.theta_non_dominated_sort")])

p("C04", "Variation keeps every solution inside its domain and leaves parents intact",
  "Given parents inside the box of variable bounds, every generated, recombined, mutated, moved or locally searched solution has one value per variable, each within its bounds, whatever the random draws; the operators never fail on such input. Recombination and mutation of plain vectors do not modify the parents, and a mutation or crossover probability of zero reproduces a parent unchanged.",
  ["inputs", "schedules"], "all boxes with lower < upper, all parents inside them (including on the bounds and coincident parents), all distribution indices and rates, all random draws",
  "The random draws and parents form a continuum; the tests exercise algorithms on one or two problems with a few seeds and never look at the bounds.",
  ["algorithms/base/drivertools.py", "algorithms/NSGAIII/NSGAIII.py", "algorithms/OMOPSO/OMOPSO.py", "algorithms/NSLS/NSLS.py", "algorithms/BOGO/BOGO.py", "algorithms/HGS/tools.py", "algorithms/HGS/classic/ClassicHGS.py", "evotools/ea_utils.py"],
  [("polynomial mutation and SBX with clamping", "algorithms/base/drivertools.py: mutate, crossover, get_beta_q"),
   ("own copies", "algorithms/NSGAIII/NSGAIII.py: simulated_binary_crossover, polynomial_mutation"),
   ("clamped particle move and mutation", "algorithms/OMOPSO/OMOPSO.py: OMOPSO.move, Mutation.__call__"),
   ("rejected local search moves", "algorithms/NSLS/NSLS.py: NSLS.local_search"),
   ("initial sampling", "evotools/ea_utils.py: gen_population"), ("sprout seeding", "population_from_delegate")])

p("C05", "Survivor selection keeps the size and never prefers a worse individual",
  "After each generation the surviving population (or archive) has the configured size and consists of individuals of the merged parent/offspring pool. The number of survivors from each front is what filling the population front by front gives (so no survivor's front is later than a discarded individual's front), and for the indicator- or strength-based algorithms the discarded individuals are exactly those with the worst value of the selection criterion of that algorithm.",
  ["inputs", "histories"], "all pools of evaluated individuals and all generation histories, for each algorithm's selection rule",
  "Tests only count results after a few steps of one algorithm; elitism is a property of every pool that can arise.",
  ["algorithms/NSGAII/NSGAII.py", "algorithms/NSGAIII/NSGAIII.py", "algorithms/NSLS/NSLS.py", "algorithms/SPEA2/SPEA2.py", "algorithms/IBEA/IBEA.py", "algorithms/SMSEMOA/SMSEMOA.py", "algorithms/OMOPSO/OMOPSO.py"],
  [("rank then crowding truncation", "NSGAII._environmental_selection"), ("front filling", "NSGAIII.create_final_population, NSLS.next_generation"),
   ("strength fitness and truncation", "SPEA2.environmental_selection"), ("iterated indicator removal", "IBEA._environmental_selection"),
   ("least hypervolume contributor removal", "SMSEMOA.reduce_population"), ("crowding prune", "LeaderArchive.prune")])

p("C06", "Hypervolume equals the measure of the region dominated up to the reference point",
  "For any finite set of points, with any reference point and any number of objectives, the computed hypervolume equals the Lebesgue measure of the union of the boxes spanned by each point and the reference point, counting only points no worse than the reference point in every objective. It is therefore zero for an empty contribution, independent of the order and duplication of the points and of adding dominated points, and never decreases when points are added.",
  ["inputs"], "all finite point sets in 1..4 objectives, all reference points, with ties, duplicates, dominated points and points beyond the reference",
  "No test calls the hypervolume code; the algorithm is a pointer-swapping dimension sweep whose errors show only for particular orderings and ties.",
  ["algorithms/base/hv.py", "metrics/metrics.py"],
  [("dimension sweep over linked lists", "algorithms/base/hv.py: HyperVolume.compute, hvRecursive, MultiList"),
   ("metric with fixed reference point 50", "metrics/metrics.py: hypervolume")])

p("C07", "Quality indicators equal their published definitions",
  "For every approximation set and reference front, generational distance, inverted generational distance, averaged Hausdorff distance, epsilon, extent, spacing, distribution, non-domination ratio, distance from the front and the dominance indicator equal their defining formulas, each applied to the set (all points or only the non-dominated ones) and in the direction the definition prescribes. Ratios lie in [0,1], distances are non-negative, and a distance is zero when every measured point lies on the reference set.",
  ["inputs"], "all non-empty finite point sets of any dimension and any reference front",
  "No test computes an indicator; wrong roles of set and front, dropped terms or wrong extremes agree on symmetric samples.",
  ["metrics/metrics_utils.py", "metrics/metrics.py", "metrics/epsilon.py"],
  [("distance aggregation", "metrics/metrics_utils.py: distance, euclid_sqr_distance, distance_from_pareto"),
   ("max-min-max sweep", "metrics/epsilon.py: Epsilon.epsilon"),
   ("spread", "metrics/metrics_utils.py: extent, spacing, distribution"),
   ("choice of set per metric", "metrics/metrics.py wrappers"),
   ("set membership ratio", "metrics/metrics_utils.py: pareto_dominance_indicator")])

p("C08", "Reported cost counts every objective evaluation once and never a remembered one",
  "The cost an algorithm reports never decreases and, whenever a population of new solutions is evaluated, grows by exactly the number of solutions whose objectives had to be computed: a solution whose objectives are already known, or are remembered in a fitness archive, costs nothing and gets the remembered values. A remembered entry always equals the objective values of the solution it is stored under, and distinct solutions never share an entry.",
  ["inputs", "histories"], "all populations, any pattern of already evaluated and archived solutions, any sequence of generations",
  "Tests look at the cost of one composite algorithm with mocked islands; over- or under-charging depends on which solutions are already known.",
  ["algorithms/NSGAII/NSGAII.py", "algorithms/NSGAIII/NSGAIII.py", "algorithms/NSLS/NSLS.py", "algorithms/BOGO/BOGO.py", "algorithms/SPEA2/SPEA2.py", "algorithms/OMOPSO/OMOPSO.py", "algorithms/SMSEMOA/SMSEMOA.py", "algorithms/HGS/tools.py", "algorithms/HGS/classic/ClassicHGS.py"],
  [("per-individual charging", "NSGAII/NSGAIII/NSLS calculate_objectives; BOGO.step"),
   ("per-population charging", "SPEA2/OMOPSO/SMSEMOA calculate_objectives"),
   ("archive keyed by the vector", "ResultArchive")])

p("C09", "Runs stop exactly at their limit and report every step in order",
  "A budget run takes steps exactly while the driver's cost is below the budget and reports one message per step, in order, with strictly increasing step numbers; a step run takes exactly the requested number of steps. A time run keeps stepping while accumulated step time is below the limit and reports at most one result for each multiple of the sampling interval, in increasing order without gaps, never past the limit, each carrying the latest result that was complete before the step that crossed it.",
  ["inputs", "schedules", "histories"], "all budgets, step counts, sampling intervals and timeouts; all per-step costs and durations",
  "The time tests use a few fixed step durations and the driver tests a few steps; off-by-one errors need particular duration/interval ratios.",
  ["algorithms/base/driver.py", "algorithms/base/model.py", "simulation/worker.py"],
  [("budget loop", "algorithms/base/driver.py: BudgetRun._start"), ("step stream", "StepsRun.create_job"),
   ("slot emission loop", "TimeRun._start"), ("step counting", "StepCountingDriver.counting_step"),
   ("ascending budgets, one stored result per budget", "simulation/worker.py: BudgetWorker.run_driver, TimeWorker.run_driver")])

p("C10", "Stored results are found again, complete, unchanged, under the right label",
  "A result stored for a simulation and label (budget or time slot) is loaded back with the same population, fitness values and additional data, and by collecting the results of a problem and algorithm from disk it appears exactly once, under that label and no other, together with the matching simulation identity and a run number that counts the runs in chronological order. Foreign files and directories are ignored, and labels are returned in increasing numeric order.",
  ["inputs", "histories"], "all simulations, identifiers, labels, store orders and directory contents",
  "No test stores or loads a result; the naming scheme and the pattern that parses it live in different modules.",
  ["simulation/serializer.py", "simulation/serialization.py", "simulation/model.py"],
  [("path scheme", "simulation/serializer.py: Serializer"), ("id format", "simulation/model.py: get_simulation_id"),
   ("run and label patterns", "simulation/serialization.py: ResultsExtractor._each_run, NumberMeasuredResultExtractor")])

p("C11", "Islands partition the population; migration neither loses nor duplicates",
  "Splitting an initial population into islands gives every solution to exactly one island with sizes differing by at most one; a migration step sends each emigrating solution to exactly one neighbour, so that the multiset of all solutions over all islands is unchanged and islands with as many incoming as outgoing links keep their size. The island topology is symmetric with every neighbour index valid, and the weighted choice returns an element with non-zero weight whose cumulative weight interval contains the draw.",
  ["inputs", "histories"], "all population sizes, island counts, torus widths, migrant numbers, topologies and random draws, for every inner algorithm",
  "Tests use one island configuration with mocked islands; loss or duplication depends on the topology and on equal solutions.",
  ["algorithms/IMGA/IMGA.py", "algorithms/IMGA/topology.py", "algorithms/IMGA/message.py", "algorithms/SPEA2/message.py", "algorithms/SMSEMOA/message.py", "algorithms/OMOPSO/message.py", "evotools/random_tools.py"],
  [("slicing plus remainder", "algorithms/IMGA/IMGA.py: IMGA.create_islands"),
   ("emigrate/immigrate/assimilate", "IMGA.Island, message adapters"), ("torus with ragged last row", "TorusTopology.create"),
   ("cumulative draw", "evotools/random_tools.py: weighted_choice"), ("cost of the islands", "IMGA.update_cost")])

p("C12", "Hierarchic search grows, prunes and revives its node tree within its limits",
  "In the hierarchic genetic search no node lies deeper than the configured maximum level, a node never has more live sprouts than allowed after sprouting and gains at most the configured number per metaepoch, and each new sprout starts from the delegate with the configured size and its centre is not redundant with an existing populated node of that level. Only live nodes run, a metaepoch adds to the reported cost exactly the level-weighted cost spent by the nodes that ran, nodes that stop progressing are retired and ripe, redundant ones are retired, and only when no node is alive are ripe nodes revived with the progress thresholds halved.",
  ["inputs", "histories"], "all tree shapes, populations, hypervolume histories, thresholds and limits reachable by any number of metaepochs",
  "The single test runs a few steps with one configuration and compares level counts.",
  ["algorithms/HGS/classic/ClassicHGS.py", "algorithms/HGS/HGS.py"],
  [("sprouting", "ClassicHGS.Node.release_new_sprouts"), ("retiring", "ClassicHGS.trim_not_progressing, trim_redundant"),
   ("revival", "ClassicHGS.revive_root"), ("cost telescoping", "ClassicHGS.run_metaepoch, Node.fill_node_info, update_current_cost"),
   ("redundancy distance", "redundant")],
  state=[{"name": "alive/ripe", "meaning": "life cycle flags of a node", "where": "ClassicHGS.Node"}])

p("C13", "Precision reduction only clears low-order mantissa bits",
  "Reducing a number to k mantissa bits keeps its sign and exponent and its k leading mantissa bits and clears the rest: the result is never larger in magnitude, differs by less than one unit of the kept precision, is unchanged when k covers the whole mantissa, and reducing twice to the same precision changes nothing more. Reducing a vector does so component by component, keeping its length.",
  ["inputs"], "all finite floating point values and all bit counts",
  "No test calls it; the guarantee is over the whole floating point range, including zero, negative, huge, tiny and subnormal values.",
  ["algorithms/HGS/tools.py", "algorithms/HGS/classic/ClassicHGS.py"],
  [("mask of leading digits", "trim_mantissa, trim_vector (two copies)")])

p("C14", "Selections expand to exactly the requested, independently configured runs",
  "A command line selecting problems, algorithms, budgets (or a timeout with sampling interval) and a repeat count N yields exactly N simulations for every selected problem/algorithm pair, with all problems or algorithms when none are named, names matched without regard to case, budgets as ascending integers, and the requested results directory. Preparing a simulation binds the algorithm, its inner algorithm and the message adapter named in the selection with that problem's bounds and objectives and an initial population of the configured size inside the bounds, more specific configuration overriding more general, and neither preparing nor running one simulation changes the configuration of another.",
  ["inputs", "configurations", "histories"], "all option combinations and all registered problem/algorithm names, in any order of preparation",
  "Tests prepare a few fixed combinations through other paths; the defaulting and overriding rules are never asserted.",
  ["simulation/factory.py", "simulation/run_config.py", "evotools/ea_utils.py", "algorithms/HGS/classic/ClassicHGS.py"],
  [("selection", "simulation/factory.py: parse_problems, parse_algorithms, parse_budgets, create_simulation"),
   ("layered configuration", "prepare_with_driver, load_*_config, custom_init"), ("inner drivers", "prepare, prepare_message_adapter_class"),
   ("registry", "simulation/run_config.py")])

p("C15", "Statistical summaries match their definitions and respect the sample",
  "For any non-empty sample, the bootstrap interval is ordered and lies within the range of statistics of resamples drawn only from the sample, the reported metric is the mean of the sample, the fences are the quartiles minus/plus 1.5 and 3 interquartile ranges, and every reported mean, deviation and outlier share equals its definition over the sample (or over its non-outliers). A weak winner is reported exactly when its score is within the tolerated ratio of the winner's, and a result is accepted for a budget exactly when its mean cost does not exceed the budget plus tolerance, the largest acceptable budget being chosen.",
  ["inputs"], "all non-empty samples, bootstrap sizes, resample sizes, tolerances and result lists",
  "No test touches the statistics module.",
  ["statistic/stats_bootstrap.py", "statistic/ranking.py"],
  [("resampling and percentile indices", "statistic/stats_bootstrap.py: sample_wr, bootstrap"),
   ("fences and outliers", "statistic/stats_bootstrap.py: yield_analysis, average"),
   ("cost validation", "validate_cost, find_acceptable_result_for_budget"),
   ("tie tolerance", "statistic/ranking.py: get_weak_winners, best_func")])

p("C16", "Benchmark problems implement their published formulas and true reference fronts",
  "Each benchmark problem's objectives equal the published formulas of that problem at every point of its domain, and its bounds and number of variables are those of the definition instance it uses. Each point of the reference front of a two- or three-objective test problem (ZDT and UF families) lies on the known optimal front of the problem and no reference point dominates another.",
  ["inputs"], "all decision vectors in the domain of each registered problem; all reference front points",
  "No test evaluates a problem against its definition; errors in index sets or constants only shift values.",
  ["problems/ZDT1/problem.py", "problems/ZDT2/problem.py", "problems/ZDT3/problem.py", "problems/ZDT4/problem.py", "problems/ZDT6/problem.py", "problems/UF1/problem.py", "problems/UF2/problem.py", "problems/UF3/problem.py", "problems/UF4/problem.py", "problems/UF5/problem.py", "problems/UF6/problem.py", "problems/UF7/problem.py", "problems/UF8/problem.py", "problems/UF9/problem.py", "problems/UF10/problem.py", "problems/kursawe/problem.py", "problems/ackley/problem.py", "problems/EWA1/problem.py", "problems/EWA2/problem.py"],
  [("objective functions", "problems/*/problem.py: fitnesses"), ("reference fronts", "problems/*/problem.py: pareto_front"),
   ("bounds", "problems/*/problem.py: dims")])

p("C17", "Cached metrics equal freshly computed ones, on the pool of matching runs",
  "Asking for a metric of a stored result returns the value of that metric for that result whether it is computed now or read back from the cache, and a cache entry made with different parameters is never returned silently. The dominance indicator of a result is computed against the non-dominated points of all algorithms' results of the same problem, label and run number, and that pool (with every indicator derived from it) is renewed whenever the underlying results have changed.",
  ["inputs", "histories"], "all stored result sets and all sequences of adding results and asking for metrics",
  "No test stores results or computes metrics from disk; staleness and mismatched pools need a particular history of files.",
  ["simulation/metrics_processor.py", "metrics/metrics.py", "metrics/metrics_utils.py"],
  [("per-result cache files", "simulation/metrics_processor.py: get_metric"),
   ("pool construction and invalidation", "preload_results_for_problem, filter_non_dominated_in_cache, clear_old_pdi_metrics"),
   ("metric dispatch", "yield_metrics")])

p("C18", "Distributed hierarchic search follows its request/reply protocol to completion",
  "In the distributed hierarchic search each supervisory task (metaepoch, status, population, pruning, sprouting, revival) sends its request to exactly the nodes concerned, completes exactly when each of them has answered, and reports the combined answer, whatever the order in which answers arrive. Redundant nodes are retired, a node releases at most the configured number of sprouts per request and never has more live sprouts than allowed afterwards, and the reported cost of a metaepoch is the largest node cost weighted by its level.",
  ["schedules", "inputs"], "all node sets, all orders of reply messages between the actors",
  "The test suite does not start the actor system in the stable tests; reply orders are never varied.",
  ["algorithms/HGS/distributed/hgs_tasks.py", "algorithms/HGS/distributed/node_tasks.py", "algorithms/HGS/distributed/actors.py", "algorithms/HGS/distributed/DistributedHGS.py"],
  [("task state machines", "algorithms/HGS/distributed/hgs_tasks.py, node_tasks.py"), ("dispatch", "algorithms/HGS/distributed/actors.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
