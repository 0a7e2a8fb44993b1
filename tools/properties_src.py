"""Single source of the property list; tools/gen.py writes properties.jsonl and
MANIFEST.json from it."""
PROPS = []


def P(pid, title, statement, over, qtext, why, files, mech, technique, note,
      observe=()):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=['leap_ec/' + f for f in files],
                     mechanism=[dict(name=n, where='leap_ec/' + w)
                                for n, w in mech],
                     observe_at=list(observe), hook_needed=None),
        technique=technique, note=note))


I, H, C, S, F = ('inputs', 'histories', 'configurations', 'schedules',
                 'fault_sequences')

P('P01', 'Fitness comparison follows the problem direction; NaN is always worst',
  "For individuals on a single-objective problem, 'a > b' holds exactly when a's fitness is strictly better in the problem's declared direction (higher when maximising, lower when minimising), and the six comparison operators, max, min and sorting agree with that order. An individual whose fitness is NaN is worse than every individual with a non-NaN fitness (including the infinities) in either direction, and no individual is equal to or worse than None.",
  [I, C], 'every pair/list of int or float fitnesses (incl. infinities, NaN) and both directions',
  'Tests compare a few hand-picked pairs; the order must be a consistent weak order over all values, in both directions.',
  ['individual.py', 'problem.py'],
  [('comparison operators', 'individual.py'), ('worse_than/equivalent', 'problem.py')],
  'Hypothesis; reference ordering oracle', 'Generated fitness tuples against an independent comparator; near-ties inside the documented float tolerance are excluded.')

P('P02', 'Cloned individuals are isolated from, and traceable to, their parents',
  "A clone has an equal but independent genome (mutating either in place never changes the other), no fitness, the same decoder, problem, class and extra attributes, a phenome decoded from its own genome, a fresh unique identifier, and a parent set holding exactly the identifier of the individual it was cloned from. The original is left unchanged, identifiers never repeat over any sequence of creations and clonings, and cloning through a pipeline operator gives the same result one individual at a time.",
  [I, H], 'every genome type (arrays, lists, nested segments), individual class and clone/mutate/evaluate history',
  'Tests clone one or two flat genomes; aliasing only shows for particular genome structures and later in-place changes.',
  ['individual.py', 'ops.py', 'distrib/individual.py'],
  [('clone method', 'individual.py'), ('clone operator', 'ops.py')],
  'Hypothesis stateful-style clone/mutate histories against a value model', 'Random clone/mutate/evaluate programs compared with a value model.')

P('P03', 'Every evaluation route assigns the fitness of the current genome',
  "Whatever route is used (single evaluation, bulk evaluation of a population, streaming evaluation in a pipeline, grouped evaluation with any chunk size including none), each individual's fitness becomes exactly what its problem returns for its genome as decoded at that moment, with every individual evaluated, population order and membership unchanged and genomes untouched. Grouped evaluation refuses populations whose individuals refer to different problems, and constant evaluation assigns exactly the given constant to everybody.",
  [I, C, H], 'all populations, genomes, decoders, chunk sizes, and histories in which genomes changed after an earlier decode/evaluation',
  'Tests use one population, one problem and one chunk size; staleness needs a particular history.',
  ['individual.py', 'ops.py', 'problem.py'],
  [('evaluate', 'individual.py'), ('grouped_evaluate, evaluate, const_evaluate', 'ops.py'), ('evaluate_multiple', 'problem.py')],
  'Hypothesis; differential between evaluation routes and a direct call', 'Differential over generated populations/histories.')

P('P04', 'A failing evaluation never escapes a robust individual',
  "When evaluating a robust (or distributed) individual raises any ordinary exception while decoding or computing fitness, the exception does not propagate: fitness is NaN, the individual is marked non-viable and keeps the exception raised. When evaluation succeeds the fitness is the problem's value and it is marked viable, whatever its earlier evaluations did, and non-viable individuals always lose comparisons and survival selection against viable ones.",
  [F, I, H], 'all patterns of success/failure over repeated evaluations and populations, any exception type, failure in decoder or problem',
  'Tests raise one exception from one problem.',
  ['individual.py', 'distrib/individual.py', 'problem.py'],
  [('robust evaluate', 'individual.py')],
  'Hypothesis fault injection', 'Fault patterns are generated; the oracle is the injected pattern itself.')

P('P05', 'Variation invalidates fitness and never alters the cloned parents',
  "After any reproductive pipeline of clone followed by any mix of the provided mutation and crossover operators, every offspring whose genome differs from the parent it was cloned from has no fitness until it is evaluated again. The parent population itself is left exactly as it was (same members, order, genomes, fitnesses and identifiers), and each offspring's parent set only names individuals of that population.",
  [I, C, H], 'all populations, representations and compositions of provided variation operators',
  'Tests exercise operators one at a time; stale fitness and parent corruption depend on composition.',
  ['ops.py', 'binary_rep/ops.py', 'real_rep/ops.py', 'int_rep/ops.py', 'segmented_rep/ops.py', 'executable_rep/cgp.py'],
  [('fitness = None in each variation operator', 'ops.py'), ('clone', 'individual.py')],
  'Hypothesis-generated operator pipelines; before/after snapshot oracle', 'Random pipelines over four genome families.')

P('P06', 'Survival selection keeps exactly the best, of the right size',
  "Truncation survival returns exactly the requested number of distinct members (or all, if fewer) of the offspring plus optional parents such that nobody left out is better than anybody kept. Elitist survival returns as many survivors as offspring, drawn from the offspring and the k best parents, with nobody left out of that pool better than a survivor. Insertion survival returns a new list the size of the parents in which each member is the original parent at that position or an offspring no worse than it, gives every offspring one tournament, and leaves the given parent list unmodified; all three honour a user-supplied key.",
  [I, C], 'all fitness multisets (ties, NaN, negative), both directions, sizes, k, parents and keys',
  'Tests use a handful of fixed populations without ties or NaN.',
  ['ops.py'], [('truncation_selection, elitist_survival, insertion_selection', 'ops.py')],
  'Hypothesis; multiset/threshold reference oracle', 'Validity predicates plus statistical check that every offspring competes.')

P('P07', 'Tournament, random and cyclic parent selection honour their contracts',
  "Tournament, random and cyclic selectors only ever yield members of the given population; the index they optionally report is always the position of the yielded individual. Tournament yields the best (or, on request, the worst) of k uniformly drawn contestants under the given key, so selection frequencies follow the rank distribution for k; random selection is uniform; naive cyclic selection repeats the population in order, and cyclic selection returns every member exactly once per tour, first tour in order.",
  [I, C], 'all population sizes, fitness values, k, keys, both directions',
  'Tests check a few draws of small populations.',
  ['ops.py'], [('tournament_selection, random_selection, cyclic_selection, naive_cyclic_selection', 'ops.py')],
  'Hypothesis; exact tour oracle and rank-distribution statistics (>= 6 sigma)', 'Membership/index exact; frequencies tested with bounds far beyond chance.')

P('P08', 'Fitness-proportionate and SUS selection follow the value shares',
  "Proportional selection yields population members with frequency proportional to (metric + offset) ** exponent, where the adaptive offset maps the population minimum to zero, and rejects negative values with an error. Stochastic universal sampling with n points yields, in every complete pass of n draws, each member either the floor or the ceiling of its exact expected count, again rejecting negative values and non-positive n, and repeats the same pass when resampling is off; members of zero value are never chosen by either unless every value is zero, when the choice is uniform.",
  [I, C], 'all populations of non-negative (after offset) values, n, exponent, offset, key, both shuffle modes',
  'Tests check a few populations; the floor/ceiling guarantee is universal over values and random starts.',
  ['ops.py'], [('proportional_selection, sus_selection, compute_population_values', 'ops.py')],
  'Hypothesis; exact floor/ceiling oracle for SUS, >= 6 sigma frequency test', 'SUS is decided exactly per pass; proportional statistically.')

P('P09', 'Crossover only exchanges genes between mates, locus by locus',
  "Uniform and n-point crossover of equally long mates leave, at every locus, exactly the two genes the mates had there, n-point crossover switching between mates at exactly n random places (the start of the genome counts as one; more places than genes is an error) and uniform crossover swapping each locus independently with the given probability. With mates of unequal length no gene is lost or invented and the genes of one mate keep their order, uniform crossover leaving the longer tail in place. With crossover probability zero the mates pass through untouched, fitness included; when crossover happens both children lose their fitness and record both parents. Children come out in pair order, and an unconsumed second child is delivered by the next call exactly when persistence was requested.",
  [I, C, H], 'all genomes (arrays, lists of segments, unequal lengths), probabilities, number of points, consumption patterns',
  'Tests use one or two fixed genomes with p=0/1.',
  ['ops.py'], [('Crossover, UniformCrossover, NAryCrossover', 'ops.py')],
  'Hypothesis; locus-wise provenance oracle with tagged genes', 'Every gene carries a unique tag so provenance is decided exactly.')

P('P10', 'Bit-flip mutation flips bits independently at the requested rate',
  "Bit-flip mutation returns a genome of the same length and type family containing only zeros and ones, where each bit is flipped independently with the given probability, or with probability expected_flips / length when an expected number is given. Probability zero leaves the genome unchanged, probability one inverts every bit, exactly one of the two rates must be specified, and the genome-level form behaves the same.",
  [I, C], 'all bit strings, lengths and rates', 'Tests are statistical on one length.',
  ['binary_rep/ops.py', 'ops.py'], [('mutate_bitflip, genome_mutate_bitflip', 'binary_rep/ops.py')],
  'Hypothesis; exact extremes plus >= 6 sigma rate test per locus', 'Exact at p=0/1, statistical otherwise.')

P('P11', 'Gaussian mutation respects bounds, rate and scale',
  "Gaussian mutation returns a real genome of the same length in which every mutated gene lies inside its own hard bounds (global or per gene), genes selected for mutation change by a zero-mean normal step of the given standard deviation (global or per gene), and each gene is selected independently with the given probability or expected number over length. With probability zero, or standard deviation zero and in-bounds genes, nothing changes, and every gene is mutated when the expected number is isotropic.",
  [I, C], 'all genomes, std/bounds forms (scalar, per-gene, infinite), rates', 'Tests use a few fixed genomes and rates.',
  ['real_rep/ops.py'], [('mutate_gaussian, genome_mutate_gaussian, apply_hard_bounds', 'real_rep/ops.py')],
  'Hypothesis; invariant plus >= 6 sigma distribution tests', 'Bounds exact; step distribution statistical.')

P('P12', 'Integer mutation keeps genes integral, in bounds and fairly drawn',
  "Uniform integer mutation replaces each selected gene with a value drawn uniformly from its own inclusive range; binomial mutation adds a binomial step of the requested standard deviation, centred on zero to within one unit, and clips to the gene's range. Either way the result has the same length, stays integral and in range, genes are selected independently with the given probability or expected number over length, and unselected genes are unchanged.",
  [I, C], 'all integer genomes, per-gene bounds and rates', 'Tests sample a few bounds and rates.',
  ['int_rep/ops.py'], [('mutate_randint, individual_mutate_randint, mutate_binomial, genome_mutate_binomial', 'int_rep/ops.py')],
  'Hypothesis; invariants plus exhaustive-support and >= 6 sigma frequency tests', 'Range exact; uniformity statistical.')

P('P13', 'Initialisers and representations generate valid, independent genomes',
  "Every provided initialiser yields genomes of the requested length and type whose every gene lies in its own declared range (both end points reachable for integers and bits), uniformly distributed and independent between genes and between calls. A representation creates the requested number of individuals of the requested class, each with its own freshly initialised genome and with the representation's decoder and the given problem.",
  [I, C], 'all lengths, bounds lists, classes and population sizes', 'Tests draw a few genomes from fixed bounds.',
  ['representation.py', 'individual.py', 'binary_rep/initializers.py', 'real_rep/initializers.py', 'int_rep/initializers.py', 'segmented_rep/initializers.py'],
  [('create_* initialisers', 'real_rep/initializers.py'), ('create_population', 'representation.py')],
  'Hypothesis; range/type invariants plus >= 6 sigma uniformity', 'Range exact; uniformity statistical.')

P('P14', 'Binary decoders compute the documented numeric value',
  "Decoding a bit string splits it in order into the declared segment widths and reads each as a big-endian unsigned integer (standard or reflected Gray code); the real-valued form maps that integer affinely so that all zeros give the lower bound and the maximum integer the upper bound. Decoding is deterministic, does not modify the genome, is independent of any earlier decoding, and over all genomes of a segment the integer decoding is a bijection, with Gray neighbours differing in one bit.",
  [I, C, H], 'all segment layouts, bounds and bit strings, in any decoding order', 'Tests decode a handful of strings per decoder.',
  ['binary_rep/decoders.py'], [('BinaryToIntDecoder, BinaryToRealDecoder, Gray variants', 'binary_rep/decoders.py')],
  'Hypothesis; independent reference decoder', 'Differential against a from-scratch arithmetic decoder.')

P('P15', 'Segmented genomes stay well formed under structural variation',
  "Adding, removing or copying a segment changes the number of segments by exactly plus one, minus one or plus one when it happens (with the given probability) and by zero otherwise, leaves all other segments and their order unchanged, never empties a genome, appends only when asked to, and invalidates fitness exactly when something changed. Segments never share storage, so later in-place change of one segment never alters another; per-segment mutation applies the mutator for that position to every segment, and segmented decoding decodes each segment in order with the supplied decoder.",
  [I, C, H], 'all segmented genomes, operator sequences and probabilities', 'Tests run each operator once on a two-segment genome.',
  ['segmented_rep/ops.py', 'segmented_rep/decoders.py', 'segmented_rep/initializers.py'],
  [('add_segment, remove_segment, copy_segment, apply_mutation, segmented_mutate', 'segmented_rep/ops.py')],
  'Hypothesis operator histories against a list model with tagged segments', 'Model-based.')

P('P16', 'Pipelines are lazy, count-exact and fail fast on wrong wiring',
  "Streaming operators draw from upstream only when an individual is demanded and emit individuals one for one in order, and pooling n individuals draws exactly n from upstream and returns a list of exactly those in order. Every provided operator given an input of the wrong kind (list versus iterator, or a half-configured upstream operator) raises a ValueError instead of producing output, as does an operator that produces output of the wrong kind, and an operator configured with keyword arguments in advance behaves the same as when called with all arguments at once.",
  [I, C], 'all pool sizes, operator compositions and wrong input kinds over all provided operators', 'Tests check a few decorators.',
  ['ops.py', 'util.py'], [('iteriter_op, listlist_op, listiter_op, iterlist_op, pool', 'ops.py'), ('wrap_curry', 'util.py')],
  'Hypothesis; counting upstream source and wrong-kind inputs for every operator', 'Counting/mock source oracle.')

P('P17', 'The generational loop runs the requested generations and keeps its elites',
  "A generational run initialises and evaluates exactly the requested number of individuals, then applies the pipeline once per generation to the previous generation's result, in order, until the generation budget or the stop condition is met, and returns the final population; the shared context shows the current generation from the start generation on, every individual returned is evaluated. With k-elitism k_elites >= 1 (or truncation over offspring plus parents) the best fitness in the population never gets worse from one generation to the next, in either direction.",
  [H, C, I], 'all run lengths, start generations, stop predicates, population sizes, pipelines, problems, seeds', 'Tests run two or three fixed configurations.',
  ['algorithm.py', 'ops.py', 'util.py'], [('generational_ea', 'algorithm.py'), ('inc_generation', 'util.py'), ('elitist_survival', 'ops.py')],
  'Hypothesis; recorded run history against a step-by-step model', 'Instrumented pipelines record the history; invariants over it.')

P('P18', 'Random search, stop criteria and the one-call solver keep their promises',
  "Random search returns a walk of exactly the requested number of evaluated individuals, each step being produced by the pipeline from the one before, and reports progress in the given context. The generation stop criterion is true exactly from the given generation on. The one-call solver evaluates the user's function exactly population size times (generations + 1) times, by default only on points within bounds, and returns the best point it evaluated in the requested direction, reporting the best offspring so far once per generation.",
  [I, C, H], 'all evaluation budgets, bounds, functions, directions, seeds', 'Tests run one configuration each.',
  ['algorithm.py', 'simple.py'], [('random_search, stop_at_generation', 'algorithm.py'), ('ea_solve', 'simple.py')],
  'Hypothesis; recording objective function and walk-chain oracle', 'Recorded evaluations.')

P('P19', 'Multi-population runs keep subpopulations separate and in step',
  "A multi-population run initialises each subpopulation of the requested size on its own problem and representation (shared or one per subpopulation), evaluates everybody, and in every generation applies the shared then the per-subpopulation operators once to every subpopulation in order, with the context naming the current subpopulation and generation and exposing the up-to-date subpopulations. Without an exchange operator no individual or descendant ever crosses between subpopulations, sizes follow the pipeline, and the run stops at the generation budget or stop condition and returns all subpopulations.",
  [H, C, I], 'all numbers/sizes of subpopulations, generations, shared/per-subpopulation pipelines, problems', 'Tests run one or two configurations.',
  ['algorithm.py'], [('multi_population_ea', 'algorithm.py')],
  'Hypothesis; recorded history against a model', 'Instrumented pipelines record the history.')

P('P20', 'Migration moves copies along the topology and never loses anyone',
  "At a migration generation each island sends a copy (same genome and fitness) of one selected member to one uniformly chosen neighbouring island of the topology, where it arrives the next time that island is processed, passes through the optional customs function, and takes the place of the selected contestant exactly when it is at least as good; outside migration generations nothing leaves. Island sizes never change, the sender keeps its member, each emigrant is processed exactly once, and the optional metric reports every attempt with its generation, fitnesses and outcome.",
  [H, C, S], 'all topologies, gaps, island sizes, fitnesses and processing orders', 'Tests run two islands for a couple of steps.',
  ['ops.py'], [('migrate, migration_metric', 'ops.py')],
  'Hypothesis stateful histories against a queue model', 'Model-based with generated topologies and schedules.')

P('P21', 'Cooperative fitness is the mean over complete combined solutions',
  "Under cooperative coevolution (as pipeline operator or as problem wrapper) an individual's fitness is the mean, over the requested number of trials, of the complete problem's value for the combination of that individual at its own subpopulation's position with one selected member of every other subpopulation, in subpopulation order. Collaborators and other subpopulations are not modified, individuals come out in order, and the optional log lists, per trial, one row per collaborator and one row for the combined individual, whose logged fitness averages to the assigned fitness.",
  [I, C], 'all numbers of subpopulations, sizes, trials, selectors, genomes', 'Tests use one fixed configuration.',
  ['ops.py', 'problem.py'], [('CooperativeEvaluate', 'ops.py'), ('CooperativeProblem', 'problem.py')],
  'Hypothesis; recomputation oracle from recorded combined genomes', 'Recorded inputs of the wrapped problem.')

P('P22', 'Probes observe without interfering; best-so-far is monotone and exact',
  "Every provided probe returns exactly the population or individual it was given, unmodified and in order. The best-so-far record equals the best individual seen in the whole history in the problem's direction and only ever improves, the best-of-generation helper returns a best member, and printing and best-so-far probes write exactly one record, with the requested quantity, for each individual or population they see.",
  [H, I], 'all histories of populations, both directions', 'Tests feed one or two populations.',
  ['probe.py'], [('BestSoFarProbe, print_* probes, best_of_gen', 'probe.py')],
  'Hypothesis histories; running-maximum oracle', 'Model-based.')

P('P23', 'CSV probes record exactly what happened, one row per measured step',
  "The fitness-statistics probe writes, for every measured generation, one row with the step, best-so-far, mean, standard deviation, minimum and maximum of that population's fitnesses, with best-so-far computed over the entire history including unmeasured generations and in the problem's direction; notes, extra metrics, comments and header options are reproduced. The attributes probe writes one row per individual (or only the best) with exactly the requested attributes, genome, fitness, job and notes, rejects missing attributes, and its stream and data-frame forms agree.",
  [H, I, C], 'all histories of populations, measurement intervals and column options', 'Tests check one or two rows.',
  ['probe.py'], [('FitnessStatsCSVProbe, AttributesCSVProbe', 'probe.py')],
  'Hypothesis histories; independent statistics and CSV re-parse', 'Parsed output compared to recomputed statistics.')

P('P24', 'Population metrics and plotted series match their definitions',
  "The diversity metrics (sum of squared pairwise distances, sum of gene variances, number of fixated genes) equal their mathematical definitions for every population and are invariant under reordering of the population. Plotting probes draw one point per measured step (or per individual of the last measured population, for scatter probes), equal to the requested quantity (the Pareto plot shows the first two objectives of each individual of the last measured population), respect the measurement interval, and return the population unchanged; when asked for, the fitness landscape is drawn behind the points as requested.",
  [I, H], 'all populations and step histories', 'Tests use two or three fixed populations.',
  ['probe.py'], [('pairwise_squared_distance_metric, sum_of_variances_metric, num_fixated_metric', 'probe.py'), ('PopulationMetricsPlotProbe, FitnessPlotProbe', 'probe.py')],
  'Hypothesis; direct O(n^2) definitions', 'Differential.')

P('P25', 'Real-valued benchmark functions equal their published formulas',
  "Each provided real-valued benchmark function returns its published formula's value for every phenome, parameter setting and dimension, as one finite number, without modifying the phenome, and gives the same value when asked again or in a group (the noisy quartic has the formula's value in the mean, with fresh noise each time). Each has its published optimum value at its published optimum, is never better elsewhere in its documented bounds, and reports the documented optimisation direction. Randomly generated quadratic landscapes have the requested number of basins and global optima, within the requested widths, offsets and fitness ranges.",
  [I, C], 'all phenomes, dimensions and parameters of each function', 'Doctests check one or two points per function.',
  ['real_rep/problems.py'], [('benchmark classes', 'real_rep/problems.py')],
  'Hypothesis; independent reimplementation of each formula', 'Differential with relative tolerance 1e-9.')

P('P26', 'Problem wrappers transform exactly the wrapped function',
  "Translating, scaling, matrix-transforming and fitness-offsetting wrappers evaluate exactly the wrapped function once, at the documented transformation of the phenome (or add the documented constant to its value), for any nesting; they keep the wrapped problem's direction unless told otherwise and its bounds (a scaled problem has the new bounds), never modify the phenome and give equal values for equal phenomes. The averaging wrapper evaluates each phenome exactly n times and returns the mean of its own results, singly or in groups; alternating problems evaluate and compare by the problem that is current, switching every modulo generations in rotation. Random rotations are orthonormal in every dimension, random translations lie uniformly in their bounds, and a phenome of the wrong length is rejected.",
  [I, C, H], 'all phenomes, parameters, dimensions and nestings of wrappers', 'Tests check single wrappers at a few points.',
  ['real_rep/problems.py', 'problem.py'], [('TranslatedProblem, ScaledProblem, MatrixTransformedProblem, random_orthonormal_matrix', 'real_rep/problems.py'), ('FitnessOffsetProblem, AverageFitnessProblem, AlternatingProblem', 'problem.py')],
  'Hypothesis; compositional reference model', 'Nested wrapper terms evaluated by an independent interpreter.')

P('P27', 'Binary benchmark functions equal their definitions',
  "The bit-string benchmarks (count of ones or of matches to a target, leading ones or matches, deceptive trap, two-peak, image matching) return their definition's value for every bit string, whether given as numbers or booleans, are maximised exactly at their documented optima, are maximised unless told otherwise, reject a phenome whose length differs from the target, and do not modify the phenome.",
  [I, C], 'all bit strings, targets and block sizes', 'Tests check a few strings.',
  ['binary_rep/problems.py'], [('MaxOnes, LeadingOnes, DeceptiveTrap, TwoMax, ImageProblem', 'binary_rep/problems.py')],
  'Hypothesis; independent reimplementation, exhaustive for short strings', 'Differential.')

P('P28', 'External-program evaluation delivers phenomes and fitnesses faithfully',
  "Evaluating through an external program sends the program exactly one comma-separated row per phenome, in order and without loss, whatever the size of the group, and assigns the numbers it prints back to the same individuals in the same order, for single and group evaluation. A program that exits with failure, returns a wrong number of values or prints something that is not a number raises an error and no fitness is assigned.",
  [I, F], 'all groups of phenomes and all program behaviours (exit code, row count)', 'Tests run one fixed script.',
  ['problem.py'], [('ExternalProcessProblem', 'problem.py')],
  'Hypothesis with fault-injecting external scripts', 'Round-trip through generated scripts.')

P('P29', 'Multi-objective comparison is Pareto dominance',
  "For individuals on a multi-objective problem with any mix of maximised and minimised objectives, one compares better than another exactly when it is no worse in every objective and strictly better in at least one, and they compare equivalent exactly when neither dominates the other. The relation is irreflexive, antisymmetric and transitive, and negating an objective together with its direction changes nothing.",
  [I, C], 'all fitness vectors and direction masks', 'Tests check a few vectors.',
  ['multiobjective/problems.py', 'individual.py'], [('worse_than, equivalent', 'multiobjective/problems.py')],
  'Hypothesis; componentwise reference oracle', 'Differential and algebraic laws.')

P('P30', 'Both non-dominated sorts produce the exact Pareto layering',
  "Sorting a population (optionally together with parents) into fronts gives each individual the rank obtained by repeatedly peeling off the non-dominated set: rank 1 exactly the non-dominated individuals, rank r+1 exactly those non-dominated once ranks up to r are removed. Everybody is ranked and returned exactly once, both provided sorting methods agree, and the result does not depend on input order or duplicate fitnesses.",
  [I, C], 'all populations, numbers of objectives, direction masks, ties and duplicates', 'Tests sort a few fixed populations.',
  ['multiobjective/ops.py'], [('fast_nondominated_sort, rank_ordinal_sort', 'multiobjective/ops.py')],
  'Hypothesis; naive peeling oracle and differential between sorts', 'Differential against O(n^3) peeling.')

P('P31', 'Crowding distance equals its definition within every front',
  "Within each front the crowding distance of an individual is infinite if it is extreme in some objective and otherwise the sum over objectives of the gap between its two neighbours divided by the front's range in that objective (constant objectives contribute nothing); it is never negative and is independent of direction and of the other fronts. The whole population is returned, each individual exactly once, whatever ties or identical fitnesses it contains.",
  [I, C], 'all ranked populations, objectives and direction masks', 'Tests use one fixed population.',
  ['multiobjective/ops.py'], [('crowding_distance_calc, per_rank_crowding_calc', 'multiobjective/ops.py')],
  'Hypothesis; direct definition oracle', 'Exact when objective values in a front are distinct; validity predicate with ties.')

P('P32', 'NSGA-II keeps the best-ranked, least crowded individuals',
  "NSGA-II survival keeps exactly the population size, taking whole fronts of the combined parents and offspring in rank order and breaking the last front by larger crowding distance, so a non-dominated vector is only lost when the first front alone exceeds the population; survivors keep the fitness of their genome. A complete run initialises and evaluates exactly the population size, runs exactly the generation budget or until the stop condition holds, and rejects single-objective problems. The multi-objective benchmarks are minimised, return their published objective values and reject phenomes outside their documented bounds when checking is on.",
  [H, I, C], 'all combined populations, sizes, seeds, both sorting methods and all provided multi-objective problems', 'Tests run one configuration.',
  ['multiobjective/nsga2.py', 'multiobjective/ops.py', 'multiobjective/problems.py', 'parsimony.py'], [('generalized_nsga_2, sort_by_dominance', 'multiobjective/nsga2.py'), ('SCH, ZDT problems', 'multiobjective/problems.py')],
  'Hypothesis; recorded run history plus reference formulas', 'History oracle.')

P('P33', 'Incremental non-dominated insertion equals sorting from scratch',
  "After any sequence of insertions into the incremental multi-objective population, every member's rank equals its rank in a from-scratch non-dominated sort of the current members, and crowding distances are those of the current fronts. The population holds everybody inserted until the capacity is reached and exactly the capacity afterwards, and each overflow removes one individual of the worst front with minimal crowding distance there. Nobody is duplicated.",
  [H, I], 'all insertion sequences of fitness vectors, capacities, direction masks', 'Tests insert a few points.',
  ['multiobjective/asynchronous.py'], [('ENLUInserter, enlu_inds_rank', 'multiobjective/asynchronous.py')],
  'Hypothesis insertion histories; from-scratch peeling after each step', 'Model-based.')

P('P34', 'Asynchronous steady-state runs honour the birth budget on any schedule',
  "However workers' completions are ordered and whichever evaluations fail, an asynchronous steady-state run evaluates the initial population and keeps creating offspring from the current population until the births counted reach the budget, where each non-viable individual gives one birth back unless non-viable ones are to be counted. Every submitted individual is evaluated exactly once, shown to the evaluation probe and offered for insertion exactly once in completion order, the population probe follows every insertion, and the run returns with nothing outstanding. The population never exceeds its size limit, individuals are never mixed up with each other's fitness, the births and non-viable counters in the context are exact, and with greedy insertion (the default) the best viable individuals ever evaluated remain. All this also holds for steady-state NSGA-II.",
  [S, F, C], 'all completion orders, failure patterns, budgets, population and initial sizes', 'Tests run a real cluster once.',
  ['distrib/asynchronous.py', 'distrib/evaluate.py'], [('steady_state', 'distrib/asynchronous.py')],
  'Hypothesis-controlled scheduler (fake client) with fault injection', 'The harness owns the completion schedule; assumes the client API used is submit/map/gather/as_completed.')

P('P35', 'Steady-state insertion policies replace only worse or missing members',
  "Inserting into a population below its capacity always grows it by that individual; at capacity the size stays fixed and at most one member is replaced: the greedy policy replaces a worst member exactly when it is non-viable or the newcomer is better, the tournament policy compares with one uniformly chosen member and replaces it on the same condition, and non-viable members yield to any newcomer compared with them. The best viable member is never lost to a worse newcomer.",
  [H, I], 'all insertion histories, fitnesses (incl. NaN), capacities, directions', 'Tests insert once or twice.',
  ['distrib/asynchronous.py'], [('tournament_insert_into_pop, greedy_insert_into_pop, replace_if', 'distrib/asynchronous.py')],
  'Hypothesis insertion histories against a model', 'Model-based.')

P('P36', 'Distributed evaluation assigns each result to the right individual',
  "Synchronous distributed evaluation of a population, or of exactly the requested number of individuals from a stream, returns as many individuals as given, in the same order, each with the fitness of its own genome as serial evaluation would give, with failing individuals marked non-viable with NaN fitness and their exception and added to the count in the context, whatever order evaluated them. The worker-location log has one row per logged individual and the population log one row per member at every update interval, each with that individual's identity, evaluation times and fitness.",
  [S, F, I], 'all populations, failure patterns and completion orders', 'Tests use one small population.',
  ['distrib/synchronous.py', 'distrib/evaluate.py', 'distrib/probe.py'], [('eval_population, eval_pool', 'distrib/synchronous.py'), ('evaluate, is_viable', 'distrib/evaluate.py'), ('log_worker_location, log_pop', 'distrib/probe.py')],
  'Hypothesis-controlled fake client; differential with serial evaluation', 'Differential.')

P('P37', 'Generation and birth counters, callbacks and brands never drift',
  "The generation and birth counters start at the given value, advance by exactly one (or the requested amount) per step, always agree with the shared context, and call every registered callback once per step with the new value. Step lookup returns whichever of generation or births the context holds and rejects contexts with both or neither, and birth branding gives every unbranded individual the next consecutive number exactly once, in order, for lists and streams alike, leaving branded ones alone.",
  [H, C], 'all sequences of counter calls and branding calls', 'Tests step each counter a few times.',
  ['util.py'], [('inc_generation, inc_births, get_step, birth_brander', 'util.py')],
  'Hypothesis call histories against integer model', 'Model-based.')

P('P38', 'Parsimony keys prefer fitness first, then the simpler individual',
  "The lexicographic parsimony key orders individuals by fitness in the problem's direction and breaks exact ties in favour of the shorter genome; the Koza key orders by fitness minus penalty times genome length when maximising and the mirror image when minimising. Selections that use these keys therefore never pick a longer genome over an equally fit shorter one in the same tournament or truncation.",
  [I, C], 'all fitnesses, genome lengths, penalties, both directions', 'Tests compare a few pairs.',
  ['parsimony.py'], [('lexical_parsimony, koza_parsimony', 'parsimony.py')],
  'Hypothesis; reference comparator', 'Differential.')

P('P39', 'Cartesian genetic programs decode to exactly the encoded circuit',
  "Decoding a valid CGP genome gives a program whose outputs for every input equal evaluating the encoded grid node by node: each node applies its primitive to its sources in gene order (only the first `arity` sources when the primitive declares an arity, followed by that node's constant parameters if any), whether or not unused nodes are pruned, and without any state carried between executions. Per-gene bounds admit exactly the valid genomes (earlier layers only, within levels_back), and constraint checking accepts exactly those. Initialisation and CGP mutation only produce valid genomes, can reach every valid value of every gene equally often, and mutation unsets fitness. Genomes, parameter segments or inputs of the wrong length are rejected.",
  [I, C], 'all layouts, primitive sets, genomes and inputs', 'Tests decode two hand-made circuits.',
  ['executable_rep/cgp.py'], [('CGPDecoder, CGPExecutable, CGPWithParametersDecoder, cgp_mutate, cgp_genome_mutate', 'executable_rep/cgp.py')],
  'Hypothesis; independent reference interpreter', 'Differential.')

P('P40', 'Neural networks decoded from genomes compute the reference forward pass',
  "A weight genome of the required length decodes to a layered network whose output for every input equals the reference forward pass (weights row by row per layer, the last row being the bias, the activation applied at every layer), for any layer shape, with zero-size layers ignored; genomes of the wrong length are rejected. Sigmoid, ReLU and softmax equal their formulas without overflow for large inputs. The network's graph view has exactly the right nodes and edges with the decoded weights, and the graph probe draws the best individual's graph only in generations divisible by its modulo, leaving the population unchanged.",
  [I, C], 'all shapes, weights, inputs, activations', 'Tests check one small network.',
  ['executable_rep/neural_network.py'], [('SimpleNeuralNetworkDecoder, SimpleNeuralNetworkExecutable, sigmoid, softmax, relu', 'executable_rep/neural_network.py')],
  'Hypothesis; loop-based reference network', 'Differential.')

P('P41', 'Pitt rule systems fire the rule the genome says',
  "For every genome and input, the decoded rule set's (rounded) action is that of the first rule, in rule order, that matches, where a condition matches when the value lies in its closed interval, or any value when its lower bound exceeds its upper. When no rule matches fully, the action is that of a rule at the smallest squared distance, any of several equally near rules being possible. Bounds and initialisation have one segment per rule with a (low, high) gene pair per input within that input's bounds and an action gene in range; the decoder's mutator applies the condition mutator to exactly the condition genes and the action mutator to exactly the action genes, keeps the genome's type and unsets fitness. The rule-plot probe draws the best individual's rules, in the dimensions asked for, at multiples of its modulo.",
  [I, C], 'all rule sets, inputs and input/output spaces', 'Tests use two or three rule sets.',
  ['executable_rep/rules.py'], [('PittRulesDecoder, PittRulesExecutable, PlotPittRuleProbe', 'executable_rep/rules.py')],
  'Hypothesis; reference matcher', 'Differential.')

P('P42', 'Executable-based problems score exactly the executable behaviour',
  "The truth-table problem scores the fraction of all input combinations on which the executable's outputs equal the target's, optionally padding its inputs with zeros. The image problem scores the Euclidean distance between the target image and the image the executable generates over (x, y). The environment problem's fitness is the mean over exactly the requested number of runs of the summed rewards, or of the number of observations, each run feeding the executable's actions to the environment and ending at the step limit or (unless told otherwise) as soon as the environment terminates or truncates. Argmax, wrapper, keyboard and random executables transform outputs as documented, and space dimensions are counted correctly.",
  [I, C], 'all truth tables, executables, environments (reward/termination scripts), step and run limits', 'Tests use one environment and one table.',
  ['executable_rep/problems.py', 'executable_rep/executable.py'], [('TruthTableProblem, ImageXYProblem, EnvironmentProblem', 'executable_rep/problems.py'), ('ArgmaxExecutable, WrapperDecoder', 'executable_rep/executable.py')],
  'Hypothesis; scripted fake environments and brute-force scoring', 'Differential.')

P('P43', 'Performance-curve analysis equals its definitions',
  "For every set of recorded fitness curves, the area under a curve (each time step weighted by its width), the maximum, the mean and standard deviation curves per experiment, the scalar measure per run and its mean and standard deviation per experiment, and the concatenation of run files equal their definitions computed directly from the raw records, do not depend on row order, and do not modify their inputs; the analyze command writes those same numbers, and the curve plots draw exactly those curves.",
  [I, C], 'all recorded curves and groupings', 'Tests use one small table.',
  ['contrib/analysis.py'], [('CurveAnalyzer and helpers', 'contrib/analysis.py')],
  'Hypothesis; direct definitions', 'Differential.')

P('P44', 'Seeding and knowledge transfer place exactly the given genomes',
  "A seeded initialiser returns exactly the given genomes, in order and once each, and then only freshly generated ones. Training a population-seeding repertoire runs the algorithm once per problem with the plain initialiser and that problem's arguments, and appends the last individual's genome of each run in order; applying it, any number of times, runs the algorithm with an initialiser seeded with the whole repertoire. Genomes exported to a file and re-imported survive the round trip unchanged.",
  [I, C], 'all seed lists and repertoires', 'Tests use one list.',
  ['contrib/transfer/sequential.py'], [('initialize_seeded, PopulationSeedingRepertoire', 'contrib/transfer/sequential.py')],
  'Hypothesis; sequence oracle and round trip', 'Model-based.')

P('P45', 'Landscape convexity features match their definitions',
  "The exploratory convexity analysis performs exactly the requested number of tests, each comparing the value at a random (uniformly weighted) convex combination of two distinct design individuals (decoded by the representation's decoder) with the same combination of their fitnesses. Its features are exactly the documented frequencies (below a threshold; within a threshold) and averages of those differences, also in the results table; so a linear function is reported linear with zero deviation, and a quadratic's differences equal their closed form, for every dimension and sample. The design is not modified.",
  [I, C], 'all sample designs, linear/convex/concave functions', 'Tests use one function.',
  ['landscape_features/exploratory.py'], [('ELAConvexity', 'landscape_features/exploratory.py')],
  'Hypothesis; recomputation oracle and analytic families', 'Differential.')

P('P46', 'Omitted optional arguments mean their documented defaults',
  "For the provided operators, algorithms, problems, decoders, individuals, probes and analysis tools, leaving out any subset of the optional arguments behaves exactly like passing the documented default values explicitly, on the same inputs and from the same random state: the same results, directions, probabilities, counts, limits, thresholds, contexts, file headers and printed output.",
  [I, C], 'all subsets of omitted optional arguments, with generated values for the rest', 'Tests rely on some defaults but never compare them with what the documentation says, and not in combination.',
  ['ops.py', 'algorithm.py', 'probe.py', 'util.py', 'simple.py', 'real_rep/problems.py', 'binary_rep/problems.py', 'executable_rep/cgp.py'],
  [('keyword defaults of operators', 'ops.py'), ('keyword defaults of algorithms', 'algorithm.py'), ('keyword defaults of probes', 'probe.py'), ('problem constructors', 'real_rep/problems.py')],
  'Hypothesis; differential between omitted and spelled-out arguments', 'Differential over argument subsets.')

P('P47', 'A seeded run depends on its seed and arguments alone',
  "Running any provided algorithm, operator pipeline, initialiser or landscape analysis twice after seeding Python's and numpy's generators with the same values gives identical genomes, fitnesses and orders, regardless of what other runs happened in between in the same process, of earlier values left in the context the run itself sets, and of object identities; with different seeds the real-valued searches give different results.",
  [I, H, C], 'all seeds, algorithms, operator combinations and interleaved earlier runs', 'Tests seed a few runs but never repeat them after other work in the same process.',
  ['algorithm.py', 'ops.py', 'simple.py', 'multiobjective/nsga2.py', 'distrib/asynchronous.py', 'segmented_rep/ops.py', 'int_rep/ops.py', 'real_rep/ops.py'],
  [('generational_ea, random_search, multi_population_ea', 'algorithm.py'), ('selection and crossover operators', 'ops.py'), ('generalized_nsga_2', 'multiobjective/nsga2.py')],
  'Hypothesis; metamorphic repeat-run relation', 'Metamorphic: run, unrelated run, run again.')

P('P48', 'Individuals and their problems survive transport to a worker intact',
  "Every provided kind of individual, with the provided problems and decoders, survives the serialisation used to ship it to a distributed worker: the copy has the same genome, attributes, identifiers and parents, decodes to the same phenome, evaluates to the same fitness in the same direction, compares with its siblings as the originals do, and can be cloned and evaluated again; the original is not changed, and individuals sent together still share one problem.",
  [I, C, F], 'all individual classes, problems, decoders and genomes', 'Tests ship one or two kinds of individual.',
  ['individual.py', 'problem.py', 'decoder.py', 'distrib/individual.py', 'executable_rep/cgp.py', 'executable_rep/rules.py'],
  [('Individual state', 'individual.py'), ('problem objects', 'problem.py'), ('DistributedIndividual', 'distrib/individual.py')],
  'Hypothesis; round trip through the serialiser used by dask', 'Round trip.')

P('P49', 'Malformed requests are refused and well-formed ones accepted',
  "Operators, problems, decoders, initialisers, algorithms, probes and analyses refuse the requests their documentation or argument checks rule out (probabilities outside [0, 1], both or neither mutation rate, negative deviations, wrong population, genome, topology or segment counts, non-array genomes where arrays are needed, unevaluated or mismatched designs, missing attributes or columns, and the like) with an exception instead of an answer, leaving the genomes and lineage of the individuals given unchanged, and accept the neighbouring well-formed requests, boundary values included.",
  [I, C], 'all generated requests on both sides of each rule', 'Tests probe one bad value of a few rules and no boundary.',
  ['ops.py', 'binary_rep/ops.py', 'int_rep/ops.py', 'real_rep/ops.py', 'segmented_rep/ops.py', 'executable_rep/cgp.py', 'executable_rep/rules.py', 'contrib/analysis.py'],
  [('argument checks of operators', 'ops.py'), ('compute_expected_probability', 'ops.py'), ('argument checks of problems', 'real_rep/problems.py'), ('required columns', 'contrib/analysis.py')],
  'Hypothesis; refuse/accept verdict computed with each generated request', 'Oracle is the documented rule.')

P('P50', 'Landscape plots show the function they were asked to plot',
  "The two-dimensional landscape plots draw exactly the values of the given problem or function over the grid that starts at the lower limits and advances by the requested granularity (by default the problem's own, or one computed from the limits), padded with the given constants for higher-dimensional problems, on the given axes or on new ones of the right kind, for surface and contour plots alike, without changing the problem.",
  [I, C], 'all limits, granularities, paddings, kinds and functions', 'Tests only draw the pictures.',
  ['real_rep/problems.py'], [('plot_2d_problem, plot_2d_function, plot_2d_contour', 'real_rep/problems.py')],
  'Hypothesis; recorded drawing calls against direct evaluation', 'Differential.')

P('P51', 'Statistical helpers give textbook p-values and verdicts',
  "The chi-square helper's p-value equals the textbook statistic's for every expected and observed distribution over any keys in any order, an unobserved key counting as zero, and unequal totals (beyond rounding) are refused. The equality and uniformity helpers answer no exactly when that p-value is below the threshold; the Gaussian helper answers by the two-sided equal-variance t-test against the reference mean, deviation and sample size. Collecting a distribution counts each output of exactly the requested number of calls.",
  [I], 'all discrete distributions, thresholds and samples', 'Tests use three dictionaries.',
  ['statistical_helpers.py'], [('stochastic_chisquare, stochastic_equals, equals_uniform, equals_gaussian, collect_distribution', 'statistical_helpers.py')],
  'Hypothesis; independently computed statistic and tail probability', 'Differential.')
