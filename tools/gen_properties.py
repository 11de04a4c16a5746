"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
E = 'eckity/'
p('C01', 'Best-of-run is never worse than anything the run evaluated',
  "During and after a single-objective evolutionary run, the reported best individual of the run was itself evaluated by the run, and no individual evaluated in any generation so far is strictly better than it in the declared direction (bloat penalty included). It is replaced only by a strictly better individual, and the score and genome it reports are the ones it was evaluated with.",
  ['histories', 'inputs', 'configurations'], 'every population, evaluator, optimisation direction, operator pipeline and number of generations',
  'Tests run a few seeds for a few generations and never compare the result with every individual evaluated on the way.',
  [E+'algorithms/algorithm.py', E+'algorithms/simple_evolution.py', E+'evaluators/simple_population_evaluator.py', E+'individual.py'],
  [('initial best', 'Algorithm.initialize'), ('best-of-generation against best-of-run', 'SimpleEvolution.generation_iteration'), ('best of population', 'SimplePopulationEvaluator._evaluate')])
p('C02', 'Breeding keeps the population size and never touches the old generation',
  "Every breeding step of the standard breeder yields exactly as many individuals as the current generation (when each operator returns as many individuals as it is given and every operator's arity divides the population size); they are pairwise distinct objects, none of them an object of the current generation. The genomes, scores, ids and histories of the current generation's individuals are not modified. An operator whose arity does not divide the population size is rejected with an error before anything changes.",
  ['inputs', 'configurations', 'histories'], 'every population size, operator sequence and arity, selection method, elitism rate and random draw',
  'Tests breed a couple of fixed populations; sharing of an object between generations only shows up under particular draws and operators.',
  [E+'breeders/simple_breeder.py', E+'breeders/breeder.py', E+'genetic_operators/selections/tournament_selection.py', E+'individual.py'],
  [('selection clones, operators act in place on the clones', 'SimpleBreeder.apply_breed'), ('group-wise application', 'SimpleBreeder._apply_operators'), ('arity check', 'SimpleBreeder.apply_breed')])
p('C03', 'Elites reach the next generation unchanged',
  "With an elitism rate that amounts to n individuals, the next generation contains copies of the n best individuals of the current generation (in the declared direction, bloat penalty included), with genomes unaltered by any genetic operator. No individual outside that set is strictly better than one inside it, and the number of elites is the elitism rate times the population size, rounded.",
  ['inputs', 'configurations'], 'every population, direction, elitism rate, operator sequence and random draw',
  'No test looks at elites after operators have run; whether an operator alters an elite depends on the random draw.',
  [E+'breeders/simple_breeder.py', E+'genetic_operators/selections/elitism_selection.py', E+'subpopulation.py'],
  [('elite count', 'Subpopulation.__init__'), ('elite choice', 'ElitismSelection.select'), ('elites put back after operators', 'SimpleBreeder.apply_breed')])
p('C04', 'Selection fills the destination with independent copies of legal winners',
  "Tournament, fitness-proportionate and elitism selection leave the source individuals and the individuals already in the destination unmodified and in place, and append independent copies of source individuals: exactly enough to bring the destination to the source's size (elitism: its fixed number of elites). Every tournament winner is a member of a group of the configured size drawn from the source of which no member is strictly better, and elitism picks a set nobody outside of which is strictly better. Each copy records which individual it was cloned from and which selection method chose it.",
  ['inputs', 'configurations'], 'every source population and fitness assignment, destination contents, tournament size, replacement mode and random draw',
  'Tests check lengths and one or two fixed draws with constant fitness.',
  [E+'genetic_operators/selections/tournament_selection.py', E+'genetic_operators/selections/elitism_selection.py', E+'genetic_operators/selections/fp_selection.py', E+'individual.py'],
  [('tournaments', 'TournamentSelection.select, _pick_tournament_winner'), ('sorting', 'ElitismSelection.select'), ('weighted draw', 'FitnessProportionateSelection.select')])
p('C05', 'Scalar fitness comparison is a strict order in the declared direction',
  "For evaluated individuals with scalar fitness, 'better than' holds exactly when the first one's score (with the size penalty of a bloat-weighted fitness applied against it) is strictly higher when higher is better, and strictly lower otherwise; hence it is irreflexive, asymmetric and transitive, and 'equal' holds exactly when neither is better. Any individual is better than no individual at all. Asking for the score of, or comparing, an unevaluated fitness raises an error instead of returning a stale value, and a fitness with no declared direction is refused.",
  ['inputs', 'configurations'], 'all scores, directions, sizes, bloat weights and evaluation states',
  'Order axioms quantify over all triples of scores; tests sample a few pairs.',
  [E+'fitness/fitness.py', E+'fitness/simple_fitness.py', E+'fitness/gp_fitness.py', E+'individual.py'],
  [('comparison', 'SimpleFitness.better_than, equal_to'), ('penalty', 'GPFitness.get_augmented_fitness'), ('evaluation state', 'SimpleFitness.set_fitness, set_not_evaluated, get_pure_fitness')])
p('C06', 'Population evaluation scores every individual and returns an unbeaten one',
  "Evaluating a population gives every individual exactly the score its evaluator computes for that individual (and marks it evaluated), whichever way the work is handed to the executor, and changes nothing else about the individuals or the population's order. The individual returned belongs to the population and no member is strictly better than it. A population that does not consist of one sub-population, or an unknown executor mode, is rejected with an error.",
  ['inputs', 'configurations', 'schedules'], 'every population, evaluator, executor mode and direction',
  'Tests use constant evaluators and one executor mode; a misaligned score needs an asymmetric population.',
  [E+'evaluators/simple_population_evaluator.py', E+'evaluators/simple_individual_evaluator.py', E+'evaluators/population_evaluator.py'],
  [('map/submit and zip of results', 'SimplePopulationEvaluator._evaluate'), ('single evaluation', 'SimpleIndividualEvaluator.evaluate')])
p('C07', 'Applying a genetic operator invalidates fitness and records history',
  "When a genetic operator is applied to a group of individuals, every individual of the group has its fitness invalidated, every resulting individual gets exactly one new entry naming the operator, and, where parent tracking is on, the ids of the whole group are appended to its parents. When it is not applied, the very same individuals come back untouched; probability 1 always applies and probability 0 never does. A failable operator stops at its first successful attempt, makes at most its configured number of attempts (at least one), and otherwise runs its failure handler exactly once and returns that handler's result.",
  ['inputs', 'configurations', 'histories'], 'every group, operator, probability, random draw and success/failure history',
  'Tests use one individual and fixed success patterns.',
  [E+'genetic_operators/genetic_operator.py', E+'genetic_operators/failable_operator.py'],
  [('application template', 'GeneticOperator.apply_operator'), ('retry loop', 'FailableOperator.apply')])
p('C08', 'Vector individuals keep their length and stay within bounds',
  "Vector creators produce exactly the requested number of distinct vectors of the requested length with every cell within its bounds (common bounds or per-cell bounds), an unevaluated fitness of the requested direction and no shared cells. Every built-in vector mutation applied to in-bounds vectors leaves their length unchanged and every cell within bounds, changes at most the configured number of cells, and a failed attempt leaves the vector as it was. Flipping a bit always yields the other of the two values.",
  ['inputs', 'configurations'], 'all lengths, bounds (shared or per cell), mutation parameters and random draws',
  'Tests check a few draws; out-of-bounds cells appear for particular bounds shapes, draws or attempt counts.',
  [E+'creators/ga_creators/simple_vector_creator.py', E+'genetic_encodings/ga/vector_individual.py', E+'genetic_encodings/ga/int_vector.py', E+'genetic_encodings/ga/float_vector.py', E+'genetic_encodings/ga/bit_string_vector.py', E+'genetic_operators/mutations/vector_n_point_mutation.py', E+'genetic_operators/mutations/vector_random_mutation.py'],
  [('creation', 'GAVectorCreator.create_individuals'), ('bounds check and restore', 'VectorNPointMutation.attempt_operator'), ('samplers', 'get_random_number_in_bounds, bit_flip')])
p('C09', 'k-point crossover exchanges alternate segments in place',
  "k-point crossover of two equally long vectors picks k distinct cut points, which split the positions into k+1 contiguous segments, and exchanges the two vectors' cells in every other segment, starting with the first; all other cells stay as they were. So at each position the two offspring hold exactly the two parental values, lengths are unchanged, and the two individuals keep their identity.",
  ['inputs', 'configurations'], 'all vector pairs, lengths, k and random cut points',
  'Tests cover k=1 and k=2 on length 4 with fixed seeds.',
  [E+'genetic_operators/crossovers/vector_k_point_crossover.py', E+'genetic_encodings/ga/vector_individual.py'],
  [('cut point sampling', 'VectorKPointsCrossover.apply'), ('segment swap', 'VectorKPointsCrossover._swap_vector_parts')])
p('C10', 'GP operators keep program trees well formed and well typed',
  "Subtree crossover, subtree mutation and constant mutation turn well-formed program trees into well-formed program trees: a prefix sequence in which every function node is followed by exactly as many complete argument subtrees as its arity and nothing is left over. In the typed case every argument subtree has the type its position requires and the root keeps the declared type; every function comes from the tree's function set and every terminal is a declared terminal or a random constant.",
  ['inputs', 'configurations', 'histories'], 'all function sets, terminal sets, type assignments, trees and random draws',
  'Tests apply one crossover to two fixed trees; a splice off by one shows up only for particular shapes.',
  [E+'genetic_encodings/gp/tree/tree_individual.py', E+'genetic_operators/crossovers/subtree_crossover.py', E+'genetic_operators/mutations/subtree_mutation.py', E+'genetic_operators/mutations/erc_mutation.py'],
  [('subtree extent', 'Tree._find_subtree_end, _get_subtree_by_root'), ('splice', 'Tree.replace_subtree'), ('type-compatible choice', 'Tree.random_subtree, SubtreeCrossover._pick_subtrees')])
p('C11', 'Tree creators respect depth limits, types and requested counts',
  "The full, grow and ramped half-and-half creators return exactly the requested number of distinct, well-formed, well-typed trees of the declared root type with an unevaluated fitness carrying the requested direction and bloat weight. A full tree has every leaf at exactly the maximal depth; a grown tree has every leaf between the minimal and the maximal depth; half-and-half splits the trees evenly over the depths and the two methods, remaining ones being full trees of maximal depth. If no suitable node exists, or the population is too small to split, an error is raised instead of returning a malformed tree.",
  ['inputs', 'configurations'], 'all function and terminal sets, depth ranges, counts, prune probabilities and random draws',
  'Tests build a few dozen trees from one function set.',
  [E+'creators/gp_creators/tree_creator.py', E+'creators/gp_creators/full.py', E+'creators/gp_creators/grow.py', E+'creators/gp_creators/half.py', E+'genetic_encodings/gp/tree/tree_individual.py'],
  [('recursive construction', 'FullCreator.create_tree, GrowCreator.create_tree, GPTreeCreator._add_children'), ('splitting', 'HalfCreator.create_individuals')])
p('C12', 'Executing a tree computes its expression',
  "Executing a well-formed tree yields the value of the expression it denotes: a function node applies its function to the values of its argument subtrees in order, a terminal naming a supplied variable yields that variable's value, any other terminal yields itself; size and depth are those of that expression. With array input, column i is bound to variable xi, and a constant program yields that constant for every row. A supplied variable outside the terminal set, a missing variable, or an empty tree raises an error.",
  ['inputs', 'programs'], 'all well-formed trees over all function and terminal sets, and all argument values',
  'Tests execute a handful of fixed trees.',
  [E+'genetic_encodings/gp/tree/tree_individual.py', E+'genetic_encodings/gp/tree/utils.py'],
  [('recursive evaluation', 'Tree._execute'), ('argument validation', 'Tree.execute'), ('column binding', 'generate_args'), ('depth', 'Tree._depth')])
p('C13', 'NSGA-II keeps the least dominated individuals front by front',
  "Multi-objective survivor selection returns the requested number of individuals, all members of the given population without repetition: complete non-dominated fronts in rank order (rank 1 being the individuals nobody dominates, rank r+1 those dominated only by lower ranks), and of the last, partly fitting front those with the largest crowding distance. Each survivor carries its front's rank and its crowding distance, which is infinite for a front's extremes in an objective and otherwise the sum over the objectives of its neighbours' distance normalised by the objective's range in that front. Scores and genomes are not altered.",
  ['inputs', 'configurations'], 'all populations, numbers of objectives, directions and target sizes',
  'Tests sort one small population.',
  [E+'multi_objective_evolution/nsga2_front_sorting.py', E+'multi_objective_evolution/nsga2_fitness.py'],
  [('domination counters', 'NSGA2FrontSorting._init_domination_dict, _remove_pareto_front'), ('crowding', '_calc_fronts_crowding'), ('front-wise filling', '_select')])
p('C14', 'Pareto dominance is a strict partial order in the declared directions',
  "One evaluated multi-objective fitness dominates another exactly when it is at least as good in every objective and strictly better in at least one, each objective read in its own declared direction; so dominance is irreflexive, asymmetric and transitive. The crowded comparison of ranked fitnesses prefers the lower front rank and, within a rank, the larger crowding distance. Comparing an unevaluated fitness, or score lists of different length, raises an error, and re-setting an evaluated score is refused.",
  ['inputs', 'configurations'], 'all objective vectors of any length, direction assignments, ranks and crowding values',
  'Order axioms quantify over all triples of vectors of any length.',
  [E+'multi_objective_evolution/nsga2_fitness.py'],
  [('dominance', 'NSGA2Fitness.dominate'), ('crowded comparison', 'NSGA2Fitness.better_than')])
p('C15', 'The evolution loop runs the promised generations, phases and events',
  "A run creates and evaluates the initial population once and then performs generations 1, 2, ... in order, each consisting of exactly one breeding step followed by exactly one evaluation of the bred population, until the first generation after which a termination condition (any one of several) holds or the generation limit is reached; with a condition already true initially no generation is run. 'init' is published once before the first generation, 'after_generation' exactly once per generation run (and once if none was needed), after that generation's evaluation, and 'evolution_finished' exactly once at the end; the executor is then shut down. The current generation number is stamped on the individuals entering each generation, and the recorded final generation is the number of the last generation run.",
  ['histories', 'configurations'], 'every generation limit, termination condition (single or list) and history of condition outcomes',
  'Tests run short evolutions and look at the result, not at the order and number of the phases for every history.',
  [E+'algorithms/algorithm.py', E+'algorithms/simple_evolution.py'],
  [('main loop', 'Algorithm.evolve, evolve_main_loop'), ('termination', 'Algorithm.should_terminate'), ('phases', 'SimpleEvolution.generation_iteration')])
p('C16', 'A seeded run is reproducible',
  "A run with an explicit seed seeds both random sources (the standard one and numpy's) with that seed before the initial population is created, and with base seed + g modulo 2**32 before any random choice of generation g, for every g; the base defaults to the run's seed. Hence two runs with the same configuration and seed produce the same best individual and the same populations. Without an explicit seed one within the same range is derived from the clock and recorded.",
  ['histories', 'configurations', 'inputs'], 'all seeds, including those near the modulus, and all numbers of generations',
  'Tests do not compare runs, nor seeds near the wrap-around.',
  [E+'algorithms/algorithm.py', E+'random/rng.py'],
  [('seed schedule', 'Algorithm.initialize, evolve_main_loop, next_seed'), ('seeding both sources', 'RNG.set_seed')])
p('C17', 'Every subscriber is notified exactly once per published event',
  "Publishing an event calls every callback currently registered for that event exactly once, in registration order, with the publisher and the event's data, and no other callback. Registering returns an id distinct from all earlier ones of that publisher; unregistering an id removes exactly that subscription. Acting through an operator publishes 'before' exactly once, then performs its action exactly once, then publishes 'after' exactly once and returns the action's result; a payload of the wrong arity is rejected before anything is published.",
  ['histories', 'inputs'], 'all sequences of register, unregister, publish and act',
  'Tests exercise no register/unregister history.',
  [E+'before_after_publisher.py', E+'event_based_operator.py'],
  [('subscriber table', 'BeforeAfterPublisher.register, unregister, publish'), ('act', 'Operator.act, act_and_publish_before_after')])
p('C18', 'The built-in GP functions compute their documented protected operations',
  "For all real arguments each built-in function set member computes its documented mathematical function: sum, difference, product; quotient, or 0 when the divisor's magnitude is at most 0.001; square root and logarithm of the absolute value (logarithm 0 for magnitudes at most 0.001); absolute value, negation, protected inverse, maximum, minimum, sine, cosine, tangent; the conditional selections with the documented comparison (<= or >) and argument order; and the logical operations. Typed and untyped variants agree, and array arguments are handled element by element.",
  ['inputs'], 'all real arguments, including those on and near the protection thresholds',
  'Tests sample a few arguments and never the threshold itself.',
  [E+'base/untyped_functions.py', E+'base/typed_functions.py'],
  [('untyped functions', 'eckity/base/untyped_functions.py'), ('typed functions', 'eckity/base/typed_functions.py')])
p('C19', 'Individuals have unique ids and clones are independent',
  "Every individual created or cloned gets an id that no earlier individual of the process has. A clone has an equal genome and equal settings, remembers the id of its origin, starts with an empty parents list where parents are tracked, and shares no mutable state with its origin: changing either leaves the other as it was. Cloning leaves the origin unmodified, and the clone's fitness is unevaluated unless fitness caching is on, in which case it keeps score and state.",
  ['inputs', 'histories'], 'all individuals of all encodings and all subsequent modifications',
  'Tests clone one vector and compare ids.',
  [E+'individual.py', E+'fitness/simple_fitness.py'],
  [('id counter', 'Individual.update_id'), ('deep copy', 'Individual.clone'), ('cache policy', 'SimpleFitness.__getstate__')])
p('C20', 'Termination conditions fire exactly when documented',
  "The target-threshold condition holds exactly when the best individual's score differs from the target by at most the threshold. The stagnation condition holds exactly when the sub-populations' best scores have stayed (approximately) the same for the configured number of consecutive generations since they last changed. The crowding condition holds exactly when the largest finite crowding distance of the population is non-zero and below its threshold.",
  ['inputs', 'histories'], 'all scores, targets, thresholds and histories of best scores',
  'Tests do not exercise histories of best scores or boundary values.',
  [E+'termination_checkers/threshold_from_target_termination_checker.py', E+'termination_checkers/best_fitness_stagnation_termination_checker.py', E+'multi_objective_evolution/crowding_termination_checker.py'],
  [('threshold', 'ThresholdFromTargetTerminationChecker.should_terminate'), ('stagnation counter', 'BestFitnessStagnationTerminationChecker.should_terminate'), ('crowding', 'CrowdingTerminationChecker.should_terminate')])
p('C21', 'Population queries report the true best, worst, average and members',
  "For every evaluated population, the reported best (worst) individual of a sub-population is a member that no member beats (that beats no member) in the declared direction, bloat penalty included; the reported average is the arithmetic mean of the members' raw scores; and looking up an individual returns the sub-population containing it or raises an error. Queries modify nothing and keep the order of individuals; per-population queries report one result per sub-population, in order. A sub-population is refused when its creators, creation probabilities or operators are missing or inconsistent, and creating its individuals uses one of its creators with its own size and direction, and never replaces given individuals.",
  ['inputs', 'configurations'], 'all populations, score assignments and directions',
  'Tests look at a few fixed populations.',
  [E+'subpopulation.py', E+'population.py'],
  [('queries', 'Subpopulation.get_best_individual, get_worst_individual, get_average_fitness'), ('lookup', 'Population.find_individual_subpopulation'), ('creation', 'Subpopulation.create_subpopulation_individuals')])
p('C22', 'The scikit-learn adapters train on, and predict for, exactly the given data',
  "Fitting hands the given data to every sub-population's evaluator before the evolution runs, runs the evolution exactly once and returns the estimator itself; predicting before fitting raises an error. Regression predictions are the best individual's output for the given rows, and the regression and classification scores used as fitness are the configured metric of the true against the predicted values of the evaluator's current data. Every sigmoid-classified label lies between 0 and the number of classes minus 1 and never decreases as the program's output grows; other classification methods require a root function of that name.",
  ['inputs', 'configurations'], 'all data sets, programs, class counts and methods',
  'Tests fit one tiny regression.',
  [E+'sklearn_compatible/sklearn_wrapper.py', E+'sklearn_compatible/sk_classifier.py', E+'sklearn_compatible/regression_evaluator.py', E+'sklearn_compatible/classification_evaluator.py'],
  [('fit/predict', 'SklearnWrapper.fit, predict; SKClassifier.predict'), ('labels', 'ClassificationEvaluator._clf_sigmoid'), ('scores', 'RegressionEvaluator.evaluate_individual, ClassificationEvaluator.evaluate_individual')])
p('C23', 'Results do not depend on worker count or thread schedule',
  "With a pure evaluator, a seeded run gives the same result for every executor kind, number of workers and interleaving of the workers.",
  ['schedules', 'configurations'], 'all interleavings of the evaluation workers',
  'Tests see one interleaving per run.',
  [E+'evaluators/simple_population_evaluator.py', E+'algorithms/algorithm.py'],
  [('executor', 'SimplePopulationEvaluator._evaluate, Algorithm.__init__')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
