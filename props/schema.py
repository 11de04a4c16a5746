"""Types of the attributes of the repository's classes (data-structure declarations the verifier needs).

These are the representation types documented in the class docstrings; a tree that stores something else makes the
engine report 'unsupported', never a violation.
"""
import z3
from pycv.engine import Contract
from pycv.vals import *

IND = TObj('Individual')
FIT = TObj('SimpleFitness')


def setup(e):
    f = e.ftypes

    def d(c, **kw):
        if c in e.repo.classes:
            for k, v in kw.items():
                f[(c, k)] = v
    d('Fitness', _is_evaluated=TBool, is_relative_fitness=TBool, cache=TBool, higher_is_better=TBool)
    d('SimpleFitness', fitness=TOpt(TReal))
    d('GPFitness', bloat_weight=TReal)
    d('Individual', id=TInt, gen=TInt, fitness=FIT, cloned_from=TInt, selected_by=TList(TStr), applied_operators=TList(TStr),
      update_parents=TBool, parents=TList(TInt))
    d('NSGA2Fitness', fitness=TList(TReal, null=True), higher_is_better=TUnion([TBool, TList(TBool)]), crowding=TX, front_rank=TX)
    d('Subpopulation', creators=TList(TObj('Creator')), _pcr=TList(TReal), _operators_sequence=TList(TObj('GeneticOperator')), population_size=TInt,
      _selection_methods=TList(TTup([TObj('SelectionMethod'), TReal])), higher_is_better=TBool, evaluator=TObj('IndividualEvaluator'), n_elite=TInt,
      individuals=TList(IND, null=True))
    d('Population', sub_populations=TList(TObj('Subpopulation', exact=True)))
    d('ThresholdFromTargetTerminationChecker', optimal=TReal, threshold=TReal, higher_is_better=TBool)
    d('BestFitnessStagnationTerminationChecker', stagnation_generations_to_terminate=TInt, best_fitnesses=TList(TReal, null=True), stagnation_generations=TInt)
    d('BeforeAfterPublisher', events=TDict(TStr, TDict(TInt, TFn)), customers_id=TInt)
    d('Operator', arity=TInt, applied_individuals=TList(IND, null=True))
    d('GeneticOperator', probability=TReal)
    d('FailableOperator', attempts=TInt)
    d('CrowdingTerminationChecker', threshold=TReal)
    POP = TObj('Population', exact=True)
    d('Algorithm', population=POP, statistics=TList(TObj('Statistics')), breeder=TObj('Breeder'), population_evaluator=TObj('PopulationEvaluator'),
      termination_checker=TUnion([TObj('TerminationChecker', null=True), TList(TObj('TerminationChecker'))]), max_generation=TInt, random_generator=TObj('RNG', exact=True),
      random_seed=TInt, generation_seed=TInt, best_of_run_=TObj('Individual', null=True), best_of_gen=TObj('Individual', null=True),
      worst_of_gen=TObj('Individual', null=True), generation_num=TInt, max_workers=TOpt(TInt), executor=TAny, _executor_type=TStr, final_generation_=TOpt(TInt))
    d('RNG', _seed=TOpt(TInt))
    d('PopulationEvaluator', executor=TAny, applied_individuals=POP)
    d('SimplePopulationEvaluator', executor_method=TStr)
    d('NSGA2Evolution', NSGA2FrontSorting=TObj('NSGA2FrontSorting'), best_of_gen=TAny)
    d('SelectionMethod', higher_is_better=TBool, selected_individuals=TList(IND, null=True))
    d('ElitismSelection', num_elites=TInt)
    d('TournamentSelection', tournament_size=TInt, replace=TBool)
    d('SimpleBreeder', selected_individuals=TList(IND), best_of_run=TList(IND))
    d('VectorKPointsCrossover', k=TInt, individuals=TList(TObj('Vector'), null=True), applied_individuals=TList(TObj('Vector'), null=True))
    d('Vector', vector=TList(TAny), length=TInt)
