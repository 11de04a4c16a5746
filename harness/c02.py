"""C02/C03 breeding"""
from .common import *
from .trees import rand_tree, TYPED, UNTYPED
from eckity.breeders import SimpleBreeder
from eckity.genetic_operators import (GeneticOperator, TournamentSelection, FitnessProportionateSelection, VectorKPointsCrossover, IntVectorNPointMutation,
                                      IntVectorOnePointMutation, SubtreeCrossover, SubtreeMutation, ERCMutation, IdentityTransformation)
from eckity.genetic_encodings.ga import IntVector
from eckity.creators.creator import Creator
from eckity.evaluators import SimpleIndividualEvaluator

DOC = 'breeding steps with user-defined and built-in operators of several arities; object identity and snapshots of the old generation'


class Cr(Creator):
    def create_individuals(self, n, hib):
        return mk([0.0] * n, hib)


class Ev(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        return 1.0


class Spoil(GeneticOperator):
    """marks every genome it touches; style: how the result is handed back"""

    def __init__(self, arity, style, probability=1.0):
        super().__init__(probability=probability, arity=arity)
        self.style = style
        self.groups = []

    def apply(self, individuals):
        self.groups.append(len(individuals))
        for i in individuals:
            i.genome.append('spoiled')
            i.genome[0] = 'spoiled'
        if self.style == 'same':
            return individuals
        if self.style == 'list':
            return list(individuals)
        if self.style == 'clones':
            return [i.clone() for i in individuals]
        if self.style == 'reversed':
            return individuals[::-1]
        return tuple(individuals)


def population(inds, hib, ops, sel, rate, size=None):
    sp = Subpopulation(Ev(), creators=Cr(), operators_sequence=ops, selection_methods=[(sel, 1)], elitism_rate=rate,
                       population_size=size or len(inds), individuals=inds, higher_is_better=hib)
    return sp


def old_new(sp_list, via, gens=1):
    br = SimpleBreeder()
    pop = Population(sp_list)
    for g in range(gens):
        olds, lists, snaps, nodes = [], [], [], []
        for sp in sp_list:
            olds.append(list(sp.individuals))
            lists.append(sp.individuals)
            snaps.append([snap(i) for i in sp.individuals])
        if via == 'breed':
            br.breed(pop)
        elif via == 'act':
            br.act(pop)
        else:
            br.apply_breed(pop)
        for sp, old, l, sn in zip(sp_list, olds, lists, snaps):
            new = sp.individuals
            need(len(new) == len(old), 'generation of %d bred into %d individuals', len(old), len(new))
            need(len({id(i) for i in new}) == len(new), 'the same object twice in the new generation')
            need(not {id(i) for i in new} & {id(i) for i in old}, 'an object of the old generation is in the new one')
            need([id(i) for i in old] == [id(i) for i in (l if l is not new else old)], 'old generation list')
            for i, s in zip(old, sn):
                need(snap(i) == s, 'breeding modified an individual of the old generation: %r -> %r', s, snap(i))
            ids = [i.id for i in new]
            need(len(set(ids)) == len(ids) and not set(ids) & {i.id for i in old}, 'ids repeated')
            for i in new:
                if not i.fitness.is_fitness_evaluated() and g + 1 < gens:
                    i.fitness.set_fitness(random.random())


def breed(n, arities, style, hib, rate, sel, t, kind, via, nsub, prob, gens, s):
    rng = random.Random(s)
    sps = []
    if sel == 'fp':
        kind, hib = 'simple', True
    for _ in range(nsub):
        inds = mk([float(rng.randint(0, n)) for _ in range(n)], hib, kind, sizes=[rng.randint(1, 6) for _ in range(n)], parents=rng.random() < .5, cache=rng.random() < .5)
        sel_m = TournamentSelection(t, higher_is_better=hib, replace=t > n or rng.random() < .6) if sel == 'tour' else FitnessProportionateSelection(higher_is_better=True)
        sps.append(population(inds, hib if sel == 'tour' else True, [Spoil(a, style, prob) for a in arities], sel_m, rate))
    old_new(sps, via, gens)


def real(enc, n, hib, rate, gens, s):
    rng = random.Random(s)
    if enc == 'int':
        inds = [IntVector(SimpleFitness(rng.random(), higher_is_better=hib, cache=rng.random() < .5), length=5, bounds=(0, 9), vector=[rng.randint(0, 9) for _ in range(5)],
                          update_parents=True) for _ in range(n)]
        ops = [VectorKPointsCrossover(k=rng.choice([1, 2, 3])), IntVectorNPointMutation(n=2), IntVectorOnePointMutation(probability=1, probability_for_each=.5), IdentityTransformation()]
    else:
        conf = UNTYPED if enc == 'tree' else TYPED
        inds = [rand_tree(rng, conf, 3, GPFitness(rng.random(), higher_is_better=hib, cache=rng.random() < .5), update_parents=True) for _ in range(n)]
        ops = [SubtreeCrossover(), SubtreeMutation(init_depth=(1, 3)), ERCMutation()]
        if enc == 'typed':
            ops = [SubtreeCrossover(attempts=2), SubtreeMutation(init_depth=(1, 3))]
    old_new([population(inds, hib, ops, TournamentSelection(2, higher_is_better=hib), rate)], 'breed', gens)


def rejected(n, arities, hib, rate, s):
    inds = mk([float(i) for i in range(n)], hib)
    ops = [Spoil(a, 'same') for a in arities]
    sp = population(inds, hib, ops, TournamentSelection(2, higher_is_better=hib), rate)
    l, old, sn = sp.individuals, list(sp.individuals), [snap(i) for i in inds]
    e = raises(lambda: SimpleBreeder().apply_breed(Population([sp])))
    need(e, 'arity that does not divide the population size accepted')
    need(sp.individuals is l and len(l) == n and all(a is b for a, b in zip(l, old)), 'population changed before the rejection')
    need([snap(i) for i in inds] == sn and not any(o.groups for o in ops), 'something was done before the rejection')


def run(h):
    r = h.rng
    combos = [(6, [1]), (6, [2]), (6, [2, 1]), (6, [3, 2]), (12, [4, 2, 1]), (12, [3, 4]), (1, [1]), (2, [2]), (4, [4]), (10, [5, 1, 2]), (8, []), (5, [5]), (30, [2, 1])]
    for n in h.ints([], 2, 40):
        combos.append((n - n % 2 or 2, [2, 1]))
    for n, ar in combos:
        for style in ('same', 'list', 'clones', 'reversed', 'tuple'):
            for hib in (True, False):
                h.run(breed, n=n, arities=ar, style=style, hib=hib, rate=r.choice([0.0, 0.1, 0.3, 0.5, 1.0]), sel=r.choice(['tour', 'tour', 'fp']), t=r.choice([1, 2, 3]),
                      kind=r.choice(['simple', 'gp']), via=r.choice(['breed', 'act', 'apply']), nsub=r.choice([1, 1, 2]), prob=r.choice([1.0, 1.0, 0.5, 0.0]), gens=r.choice([1, 3]))
    for enc in ('int', 'tree', 'typed'):
        for n in (2, 6, 10):
            for hib in (True, False):
                for _ in range(h.scale(3)):
                    h.run(real, enc=enc, n=n, hib=hib, rate=r.choice([0.0, 0.2, 0.5]), gens=4)
    for n, ar in ((5, [2]), (7, [1, 2]), (6, [4]), (6, [2, 4]), (9, [3, 2]), (3, [2, 1]), (10, [3]), (10, [1, 1, 4]), (4, [3]), (2, [3])):
        for rate in (0.0, 0.5):
            h.run(rejected, n=n, arities=ar, hib=True, rate=rate)
