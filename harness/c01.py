"""C01 best of run (and shared evolution set-up)"""
import zlib
from .common import *
from .c02 import Cr
from .trees import rand_tree, UNTYPED
from eckity.algorithms import SimpleEvolution
from eckity.breeders import SimpleBreeder
from eckity.evaluators import SimpleIndividualEvaluator, SimplePopulationEvaluator
from eckity.creators.creator import Creator
from eckity.creators.ga_creators.int_vector_creator import GAIntVectorCreator
from eckity.creators.gp_creators.half import HalfCreator
from eckity.genetic_operators import (GeneticOperator, TournamentSelection, VectorKPointsCrossover, IntVectorNPointMutation, SubtreeCrossover,
                                      SubtreeMutation, IdentityTransformation)

DOC = 'whole runs with recorded evaluations: scripted and genome-determined scores, both directions, bloat, elitism, ties, caching'


def text(x):
    return str(tuple(getattr(y, '__name__', y) for y in x)) if isinstance(x, tuple) else str(x)


class Scripted(SimpleIndividualEvaluator):
    """records every evaluation; scores from a script per generation, else from the genome"""

    def __init__(self, script=None, levels=None):
        super().__init__()
        self.script, self.levels = script, levels
        self.batch = []

    def evaluate_individual(self, ind):
        if self.script is not None:
            k = min(self.gen, len(self.script) - 1)
            row = self.script[k]
            v = row[len(self.batch) % len(row)]
        else:
            g = genome(ind)
            v = float(sum(zlib.crc32(text(x).encode()) % 1000 for x in g) % (self.levels or 10 ** 6))
        self.batch.append((ind, v))
        return v


class Seq:
    """an executor that runs the work at once, in order"""

    def __init__(self):
        self.down = False

    def submit(self, fn, *a):
        from concurrent.futures import Future
        f = Future()
        f.set_result(fn(*a))
        return f

    def map(self, fn, *its):
        return [fn(*a) for a in zip(*its)]

    def shutdown(self, *a, **k):
        self.down = True


class Twist(GeneticOperator):
    """changes genomes in place"""

    def apply(self, individuals):
        for i in individuals:
            i.genome[0] = random.random()
            i.genome.append(random.random())
        return individuals


class UserCr(Creator):
    def __init__(self, kind, cache):
        super().__init__()
        self.kind, self.cache = kind, cache

    def create_individuals(self, n, hib):
        return mk([None] * n, hib, self.kind, bloat=0.5, sizes=[1 + i % 4 for i in range(n)], cache=self.cache)


def algo(enc, n, hib, rate, gens, ev, kind='simple', cache=False, ops=None, sel=None, mode='map', seed=1, statistics=None, **kw):
    if enc == 'user':
        cr, ops = UserCr(kind, cache), ops if ops is not None else [Twist(probability=0.7, arity=1)]
    elif enc == 'int':
        cr = GAIntVectorCreator(length=6, bounds=(0, 9))
        ops = ops if ops is not None else [VectorKPointsCrossover(probability=.7, k=2), IntVectorNPointMutation(probability=.5, n=1)]
    else:
        from .trees import sub2, neg1, pick3
        cr = HalfCreator(init_depth=(1, 3), function_set=[sub2, neg1, pick3], terminal_set=['x', 'y', 1], bloat_weight=0.5)
        ops = ops if ops is not None else [SubtreeCrossover(probability=.7), SubtreeMutation(probability=.5, init_depth=(1, 2))]
    sp = Subpopulation(ev, creators=cr, operators_sequence=ops, selection_methods=[(sel or TournamentSelection(2, higher_is_better=hib), 1)],
                       elitism_rate=rate, population_size=n, higher_is_better=hib)
    a = SimpleEvolution(Population([sp]), breeder=kw.pop('breeder', SimpleBreeder()), population_evaluator=kw.pop('pe', SimplePopulationEvaluator(mode)),
                        max_generation=gens, executor=kw.pop('executor', 'thread'), max_workers=1, random_seed=seed, statistics=statistics, **kw)
    return a, sp


def evolve(enc, n, hib, rate, gens, kind, cache, levels, script, mode, seed, s):
    rng = random.Random(s)
    ev = Scripted(levels=levels)
    if script:
        rows = []
        for g in range(gens + 1):
            base = {'up': g, 'down': -g, 'peak': -abs(g - gens // 2), 'flat': 0, 'saw': (g * 7) % 5}[script]
            rows.append([float(base + rng.choice([0, 0, 0.25, -3]) + k % 3 * 0.125) for k in range(n)])
        ev.script = rows
    a, sp = algo(enc, n, hib, rate, gens, ev, kind, cache, mode=mode, seed=seed)
    st = dict(best=None, best_aug=None, all=None, gen=0, info={}, reported=None)
    ev.gen = 0

    def absorb():
        """all evaluations since the last call"""
        for ind, v in ev.batch:
            w = getattr(ind.fitness, 'bloat_weight', 0)
            av = v - w * ind.size() if hib else v + w * ind.size()
            st['info'][ind.id] = (genome(ind), v, av, ind)
            if st['all'] is None or better(av, st['all'], hib):
                st['all'] = av
        ev.batch = []

    def check(where):
        absorb()
        b = a.best_of_run_
        need(b is not None, '%s: no best of run', where)
        need(b.id in st['info'], '%s: best of run was never evaluated', where)
        g, v, av, obj = st['info'][b.id]
        need(genome(b) == g, '%s: best of run no longer has the genome it was evaluated with', where)
        need(b.fitness.is_fitness_evaluated() and b.get_pure_fitness() == v, '%s: best of run reports %r, evaluated to %r', where, score(b), v)
        need(not better(st['all'], av, hib), '%s: %r was evaluated but best of run has %r (higher is better: %r)', where, st['all'], av, hib)
        if st['reported'] is not None and b is not st['reported'][0]:
            need(better(av, st['reported'][1], hib), '%s: best of run replaced by one that is not strictly better', where)
        st['reported'] = (b, av)
        st['gen'] += 1
        ev.gen = st['gen']
    a.register('init', lambda *_: check('init'))
    a.register('after_generation', lambda *_: check('generation %d' % a.generation_num))
    a.evolve()
    need(st['gen'] == gens + 1, '%d generations observed', st['gen'] - 1)
    st['gen'] -= 1
    check('end')


def run(h):
    r = h.rng
    for hib in (True, False):
        for sc in ('up', 'down', 'peak', 'flat', 'saw'):
            for kind in ('simple', 'gp'):
                for rate in (0.0, 0.25):
                    h.run(evolve, enc='user', n=r.choice([4, 8]), hib=hib, rate=rate, gens=r.choice([1, 6, 13]), kind=kind, cache=r.random() < .5, levels=None, script=sc, mode=r.choice(['map', 'submit']), seed=r.randrange(1000))
        for enc in ('user', 'int', 'tree'):
            for rate in (0.0, 0.2, 0.5):
                for lv in (3, 50, None):
                    h.run(evolve, enc=enc, n=r.choice([6, 10, 20]), hib=hib, rate=rate, gens=h.scale(r.choice([5, 12]), 60), kind=r.choice(['simple', 'gp']), cache=r.random() < .5, levels=lv, script=None, mode=r.choice(['map', 'submit']), seed=r.randrange(10 ** 6))
    g = max(h.ints([60], 1, 130))
    for hib in (True, False):
        h.run(evolve, enc='user', n=4, hib=hib, rate=0.0, gens=g + 2, kind='simple', cache=False, levels=400, script=None, mode='map', seed=5)
        h.run(evolve, enc='user', n=4, hib=hib, rate=0.25, gens=g + 2, kind='gp', cache=False, levels=None, script='down' if hib else 'up', mode='map', seed=6)
