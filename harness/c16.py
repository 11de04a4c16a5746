"""C16 reproducibility"""
import subprocess
import zlib
from .common import *
from . import c01
from .c01 import algo, Scripted, UserCr
from .trees import sub2, neg1, pick3
from eckity.algorithms import SimpleEvolution
from eckity.breeders import SimpleBreeder
from eckity.creators.creator import Creator
from eckity.creators.ga_creators.int_vector_creator import GAIntVectorCreator
from eckity.creators.ga_creators.float_vector_creator import GAFloatVectorCreator
from eckity.creators.ga_creators.bit_string_vector_creator import GABitStringVectorCreator
from eckity.creators.gp_creators.half import HalfCreator
from eckity.creators.gp_creators.grow import GrowCreator
from eckity.evaluators import SimpleIndividualEvaluator
from eckity.genetic_operators import *
from eckity.random import RNG
from eckity.termination_checkers import TerminationChecker
from eckity.multi_objective_evolution.nsga2_evolution import NSGA2Evolution
from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness

DOC = 'first draws of both random sources in every phase against fresh generators; whole runs repeated, also in processes with other hash seeds'


def first(seed):
    return random.Random(seed).random(), np.random.RandomState(seed).random_sample()


def schedule(seed, gseed, gens, rng_given, s):
    draws = []

    class C(UserCr):
        def create_individuals(self, n, hib):
            draws.append(('create', random.random(), np.random.random_sample()))
            return super().create_individuals(n, hib)

    class B(SimpleBreeder):
        def apply_breed(self, population):
            draws.append(('breed', random.random(), np.random.random_sample()))
            super().apply_breed(population)
            for _ in range(random.randint(0, 5)):
                random.random()
    ev = Scripted(levels=20)
    ev.gen = 0
    kw = dict(generation_seed=gseed) if gseed is not None else {}
    if rng_given:
        kw['random_generator'] = RNG()
    random.seed(999 + s % 7)
    np.random.seed(5 + s % 11)
    al, sp = algo('user', 4, True, 0.0, gens, ev, breeder=B(), seed=seed, **kw)
    sp.creators = [C('simple', False)]
    need(al.random_seed == seed, 'seed recorded as %r', al.random_seed)
    al.evolve()
    # the draw of a creator happens before the first draw of individuals: the very first draws after seeding may be the choice of the creator
    r = random.Random(seed)
    c = draws[0]
    stream = [r.random() for _ in range(4)]
    nps = np.random.RandomState(seed).random_sample()
    need(c[0] == 'create' and c[1] in stream[:3], 'standard source not seeded with %r before the initial population', seed)
    need(c[2] == nps, 'numpy source not seeded with %r before the initial population', seed)
    base = seed if gseed is None else gseed
    need(len(draws) == gens + 1, 'breeding steps')
    for g in range(1, gens + 1):
        want = first((base + g) % 2 ** 32)
        need(draws[g][1] == want[0], 'generation %d: standard source not seeded with base + %d', g, g)
        need(draws[g][2] == want[1], 'generation %d: numpy source not seeded with base + %d', g, g)


def unseeded(s):
    sp = lambda: Subpopulation(Scripted(levels=3), creators=UserCr('simple', False), operators_sequence=[], population_size=2)
    for _ in range(20):
        a = SimpleEvolution(sp())
        need(isinstance(a.random_seed, int) and 0 <= a.random_seed < 2 ** 32, 'derived seed %r', a.random_seed)
        need(a.generation_seed == a.random_seed, 'base seed %r of derived seed %r', a.generation_seed, a.random_seed)
    a, _ = algo('user', 2, True, 0.0, 2, Scripted(levels=3), seed=None)
    a.population.sub_populations[0].evaluator.gen = 0
    rec = a.random_seed
    a.evolve()
    need(a.random_seed == rec, 'recorded seed changed')
    b, _ = algo('user', 2, True, 0.0, 2, Scripted(levels=3), seed=rec)
    b.population.sub_populations[0].evaluator.gen = 0
    b.evolve()
    need([genome(i) for i in a.population.sub_populations[0].individuals] == [genome(i) for i in b.population.sub_populations[0].individuals], 'the recorded seed does not reproduce the run')


class Sum(SimpleIndividualEvaluator):
    def __init__(self, kind='plain'):
        super().__init__()
        self.kind = kind

    def evaluate_individual(self, ind):
        if hasattr(ind, 'vector'):
            v = ind.vector
            if self.kind == 'multi':
                return [float(sum(v)), float(sum(x * (k + 1) for k, x in enumerate(v[::-1])))]
            return float(sum(x * (k + 1) for k, x in enumerate(v)))
        return float(sum(zlib.crc32(c01.text(x).encode()) % 1000 for x in genome(ind)))


def show(ind):
    return [c01.text(x) for x in genome(ind)]


def one_run(conf, seed, gens):
    """-> textual history of a run"""
    hib = conf[-1] == '+'
    sel = TournamentSelection(3, higher_is_better=hib)
    if conf.startswith('int'):
        cr = GAIntVectorCreator(length=8, bounds=(0, 20))
        ops = [VectorKPointsCrossover(probability=.7, k=2), IntVectorNPointMutation(probability=.5, n=2), IntVectorOnePointMutation(probability=.5)]
    elif conf.startswith('float'):
        cr = GAFloatVectorCreator(length=5, bounds=[(0.0, k + 1.0) for k in range(5)])
        ops = [VectorKPointsCrossover(k=1), FloatVectorGaussNPointMutation(n=2), FloatVectorUniformOnePointMutation(probability=.3)]
        sel = FitnessProportionateSelection(higher_is_better=hib)
    elif conf.startswith('bit'):
        cr = GABitStringVectorCreator(length=12)
        ops = [VectorKPointsCrossover(k=3), BitStringVectorFlipMutation(probability=.5), BitStringVectorNFlipMutation(n=4)]
    elif conf.startswith('nsga'):
        class F(GAFloatVectorCreator):
            def create_individuals(self, n, hib):
                out = super().create_individuals(n, hib)
                for i in out:
                    i.fitness = NSGA2Fitness(higher_is_better=[True, False])
                return out
        cr = F(length=3, bounds=(0.0, 5.0))
        ops = [VectorKPointsCrossover(k=1, probability=.6), FloatVectorUniformOnePointMutation(probability=.4)]
    else:
        kw = dict(init_depth=(2, 4), function_set=[sub2, neg1, pick3], terminal_set=['x', 'y', 1], erc_range=(-1.0, 1.0), bloat_weight=0.001)
        cr = HalfCreator(**kw) if 'half' in conf else GrowCreator(**kw)
        ops = [SubtreeCrossover(probability=.8), SubtreeMutation(probability=.4), ERCMutation(probability=.4)]
    if 'two' in conf:
        cr = [cr, cr]
    multi = conf.startswith('nsga')
    sp = Subpopulation(Sum('multi' if multi else 'plain'), creators=cr, operators_sequence=ops, selection_methods=[(sel, 1)], population_size=12, higher_is_better=hib, elitism_rate=0.0 if multi else 0.2)
    hist = []
    if multi:
        al = NSGA2Evolution(Population([sp]), breeder=NSGA2Breeder(), max_generation=gens, random_seed=seed, termination_checker=None, executor='thread', max_workers=1)
    else:
        al = SimpleEvolution(Population([sp]), max_generation=gens, random_seed=seed, executor='thread', max_workers=2)
    al.register('init', lambda *_: hist.append([show(i) for i in al.population.sub_populations[0].individuals]))
    al.register('after_generation', lambda *_: hist.append([show(i) for i in al.population.sub_populations[0].individuals]))
    if multi:
        al.finish = lambda: al.executor.shutdown()
    al.evolve()
    if not multi:
        hist.append([show(al.best_of_run_), repr(al.best_of_run_.get_pure_fitness())])
    return hist


def repeat(conf, seed, gens, s):
    random.seed(s)
    np.random.seed(s % 1000)
    a = one_run(conf, seed, gens)
    for _ in range(random.randrange(50)):
        random.random()
    mk([1.0] * 3, True)
    b = one_run(conf, seed, gens)
    need(len(a) == len(b), 'runs of different length')
    for g, (x, y) in enumerate(zip(a, b)):
        need(x == y, 'two runs with seed %r differ in generation %d', seed, g)


def other_process(conf, seed, gens, s):
    """separate interpreters with different string hashing and memory layout"""
    outs = []
    for hs in ('1', '4242'):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        code = ('import sys; from harness import c16; junk = [object() for _ in range(%s)]; import zlib; '
                'print("RESULT", zlib.crc32(repr(c16.one_run(%r, %d, %d)).encode()))' % (hs, conf, seed, gens))
        p = subprocess.run([sys.executable, '-c', code], env=env, capture_output=True, text=True, timeout=90)
        l = [x for x in p.stdout.splitlines() if x.startswith('RESULT')]
        need(l, 'run failed: %s', p.stderr[-600:])
        outs.append(l[0])
    need(outs[0] == outs[1], 'the same seed gives different runs in two processes')


def rng_direct(seed, s):
    RNG().set_seed(seed)
    need((random.random(), np.random.random_sample()) == first(seed), 'RNG.set_seed(%r)', seed)


def run(h):
    r = h.rng
    M = 2 ** 32
    for seed in (0, 1, 42, M - 1, M - 3, 12345678):
        h.run(rng_direct, seed=seed)
        for gs in (None, 0, 7, M - 1, M - 2):
            h.run(schedule, seed=seed, gseed=gs, gens=r.choice([1, 5]), rng_given=r.random() < .5)
    for g in h.ints([15], 10, 130):
        h.run(schedule, seed=r.randrange(M), gseed=None, gens=g, rng_given=False)
    h.run(unseeded)
    confs = ['int+', 'int-', 'float+', 'float-', 'bit+', 'half+', 'half-', 'grow+', 'nsga+', 'int two+']
    for c in confs:
        for seed in (0, 1, r.randrange(M)):
            h.run(repeat, conf=c, seed=seed, gens=h.scale(6, 8 if c[:4] in ('half', 'grow') else 25))       # program trees grow without limit
    for c in ('int+', 'half-', 'nsga+', 'float-'):
        h.run(other_process, conf=c, seed=r.randrange(1000), gens=h.scale(5, 8 if c[:4] in ('half', 'grow') else 15))
