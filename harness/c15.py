"""C15 evolution loop"""
from .common import *
from .c01 import algo, Scripted, UserCr, Twist
from eckity.algorithms import SimpleEvolution
from eckity.algorithms.algorithm import Algorithm
from eckity.breeders import SimpleBreeder
from eckity.evaluators import SimplePopulationEvaluator, SimpleIndividualEvaluator
from eckity.statistics.statistics import Statistics
from eckity.termination_checkers import TerminationChecker, ThresholdFromTargetTerminationChecker

DOC = 'traces of whole runs (creation, breeding, evaluation, termination checks, events) against the promised sequence'


def machinery(trace, hook):
    class Br(SimpleBreeder):
        def apply_breed(self, population):
            trace.append('breed')
            hook('breed', population)
            super().apply_breed(population)

    class Pe(SimplePopulationEvaluator):
        def _evaluate(self, population):
            r = super()._evaluate(population)
            trace.append('eval')
            hook('eval', population)
            return r

    class Crt(UserCr):
        def create_individuals(self, n, hib):
            trace.append('create')
            return super().create_individuals(n, hib)

    class Stat(Statistics):
        def write_statistics(self, sender, data):
            trace.append('stat')

    class Stop(TerminationChecker):
        def __init__(self, at, tag=0):
            self.at, self.tag = at, tag

        def should_terminate(self, population, best_individual, gen_number):
            trace.append(('check', self.tag, gen_number))
            hook('check', population)
            return gen_number >= self.at if isinstance(self.at, int) else gen_number in self.at
    return Br, Pe, Crt, Stat, Stop


def build(trace, hook, n, gens, stops, mode, single, stat, extra_ops=None):
    Br, Pe, Crt, Stat, Stop = machinery(trace, hook)
    tc = None
    if stops is not None:
        tc = [Stop(a, k) for k, a in enumerate(stops)]
        if single:
            tc = tc[0]
    ev = Scripted(levels=50)
    ev.gen = 0
    a, sp = algo('user', n, True, 0.0, gens, ev, breeder=Br(), pe=Pe(mode), termination_checker=tc, statistics=Stat('x') if stat else None)
    sp.creators = [Crt('simple', False)]
    return a, sp


def trace_case(n, gens, stops, single, mode, stat, seed, s):
    trace, stamps, seen = [], [], []
    a = [None]

    def hook(what, pop):
        seen.append((what, a[0].generation_num))
        if what == 'breed':
            stamps.append((a[0].generation_num, [i.gen for sp in pop.sub_populations for i in sp.individuals]))
        if what == 'check':
            need(all(i.fitness.is_fitness_evaluated() for sp in pop.sub_populations for i in sp.individuals), 'termination checked on an unevaluated population')
    a[0], sp = build(trace, hook, n, gens, stops, mode, single, stat)
    al = a[0]
    for e in ('init', 'after_generation', 'evolution_finished'):
        def cb(sender, data, e=e):
            trace.append((e, al.generation_num))
            need(sender is al, 'sender')
            if e == 'after_generation':
                need(data.get('generation_num') == al.generation_num, 'generation number of the event is %r', data.get('generation_num'))
                need(all(i.fitness.is_fitness_evaluated() for x in al.population.sub_populations for i in x.individuals), 'after_generation before the evaluation')
        al.register(e, cb)
    al.evolve()
    hit = lambda g: stops is not None and any((g >= t) if isinstance(t, int) else g in t for t in (stops[:1] if single else stops))
    last = 0
    if not hit(0):
        last = gens
        for g in range(1, gens + 1):
            if hit(g):
                last = g
                break
    t = [x for x in trace if x != 'stat']
    core = [x for x in t if not (isinstance(x, tuple) and x[0] == 'check')]
    want = ['create', 'eval', ('init', 0)]
    if last == 0:
        want += [('after_generation', 0)]
    for g in range(1, last + 1):
        want += ['breed', 'eval', ('after_generation', g)]
    want += [('evolution_finished', last)]
    need(core == want, 'trace %r, expected %r', core[:40], want[:40])
    need(al.final_generation_ == last, 'final generation %r, last generation run %r', al.final_generation_, last)
    need(al.generation_num == last, 'generation number %r', al.generation_num)
    for k, (g, gs) in enumerate(stamps):
        need(g == k + 1, 'generation number %r in breeding step %d', g, k + 1)
        need(gs == [g] * n, 'individuals entering generation %d are stamped %r', g, gs)
    if stops:
        chk = [x[2] for x in t if isinstance(x, tuple) and x[0] == 'check' and x[1] == 0]
        need(chk == list(range(0, last + 1)), 'termination condition consulted for generations %r of %d', chk, last)
        for g in range(1, last + 1):          # checked after the evaluation of its generation
            i, j = [k for k, x in enumerate(t) if x == ('check', 0, g)][0], [k for k, x in enumerate(t) if x == 'eval'][g]
            need(i > j, 'condition of generation %d checked before its evaluation', g)
    if stat:
        need(trace.count('stat') == max(1, last), 'statistics written %d times in %d generations', trace.count('stat'), last)
    need(raises(lambda: al.executor.submit(int, 1), RuntimeError), 'executor still running after the run')
    need(len(sp.individuals) == n, 'population size')


def threshold(hib, thr, gens, s):
    """the usual target condition"""
    ev = Scripted(script=[[10.0 - k] * 3 + [20.0] for k in range(gens + 1)])
    ev.gen = 0
    al, sp = algo('user', 4, False, 0.0, gens, ev, termination_checker=ThresholdFromTargetTerminationChecker(optimal=0.0, threshold=thr))
    n = [0]

    def after(*_):
        n[0] += 1
        ev.batch.clear()
        ev.gen = al.generation_num + 1
    al.register('init', lambda *_: (ev.batch.clear(), setattr(ev, 'gen', 1)))
    al.register('after_generation', after)
    al.evolve()
    want = next((g for g in range(gens + 1) if 10.0 - g <= thr), gens)
    need(al.final_generation_ == want, 'stopped at %r, expected %r', al.final_generation_, want)
    need(n[0] == max(1, want), 'events')


def events(s):
    """breeder and evaluator of a run publish around their work, once per generation"""
    ev = Scripted(levels=9)
    ev.gen = 0
    al, sp = algo('user', 4, True, 0.25, 3, ev)
    log = []
    al.breeder.register('before_operator', lambda *_: log.append('b'))
    al.breeder.register('after_operator', lambda *_: log.append('B'))
    al.population_evaluator.register('before_operator', lambda *_: log.append('e'))
    al.population_evaluator.register('after_operator', lambda *_: log.append('E'))
    al.evolve()
    need(''.join(log) == 'eE' + 'bBeE' * 3, 'events %s', ''.join(log))


def refused(s):
    ev = Scripted(levels=9)
    mkp = lambda: Subpopulation(ev, creators=UserCr('simple', False), operators_sequence=[], population_size=2)
    for bad in (None, 5, 'x', [], [5], [mkp(), 5]):
        need(raises(lambda: SimpleEvolution(bad)), 'population %r accepted', bad)
    need(raises(lambda: SimpleEvolution(mkp(), executor='gpu')), 'executor accepted')
    need(raises(lambda: SimpleEvolution(mkp(), statistics=5)) and raises(lambda: SimpleEvolution(mkp(), statistics=[5])), 'statistics accepted')
    need(raises(lambda: SimpleEvolution(mkp(), breeder=5)) and raises(lambda: SimpleEvolution(mkp(), population_evaluator=5)), 'breeder or evaluator accepted')
    for p in (mkp(), [mkp()], Population([mkp()])):
        a = SimpleEvolution(p)
        need(isinstance(a.population, Population) and len(a.population.sub_populations) == 1, 'population')


def multi(gens, stop, s):
    """a multi-objective run: same phases, events and executor handling"""
    from eckity.multi_objective_evolution.nsga2_evolution import NSGA2Evolution
    from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder
    from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
    from eckity.evaluators import SimplePopulationEvaluator
    from eckity.creators.ga_creators.float_vector_creator import GAFloatVectorCreator
    from eckity.genetic_operators import TournamentSelection, FloatVectorUniformOnePointMutation

    class Cr(GAFloatVectorCreator):
        def create_individuals(self, n, hib):
            out = super().create_individuals(n, hib)
            for i in out:
                i.fitness = NSGA2Fitness(higher_is_better=[True, False])
            return out

    class Two(SimpleIndividualEvaluator):
        def evaluate_individual(self, i):
            return [sum(i.vector), i.vector[0]]
    class Until(TerminationChecker):
        def should_terminate(self, population, best_individual, gen_number):
            return gen_number >= stop
    trace = []
    sp = Subpopulation(Two(), creators=Cr(length=3, bounds=(0.0, 5.0)), operators_sequence=[FloatVectorUniformOnePointMutation(probability=.4)],
                       selection_methods=[(TournamentSelection(2), 1)], population_size=6, elitism_rate=0.0)
    tc = None if stop is None else Until()
    al = NSGA2Evolution(Population([sp]), breeder=NSGA2Breeder(), population_evaluator=SimplePopulationEvaluator(), max_generation=gens, random_seed=s, termination_checker=tc, executor='thread', max_workers=1)
    al.breeder.register('after_operator', lambda *_: trace.append('b'))
    al.population_evaluator.register('after_operator', lambda *_: trace.append('e'))
    for e in ('init', 'after_generation', 'evolution_finished'):
        al.register(e, lambda sender, data, e=e: trace.append((e, al.generation_num)))
    al.evolve()
    last = gens if stop is None else min(stop, gens)
    want = ['e', ('init', 0)] + ([('after_generation', 0)] if last == 0 else [])
    for g in range(1, last + 1):
        want += ['b', 'e', ('after_generation', g)]
    want += [('evolution_finished', last)]
    need(trace == want, 'trace %r, expected %r', trace[:40], want[:40])
    need(al.final_generation_ == last, 'final generation %r', al.final_generation_)
    need(raises(lambda: al.executor.submit(int, 1), RuntimeError), 'executor still running after the run')


def run(h):
    r = h.rng
    h.run(refused)
    for g, st in ((1, None), (3, None), (4, 2), (2, 0)):
        h.run(multi, gens=g, stop=st)
    h.run(events)
    gens = h.ints([1, 2, 3, 7], 1, 24)
    for g in gens:
        for stops, single in ((None, True), ([g], True), ([1], True), ([0], True), ([g + 5], True), ([max(1, g - 1), g + 9], False), ([g + 9, max(1, g // 2)], False), ([0, 99], False), ([99, 0], False), ([99, 98, 97], False), ([], False)):
            h.run(trace_case, n=r.choice([1, 2, 5]), gens=g, stops=stops, single=single, mode=r.choice(['map', 'submit']), stat=r.random() < .5, seed=1)
    for _ in range(h.scale(30)):
        g = r.randint(1, 12)
        h.run(trace_case, n=r.choice([2, 4]), gens=g, stops=[[r.randint(0, 12)] for _ in range(r.randint(1, 3))], single=False, mode='map', stat=True, seed=2)
    for thr in (0.0, 1.0, 4.5, 10.0, 20.0):
        h.run(threshold, hib=False, thr=thr, gens=12)
    for g in h.ints([40], 30, 130):
        h.run(trace_case, n=2, gens=g, stops=None, single=True, mode='map', stat=True, seed=3)
