"""C06 population evaluation"""
import time as _t
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor, Future, Executor
from .common import *
from .c02 import Cr
from eckity.evaluators import SimplePopulationEvaluator, SimpleIndividualEvaluator

DOC = 'evaluations with sequential, reordering, thread and process executors in both modes'


class Late(Future):
    def __init__(self, ex):
        super().__init__()
        self.ex = ex

    def result(self, timeout=None):
        self.ex.flush()
        return super().result(timeout)


class Reorder(Executor):
    """runs submitted work late and in an order of its own"""

    def __init__(self, s):
        self.r, self.q = random.Random(s), []

    def submit(self, fn, *a, **k):
        f = Late(self)
        self.q.append((f, fn, a, k))
        return f

    def flush(self):
        q, self.q = self.q, []
        self.r.shuffle(q)
        for f, fn, a, k in q:
            try:
                f.set_result(fn(*a, **k))
            except BaseException as e:
                f.set_exception(e)

    def map(self, fn, *its, **k):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return iter([f.result() for f in fs])


class Ev(SimpleIndividualEvaluator):
    def __init__(self, hard=False, ties=False, ret='float', lo=-50):
        super().__init__()
        self.hard, self.ties, self.ret, self.lo = hard, ties, ret, lo
        self.calls = 0

    def evaluate_individual(self, ind):
        self.calls += 1
        if self.hard:
            _t.sleep((ind.genome[0][1] * 7 % 5) / 2000)
        v = (ind.genome[0][1] * 37) % (4 if self.ties else 101) + self.lo
        return int(v) if self.ret == 'int' else np.float64(v) if self.ret == 'np' else float(v)


def evaluate(n, mode, ex, hib, kind, ties, ret, pre, via, lo, s):
    rng = random.Random(s)
    inds = mk([None] * n, hib, kind, bloat=3.0, sizes=[rng.randint(1, 9) for _ in range(n)], cache=rng.random() < .5, parents=True)
    perm = list(range(n))
    rng.shuffle(perm)
    for i, k in zip(inds, perm):
        i.genome[0] = ('g', k)
        i.applied_operators.append('op')
        if pre == 'some' and rng.random() < .5 or pre == 'all':
            i.fitness.set_fitness(rng.uniform(-99, 99))
    ev = Ev(hard=ex in ('thread', 'process') and n < 40, ties=ties, ret=ret, lo=lo)
    sp = Subpopulation(ev, creators=Cr(), operators_sequence=[], individuals=inds, population_size=n, higher_is_better=hib)
    want = [Ev(False, ties, ret, lo).evaluate_individual(i) for i in inds]
    keep = [{k: v for k, v in snap(i).items() if k != 'score'} for i in inds]
    lst = list(inds)
    pe = SimplePopulationEvaluator(mode) if mode != 'default' else SimplePopulationEvaluator()
    exe = {'seq': lambda: Reorder(0), 'reorder': lambda: Reorder(s), 'thread': lambda: ThreadPoolExecutor(4), 'process': lambda: ProcessPoolExecutor(2)}[ex]()
    try:
        pe.set_executor(exe)
        pop = Population([sp])
        for rounds in range(2):
            best = pe.act(pop) if via == 'act' else pe.apply_operator(pop)
            need(sp.individuals is inds and len(inds) == n and all(a is b for a, b in zip(inds, lst)), 'population list or order changed')
            for i, w in zip(inds, want):
                need(i.fitness.is_fitness_evaluated(), 'individual left unevaluated')
                need(type(i.get_pure_fitness()) is type(w) and i.get_pure_fitness() == w, 'individual got score %r, its evaluator computes %r', i.get_pure_fitness(), w)
            need([{k: v for k, v in snap(i).items() if k != 'score'} for i in inds] == keep, 'evaluation changed something else')
            need(any(best is i for i in inds), 'returned individual is not a member')
            need(not any(better(aug(i), aug(best), hib) for i in inds), 'a member is strictly better than the returned individual')
            if ex not in ('process',):
                need(ev.calls == n * (rounds + 1), 'evaluator called %d times for %d individuals', ev.calls, n)
            if rounds == 0:
                ev.lo += 5
                want = [Ev(False, ties, ret, lo + 5).evaluate_individual(i) for i in inds]
    finally:
        if hasattr(exe, 'flush') is False:
            exe.shutdown()


def single(hib, sc, s):
    class E(SimpleIndividualEvaluator):
        def evaluate_individual(self, ind):
            return sc
    i, o = mk([None, 3.0], hib)
    e = E()
    r = e.evaluate(i, [o])
    need(r is i and i.get_pure_fitness() == sc and i.fitness.is_fitness_evaluated(), 'single evaluation')
    need(o.get_pure_fitness() == 3.0, 'environment individual changed')


def rejected(s):
    for bad in ('Map', '', None, 'async', 'process', 'submi', 'maps'):
        need(raises(lambda: SimplePopulationEvaluator(bad)), 'executor mode %r accepted', bad)
        need(raises(lambda: SimplePopulationEvaluator(executor_method=bad)), 'executor mode %r accepted', bad)
    inds = mk([None] * 4, True)
    sp = lambda l: Subpopulation(Ev(), creators=Cr(), operators_sequence=[], individuals=l, population_size=len(l), higher_is_better=True)
    for subs in ([], [sp(inds[:2]), sp(inds[2:])], [sp(inds[:1]), sp(inds[1:2]), sp(inds[2:])]):
        for mode in ('map', 'submit'):
            pe = SimplePopulationEvaluator(mode)
            pe.set_executor(Reorder(0))
            need(raises(lambda: pe.act(Population(subs))), 'population of %d sub-populations accepted', len(subs))
            need(all(score(i) == 'unevaluated' for i in inds), 'evaluated before the rejection')


def run(h):
    r = h.rng
    h.run(rejected)
    for sc in (0.0, 0, -3, 2.5, 1e9):
        h.run(single, hib=bool(sc), sc=sc)
    ns = h.ints([1, 2, 3, 7, 20, 64, 150], 1, 130)
    for n in ns:
        for mode in ('map', 'submit', 'default'):
            for hib in (True, False):
                for ex in ('seq', 'reorder'):
                    h.run(evaluate, n=n, mode=mode, ex=ex, hib=hib, kind=r.choice(['simple', 'gp']), ties=r.random() < .4, ret=r.choice(['float', 'int', 'np']),
                          pre=r.choice(['none', 'some', 'all']), via=r.choice(['act', 'apply']), lo=r.choice([-50, 0, -101, 7]))
    for n in (1, 9, 30, 70):
        for mode in ('map', 'submit'):
            h.run(evaluate, n=n, mode=mode, ex='thread', hib=r.random() < .5, kind='gp', ties=False, ret='float', pre='some', via='act', lo=0)
    for mode in ('map', 'submit'):
        h.run(evaluate, n=8, mode=mode, ex='process', hib=True, kind='simple', ties=False, ret='float', pre='none', via='act', lo=-20)
