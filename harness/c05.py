"""C05 scalar fitness comparison"""
import copy
import pickle
from .common import *
from eckity.fitness.fitness import Fitness

DOC = 'scores x directions x bloat weights x sizes against the documented order; unevaluated and undeclared fitness'


def fit(kind, s, hib, w, cache=False):
    if kind == 'simple':
        return SimpleFitness(s, higher_is_better=hib, cache=cache)
    return GPFitness(s, higher_is_better=hib, bloat_weight=w, cache=cache)


def val(kind, s, hib, w, n):
    if kind == 'simple':
        return s
    return s - w * n if hib else s + w * n


def compare(k1, k2, s1, s2, w1, w2, n1, n2, hib, late, s):
    a, b = fit(k1, None if late else s1, hib, w1), fit(k2, None if late else s2, hib, w2)
    x, y = Ind(a, range(n1)), Ind(b, range(n2))
    if late:
        a.set_fitness(s1)
        b.set_fitness(s2)
    A, B = val(k1, s1, hib, w1, n1), val(k2, s2, hib, w2, n2)
    need(x.get_pure_fitness() == s1 and a.get_pure_fitness() == s1, 'pure fitness')
    need(abs(x.get_augmented_fitness() - A) <= 1e-9 * max(1, abs(A)), 'augmented fitness %r != %r', x.get_augmented_fitness(), A)
    if A != B and abs(A - B) <= 1e-9 * max(abs(A), abs(B), abs(s1), abs(s2)):
        return                                      # too close for floating point to be decided by the formula
    bt, tb, eq = a.better_than(x, b, y), b.better_than(y, a, x), a.equal_to(x, b, y)
    need(bool(bt) == better(A, B, hib), 'better_than(%r,%r) hib=%r gave %r', A, B, hib, bt)
    need(bool(tb) == better(B, A, hib), 'reverse better_than(%r,%r) hib=%r gave %r', B, A, hib, tb)
    need(bool(eq) == (A == B), 'equal_to(%r,%r) gave %r', A, B, eq)
    need(bool(b.equal_to(y, a, x)) == (A == B), 'equal_to reversed')
    need(bool(x.better_than(y)) == better(A, B, hib), 'Individual.better_than')
    need(not x.better_than(x), 'irreflexive')
    need(x.better_than(None) and y.better_than(None), 'better than no individual')
    need(x.get_pure_fitness() == s1 and y.get_pure_fitness() == s2, 'comparison changed a score')


def states(k, s1, hib, w, cache, rel, s):
    f = fit(k, None, hib, w, cache) if not rel else (SimpleFitness(None, higher_is_better=hib, is_relative_fitness=True)
                                                     if k == 'simple' else GPFitness(None, higher_is_better=hib, is_relative_fitness=True))
    g = fit(k, s1, hib, w, cache)
    x, y = Ind(f, range(3)), Ind(g, range(2))

    def unevaluated(msg):
        need(raises(f.get_pure_fitness), msg + ': reading an unevaluated score did not raise')
        need(raises(lambda: f.get_augmented_fitness(x)), msg + ': augmented score of unevaluated fitness')
        need(raises(lambda: f.better_than(x, g, y)), msg + ': unevaluated first operand compared')
        need(raises(lambda: g.better_than(y, f, x)), msg + ': unevaluated second operand compared')
        need(raises(lambda: f.equal_to(x, g, y)) and raises(lambda: g.equal_to(y, f, x)), msg + ': equal_to on unevaluated')
        need(rel or not f.is_fitness_evaluated(), msg + ': reported as evaluated')
    unevaluated('new')
    for k in range(3):
        f.set_fitness(s1 + k)
        need(f.is_fitness_evaluated() and f.get_pure_fitness() == s1 + k, 'score after set_fitness')
        need(bool(f.better_than(x, g, y)) == better(x.get_augmented_fitness(), y.get_augmented_fitness(), hib), 'order after set_fitness')
        if k % 2:
            f.set_not_evaluated()
        else:
            x.set_fitness_not_evaluated()
        unevaluated('invalidated')
    need(g.get_pure_fitness() == s1, 'other score changed')
    for c in (copy.copy(g), copy.deepcopy(g), pickle.loads(pickle.dumps(g))):
        need(c.higher_is_better == hib, 'direction lost in a copy')
        if c.is_fitness_evaluated():
            need(c.get_pure_fitness() == s1, 'stale copy')
        else:
            need(raises(c.get_pure_fitness), 'unevaluated copy readable')


def refused(s):
    need(raises(lambda: SimpleFitness(1.0, higher_is_better=None)), 'no direction accepted')
    need(raises(lambda: SimpleFitness(higher_is_better=None)), 'no direction accepted')
    need(raises(lambda: GPFitness(1.0, higher_is_better=None)), 'no direction accepted')

    class F(Fitness):
        def get_pure_fitness(self):
            return 1

        def better_than(self, *a):
            return False

        def equal_to(self, *a):
            return True
    need(raises(lambda: F()), 'no direction accepted')
    need(F(higher_is_better=True).higher_is_better is True, 'direction')
    need(raises(lambda: SimpleFitness(1.0).better_than(None, F(higher_is_better=False), None)), 'foreign fitness compared')


def transitive(vals, hib, s):
    inds = [Ind(SimpleFitness(v, higher_is_better=hib), [0] * (i + 1)) for i, v in enumerate(vals)]
    for a in inds:
        for b in inds:
            need(not (a.better_than(b) and b.better_than(a)), 'asymmetry')
            for c in inds:
                need(not (a.better_than(b) and b.better_than(c)) or a.better_than(c), 'transitivity')


def run(h):
    sc = h.floats([0.0, 1.0, -1.0, 0.5, -2.25, 1e6, -1e6, 7.0, 1e-9, -1e-9, 3.0, 100.0, 1e300])[:60]
    ws = [0.0, 0.5, 0.125, 2.0] + [w for w in h.floats([], 3) if w > 0][:6]
    kinds = ('simple', 'gp')
    h.run(refused)
    for hib in (True, False):
        for k1 in kinds:
            for k2 in kinds:
                for s1 in (0.0, 1.0, -1.0, 2.5, 0, 3, -7):
                    for s2 in (0.0, 1.0, -1.0, 2.5, 0, 3):
                        for n1, n2 in ((1, 1), (4, 2), (0, 3), (2, 4)):
                            h.run(compare, k1=k1, k2=k2, s1=s1, s2=s2, w1=0.5, w2=0.5, n1=n1, n2=n2, hib=hib, late=(s1 != s2))
        for k in kinds:
            for s1 in sc:
                for cache in (False, True):
                    for rel in (False, True):
                        h.run(states, k=k, s1=s1, hib=hib, w=0.25, cache=cache, rel=rel)
    r = h.rng
    sizes = h.ints([0, 1, 2, 3, 10, 33, 100, 300], 0, 1200)
    for _ in range(h.scale(6000)):
        s1 = r.choice(sc)
        h.run(compare, k1=r.choice(kinds), k2=r.choice(kinds), s1=s1, s2=r.choice([s1, r.choice(sc), s1 + r.choice(ws), round(r.uniform(-9, 9), 2)]),
              w1=r.choice(ws), w2=r.choice(ws), n1=r.choice(sizes), n2=r.choice(sizes), hib=r.random() < .5, late=r.random() < .5)
    for _ in range(h.scale(50)):
        h.run(transitive, vals=[r.choice(sc) for _ in range(6)], hib=r.random() < .5)
