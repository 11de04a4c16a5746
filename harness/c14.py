"""C14 Pareto dominance and crowded comparison"""
import copy
import itertools
import math
import pickle
from .common import *
from .c13 import dom
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness

DOC = 'dominance over all small objective vectors and directions; crowded comparison; refused operations'


def fit(v, dirs, how):
    if how == 'ctor':
        return NSGA2Fitness(fitness=list(v), higher_is_better=dirs if isinstance(dirs, bool) else list(dirs))
    f = NSGA2Fitness(higher_is_better=dirs if isinstance(dirs, bool) else list(dirs))
    f.set_fitness(list(v))
    return f


def pair(a, b, dirs, how, s):
    dl = [dirs] * len(a) if isinstance(dirs, bool) else dirs
    x, y = fit(a, dirs, how), fit(b, dirs, how)
    i, j = Ind(x, [1]), Ind(y, [2])
    need(x.get_pure_fitness() == list(a), 'score')
    need(bool(x.dominate(i, y, j)) == dom(a, b, dl), 'dominate(%r,%r) with %r gave %r', a, b, dirs, x.dominate(i, y, j))
    need(bool(y.dominate(j, x, i)) == dom(b, a, dl), 'dominate(%r,%r) with %r', b, a, dirs)
    need(not x.dominate(i, x, i), 'irreflexive')
    need(not (x.dominate(i, y, j) and y.dominate(j, x, i)), 'asymmetric')
    need(x.get_pure_fitness() == list(a) and y.get_pure_fitness() == list(b), 'scores changed')


def triple(vals, dirs, s):
    f = [fit(v, dirs, 'set') for v in vals]
    n = [Ind(x, [k]) for k, x in enumerate(f)]
    d = lambda p, q: f[p].dominate(n[p], f[q], n[q])
    for p in range(len(vals)):
        for q in range(len(vals)):
            for r in range(len(vals)):
                need(not (d(p, q) and d(q, r)) or d(p, r), 'transitivity')


def crowded(r1, c1, r2, c2, s):
    x, y = fit([1.0, 2.0], [True, False], 'set'), fit([0.0, 3.0], [True, False], 'ctor')
    x.front_rank, x.crowding, y.front_rank, y.crowding = r1, c1, r2, c2
    i, j = Ind(x, [1]), Ind(y, [2])
    want = r1 < r2 or (r1 == r2 and c1 > c2)
    need(bool(x.better_than(i, y, j)) == want, 'better_than: rank %r crowding %r against rank %r crowding %r gave %r', r1, c1, r2, c2, x.better_than(i, y, j))
    need(bool(i.better_than(j)) == want, 'Individual.better_than')
    need(bool(x.equal_to(i, y, j)) == (r1 == r2 and c1 == c2), 'equal_to')


def refused(m, dirs, s):
    u = NSGA2Fitness(higher_is_better=dirs)
    e = fit([1.0] * m, dirs, 'ctor')
    i, j = Ind(u, [1]), Ind(e, [2])
    for f in (lambda: u.dominate(i, e, j), lambda: e.dominate(j, u, i), lambda: u.get_pure_fitness(), lambda: u.dominate(i, u, i)):
        need(raises(f), 'unevaluated fitness compared or read')
    e.front_rank = 1
    need(raises(lambda: e.better_than(j, u, i)), 'ranked against unevaluated')
    w = fit([1.0] * (m + 1), True, 'set')
    w.front_rank = 1
    k = Ind(w, [3])
    need(raises(lambda: e.dominate(j, w, k)) and raises(lambda: w.dominate(k, e, j)), 'score lists of different length compared')
    need(raises(lambda: e.better_than(j, w, k)), 'ranked fitnesses of different length compared')
    need(raises(lambda: e.set_fitness([2.0] * m)), 're-setting an evaluated score accepted')
    need(e.get_pure_fitness() == [1.0] * m, 'score replaced despite the refusal')
    e.set_not_evaluated()
    need(not e.is_fitness_evaluated() and raises(e.get_pure_fitness), 'invalidated fitness readable')
    need(e.crowding == 0 and e.front_rank == math.inf, 'rank and crowding kept after invalidation')
    e.set_fitness([3.0] * m)
    need(e.get_pure_fitness() == [3.0] * m and raises(lambda: e.set_fitness([1.0] * m)), 'set after invalidation')
    need(raises(lambda: e.dominate(j, SimpleFitness(1.0), k)), 'foreign fitness compared')
    need(raises(lambda: NSGA2Fitness(fitness=[1.0], higher_is_better=None)), 'no direction accepted')


def run(h):
    r = h.rng
    grid = [0.0, 1.0, 2.0]
    for m in (1, 2):
        for a in itertools.product(grid, repeat=m):
            for b in itertools.product(grid, repeat=m):
                for d in [True, False] + [list(x) for x in itertools.product([True, False], repeat=m)]:
                    h.run(pair, a=list(a), b=list(b), dirs=d, how='ctor' if (sum(a) + sum(b)) % 2 else 'set')
    vals = h.floats([0.0, 1.0, -1.0, 2.5, 1e9, -1e-9], 1e4)
    for m in h.ints([3, 4, 7], 3, 12):
        for _ in range(h.scale(150)):
            a = [r.choice(vals) for _ in range(m)]
            b = [x if r.random() < .6 else x + r.choice([1, -1, 0.5]) for x in a]
            h.run(pair, a=a, b=b, dirs=r.choice([True, False, [r.random() < .5 for _ in range(m)]]), how=r.choice(['ctor', 'set']))
        for _ in range(h.scale(10)):
            h.run(triple, vals=[[float(r.randint(0, 2)) for _ in range(m)] for _ in range(5)], dirs=[r.random() < .5 for _ in range(m)])
    cs = [0, 0.0, 0.5, 1.0, 2.0, 1e9, math.inf]
    for r1 in (1, 2, 3, 17):
        for r2 in (1, 2, 3, 17):
            for c1 in cs:
                for c2 in cs:
                    h.run(crowded, r1=r1, c1=c1, r2=r2, c2=c2)
    for m in (1, 2, 5):
        for d in (True, False, [True] * m, [False] * m):
            h.run(refused, m=m, dirs=d)
