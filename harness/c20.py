"""C20 termination conditions"""
import math
from .common import *
from .c02 import Cr, Ev
from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
from eckity.termination_checkers.best_fitness_stagnation_termination_checker import BestFitnessStagnationTerminationChecker
from eckity.multi_objective_evolution.crowding_termination_checker import CrowdingTerminationChecker
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness

DOC = 'threshold grid with exact boundaries; stagnation histories against a counter model; crowding populations'


def pop_of(scores, hib, sizes=None, kind='simple'):
    return Subpopulation(Ev(), creators=Cr(), operators_sequence=[], individuals=mk(scores, hib, kind, sizes=sizes), population_size=len(scores), higher_is_better=hib)


def threshold(score_, optimal, thr, hib, gp, s):
    c = ThresholdFromTargetTerminationChecker(optimal=optimal, threshold=thr, higher_is_better=hib)
    best = mk([score_], hib, 'gp' if gp else 'simple', bloat=3.0)[0]
    want = abs(score_ - optimal) <= thr
    for gen in (0, 1, 50):
        got = c.should_terminate(Population([pop_of([99.0], hib)]), best, gen)
        need(bool(got) == want, 'score %r, target %r, threshold %r: %r', score_, optimal, thr, got)
    need(best.get_pure_fitness() == score_, 'score changed')


def defaults(s):
    c = ThresholdFromTargetTerminationChecker()
    for v in (0.0, 1e-9, -1e-9, 1.0):
        need(bool(c.should_terminate(None, mk([v], False)[0], 3)) == (v == 0), 'default threshold')


def stagnation(limit, seq, hib, kind, s):
    """seq: per generation, one best score per sub-population"""
    rng = random.Random(s)
    c = BestFitnessStagnationTerminationChecker(stagnation_generations_to_terminate=limit)
    last, same = None, 0
    for g, row in enumerate(seq):
        subs = []
        for b in row:
            others = [b + (-1 if hib else 1) * rng.uniform(1, 9) for _ in range(rng.randint(0, 4))]
            vals = others + [b]
            rng.shuffle(vals)
            subs.append(pop_of(vals, hib))
        got = c.should_terminate(Population(subs), subs[0].get_best_individual(), g)
        if last is not None and row == last:
            same += 1
            want = same >= limit
        else:
            last, same, want = row, 0, False
        need(bool(got) == want, 'generation %d: unchanged for %d of %d generations, gave %r', g, same, limit, got)


def close(limit, s):
    """approximately equal scores count as unchanged; clearly different ones do not"""
    c = BestFitnessStagnationTerminationChecker(limit)
    base = 1000.0
    for k in range(limit + 1):
        got = c.should_terminate(Population([pop_of([base * (1 + (k % 2) * 1e-12), base + 50], False)]), None, k)
        need(bool(got) == (k >= limit), 'approximately equal at generation %d', k)
    got = c.should_terminate(Population([pop_of([base * 0.999], False)]), None, 0)
    need(not got, 'changed score still counted as stagnation')


def drift(limit, start, step, n, nsub, s):
    """scores that creep: unchanged means close to the scores of the generation in which they last changed"""
    c = BestFitnessStagnationTerminationChecker(limit)
    last, same = None, 0
    for g in range(n):
        row = [start * (1 + g * step)] + [7.0] * (nsub - 1)
        if s % 2:
            row.reverse()
        got = c.should_terminate(Population([pop_of([v], False) for v in row]), None, g)
        if last is not None and all(math.isclose(a, b) for a, b in zip(row, last)):
            same += 1
            want = same >= limit
        else:
            last, same, want = row, 0, False
        need(bool(got) == want, 'generation %d of a creeping score: unchanged for %d of %d generations, gave %r', g, same, limit, got)


def crowding(values, thr, split, s):
    inds = []
    for v in values:
        f = NSGA2Fitness(fitness=[1.0, 2.0], higher_is_better=True)
        f.crowding = v
        f.front_rank = 1
        inds.append(Ind(f, [1]))
    groups = [inds] if not split else [inds[:split], inds[split:]]
    subs = [Subpopulation(Ev(), creators=Cr(), operators_sequence=[], individuals=g, population_size=len(g)) for g in groups]
    fin = [v for v in values if v != math.inf]
    m = max(fin) if fin else math.inf
    want = m < thr and m != 0
    c = CrowdingTerminationChecker(threshold=thr)
    got = c.should_terminate(Population(subs), None, 3)
    need(bool(got) == want, 'crowdings %r, threshold %r: %r', values, thr, got)
    need([i.fitness.crowding for i in inds] == list(values), 'crowding changed')


def run(h):
    r = h.rng
    h.run(defaults)
    vals = [0.0, 1.0, -1.0, 0.5, 100.0, -100.0, 0.25, 2.0, -0.5, 1e-9]
    for sc in vals:
        for opt in (0.0, 1.0, -1.0, 100.0, 0.5):
            for thr in (0.0, 0.5, 1.0, 0.25, 2.0, 1e-9, 99.0):
                h.run(threshold, score_=sc, optimal=opt, thr=thr, hib=(sc + opt) % 1 == 0, gp=thr == 0.5)
                if thr:
                    for eps in (1e-6, -1e-6):
                        h.run(threshold, score_=opt + thr * (1 + eps), optimal=opt, thr=thr, hib=True, gp=False)
                        h.run(threshold, score_=opt - thr * (1 + eps), optimal=opt, thr=thr, hib=False, gp=False)
    for limit in h.ints([1, 2, 3, 5], 1, 12):
        for hib in (True, False):
            for nsub in (1, 2, 3):
                for _ in range(h.scale(4)):
                    seq, row = [], [float(r.randint(0, 5)) for _ in range(nsub)]
                    for _ in range(r.choice([3, 10, 3 * limit + 5])):
                        if r.random() < .5 / limit:
                            row = list(row)
                            row[r.randrange(nsub)] += r.choice([1.0, -1.0])
                        seq.append(list(row))
                    h.run(stagnation, limit=limit, seq=seq, hib=hib, kind='simple')
            h.run(stagnation, limit=limit, seq=[[0.0]] * (limit + 3), hib=hib, kind='simple')
            h.run(stagnation, limit=limit, seq=[[1.0]] * limit + [[2.0]] * limit + [[1.0]] * (limit + 2), hib=hib, kind='simple')
            h.run(stagnation, limit=limit, seq=[[1.0, 2.0]] * limit + [[2.0, 1.0]] * limit + [[2.0, 1.5]] * (limit + 1), hib=hib, kind='simple')
        h.run(close, limit=limit)
        for step in (6e-10, 3e-10, 1e-10, -4e-10, 2e-9):
            for nsub in (1, 2):
                h.run(drift, limit=limit, start=1.0, step=step, n=4 * limit + 4, nsub=nsub, s=0)
                h.run(drift, limit=limit, start=-250.0, step=step, n=4 * limit + 4, nsub=nsub, s=1)
    h.run(stagnation, limit=100, seq=[[3.0]] * 105, hib=True, kind='simple')
    cv = [0, 0.0, 0.05, 0.1, 0.0999, 0.5, 1.0, 2.5, math.inf]
    for _ in range(h.scale(300)):
        n = r.choice([1, 2, 3, 6, 12])
        v = [r.choice(cv) for _ in range(n)]
        split = 0
        if n > 3 and r.random() < .4:
            split = r.randint(1, n - 1)
            if all(x == math.inf for x in v[:split]) or all(x == math.inf for x in v[split:]):
                split = 0
        h.run(crowding, values=v, thr=r.choice([0.1, 0.05, 1.0, 0.5, 3.0]), split=split)
