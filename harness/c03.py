"""C03 elitism"""
from .common import *
from . import c02
from .c02 import Spoil, population
from eckity.breeders import SimpleBreeder
from eckity.genetic_operators import TournamentSelection, FitnessProportionateSelection

DOC = 'breeding steps in which every operator spoils every genome it touches: what is left unspoiled must be the n best'


def elites(n, rate, arities, style, hib, kind, ties, sel, dup, s):
    rng = random.Random(s)
    vals = [float(rng.randint(0, max(1, n // 3))) if ties else float(i) for i in range(n)]
    rng.shuffle(vals)
    inds = mk(vals, hib, kind, bloat=rng.choice([0.5, 3.0]), sizes=[rng.randint(1, 7) for _ in range(n)], cache=rng.random() < .5)
    m = TournamentSelection(rng.choice([1, 2, 5]), higher_is_better=hib) if sel == 'tour' else FitnessProportionateSelection(higher_is_better=hib)
    if sel == 'fp' and min(aug(i) for i in inds) < 0:
        return
    sp = population(inds, hib, [Spoil(a, style) for a in arities], m, rate)
    want = round(rate * n)
    need(sp.n_elite == want, 'rate %r of %d gives %r elites', rate, n, sp.n_elite)
    A = {i.id: aug(i) for i in inds}
    G = {i.id: genome(i) for i in inds}
    SC = {i.id: i.get_pure_fitness() for i in inds}
    SimpleBreeder().apply_breed(Population([sp]))
    new = sp.individuals
    need(len(new) == n, 'size')
    clean = [i for i in new if 'spoiled' not in i.genome]
    if arities:
        need(len(clean) == want, '%d unaltered individuals, expected %d elites', len(clean), want)
    orig = [i.cloned_from for i in clean]
    for i in clean:
        need(i.cloned_from in G and i.genome == G[i.cloned_from], 'elite is not a copy of an individual of the old generation')
        if i.fitness.is_fitness_evaluated():
            need(i.get_pure_fitness() == SC[i.cloned_from], 'score of an elite copy')
    if arities:
        check_best(orig, A, hib, want)
    else:
        # no operators: the n best must be among the copies
        order = sorted(A.values(), reverse=hib)[:want]
        have = sorted((A[k] for k in set(orig)), reverse=hib)[:want]
        need(have == order, 'elites %r, expected %r', have, order)


def check_best(orig, A, hib, want):
    need(len(set(orig)) == want, 'elites are not distinct individuals')
    for k, v in A.items():
        if k not in orig:
            need(not any(better(v, A[o], hib) for o in orig), 'an individual outside the elites is strictly better than an elite')


def several(n, rate, arities, hib, gens, s):
    """several generations, scores from a fixed table by genome"""
    rng = random.Random(s)
    inds = mk([rng.uniform(0, 9) for _ in range(n)], hib)
    sp = population(inds, hib, [Spoil(a, 'same') for a in arities], TournamentSelection(2, higher_is_better=hib), rate)
    br = SimpleBreeder()
    best = None
    for g in range(gens):
        for i in sp.individuals:
            if 'spoiled' in i.genome:
                i.genome[:] = [('g', g, rng.random())]
                i.fitness.set_fitness(rng.uniform(0, 9))
            elif not i.fitness.is_fitness_evaluated():
                i.fitness.set_fitness(0.0)
        A = {i.id: aug(i) for i in sp.individuals}
        cur = max(A.values()) if hib else min(A.values())
        if sp.n_elite > 0 and best is not None:
            need(not better(best, cur, hib), 'best score lost despite elitism')
        best = cur
        br.apply_breed(Population([sp]))
        clean = [i for i in sp.individuals if 'spoiled' not in i.genome]
        need(len(clean) == sp.n_elite, 'number of unaltered individuals')
        check_best([i.cloned_from for i in clean], A, hib, sp.n_elite)


def run(h):
    r = h.rng
    sizes = h.ints([1, 2, 4, 6, 10, 12, 20], 1, 30)
    for n in sizes:
        for hib in (True, False):
            for _ in range(h.scale(6)):
                ar = [a for a in (1, 2, 3) if n % a == 0]
                h.run(elites, n=n, rate=r.choice([0.0, 1 / n, min(1.0, 2 / n), 0.25, 0.5, 0.05, 0.15, 0.75, 1.0, (n - 1) / n]), arities=r.choice([[1], ar, ar[::-1], [ar[-1]], []]),
                      style=r.choice(['same', 'list', 'clones', 'reversed']), hib=hib, kind=r.choice(['simple', 'gp']), ties=r.random() < .4, sel=r.choice(['tour', 'tour', 'fp']), dup=False)
    for n in (4, 10):
        for hib in (True, False):
            for rate in (0.1, 0.25, 0.5, 0.3):
                h.run(several, n=n, rate=rate, arities=[2, 1], hib=hib, gens=h.scale(25, 100))
