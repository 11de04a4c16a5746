"""C13 NSGA-II survivor selection"""
import math
from .common import *
from .c02 import Cr, Ev
from eckity.multi_objective_evolution.nsga2_front_sorting import NSGA2FrontSorting
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness

DOC = 'survivor selection on random objective vectors against a brute-force ranking and crowding oracle'


def dom(a, b, dirs):
    ge = all((x >= y if d else x <= y) for x, y, d in zip(a, b, dirs))
    return ge and any((x > y if d else x < y) for x, y, d in zip(a, b, dirs))


def ranks(vals, dirs):
    left, r, out = set(range(len(vals))), 1, {}
    while left:
        front = [i for i in left if not any(dom(vals[j], vals[i], dirs) for j in left)]
        for i in front:
            out[i] = r
        left -= set(front)
        r += 1
    return out


def crowd(front, vals):
    m = len(vals[front[0]])
    c = {i: 0.0 for i in front}
    for k in range(m):
        o = sorted(front, key=lambda i: vals[i][k])
        rg = vals[o[-1]][k] - vals[o[0]][k]
        c[o[0]] = c[o[-1]] = math.inf
        for a, b, d in zip(o, o[1:], o[2:]):
            if rg:
                c[b] += (vals[d][k] - vals[a][k]) / rg
    return c


def select(n, m, size, dirs, shape, stale, s, unit=1.0):
    rng = random.Random(s)
    if shape == 'ties':
        vals = [[float(rng.randint(0, 3)) for _ in range(m)] for _ in range(n)]
    elif shape == 'front':
        vals = []
        for k in range(n):
            v = [float(k * k + k)] + [float(rng.randint(0, 50)) + k / 1000 for _ in range(m - 1)]
            if m > 1:
                v[1] = float((n - k) ** 3) / 7
            vals.append([-x if d else x for x, d in zip(v, dirs)])
        rng.shuffle(vals)
    elif shape == 'chain':
        vals = [[float(k + j * 0.5) for j in range(m)] for k in range(n)]
        rng.shuffle(vals)
    else:
        cols = [rng.sample(range(10 * n), n) for _ in range(m)]
        vals = [[float(c[k]) / 4 for c in cols] for k in range(n)]
    vals = [[x * unit for x in v] for v in vals]
    inds = []
    for v in vals:
        f = NSGA2Fitness(fitness=list(v), higher_is_better=list(dirs)) if rng.random() < .5 else NSGA2Fitness(higher_is_better=list(dirs))
        if not f.is_fitness_evaluated():
            f.set_fitness(list(v))
        if stale:
            f.crowding, f.front_rank = rng.choice([0, 5.0, math.inf]), rng.choice([1, 2, 9])
        inds.append(Ind(f, [rng.random() for _ in range(3)]))
    rk = ranks(vals, dirs)
    want = size if size else n // 2
    idx = {id(i): k for k, i in enumerate(inds)}
    gs = [genome(i) for i in inds]
    sp = Subpopulation(Ev(), creators=Cr(), operators_sequence=[], individuals=list(inds), population_size=n)
    srt = NSGA2FrontSorting()
    if size:
        srt.select_for_population(Population([sp]), size)
    else:
        srt.select_for_population(Population([sp]))
    out = sp.individuals
    need(len(out) == want, '%d survivors, requested %d', len(out), want)
    need(len({id(i) for i in out}) == want and all(id(i) in idx for i in out), 'survivors are not distinct members of the population')
    for k, i in enumerate(inds):
        need(genome(i) == gs[k] and i.get_pure_fitness() == vals[k], 'score or genome altered')
    if not want:
        return
    sel = {idx[id(i)] for i in out}
    last = max(rk[k] for k in sel)
    fronts = {}
    for k, r in rk.items():
        fronts.setdefault(r, []).append(k)
    for r in range(1, last):
        need(set(fronts[r]) <= sel, 'front %d is incomplete although rank %d survives', r, last)
    for k in sel:
        need(inds[k].fitness.front_rank == rk[k], 'survivor of rank %d carries rank %r', rk[k], inds[k].fitness.front_rank)
    for r in range(1, last + 1):
        fr = fronts[r]
        if all(len({vals[i][k] for i in fr}) == len(fr) for k in range(m)):         # no ties within the front
            c = crowd(fr, vals)
            for k in fr:
                if k in sel:
                    got = inds[k].fitness.crowding
                    need(got == c[k] or abs(got - c[k]) < 1e-9 * max(1, abs(c[k])), 'crowding %r, expected %r', got, c[k])
            out_ = [c[k] for k in fr if k not in sel]
            in_ = [c[k] for k in fr if k in sel]
            if out_ and in_:
                need(min(in_) >= max(out_) - 1e-9, 'survivor with crowding %r preferred to %r', min(in_), max(out_))
        else:
            for k in range(m):
                lo, hi = min(vals[i][k] for i in fr), max(vals[i][k] for i in fr)
                for end in (lo, hi):
                    e = [i for i in fr if vals[i][k] == end]
                    if len(e) == 1 and e[0] in sel:
                        need(inds[e[0]].fitness.crowding == math.inf, 'extreme of a front has crowding %r', inds[e[0]].fitness.crowding)
            if len(fr) == 1 and fr[0] in sel:
                need(inds[fr[0]].fitness.crowding == math.inf, 'single member')
            cs = [inds[k].fitness.crowding for k in fr if k in sel]
            need(all(x >= 0 for x in cs), 'negative crowding')


def again(n, m, gens, s):
    """repeated selections with re-evaluated survivors (stale ranks and crowding from the previous step)"""
    rng = random.Random(s)
    srt = NSGA2FrontSorting()
    dirs = [rng.random() < .5 for _ in range(m)]
    pop = [Ind(NSGA2Fitness(higher_is_better=list(dirs)), [k]) for k in range(n)]
    for g in range(gens):
        vals = {}
        for i in pop:
            if not i.fitness.is_fitness_evaluated():
                i.fitness.set_fitness([rng.uniform(0, 9) for _ in range(m)])
        keys = list(pop)
        vs = [i.get_pure_fitness() for i in keys]
        rk = ranks(vs, dirs)
        sp = Subpopulation(Ev(), creators=Cr(), operators_sequence=[], individuals=list(pop), population_size=n)
        srt.select_for_population(Population([sp]), n // 2)
        sel = [next(k for k, x in enumerate(keys) if x is i) for i in sp.individuals]
        need(len(set(sel)) == n // 2, 'survivors')
        need(sorted(rk[k] for k in sel) == sorted(rk.values())[:n // 2], 'ranks of the survivors')
        for k in sel:
            need(keys[k].fitness.front_rank == rk[k], 'rank')
        new = []
        for i in sp.individuals:
            c = i.clone()
            c.fitness.set_not_evaluated()
            new.append(c)
        pop = sp.individuals + new


def run(h):
    r = h.rng
    for m in (1, 2, 3, 4):
        for shape in ('rand', 'ties', 'front', 'chain'):
            for _ in range(h.scale(30)):
                n = r.choice([1, 2, 3, 4, 6, 9, 14, 25])
                h.run(select, n=n, m=m, size=r.choice([None, None, 1, n, max(1, n - 1), r.randint(1, n)]), dirs=[r.random() < .5 for _ in range(m)], shape=shape, stale=r.random() < .5,
                      unit=r.choice([1.0, 1.0, 1e-3, 1e-9, 1e6]))
    for n in h.ints([40, 80], 2, 80):
        h.run(select, n=n, m=2, size=None, dirs=[True, False], shape='front', stale=False)
        h.run(select, n=n, m=2, size=n, dirs=[False, False], shape='rand', stale=True)
    for m in (2, 3):
        for n in (4, 10, 16):
            h.run(again, n=n, m=m, gens=h.scale(6, 30))
