"""C21 population queries"""
from .common import *
from .c02 import Cr, Ev
from eckity.creators.creator import Creator

DOC = 'queries on random evaluated populations against direct computation; constructor rejections; creation'


class Rec(Creator):
    def __init__(self, tag, log):
        super().__init__()
        self.tag, self.log = tag, log

    def create_individuals(self, n, hib):
        self.log.append((self.tag, n, hib))
        return mk([None] * n, hib)


def sub(inds, hib, **kw):
    return Subpopulation(Ev(), creators=Cr(), operators_sequence=[], individuals=inds, population_size=len(inds), higher_is_better=hib, **kw)


def queries(ns, hibs, kind, ties, s):
    rng = random.Random(s)
    subs = []
    for n, hib in zip(ns, hibs):
        vals = [float(rng.randint(-3, 3)) if ties else rng.uniform(-50, 50) for _ in range(n)]
        if rng.random() < .3:
            vals = sorted(vals, reverse=rng.random() < .5)
        subs.append(sub(mk(vals, hib, kind, bloat=rng.choice([0.5, 8.0]), sizes=[rng.randint(1, 9) for _ in range(n)]), hib))
    pop = Population(subs)
    before = [[snap(i) for i in sp.individuals] for sp in subs]
    lists = [list(sp.individuals) for sp in subs]

    def best_ok(b, sp, sign):
        A = [aug(i) for i in sp.individuals]
        need(any(b is i for i in sp.individuals), 'reported individual is not a member')
        for x in A:
            if sign > 0:
                need(not better(x, aug(b), sp.higher_is_better), 'a member beats the reported best')
            else:
                need(not better(aug(b), x, sp.higher_is_better), 'the reported worst beats a member')

    def avg_ok(v, sp):
        xs = [i.get_pure_fitness() for i in sp.individuals]
        need(abs(float(v) - sum(xs) / len(xs)) <= 1e-9 * max(1, max(map(abs, xs))), 'average %r, mean is %r', v, sum(xs) / len(xs))
    for _ in range(2):
        for sp in subs:
            best_ok(sp.get_best_individual(), sp, 1)
            best_ok(sp.get_worst_individual(), sp, -1)
            avg_ok(sp.get_average_fitness(), sp)
        for got, f in ((pop.get_best_individuals(), lambda b, sp: best_ok(b, sp, 1)), (pop.get_worst_individuals(), lambda b, sp: best_ok(b, sp, -1)), (pop.get_average_fitness(), avg_ok)):
            need(len(got) == len(subs), '%d results for %d sub-populations', len(got), len(subs))
            for g, sp in zip(got, subs):
                f(g, sp)
        for sp in subs:
            for i in sp.individuals:
                need(pop.find_individual_subpopulation(i) is sp, 'individual found in another sub-population')
                need(sp.contains_individual(i), 'contains_individual')
        out = mk([1.0], True)[0]
        need(raises(lambda: pop.find_individual_subpopulation(out)), 'foreign individual found')
        need(raises(lambda: pop.find_individual_subpopulation(subs[0].individuals[0].clone())), 'a clone was taken for its origin')
        need(not any(sp.contains_individual(out) for sp in subs), 'contains_individual of a foreign individual')
    for sp, l, b in zip(subs, lists, before):
        need(len(sp.individuals) == len(l) and all(x is y for x, y in zip(sp.individuals, l)), 'a query changed the order of individuals')
        need([snap(i) for i in l] == b, 'a query modified an individual')


def create(k, pcr, size, hib, given, s):
    log = []
    crs = [Rec(i, log) for i in range(k)]
    g = mk([1.0] * 3, hib) if given == 'some' else [] if given == 'empty' else None
    sp = Subpopulation(Ev(), creators=crs if k > 1 or s % 2 else crs[0], pcr=pcr, operators_sequence=[], population_size=size, individuals=g, higher_is_better=hib)
    pop = Population([sp])
    pop.create_population_individuals()
    if given != 'none':
        need(sp.individuals is g and not log, 'given individuals replaced')
        return
    need(len(log) == 1 and log[0][1:] == (size, hib), 'creator called with %r', log)
    need(len(sp.individuals) == size, 'size')
    if pcr:
        need(pcr[log[0][0]] > 0, 'creator of probability 0 used')
    l = sp.individuals
    pop.create_population_individuals()
    need(sp.individuals is l and len(log) == 1, 'individuals replaced on second creation')


def refused(s):
    c = Cr()
    ok = dict(creators=[c], operators_sequence=[], population_size=4)
    Subpopulation(Ev(), **ok)
    bad = [dict(creators=None), dict(creators=[]), dict(creators=['x']), dict(creators=[c, 'x']), dict(creators=[c, None]), dict(creators='x'), dict(creators=5), dict(creators=(c,)),
           dict(pcr=[0.5, 0.5]), dict(pcr=[]), dict(pcr=[0.5]), dict(pcr=[1.5]), dict(pcr=[0]), dict(creators=[c, c], pcr=[1.0]), dict(creators=[c, c], pcr=[0.5, 0.25]),
           dict(creators=[c, c], pcr=[1.0, 1.0]), dict(creators=[c, c], pcr=[0.5, 0.5, 0.0]), dict(operators_sequence=None)]
    for b in bad:
        need(raises(lambda: Subpopulation(Ev(), **dict(ok, **b))), 'sub-population with %r accepted', b)
    for k in (1, 2, 4, 5, 8):
        Subpopulation(Ev(), creators=[c] * k, operators_sequence=[])
    Subpopulation(Ev(), creators=[c, c], pcr=[0.25, 0.75], operators_sequence=[])


def elites(rate, n, s):
    sp = Subpopulation(Ev(), creators=Cr(), operators_sequence=[], population_size=n, elitism_rate=rate)
    need(sp.n_elite == round(rate * n), 'number of elites')
    need(sp.population_size == n, 'population size')


def run(h):
    r = h.rng
    h.run(refused)
    sizes = h.ints([1, 2, 3, 8, 25], 1, 60)
    for _ in range(h.scale(250)):
        k = r.choice([1, 1, 2, 3, 5])
        h.run(queries, ns=[r.choice(sizes) for _ in range(k)], hibs=[r.random() < .5 for _ in range(k)], kind=r.choice(['simple', 'gp']), ties=r.random() < .4)
    for k, pcr in ((1, None), (2, None), (4, None), (2, [0.0, 1.0]), (3, [0.0, 0.5, 0.5]), (3, [1.0, 0.0, 0.0])):
        for hib in (True, False):
            for given in ('none', 'some', 'empty'):
                for _ in range(4):
                    h.run(create, k=k, pcr=pcr, size=r.choice([1, 3, 10]), hib=hib, given=given)
    for n in (1, 4, 10, 200):
        for rate in (0.0, 0.1, 0.25, 1.0, 0.05):
            h.run(elites, rate=rate, n=n)
