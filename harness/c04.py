"""C04 selection"""
import math
from .common import *
from eckity.genetic_operators import TournamentSelection, ElitismSelection, FitnessProportionateSelection

DOC = 'selections on random populations and pre-filled destinations; copies, frames, legality of winners; rank distribution of tournament winners'


def make_pop(n, ties, hib, kind, rng, lo=0):
    vals = [float(rng.randint(lo, max(lo + 1, n // 3))) if ties else float(i) + lo for i in range(n)]
    rng.shuffle(vals)
    sizes = [rng.randint(1, 9) for _ in range(n)]
    return mk(vals, hib, kind, bloat=rng.choice([0.5, 4.0]), sizes=sizes, cache=rng.random() < .5, parents=rng.random() < .5)


def select(which, n, d, hib, kind, ties, t, replace, via, s):
    rng = random.Random(s)
    src = make_pop(n, ties, hib, kind, rng, 0 if which != 'fp' else 1)
    for i in src:
        i.selected_by.extend(['old'] * rng.randint(0, 2))
        if rng.random() < .3:
            i.cloned_from = 10 ** 9
    dst = make_pop(d, ties, hib, kind, rng)
    if d and rng.random() < .3:
        dst = [x.clone() for x in src[:d]]
    sel = {'tour': lambda: TournamentSelection(tournament_size=t, higher_is_better=hib, replace=replace),
           'elite': lambda: ElitismSelection(num_elites=t, higher_is_better=hib),
           'fp': lambda: FitnessProportionateSelection(higher_is_better=hib)}[which]()
    A = [aug(i) for i in src]
    if which == 'fp' and min(A) < 0:
        return
    s0, d0, S, D = [snap(i) for i in src], [snap(i) for i in dst], list(src), list(dst)
    byid = {i.id: k for k, i in enumerate(src)}
    out = sel.select(src, dst) if via == 'select' else sel.apply_operator((src, dst)) if via == 'apply' else sel.act((src, dst))
    need(len(src) == n and all(a is b for a, b in zip(src, S)), '%s changed the source list', which)
    need([snap(i) for i in src] == s0, '%s modified a source individual', which)
    need(all(a is b for a, b in zip(dst, D)) and [snap(i) for i in dst[:d]] == d0, '%s disturbed the destination', which)
    need(out is dst, '%s does not return the destination', which)
    new = dst[d:]
    want = min(t, n) if which == 'elite' else n - d
    need(len(new) == want, '%s appended %d individuals, expected %d', which, len(new), want)
    seen = {id(i) for i in S + D}
    comps = {id(x) for i in S + D for x in (i.genome, i.fitness, i.selected_by, i.applied_operators)}
    ids = {i.id for i in S + D}
    picked = []
    for c in new:
        need(id(c) not in seen, '%s appended an individual twice or a source individual itself', which)
        seen.add(id(c))
        need(c.id not in ids, 'copy without an id of its own')
        ids.add(c.id)
        need(c.cloned_from in byid, 'copy records origin %r, not a source individual', c.cloned_from)
        k = byid[c.cloned_from]
        picked.append(k)
        need(c.genome == src[k].genome, 'copy has another genome than its origin')
        need(c.selected_by == s0[k]['selected_by'] + [type(sel).__name__], 'copy records selections %r', c.selected_by)
        for x in (c.genome, c.fitness, c.selected_by, c.applied_operators):
            need(id(x) not in comps, 'copy shares state')
            comps.add(id(x))
    if which == 'tour' and not replace:
        for k in picked:                      # beaten by at most n - t others
            need(sum(better(x, A[k], hib) for x in A) <= n - t, 'winner beaten by %d of %d with groups of %d', sum(better(x, A[k], hib) for x in A), n, t)
    if which == 'elite':
        need(len(set(picked)) == len(picked), 'the same individual twice among the elites')
        for k in range(n):
            if k not in picked:
                need(not any(better(A[k], A[j], hib) for j in picked), 'an individual outside the elites is strictly better')


def tour_dist(n, t, hib, replace, draws, kind, s):
    """winners of tournaments of size t: rank distribution"""
    rng = random.Random(s)
    vals = [float(i) for i in range(n)]
    rng.shuffle(vals)
    src = mk(vals, hib, kind, bloat=1.0 / 64, sizes=[rng.randint(1, 5) for _ in range(n)], cache=False)
    rank = {i.id: r for r, i in enumerate(sorted(src, key=lambda i: i.get_pure_fitness(), reverse=hib))}
    sel = TournamentSelection(tournament_size=t, higher_is_better=hib, replace=replace)
    cnt, tot = [0] * n, 0
    while tot < draws:
        dst = []
        sel.select(src, dst)
        for c in dst:
            cnt[rank[c.cloned_from]] += 1
            tot += 1
    for r in range(n - 1):
        p = ((n - 1 - r) / n) ** t if replace else math.comb(n - 1 - r, t) / math.comb(n, t)   # P(rank > r)
        got = sum(cnt[r + 1:])
        sd = math.sqrt(tot * p * (1 - p))
        need(abs(got - tot * p) <= 6.5 * sd + (1e-9 if p in (0, 1) else 4), 'tournament size %d of %d: P(rank>%d)=%.4f expected %.4f', t, n, r, got / tot, p)


def rejected(s):
    src = mk([1.0, 2.0, 3.0], False)
    e = raises(lambda: TournamentSelection(4, replace=False).select(src, []))
    need(e, 'sample larger than the population accepted')
    neg = mk([-1.0, 2.0], True)
    need(raises(lambda: FitnessProportionateSelection(True).select(neg, [])), 'negative scores accepted')


def run(h):
    r = h.rng
    h.run(rejected)
    ns = h.ints([1, 2, 3, 4, 5, 8, 13, 21], 1, 40)
    for hib in (True, False):
        for kind in ('simple', 'gp'):
            for n in ns:
                for _ in range(h.scale(2)):
                    via = r.choice(['select', 'apply', 'act'])
                    h.run(select, which='elite', n=n, d=r.choice([0, 1, n // 2, n]), hib=hib, kind=kind, ties=r.random() < .4, t=r.choice([0, 1, 2, n // 2, n - 1, n, n + 2]), replace=True, via=via)
                    for rep in (True, False):
                        h.run(select, which='tour', n=n, d=r.choice([0, 0, 1, n // 2, n]), hib=hib, kind=kind, ties=r.random() < .4,
                              t=r.choice([1, 2, 3, 4, 10] if rep else [1, (n + 1) // 2, n, max(1, n - 1)]), replace=rep, via=via)
                    h.run(select, which='fp', n=n, d=r.choice([0, 1, n // 2, n]), hib=hib, kind='simple', ties=r.random() < .4, t=0, replace=True, via=via)
    h.run(select, which='tour', n=301, d=0, hib=True, kind='simple', ties=True, t=301, replace=False, via='select')
    for hib in (True, False):
        for n, t, rep in ((6, 1, True), (6, 2, True), (6, 3, True), (8, 2, False), (5, 4, True), (7, 3, False), (12, 10, True), (10, 1, False)):
            h.run(tour_dist, n=n, t=t, hib=hib, replace=rep, draws=h.scale(4000, 20000), kind='simple' if n % 2 else 'gp')
