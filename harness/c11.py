"""C11 tree creators"""
from .common import *
from .trees import *
from eckity.creators.gp_creators.full import FullCreator
from eckity.creators.gp_creators.grow import GrowCreator
from eckity.creators.gp_creators.half import HalfCreator

DOC = 'creators over 9 configurations, depth ranges and counts; trees checked by an independent parser'


def common(inds, n, conf, c, hib, bloat, parents):
    need(len(inds) == n, '%d trees created, %d requested', len(inds), n)
    need(len({id(i) for i in inds}) == n and len({id(i.tree) for i in inds}) == n and len({id(i.fitness) for i in inds}) == n, 'trees share state')
    nodes = [id(x) for i in inds for x in i.tree]
    need(len(set(nodes)) == len(nodes), 'trees share nodes')
    es = []
    for i in inds:
        e = well_formed(i, c)
        if c[2] is None:
            need(all(x.node_type is None for x in i.tree), 'typed node in an untyped tree')
        f = i.fitness
        need(score(i) == 'unevaluated' and not f.is_fitness_evaluated(), 'fitness of a new tree is evaluated')
        need(f.higher_is_better is hib, 'direction')
        need(bloat is None or f.bloat_weight == bloat, 'bloat weight %r instead of %r', f.bloat_weight, bloat)
        need(i.root_type is c[2] and i.update_parents == parents and i.erc_range == c[3], 'settings of a new tree')
        if c[3]:
            lo, hi = c[3]
            for x in i.tree:
                if isinstance(x, TerminalNode) and isinstance(x.value, (int, float)) and x.value not in list(c[1]):
                    need(lo <= x.value <= hi and type(x.value) is type(lo), 'constant %r outside %r', x.value, c[3])
        es.append(e)
    return es


def args(conf):
    c = ALL[conf]
    return c, dict(function_set=list(c[0]), terminal_set=dict(c[1]) if c[2] else list(c[1]), root_type=c[2], erc_range=c[3])


def single(kind, conf, lo, hi, n, hib, bloat, prune, parents, s):
    c, kw = args(conf)
    kw.update(init_depth=(lo, hi), bloat_weight=bloat, update_parents=parents)
    cr = FullCreator(**kw) if kind == 'full' else GrowCreator(p_prune=prune, **kw)
    for _ in range(2):
        inds = cr.create_individuals(n, hib)
        es = common(inds, n, conf, c, hib, bloat, parents)
        for e, i in zip(es, inds):
            ls = leaves(e)
            if kind == 'full':
                need(set(ls) == {hi}, 'full tree of depth %d has leaves at depths %r', hi, sorted(set(ls)))
            else:
                need(min(ls) >= lo and max(ls) <= hi, 'grown tree with leaves at %r, allowed %d..%d', sorted(set(ls)), lo, hi)
                if prune == 0:
                    need(set(ls) == {hi}, 'unpruned tree with leaves at %r', sorted(set(ls)))
                if prune >= 1 and lo < hi:
                    need(set(ls) == {lo}, 'always pruned tree with leaves at %r', sorted(set(ls)))
            need(i.depth() == max(ls) and i.size() == size(e), 'depth or size')


def half(conf, lo, hi, n, hib, mode, s):
    c, kw = args(conf)
    parts = 2 * (hi + 1 - lo)
    if mode == 'own':
        cr = HalfCreator(init_depth=(lo, hi), grow_creator=GrowCreator(init_depth=(lo, hi), bloat_weight=0.25, p_prune=0.0, **kw),
                         full_creator=FullCreator(init_depth=(lo, hi), bloat_weight=0.75, **kw), **kw)
        b = None
    else:
        cr = HalfCreator(init_depth=(lo, hi), bloat_weight=0.375, **kw)
        b = 0.375
    g = n // parts
    if g == 0:
        need(raises(lambda: cr.create_individuals(n, hib), ValueError), 'population of %d accepted for %d groups', n, parts)
        return
    for _ in range(2):
        inds = cr.create_individuals(n, hib)
        es = common(inds, n, conf, c, hib, b, False)
        ls = [leaves(e) for e in es]
        need(all(min(l) >= lo and max(l) <= hi for l in ls), 'leaf outside the depth range')
        want = {d: g for d in range(lo, hi + 1)}
        if mode == 'own':
            for w, nm in ((0.25, 'grown'), (0.75, 'full')):
                cnt = {}
                for i, l in zip(inds, ls):
                    if i.fitness.bloat_weight == w:
                        need(len(set(l)) == 1, '%s tree', nm)
                        cnt[l[0]] = cnt.get(l[0], 0) + 1
                exp = dict(want)
                if w == 0.75:
                    exp[hi] += n - g * parts
                need(cnt == exp, '%s trees by depth: %r, expected %r', nm, cnt, exp)
        else:
            fulls = {}
            for l in ls:
                if len(set(l)) == 1:
                    fulls[l[0]] = fulls.get(l[0], 0) + 1
            for d in range(lo, hi + 1):
                need(fulls.get(d, 0) >= g + (n - g * parts if d == hi else 0), 'only %d full trees of depth %d', fulls.get(d, 0), d)
            for d in range(lo, hi):
                need(sum(max(l) <= d for l in ls) >= 2 * g * (d - lo + 1), 'too few trees of depth at most %d', d)


def no_node(kind, s):
    """no suitable node: an error, never a malformed tree"""
    # a bool is required at depth 1, but only functions of type float exist
    def fb(t: bool, x: float) -> float:
        return x
    SIG[fb] = ([bool, float], float)
    kw = dict(function_set=[fb], terminal_set={'p': bool, 'x': float}, root_type=float)
    for d in ((2, 3), (2, 2), (3, 5)):
        cr = {'full': FullCreator, 'grow': GrowCreator, 'half': HalfCreator}[kind](init_depth=d, **kw)
        need(raises(lambda: cr.create_individuals(8, True), ValueError), '%s creator without a suitable function did not raise', kind)
    need(raises(lambda: GrowCreator(init_depth=(1, 2), terminal_set=['x'])), 'no function set')
    need(raises(lambda: FullCreator(init_depth=(1, 2), function_set=[sub2])), 'no terminal set')
    cr = {'full': FullCreator, 'grow': GrowCreator, 'half': HalfCreator}[kind](init_depth=(1, 2), function_set=[sub2, neg1], terminal_set=[])
    need(raises(lambda: cr.create_individuals(8, True), ValueError), '%s creator without terminals did not raise', kind)


def run(h):
    r = h.rng
    for conf in ALL:
        for kind in ('full', 'grow'):
            for lo, hi in ((1, 1), (1, 3), (2, 4), (2, 2), (1, 4), (3, 4)):
                h.run(single, kind=kind, conf=conf, lo=lo, hi=hi, n=r.choice([1, 2, 5, 9]), hib=r.random() < .5, bloat=r.choice([0.0, 0.1, 0.7]), prune=r.choice([0.5, 0.5, 0.0, 1.0, 0.2]), parents=r.random() < .5)
            if ALL[conf][2] is None:
                h.run(single, kind=kind, conf=conf, lo=0, hi=2, n=5, hib=True, bloat=0.0, prune=0.5, parents=False)
                h.run(single, kind=kind, conf=conf, lo=0, hi=0, n=5, hib=True, bloat=0.0, prune=0.5, parents=False)
        for lo, hi in ((1, 1), (1, 2), (2, 4), (1, 3), (3, 3)):
            for n in sorted({1, 2 * (hi + 1 - lo) - 1, 2 * (hi + 1 - lo), r.randint(1, 30), r.randint(10, 30)}):
                h.run(half, conf=conf, lo=lo, hi=hi, n=n, hib=r.random() < .5, mode=r.choice(['own', 'default']))
    for n in h.ints([1, 50], 1, 110):
        h.run(single, kind='grow', conf='UNTYPED', lo=1, hi=2, n=n, hib=True, bloat=0.1, prune=0.5, parents=False)
        h.run(half, conf='UNTYPED_ERC', lo=1, hi=2, n=n, hib=True, mode='own')
    for k in ('full', 'grow', 'half'):
        h.run(no_node, kind=k)
