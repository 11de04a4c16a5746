"""C08 vectors"""
from .common import *
from eckity.genetic_encodings.ga import IntVector, FloatVector, BitStringVector
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.creators.ga_creators.int_vector_creator import GAIntVectorCreator
from eckity.creators.ga_creators.float_vector_creator import GAFloatVectorCreator
from eckity.creators.ga_creators.bit_string_vector_creator import GABitStringVectorCreator
from eckity.genetic_operators import *
from eckity.genetic_operators.mutations.vector_n_point_mutation import VectorNPointMutation

DOC = 'creators and mutations over lengths, common and per-cell bounds, degenerate and negative ranges, failing attempts'
TYPE = dict(int=IntVector, float=FloatVector, bit=BitStringVector)


def bounds(kind, n, per, rng):
    if kind == 'bit':
        return rng.choice([(0, 1), (0, 1), (2, 3), (-1, 1)]) if per != 'default' else (0, 1)

    def one():
        if kind == 'int':
            a = rng.choice([-7, 0, 0, 3, -100, -1])
            return (a, a + rng.choice([0, 1, 2, 5, 1000]))
        a = rng.choice([-7.5, 0.0, 3.0, -100.0, 0.5])
        return (a, a + rng.choice([0.0, 0.25, 1.0, 5.0, 1000.0]))
    if per == 'list':
        return [one() for _ in range(n)]
    return one()


def inb(kind, v, bs):
    for k, x in enumerate(v):
        lo, hi = bs if isinstance(bs, tuple) else bs[k]
        if kind == 'bit':
            if hi - lo == 1 and x not in (lo, hi):
                return False
        if not lo <= x <= hi or (kind != 'float' and x != int(x)):
            return False
    return True


def create(kind, n, count, per, hib, parents, generic, custom, s):
    rng = random.Random(s)
    bs = bounds(kind, n, per, rng)
    kw = dict(length=n, bounds=bs, update_parents=parents)
    if custom:
        lo = lambda i: bs[0] if isinstance(bs, tuple) else bs[i][0]
        kw['gene_creator'] = lambda ind, i: lo(i)
    if generic:
        c = GAVectorCreator(vector_type=TYPE[kind], fitness_type=SimpleFitness, **kw)
    else:
        c = dict(int=GAIntVectorCreator, float=GAFloatVectorCreator, bit=GABitStringVectorCreator)[kind](**kw)
    for _ in range(2):
        inds = c.create_individuals(count, hib)
        need(len(inds) == count, '%d vectors created, %d requested', len(inds), count)
        need(len({id(i) for i in inds}) == count and len({id(i.vector) for i in inds}) == count and len({id(i.fitness) for i in inds}) == count, 'vectors share state')
        for i in inds:
            need(type(i) is TYPE[kind], 'type')
            need(len(i.vector) == n and i.size() == n and i.length == n, 'length %d instead of %d', len(i.vector), n)
            need(inb(kind, i.vector, bs), 'cell out of bounds: %r %r', i.vector, bs)
            need(i.check_if_in_bounds(), 'check_if_in_bounds')
            need(score(i) == 'unevaluated' and not i.fitness.is_fitness_evaluated() and i.fitness.higher_is_better is hib, 'fitness of a new vector')
            need(i.update_parents == parents and i.get_bounds() == bs, 'settings')
            if custom:
                need(i.vector == [bs[0] if isinstance(bs, tuple) else bs[k][0] for k in range(n)], 'gene creator')


def make(kind, n, per, rng):
    bs = bounds(kind, n, per, rng)
    v = []
    for k in range(n):
        lo, hi = bs if isinstance(bs, tuple) else bs[k]
        v.append(rng.choice([lo, hi]) if kind == 'bit' else rng.choice([lo, hi, rng.randint(lo, hi) if kind == 'int' else rng.uniform(lo, hi)]))
    return TYPE[kind](SimpleFitness(1.0, higher_is_better=True, cache=True), length=n, bounds=bs, vector=v, update_parents=rng.random() < .5), bs


MUT = {
    'funi1': ('float', lambda n, r: (FloatVectorUniformOnePointMutation(), 1)),
    'funin': ('float', lambda n, r: (FloatVectorUniformNPointMutation(n=n), n)),
    'fg1': ('float', lambda n, r: (FloatVectorGaussOnePointMutation(mu=r.choice([0.0, 5.0]), sigma=r.choice([0.1, 1.0, 1e6]), attempts=r.choice([1, 5])), 1)),
    'fgn': ('float', lambda n, r: (FloatVectorGaussNPointMutation(n=n, mu=r.choice([0.0, -2.0]), sigma=r.choice([0.1, 1.0, 1e6]), attempts=r.choice([1, 2, 5])), n)),
    'fgd': ('float', lambda n, r: (FloatVectorGaussNPointMutation(n=n), n)),
    'int1': ('int', lambda n, r: (IntVectorOnePointMutation(probability=1.0, probability_for_each=r.choice([0.0, 0.1, 0.5, 1.0])), None)),
    'intn': ('int', lambda n, r: (IntVectorNPointMutation(n=n), n)),
    'flip': ('bit', lambda n, r: (BitStringVectorFlipMutation(), 1)),
    'nflip': ('bit', lambda n, r: (BitStringVectorNFlipMutation(n=n, probability_for_each=r.choice([0.0, 0.2, 1.0])), n)),
    'def_i': ('int', lambda n, r: (VectorNPointMutation(n=n), n)),
    'def_f': ('float', lambda n, r: (VectorNPointMutation(n=n), n)),
    'def_b': ('bit', lambda n, r: (VectorNPointMutation(n=n), n)),
}


def mutate(which, n, k, per, group, s):
    rng = random.Random(s)
    kind, f = MUT[which]
    op, limit = f(k, rng)
    inds, bss = zip(*[make(kind, n, per, rng) for _ in range(group)])
    inds = list(inds)
    op.arity = group
    for _ in range(4):
        old = [list(i.vector) for i in inds]
        r = op.apply_operator(inds)
        need(len(r) == group and all(a is b for a, b in zip(r, inds)), 'other individuals returned')
        for i, o, bs in zip(inds, old, bss):
            need(len(i.vector) == n and i.size() == n and i.length == n, 'length changed from %d to %d', n, len(i.vector))
            need(inb(kind, i.vector, bs), '%s left the bounds %r: %r -> %r', which, bs, o, i.vector)
            ch = [j for j in range(n) if i.vector[j] != o[j]]
            if limit is not None and group == 1:
                need(len(ch) <= limit, '%s changed %d cells, configured %d', which, len(ch), limit)
            if kind == 'bit' and which in ('flip', 'nflip'):
                for j in ch:
                    need({i.vector[j], o[j]} == set(bs), 'flip of %r gave %r', o[j], i.vector[j])
                if which == 'flip':
                    need(len(ch) == 1, 'flip mutation changed %d cells', len(ch))


def failing(kind, n, k, per, attempts, ok_at, how, s):
    """attempts that produce illegal vectors"""
    rng = random.Random(s)
    ind, bs = make(kind, n, per, rng)
    old = list(ind.vector)
    tries = []

    def getter(vec, idx):
        if not tries or tries[-1][1]:
            pass
        lo, hi = bs if isinstance(bs, tuple) else bs[idx]
        good = len(checks) >= ok_at
        if how == 'low':
            return lo if good else lo - 1
        return hi if good else hi + 1
    checks = []

    def checker(o, v):
        need(list(o.vector) == old, 'old vector handed to the success checker: %r, was %r', o.vector, old)
        r = inb(kind, v.vector, bs)
        need(v.check_if_in_bounds() == r, 'check_if_in_bounds() is %r for %r in %r', v.check_if_in_bounds(), v.vector, bs)
        checks.append(r)
        return r
    op = VectorNPointMutation(n=k, attempts=attempts, mut_val_getter=getter, success_checker=checker)
    r = op.apply([ind])
    need(len(r) == 1 and r[0] is ind, 'result')
    need(len(checks) == min(attempts, ok_at + 1), '%d attempts, expected %d', len(checks), min(attempts, ok_at + 1))
    need(len(ind.vector) == n and inb(kind, ind.vector, bs), 'vector left the bounds')
    if ok_at >= attempts:
        need(list(ind.vector) == old, 'failed attempts changed the vector: %r -> %r', old, ind.vector)
    else:
        need(sum(a != b for a, b in zip(ind.vector, old)) <= k, 'more cells changed than configured')
    # default checker: out of range values never stay
    ind2, bs2 = make(kind, n, per, rng)
    o2 = list(ind2.vector)
    op = VectorNPointMutation(n=k, attempts=attempts, mut_val_getter=lambda v, i: (bs2 if isinstance(bs2, tuple) else bs2[i])[0] - 1)
    op.apply_operator([ind2])
    need(ind2.vector == o2, 'out-of-bounds mutation stayed: %r', ind2.vector)


def flip(bs, n, s):
    v = BitStringVector(SimpleFitness(), length=n, bounds=tuple(bs), vector=[bs[k % 2] for k in range(n)])
    for k in range(n):
        need(v.bit_flip(k) == bs[(k + 1) % 2], 'bit_flip(%r) = %r', v.vector[k], v.bit_flip(k))
    need(v.vector == [bs[k % 2] for k in range(n)], 'bit_flip changed the vector')


def sampler(kind, n, per, s):
    """both ends of every cell's range are reachable, nothing beyond"""
    rng = random.Random(s)
    ind, bs = make(kind, n, per, rng)
    for k in range(n):
        lo, hi = bs if isinstance(bs, tuple) else bs[k]
        vals = [ind.get_random_number_in_bounds(k) for _ in range(60)]
        need(all(lo <= x <= hi for x in vals), 'cell %d sampled outside (%r, %r)', k, lo, hi)
        if kind != 'float' and hi - lo <= 2:
            need(set(vals) == set(range(lo, hi + 1)), 'values %r of range (%r,%r)', set(vals), lo, hi)


def run(h):
    r = h.rng
    ns = h.ints([1, 2, 3, 5, 12, 40], 1, 64)
    for kind in ('int', 'float', 'bit'):
        for n in ns:
            for per in ('tuple', 'list'):
                h.run(create, kind=kind, n=n, count=r.choice([0, 1, 2, 7, 30]), per=per, hib=r.random() < .5, parents=r.random() < .5, generic=r.random() < .5, custom=r.random() < .2)
                h.run(sampler, kind=kind, n=min(n, 12), per=per)
        for cnt in h.ints([1, 50, 200], 1, 260):
            h.run(create, kind=kind, n=3, count=cnt, per='tuple', hib=True, parents=False, generic=False, custom=False)
    for w in MUT:
        for n in ns:
            for k in sorted({1, 2, n // 2, n - 1, n}):
                if 1 <= k <= n:
                    for per in ('tuple', 'list'):
                        h.run(mutate, which=w, n=n, k=k, per=per, group=1)
        for _ in range(h.scale(30)):
            n = r.choice(ns)
            h.run(mutate, which=w, n=n, k=r.randint(1, n), per=r.choice(['tuple', 'list']), group=r.choice([1, 1, 2, 3]))
    for kind in ('int', 'float', 'bit'):
        for n in (1, 2, 3, 8):
            for att in (1, 2, 5):
                for ok in (0, 1, att - 1, att, att + 3):
                    if ok >= 0:
                        h.run(failing, kind=kind, n=n, k=r.randint(1, n), per=r.choice(['tuple', 'list']), attempts=att, ok_at=ok, how=r.choice(['low', 'high']))
    for bs in ((0, 1), (1, 0), (2, 5), (-1, 1), (False, True)):
        h.run(flip, bs=bs, n=5)
