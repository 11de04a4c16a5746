"""C09 k-point crossover"""
import itertools
from .common import *
from eckity.genetic_encodings.ga import IntVector, FloatVector, BitStringVector
from eckity.genetic_operators import VectorKPointsCrossover

DOC = 'all lengths up to a bound and all k < length on vectors with unique cells; the swapped positions decide the cut points'


def vecs(kind, n, equal):
    if kind == 'int':
        a = IntVector(SimpleFitness(1.0), length=n, bounds=(0, 10 ** 6), vector=[10 + i for i in range(n)])
        b = IntVector(SimpleFitness(2.0), length=n, bounds=(0, 10 ** 6), vector=[5000 + i for i in range(n)])
    else:
        a = FloatVector(SimpleFitness(1.0), length=n, bounds=(0.0, 9e9), vector=[0.25 + i for i in range(n)])
        b = FloatVector(SimpleFitness(2.0), length=n, bounds=(0.0, 9e9), vector=[5000.5 + i for i in range(n)])
    return a, b


def mask(v, w, a, b):
    n = len(a)
    need(len(v) == n and len(w) == n, 'length changed: %d and %d from %d', len(v), len(w), n)
    m = []
    for i in range(n):
        sw = (v[i], w[i]) == (b[i], a[i])
        need(sw or (v[i], w[i]) == (a[i], b[i]), 'position %d holds %r, parents had %r', i, (v[i], w[i]), (a[i], b[i]))
        m.append(sw)
    return m


def cross(kind, n, k, via, s):
    x, y = vecs(kind, n, False)
    op = VectorKPointsCrossover(k=k)
    for _ in range(3):
        a, b = list(x.vector), list(y.vector)
        g = [x, y]
        r = op.apply(g) if via == 'apply' else op.apply_operator(g) if via == 'op' else op.act(g)
        need(len(r) == 2 and r[0] is x and r[1] is y, 'individuals lost their identity')
        need(x.vector is not y.vector, 'shared vector')
        m = mask(x.vector, y.vector, a, b)
        need(m[0], 'the first segment was not exchanged (k=%d, length %d)', k, n)
        cuts = [i for i in range(1, n) if m[i] != m[i - 1]]
        need(len(cuts) == k, '%d cut points %r instead of %d (length %d)', len(cuts), cuts, k, n)
        need(x.size() == n and y.size() == n, 'size')


def spread(n, k, draws, s):
    """every set of k cut points can occur"""
    x, y = vecs('int', n, False)
    seen = set()
    for _ in range(draws):
        a, b = list(x.vector), list(y.vector)
        VectorKPointsCrossover(k=k).apply([x, y])
        m = mask(x.vector, y.vector, a, b)
        seen.add(tuple(i for i in range(1, n) if m[i] != m[i - 1]))
    need(seen == set(itertools.combinations(range(1, n), k)), 'cut points seen: %r', sorted(seen)[:20])


def bits(n, k, s):
    rng = random.Random(s)
    x = BitStringVector(SimpleFitness(1.0), length=n, vector=[rng.randint(0, 1) for _ in range(n)])
    y = BitStringVector(SimpleFitness(1.0), length=n, vector=[rng.randint(0, 1) for _ in range(n)])
    a, b = list(x.vector), list(y.vector)
    VectorKPointsCrossover(k=k).apply_operator([x, y])
    mask(x.vector, y.vector, a, b)


def run(h):
    r = h.rng
    for n in range(2, h.scale(26, 60)):
        for k in range(1, n):
            h.run(cross, kind='int' if (n + k) % 2 else 'float', n=n, k=k, via=r.choice(['apply', 'op', 'act']))
            h.run(bits, n=n, k=k)
    for n in h.ints([64, 100, 257], 40, 600):
        for k in sorted({1, 2, 3, n // 2, n - 2, n - 1}):
            h.run(cross, kind='int', n=n, k=k, via='op')
    for n, k in ((2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (5, 1), (5, 2), (5, 3), (5, 4), (6, 1)):
        h.run(spread, n=n, k=k, draws=300)
