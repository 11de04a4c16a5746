"""C12 tree execution"""
from .common import *
from .trees import *
import eckity.base.untyped_functions as U
from eckity.genetic_encodings.gp.tree.utils import generate_args

DOC = 'random trees against an independent recursive evaluator, by keyword and by array; error cases'
for _f, _n in ((U.f_add, 2), (U.f_sub, 2), (U.f_div, 2), (U.f_max, 2), (U.f_iflte, 4), (U.f_neg, 1)):
    SIG[_f] = ([None] * _n, None)


def pack(*a):
    return a


def tag(a, b, c):
    return ('tag', a, b, c)


def one(a):
    return ('one', a)


SIG[tag] = ([None] * 3, None)
SIG[one] = ([None], None)


def kw_case(conf, depth_, s):
    rng = random.Random(s)
    c = ALL[conf]
    t = rand_tree(rng, c, depth=depth_, p=rng.choice([0.1, 0.4]))
    e = expr(t)
    before = genome(t)
    for _ in range(3):
        env = {}
        for x in c[1]:
            if isinstance(x, str):
                ty = c[1][x] if c[2] else None
                env[x] = rng.choice([0, 0.0, -1, 2.5, 7]) if ty is None else {float: rng.choice([0.0, 1.5, -2.0]), int: rng.choice([0, 3, -4]), bool: rng.random() < .5}[ty]
        keys = list(env)
        rng.shuffle(keys)
        got = t.execute(**{k: env[k] for k in keys})
        want = value(e, env)
        need(got == want and type(got) is type(want), 'execute(%r) = %r, the expression is %r', env, got, want)
    need(genome(t) == before, 'executing changed the tree')
    need(t.size() == size(e) and t.depth() == depth(e), 'size %r depth %r, expected %r %r', t.size(), t.depth(), size(e), depth(e))
    need(t.root is t.tree[0], 'root')
    env2 = dict(env)
    k = rng.choice(list(env2))
    v = env2.pop(k)
    need(raises(lambda: t.execute(**env2)), 'missing variable %r accepted', k)
    need(raises(lambda: t.execute(**dict(env, bogus=1))), 'unknown variable accepted')
    need(raises(lambda: t.execute()), 'no variables at all accepted')


def symbolic(depth_, s):
    """functions that record their arguments in order"""
    rng = random.Random(s)
    c = ([tag, one], ['x', 'y', 5, 'k'], None, None)
    t = rand_tree(rng, c, depth=depth_)
    e = expr(t)
    for env in (dict(x='X', y='Y', k='K'), dict(x=None, y=False, k=''), dict(x='y', y='x', k='x'), dict(x=[1], y=(), k={})):
        got = t.execute(**env)
        need(got == value(e, env), 'execute = %r, expected %r', got, value(e, env))


def array_case(depth_, cols, rows, dtype, const, s):
    rng = random.Random(s)
    c = ([U.f_add, U.f_sub, U.f_div, U.f_max, U.f_iflte, U.f_neg], ['x%d' % i for i in range(cols)] + [1, 2.5, -3], None, None)
    if const:
        e0 = gen(rng, (c[0], [1, 2.5, -3, 0.125], None, None), depth_, None)
        t = Tree(fitness=GPFitness(1.0), function_set=c[0], terminal_set=list(c[1]), tree=flat(e0))
    else:
        t = rand_tree(rng, c, depth=depth_)
    e = expr(t)
    X = np.random.RandomState(s % 2 ** 32).uniform(-4, 4, (rows, cols)) if dtype == 'float' else np.random.RandomState(s % 2 ** 32).randint(-4, 5, (rows, cols))
    keep = X.copy()
    got = t.execute(X)
    need(np.array_equal(X, keep), 'executing changed the data')
    need(np.shape(got) == (rows,), 'shape %r for %d rows', np.shape(got), rows)
    for r in range(rows):
        env = {'x%d' % i: X[r, i] for i in range(cols)}
        w = float(value(e, env))
        need(abs(float(got[r]) - w) <= 1e-9 * max(1, abs(w)) or (np.isnan(w) and np.isnan(got[r])), 'row %d gives %r, expression is %r', r, got[r], w)
    a = generate_args(X)
    need(set(a) == {'x%d' % i for i in range(cols)} and all(np.array_equal(a['x%d' % i], X[:, i]) for i in range(cols)), 'column binding')
    need(raises(lambda: t.execute(X[:, :-1])), 'array with a missing column accepted') if cols > 1 else None
    need(raises(lambda: t.execute(np.hstack([X, X[:, :1]]))), 'array with an extra column accepted')


def errors(s):
    t = Tree(fitness=GPFitness(1.0), function_set=[sub2], terminal_set=['x', 'y'], tree=[])
    need(raises(lambda: t.execute(x=1, y=2)), 'empty tree executed')
    need(raises(lambda: t.execute(np.ones((2, 2)))), 'empty tree executed')
    t = Tree(fitness=GPFitness(1.0), function_set=[sub2], terminal_set=['x', 'y'], tree=flat((sub2, [('T', 'x', None), ('T', 'x', None)])))
    need(t.execute(x=5, y=1) == -5, 'value')
    need(raises(lambda: t.execute(x=5)), 'missing variable (unused by the tree) accepted')
    need(raises(lambda: t.execute('nonsense')), 'bad positional argument accepted')
    t.empty_tree()
    need(raises(lambda: t.execute(x=5, y=1)), 'emptied tree executed')


def deep(n, s):
    t = Tree(fitness=GPFitness(1.0), function_set=[neg1], terminal_set=['x'], tree=[FunctionNode(neg1) for _ in range(n)] + [TerminalNode('x')])
    need(t.execute(x=3) == 3 * (-1) ** n and t.depth() == n and t.size() == n + 1, 'chain of %d', n)


def run(h):
    r = h.rng
    for conf in ALL:
        for d in (0, 1, 2, 3, 4):
            for _ in range(h.scale(12)):
                h.run(kw_case, conf=conf, depth_=d)
    for d in (0, 1, 2, 3):
        for _ in range(h.scale(10)):
            h.run(symbolic, depth_=d)
    for d in (0, 1, 2, 4):
        for cols in (1, 2, 3, 12):
            for dt in ('float', 'int'):
                for const in (False, True):
                    for rows in (1, 5) if d else (1, 2, 5, 40):
                        h.run(array_case, depth_=d, cols=cols, rows=rows, dtype=dt, const=const)
    h.run(errors)
    for n in h.ints([1, 2, 5, 30, 150], 1, 150):
        h.run(deep, n=n)
