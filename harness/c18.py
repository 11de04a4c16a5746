"""C18 built-in GP functions"""
import math
from .common import *
import eckity.base.untyped_functions as U
import eckity.base.typed_functions as T

DOC = 'each built-in against its documented mathematical function on scalars, arrays and mixed arguments'
b = bool
SPEC = {
    'add': (2, lambda x, y: x + y, ['f_add'], ['add2floats']),
    'sub': (2, lambda x, y: x - y, ['f_sub'], ['sub2floats']),
    'mul': (2, lambda x, y: x * y, ['f_mul'], ['mul2floats']),
    'div': (2, lambda x, y: x / y if abs(y) > 0.001 else 0.0, ['f_div'], ['div2floats']),
    'sqrt': (1, lambda x: math.sqrt(abs(x)), ['f_sqrt'], ['sqrt_float']),
    'log': (1, lambda x: math.log(abs(x)) if abs(x) > 0.001 else 0.0, ['f_log'], ['log_float']),
    'abs': (1, abs, ['f_abs'], ['abs_float']),
    'neg': (1, lambda x: -x, ['f_neg'], ['neg_float']),
    'inv': (1, lambda x: 1 / x if abs(x) > 0.001 else 0.0, ['f_inv'], ['inv_float']),
    'max': (2, max, ['f_max'], ['max2floats']),
    'min': (2, min, ['f_min'], ['min2floats']),
    'sin': (1, math.sin, ['f_sin'], ['sin_float']),
    'cos': (1, math.cos, ['f_cos'], ['cos_float']),
    'tan': (1, math.tan, ['f_tan'], ['tan_float']),
    'iflte0': (3, lambda x, y, z: y if x <= 0 else z, ['f_iflte0'], ['iflte0_floats']),
    'ifgt0': (3, lambda x, y, z: y if x > 0 else z, ['f_ifgt0'], ['ifgt0_floats']),
    'iflte': (4, lambda x, y, z, w: z if x <= y else w, ['f_iflte'], ['iflte_floats']),
    'ifgt': (4, lambda x, y, z, w: z if x > y else w, ['f_ifgt'], ['ifgt_floats']),
    'argmax': (2, lambda x, y: 1 if y > x else 0, [], ['argmax2floats']),
    'ite': (3, lambda t, x, y: x if t else y, ['f_if_then_else'], ['if_then_else', 'if_then_else3ints']),
    'andf': (2, lambda x, y: int(b(x) and b(y)), [], ['and2floats', 'and2ints']),
    'orf': (2, lambda x, y: int(b(x) or b(y)), [], ['or2floats', 'or2ints']),
    'notf': (1, lambda x: int(not x), ['f_not'], ['not2floats', 'not2ints']),
}
LOGIC = {
    'and': (2, lambda x, y: int(b(x) and b(y)), ['f_and'], ['and2bools', 'and2ints', 'and2floats']),
    'or': (2, lambda x, y: int(b(x) or b(y)), ['f_or'], ['or2bools', 'or2ints', 'or2floats']),
    'not': (1, lambda x: int(not x), ['f_not'], ['not2bools', 'not2ints', 'not2floats']),
    'ite': (3, lambda t, x, y: x if t else y, ['f_if_then_else'], ['if_then_else3bools', 'if_then_else']),
}


def fns(spec):
    return [(n, getattr(U, n)) for n in spec[2]] + [(n, getattr(T, n)) for n in spec[3]]


def same(a, c):
    return abs(float(a) - float(c)) <= 1e-12 * max(1.0, abs(float(c)))


def check(name, spec, args):
    """args: scalars or arrays"""
    n = [len(a) for a in args if isinstance(a, np.ndarray)]
    for fname, f in fns(spec):
        keep = [np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in args]
        got = f(*args)
        for k, a in zip(keep, args):
            need(np.array_equal(k, a), '%s modified its argument', fname)
        if n:
            need(np.shape(got) == (n[0],), '%s: shape %r for arrays of length %d', fname, np.shape(got), n[0])
            for i in range(n[0]):
                row = [a[i].item() if isinstance(a, np.ndarray) else a for a in args]
                need(same(got[i], spec[1](*row)), '%s%r element %d gave %r, expected %r', fname, tuple(row), i, got[i], spec[1](*row))
        else:
            need(np.ndim(got) == 0, '%s%r: not a scalar', fname, tuple(args))
            need(same(got, spec[1](*args)), '%s%r gave %r, expected %r', fname, tuple(args), got, spec[1](*args))


def scalars(name, args, s):
    check(name, SPEC[name], args)
    if len(args) and all(isinstance(a, float) for a in args):
        check(name, SPEC[name], [np.float64(a) for a in args])


def arrays(name, cols, s):
    check(name, SPEC[name], [np.array(c) if isinstance(c, list) else c for c in cols])


def logic(name, args, s):
    for kind in (bool, int):
        a = [kind(x) for x in args]
        check(name, LOGIC[name], a)
        check(name, LOGIC[name], [np.array([x, x, kind(0)]) for x in a])


def two_d(name, s):
    spec = SPEC[name]
    X = np.random.uniform(-3, 3, (spec[0], 4, 3))
    for fname, f in fns(spec):
        got = f(*X)
        need(np.shape(got) == (4, 3), '%s: 2-d shape %r', fname, np.shape(got))
        for i in range(4):
            for j in range(3):
                need(same(got[i, j], spec[1](*[float(x[i, j]) for x in X])), '%s element', fname)


def run(h):
    e = 0.001
    up, dn = math.nextafter(e, 1), math.nextafter(e, 0)
    vals = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -3.25, e, -e, up, -up, dn, -dn, 1e-3 * 0.5, 0.0011, 0.00999, 0.01, -0.01, 10.0, -10.0, 123.456, 1e-9, -1e-9, 1e6, -1e6, 1e-5, 0.1, -0.1, 0.002, -0.002, 50.0, 1000.0]
    vals = sorted(set(vals + [v for v in h.floats([], 1e5)]))
    ints = [0, 1, -1, 2, -2, 3, 7, -10, 100]
    r = h.rng
    for name, spec in SPEC.items():
        k = spec[0]
        h.run(two_d, name=name)
        if k == 1:
            for v in vals + ints:
                h.run(scalars, name=name, args=[v])
        elif k == 2:
            for v in vals:
                for w in vals[::2] + ([v] if v not in vals[::2] else []):
                    h.run(scalars, name=name, args=[v, w])
            for v in ints:
                for w in ints:
                    h.run(scalars, name=name, args=[v, w])
        for _ in range(h.scale(250)):
            a = [r.choice(vals) if r.random() < .6 else r.uniform(-5, 5) for _ in range(k)]
            if k >= 3 and r.random() < .3:
                a[0] = a[1]
            h.run(scalars, name=name, args=a)
        for _ in range(h.scale(80)):
            n = r.choice(h.ints([1, 2, 3, 5, 17, 100], 1, 200))
            pool = ints if r.random() < .3 and name not in ('div', 'inv') else vals
            cols = [[r.choice(pool) if r.random() < .7 else r.choice(pool) for _ in range(n)] for _ in range(k)]
            if k >= 2 and n > 2 and r.random() < .5:
                cols[1][: n // 2] = cols[0][: n // 2]
            if name == 'argmax' or r.random() < .6 or k == 1:
                h.run(arrays, name=name, cols=cols)
            else:
                j = r.randrange(k)
                cols[j] = r.choice(pool)
                h.run(arrays, name=name, cols=cols)
    import itertools
    for name, spec in LOGIC.items():
        for args in itertools.product([0, 1], repeat=spec[0]):
            h.run(logic, name=name, args=list(args))
