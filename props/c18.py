"""C18: the built-in GP functions compute their documented operations (scalars, and arrays element by element)."""
import z3
from pycv.lib import rl, tr
from pycv.vals import *

U, Ty = 'eckity.base.untyped_functions', 'eckity.base.typed_functions'
EPS = z3.RealVal('0.001')


def ab(x):
    return z3.If(x >= 0, x, -x)


def F(n):
    return z3.Function('math_' + n, R, R)


def i01(c):
    return z3.If(c, z3.RealVal(1), z3.RealVal(0))


def R_(f):
    return lambda *a: f(*[rl(x) for x in a])


div = R_(lambda x, y: z3.If(ab(y) > EPS, x / y, z3.RealVal(0)))
AND, OR, NOT = (lambda x, y: i01(z3.And(tr(x), tr(y)))), (lambda x, y: i01(z3.Or(tr(x), tr(y)))), (lambda x: i01(z3.Not(tr(x))))
ITE = lambda t, x, y: z3.If(tr(t), rl(x), rl(y))
NUM = ('R', 'I')
# name: arity, specification on terms, untyped names, typed names, argument kinds
SPEC = {
    'sum': (2, R_(lambda x, y: x + y), ['f_add'], ['add2floats'], NUM),
    'difference': (2, R_(lambda x, y: x - y), ['f_sub'], ['sub2floats'], NUM),
    'product': (2, R_(lambda x, y: x * y), ['f_mul'], ['mul2floats'], NUM),
    'protected quotient': (2, div, ['f_div'], ['div2floats'], NUM),
    'square root of the absolute value': (1, R_(lambda x: F('sqrt')(ab(x))), ['f_sqrt'], ['sqrt_float'], NUM),
    'protected logarithm': (1, R_(lambda x: z3.If(ab(x) > EPS, F('log')(ab(x)), z3.RealVal(0))), ['f_log'], ['log_float'], NUM),
    'absolute value': (1, R_(ab), ['f_abs'], ['abs_float'], NUM),
    'negation': (1, R_(lambda x: -x), ['f_neg'], ['neg_float'], NUM),
    'protected inverse': (1, R_(lambda x: div(z3.RealVal(1), x)), ['f_inv'], ['inv_float'], NUM),
    'maximum': (2, R_(lambda x, y: z3.If(x >= y, x, y)), ['f_max'], ['max2floats'], NUM),
    'minimum': (2, R_(lambda x, y: z3.If(x <= y, x, y)), ['f_min'], ['min2floats'], NUM),
    'sine': (1, R_(lambda x: F('sin')(x)), ['f_sin'], ['sin_float'], NUM),
    'cosine': (1, R_(lambda x: F('cos')(x)), ['f_cos'], ['cos_float'], NUM),
    'tangent': (1, R_(lambda x: F('tan')(x)), ['f_tan'], ['tan_float'], NUM),
    'if x<=0': (3, R_(lambda x, y, z: z3.If(x <= 0, y, z)), ['f_iflte0'], ['iflte0_floats'], NUM),
    'if x>0': (3, R_(lambda x, y, z: z3.If(x > 0, y, z)), ['f_ifgt0'], ['ifgt0_floats'], NUM),
    'if x<=y': (4, R_(lambda x, y, z, w: z3.If(x <= y, z, w)), ['f_iflte'], ['iflte_floats'], NUM),
    'if x>y': (4, R_(lambda x, y, z, w: z3.If(x > y, z, w)), ['f_ifgt'], ['ifgt_floats'], NUM),
    'index of the larger': (2, R_(lambda x, y: i01(y > x)), [], ['argmax2floats'], NUM),
    'if then else': (3, ITE, ['f_if_then_else'], ['if_then_else'], ('B', 'R', 'I')),
    'if then else (ints)': (3, ITE, [], ['if_then_else3ints'], ('I',)),
    'if then else (bools)': (3, ITE, [], ['if_then_else3bools'], ('B',)),
    'conjunction (bits)': (2, AND, ['f_and'], ['and2bools'], ('bit', 'B')),
    'disjunction (bits)': (2, OR, ['f_or'], ['or2bools'], ('bit', 'B')),
    'conjunction': (2, AND, [], ['and2floats', 'and2ints'], ('R', 'I', 'B')),
    'disjunction': (2, OR, [], ['or2floats', 'or2ints'], ('R', 'I', 'B')),
    'not': (1, NOT, ['f_not'], ['not2floats', 'not2ints'], ('R', 'I', 'B')),
    'not (bools)': (1, NOT, [], ['not2bools'], ('B',)),
}
SORT = {'R': R, 'I': I, 'B': B, 'bit': I}


def one(u, mod, fn, name, n, spec, kind):
    so = SORT[kind]
    # scalars
    st = u.state()
    ts = [z3.Const('x%d' % k, so) for k in range(n)]
    if kind == 'bit':
        for t in ts:
            st.assume(z3.Or(t == 0, t == 1))
    outs, rs = u.callf(st, mod, fn, [VNum(t) for t in ts])
    u.no_raise('%s(%s)' % (fn, kind), rs)
    for s, v in outs:
        if not isinstance(v, VNum):
            raise Unsupported('%s returns %r' % (fn, v))
        u.ob('%s is the documented %s (%s scalars)' % (fn, name, kind), s, rl(v.t) == spec(*ts))
    u.ob('%s returns' % fn, st, z3.BoolVal(bool(outs)))
    # arrays, and arrays mixed with scalars
    m = z3.Int('m')
    j = z3.Int('j')
    for mixed in ([None] if n == 1 or fn.startswith('argmax') else [None] + list(range(n))):
        st = u.state()
        st.assume(z3.And(m >= 1, j >= 0, j < m))
        arrs = [z3.Array('a%d' % k, I, so) for k in range(n)]
        args = [VArr(m, (lambda q, a=a: a[q])) for a in arrs]
        el = [a[j] for a in arrs]
        if mixed is not None:
            args[mixed] = VNum(ts[mixed])
            el[mixed] = ts[mixed]
        if kind == 'bit':
            q = z3.Int('q')
            for a in arrs:
                st.assume(z3.ForAll([q], z3.Or(a[q] == 0, a[q] == 1)))
            for t in el:
                st.assume(z3.Or(t == 0, t == 1))
        outs, rs = u.callf(st, mod, fn, args)
        u.no_raise('%s(%s arrays)' % (fn, kind), rs)
        for s, v in outs:
            if not isinstance(v, VArr):
                raise Unsupported('%s of arrays returns %r' % (fn, v))
            u.ob('%s keeps the length' % fn, s, v.n == m)
            u.ob('%s is the documented %s (%s arrays, element by element)' % (fn, name, kind), s, rl(v.get(j)) == spec(*el))


def unit(name):
    n, spec, us, ts, kinds = SPEC[name]

    def run(u):
        u.assume_note('numpy elementwise semantics over mathematical reals; sqrt, log, sin, cos, tan uninterpreted')
        for kind in kinds:
            for mod, fs in ((U, us), (Ty, ts)):
                for fn in fs:
                    one(u, mod, fn, name, n, spec, kind)
    return run


UNITS = {k: unit(k) for k in SPEC}
