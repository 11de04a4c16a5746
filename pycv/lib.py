"""Contracts of the Python built-ins and library functions the repository calls.

Each entry is an *assumed* contract (listed in the evidence): the functions
are implemented in C or outside /repo.  Every model returns [(state, value)].
"""
import ast
import z3
from . import solver
from .vals import *

AS = z3.ArraySort
LIB = {}


def install(eng):
    from . import dicts      # noqa: F401 (registers its contracts)
    eng.lib.update(LIB)


def lib(*names):
    def deco(f):
        for n in names:
            LIB[n] = f
        return f
    return deco


# ------------------------------------------------------------------ helpers
def lit(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else None


def pointwise(eng, st, q, fn, need_pure=True):
    """apply fn (st, V) -> [(st, V)] to a generic element of q.
    -> (st, get: (st, j) -> V) or None when fn has effects."""
    n = eng.seq_len(st, q)
    q = eng.snap(st, q)
    base = st.copy()
    key = ('pw', st.cs)
    k = st.occ.get(key, 0)
    st.occ[key] = k + 1
    base.occ = dict(st.occ)
    base.cs = st.cs + ('pw%d' % k,)
    j = eng.fresh(base, 'pj', I)
    base.idx = st.idx + (j,)
    base.assume(z3.And(j >= 0, j < n))
    npc = len(base.pc)
    eng.raised.append([])
    try:
        x = q.get(base, j)
        w = base.copy()
        outs = fn(w, x)
    finally:
        rs = eng.raised.pop()
    if not outs:
        vals = None
    for a, v in outs:
        if not same_heap(eng, base, a):
            return None
    outs = eng.merge_outs(base, outs)
    for a, e in rs:
        a.idx, a.cs = st.idx, st.cs
        eng.do_raise(a, e)
    if not outs:
        # only an empty sequence gets through
        st.assume(n <= 0, 'b')
        return st, (lambda s, jj: VNum(0))
    if len(outs) > 1:
        return None
    a, v = outs[0]
    jv = z3.Int('pj%d' % eng.csid(base.cs))
    rng = z3.And(jv >= 0, jv < n)
    for t, tag in a.pc[npc:]:
        if tag == 'w':
            continue
        if not eng.mentions(t, j):
            st.assume(z3.Implies(n > 0, t))
        else:
            st.assume(z3.ForAll([jv], z3.Implies(rng, z3.substitute(t, (j, jv)))))

    def get(s, jj):
        return subst_val(eng, v, [(j, jj)])
    return st, get


def same_heap(eng, a, b):
    if not a.alloc.eq(b.alloc):
        return False
    for k, v in b.heap.items():
        w = a.heap.get(k)
        if w is None:
            w = eng.init_comps.get(k)
        if w is None or not w.eq(v):
            return False
    for k, v in b.glob.items():
        if k in a.glob and a.glob[k] is not v and not (isinstance(v, VNum) and isinstance(a.glob[k], VNum) and v.t.eq(a.glob[k].t)):
            return False
        if k not in a.glob and not (isinstance(v, VNum) and z3.is_const(v.t) and v.t.decl().name() == k):
            return False
    return True


def subst_val(eng, v, pairs):
    s = lambda t: z3.substitute(t, *pairs)
    if isinstance(v, VNum):
        return VNum(s(v.t))
    if isinstance(v, VRef):
        return VRef(s(v.t), v.ty)
    if isinstance(v, VTup):
        return VTup([subst_val(eng, x, pairs) for x in v.items])
    if isinstance(v, VOpt):
        return VOpt(s(v.none), subst_val(eng, v.v, pairs))
    if isinstance(v, VX):
        return VX(s(v.inf), s(v.val))
    if isinstance(v, VStr):
        return v if v.s is not None else VStr(None, s(v.t))
    if isinstance(v, (VAny, VFnSym, VTypV)):
        return type(v)(s(v.t))
    return v


def num_list(eng, st, v):
    """(n, get) of a list/array/sequence of numbers"""
    q = eng.seq_of(st, v)
    return eng.seq_len(st, q), q


# ------------------------------------------------------------------ builtins
@lib('len')
def b_len(eng, st, args, kw):
    v = args[0]
    if isinstance(v, VOpt):
        v = v.v
    if isinstance(v, VRef) and isinstance(v.ty, TObj):
        return eng.call_method(st, v, '__len__', [], {})
    if isinstance(v, VRef):
        if getattr(v.ty, 'null', False):
            bad, ok = eng.branch(st, v.t == 0)
            if bad is not None:
                eng.do_raise(bad, VExc('TypeError'))
            if ok is None:
                return []
            st = ok
        return [(st, VNum(eng.list_len(st, v)))]
    if isinstance(v, VTup):
        return [(st, VNum(len(v.items)))]
    if isinstance(v, (VSeq, VArr)):
        return [(st, VNum(eng.seq_len(st, eng.seq_of(st, v))))]
    if isinstance(v, VSDict):
        return [(st, VNum(len(v.items)))]
    if v is VNone or isinstance(v, VNum):
        eng.do_raise(st, VExc('TypeError'))
        return []
    if isinstance(v, VAny):
        n = z3.Function('any_len', I, I)(v.t)
        st.assume(n >= 0)
        return [(st, VNum(n))]
    raise Unsupported('len of %r' % v)


@lib('range')
def b_range(eng, st, args, kw):
    a = [eng.as_int(x) for x in args]
    lo, hi, step = (z3.IntVal(0), a[0], z3.IntVal(1)) if len(a) == 1 else (a[0], a[1], z3.IntVal(1)) if len(a) == 2 else a
    s = lit(step)
    if s == 1:
        n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))) if not eng.holds(st, hi >= lo) else z3.simplify(hi - lo)
        return [(st, VSeq(n, lambda s_, j: VNum(z3.simplify(lo + j)), TInt))]
    if s is not None and s > 0:
        n = z3.simplify(z3.If(hi > lo, (hi - lo + (s - 1)) / s, z3.IntVal(0)))
        return [(st, VSeq(n, lambda s_, j: VNum(z3.simplify(lo + s * j)), TInt))]
    if s is not None and s < 0:
        n = z3.simplify(z3.If(lo > hi, (lo - hi + (-s - 1)) / (-s), z3.IntVal(0)))
        return [(st, VSeq(n, lambda s_, j: VNum(z3.simplify(lo + s * j)), TInt))]
    # symbolic positive step
    bad, ok = eng.branch(st, step == 0)
    if bad is not None:
        eng.do_raise(bad, VExc('ValueError'))
    if ok is None:
        return []
    n = eng.fresh(ok, 'rangelen', I)
    ok.assume(n >= 0)
    up = step > 0
    ok.assume(z3.Implies(z3.If(up, hi <= lo, hi >= lo), n == 0))
    ok.assume(z3.Implies(z3.And(up, hi > lo), z3.And(lo + step * (n - 1) < hi, lo + step * n >= hi, n >= 1)))
    ok.assume(z3.Implies(z3.And(step < 0, hi < lo), z3.And(lo + step * (n - 1) > hi, lo + step * n <= hi, n >= 1)))
    def get(s_, j):
        for l in stride_lemmas(step, j, n, lo, hi):
            s_.assume(l, 'w')
        return VNum(z3.simplify(lo + step * j))
    return [(ok, VSeq(n, get, TInt))]


_stride = []


def stride_lemmas(a, j, n, lo, hi):
    """facts of strided ranges the solver does not find in context; proved here, once, for all integers"""
    pre = lambda a, j, n, lo, hi: z3.And(a > 0, j >= 0, j < n, lo + a * (n - 1) < hi, lo + a * n >= hi)
    ls = [lambda a, j, n, lo, hi: lo + a * j < hi, lambda a, j, n, lo, hi: lo + a * j >= lo,
          lambda a, j, n, lo, hi: z3.Implies((hi - lo) % a == 0, lo + a * j + a <= hi)]
    if not _stride:
        v = z3.Ints('a j n lo hi')
        for l in ls:
            r, _ = solver.check([pre(*v), z3.Not(l(*v))], 10.0)
            _stride.append(r == 'unsat')
    return [z3.Implies(pre(a, j, n, lo, hi), l(a, j, n, lo, hi)) for l, k in zip(ls, _stride) if k]


@lib('zip')
def b_zip(eng, st, args, kw):
    if len(args) == 1 and isinstance(args[0], tuple):
        raise Unsupported('zip(*x)')
    qs = [eng.seq_of(st, a) for a in args]
    ns = [eng.seq_len(st, q) for q in qs]
    n = ns[0]
    for m in ns[1:]:
        if not m.eq(n):
            n = z3.simplify(z3.If(n < m, n, m)) if not eng.holds(st, n == m, full=True) else n
    return [(st, VSeq(n, lambda s, j: VTup([q.get(s, j) for q in qs])))]


@lib('enumerate')
def b_enum(eng, st, args, kw):
    q = eng.seq_of(st, args[0])
    start = eng.as_int(args[1]) if len(args) > 1 else eng.as_int(kw['start']) if 'start' in kw else z3.IntVal(0)
    return [(st, VSeq(eng.seq_len(st, q), lambda s, j: VTup([VNum(z3.simplify(start + j)), q.get(s, j)])))]


@lib('reversed')
def b_reversed(eng, st, args, kw):
    q = eng.snap(st, eng.seq_of(st, args[0]))
    n = eng.seq_len(st, q)
    return [(st, VSeq(n, lambda s, j: q.get(s, z3.simplify(n - 1 - j)), q.elem_ty))]


@lib('list')
def b_list(eng, st, args, kw):
    if not args:
        return [(st, eng.new_list(st, TVar()))]
    q = eng.seq_of(st, args[0])
    n = eng.seq_len(st, q)
    return [(st, eng.list_from_seq(st, n, q.get, q.elem_ty))]


@lib('tuple')
def b_tuple(eng, st, args, kw):
    if args and isinstance(args[0], VTup):
        return [(st, args[0])]
    if not args:
        return [(st, VTup([]))]
    q = eng.seq_of(st, args[0])
    n = lit(eng.seq_len(st, q))
    if n is None:
        return [(st, eng.snap(st, q))]
    return [(st, VTup([q.get(st, z3.IntVal(k)) for k in range(n)]))]


@lib('iter')
def b_iter(eng, st, args, kw):
    return [(st, args[0])]


@lib('print', 'super_noop', 'builtins.print')
def b_noop(eng, st, args, kw):
    return [(st, VNone)]


@lib('str', 'repr', 'format')
def b_str(eng, st, args, kw):
    if args and isinstance(args[0], VStr):
        return [(st, args[0])]
    return [(st, VOpaque('str'))]


@lib('callable')
def b_callable(eng, st, args, kw):
    v = args[0]
    if isinstance(v, (VFunc, VBound, VBuiltin, VClass)):
        return [(st, VNum(True))]
    if isinstance(v, VFnSym):
        return [(st, VNum(v.t != 0))]
    if isinstance(v, (VNum, VStr)) or v is VNone:
        return [(st, VNum(False))]
    raise Unsupported('callable')


@lib('abs', 'math.fabs')
def b_abs(eng, st, args, kw):
    v = args[0]
    if isinstance(v, VNum):
        t = v.t if v.t.sort() == R else eng.as_int(v)
        return [(st, VNum(z3.simplify(z3.If(t >= 0, t, -t))))]
    if isinstance(v, VArr):
        return [(st, VArr(v.n, lambda j: z3.If(v.get(j) >= 0, v.get(j), -v.get(j))))]
    raise Unsupported('abs')


@lib('round')
def b_round(eng, st, args, kw):
    """nearest integer, ties to even"""
    v = args[0]
    if len(args) > 1:
        raise Unsupported('round to digits')
    if v.t.sort() != R:
        return [(st, v)]
    t = v.t
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    half = z3.RealVal('1/2')
    r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return [(st, VNum(r))]


QUOT = z3.Function('integer_quotient', I, I, I)


@lib('int')
def b_int(eng, st, args, kw):
    if not args:
        return [(st, VNum(0))]
    v = args[0]
    if isinstance(v, VNum):
        if v.t.sort() != R:
            return [(st, VNum(eng.as_int(v)))]
        t = v.t
        if getattr(v, 'ratio', None):
            # truncated quotient of two integers, the first not negative and the second positive: what integer division means
            a, b = v.ratio
            yes, no = eng.branch(st.copy(), z3.And(a >= 0, b > 0))
            if no is None:
                q = QUOT(a, b)
                st.assume(z3.And(q >= 0, b * q <= a, a < b * (q + 1)))
                return [(st, VNum(q))]
        f = z3.ToInt(t)
        return [(st, VNum(z3.If(z3.Or(t >= 0, z3.ToReal(f) == t), f, f + 1)))]
    if isinstance(v, (VStr, VOpaque)):
        r = eng.fresh(st, 'int_of_str', I)
        return [(st, VNum(r))]
    raise Unsupported('int()')


@lib('float')
def b_float(eng, st, args, kw):
    v = args[0]
    if isinstance(v, VNum):
        return [(st, VNum(eng.as_real(v)))]
    if isinstance(v, VStr) and v.s in ('inf', '+inf', 'Infinity', 'infinity'):
        return [(st, VX(z3.BoolVal(True), z3.RealVal(0)))]
    if isinstance(v, VX):
        return [(st, v)]
    raise Unsupported('float()')


@lib('bool')
def b_bool(eng, st, args, kw):
    return [(st, VNum(eng.truth(st, args[0])))]


LIB['math.inf'] = VX(z3.BoolVal(True), z3.RealVal(0))
LIB['numpy.inf'] = LIB['math.inf']
PI = z3.Real('pi')
LIB['math.pi'] = VNum(PI)
LIB['numpy.pi'] = VNum(PI)


@lib('math.isclose')
def m_isclose(eng, st, args, kw):
    a, b = [eng.as_real(x) for x in args[:2]]
    rel = eng.as_real(kw['rel_tol']) if 'rel_tol' in kw else z3.RealVal('1/1000000000')
    ab = eng.as_real(kw['abs_tol']) if 'abs_tol' in kw else z3.RealVal(0)
    ax = lambda t: z3.If(t >= 0, t, -t)
    m = z3.If(ax(a) >= ax(b), ax(a), ax(b))
    lim = z3.If(rel * m >= ab, rel * m, ab)
    return [(st, VNum(z3.Or(a == b, ax(a - b) <= lim)))]


@lib('isinstance')
def b_isinstance(eng, st, args, kw):
    v, c = args
    if isinstance(v, VOpt):
        o = b_isinstance(eng, st, [v.v, c], {})
        return [(a, VNum(z3.And(z3.Not(v.none), x.t))) for a, x in o]
    cs = c.items if isinstance(c, VTup) else [c]
    return [(st, VNum(z3.simplify(z3.Or([isinst1(eng, st, v, x) for x in cs]))))]


def isinst1(eng, st, v, c):
    T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
    if isinstance(c, VClass):
        return eng.isinst(st, v, c.cls)
    if isinstance(c, VTypV):
        raise Unsupported('isinstance with a symbolic type')
    if isinstance(c, VModule):
        name = c.name.split('.')[-1]
    elif isinstance(c, VBuiltin):
        name = c.name.split('.')[-1]
    else:
        raise Unsupported('isinstance %r' % c)
    if isinstance(v, VAny):
        return z3.Function('any_is_' + name, I, B)(v.t)
    if v is VNone:
        return F_
    if name == 'list':
        return T_ if isinstance(v, VRef) and isinstance(v.ty, TList) else F_
    if name == 'tuple':
        return T_ if isinstance(v, VTup) else F_
    if name == 'dict':
        return T_ if isinstance(v, VSDict) or (isinstance(v, VRef) and isinstance(v.ty, TDict)) else F_
    if name == 'str':
        return T_ if isinstance(v, VStr) else F_
    if name in ('Number', 'Real'):
        return T_ if isinstance(v, (VNum, VX)) else F_
    if name == 'int':
        return T_ if isinstance(v, VNum) and v.t.sort() in (I, B) else F_
    if name == 'float':
        return T_ if isinstance(v, VX) or (isinstance(v, VNum) and v.t.sort() == R) else F_
    if name == 'bool':
        return T_ if isinstance(v, VNum) and v.t.sort() == B else F_
    if name == 'type':
        return T_ if isinstance(v, (VClass, VTypV)) or (isinstance(v, VBuiltin) and v.name in eng.tcode) else F_
    if name == 'ndarray':
        return T_ if isinstance(v, VArr) else F_
    if name == 'Callable':
        return T_ if isinstance(v, (VFunc, VBound, VFnSym, VClass, VBuiltin)) else F_
    raise Unsupported('isinstance of %s' % name)


@lib('type')
def b_type(eng, st, args, kw):
    v = args[0]
    if isinstance(v, VRef):
        if isinstance(v.ty, TObj):
            if v.ty.exact:
                return [(st, VClass(eng.repo.classes[v.ty.cname]))]
            return [(st, VTypV(eng.cls_of(st, v)))]
        return [(st, VBuiltin('list' if isinstance(v.ty, TList) else 'dict'))]
    if isinstance(v, VTup):
        return [(st, VBuiltin('tuple'))]
    if isinstance(v, VNum):
        return [(st, VBuiltin({I: 'int', R: 'float', B: 'bool'}[v.t.sort()]))]
    if isinstance(v, VStr):
        return [(st, VBuiltin('str'))]
    if v is VNone:
        return [(st, VBuiltin('NoneType'))]
    if isinstance(v, VAny):
        return [(st, VTypV(z3.Function('any_type', I, I)(v.t)))]
    if isinstance(v, VSDict):
        return [(st, VBuiltin('dict'))]
    return [(st, VOpaque('type'))]


@lib('issubclass')
def b_issubclass(eng, st, args, kw):
    a, b = args
    if isinstance(a, VClass) and isinstance(b, VClass):
        return [(st, VNum(eng.repo.is_sub(a.cls, b.cls)))]
    raise Unsupported('issubclass')


# sequences -----------------------------------------------------------------
@lib('sorted')
def b_sorted(eng, st, args, kw):
    return sort_model(eng, st, args[0], kw.get('key'), kw.get('reverse'))


def sort_model(eng, st, v, key, reverse, into=None):
    q = eng.snap(st, eng.seq_of(st, v))
    n = eng.seq_len(st, q)
    if key is None or key is VNone:
        kget = q.get
    else:
        r = pointwise(eng, st, q, lambda s, x: eng.call(s, key, [x], {}))
        if r is None:
            raise Unsupported('sort key with effects')
        st, kget = r
    rev = z3.BoolVal(False)
    if reverse is not None:
        rev = eng.truth(st, reverse)
    pi = eng.fresh_fn(st, 'perm', I, I)
    inv = eng.fresh_fn(st, 'pinv', I, I)
    p, p2, j = z3.Int('p'), z3.Int('p2'), z3.Int('j')
    # outside the range both are -1 (free choice of the fresh symbols; keeps instantiation finite)
    st.assume(z3.ForAll([p], z3.If(z3.And(p >= 0, p < n), z3.And(pi(p) >= 0, pi(p) < n, inv(pi(p)) == p), pi(p) == -1), patterns=[pi(p)]))
    st.assume(z3.ForAll([j], z3.If(z3.And(j >= 0, j < n), z3.And(inv(j) >= 0, inv(j) < n, pi(inv(j)) == j), inv(j) == -1), patterns=[inv(j)]))
    ka, kb = kget(st, pi(p)), kget(st, pi(p2))
    le = z3.If(rev, eng.order('GtE', ka, kb), eng.order('LtE', ka, kb))
    st.assume(z3.ForAll([p, p2], z3.Implies(z3.And(p >= 0, p < p2, p2 < n), le), patterns=[z3.MultiPattern(pi(p), pi(p2))]))
    try:
        eqk = eng.eq_prim(ka, kb)
        st.assume(z3.ForAll([p, p2], z3.Implies(z3.And(p >= 0, p < p2, p2 < n, eqk), pi(p) < pi(p2)), patterns=[z3.MultiPattern(pi(p), pi(p2))]))
    except Unsupported:
        pass
    if into is None:
        ety = q.elem_ty
        x0 = q.get(st, z3.IntVal(0))
        if ety is None or isinstance(rt(ety), TVar):
            ety = eng.type_of(x0)
        res = VRef(eng.alloc(st, 'sorted'), TList(ety))
    else:
        res = into
        ety = into.ty.elem
    eng.set_len(st, res, n)
    src = q.get(st, pi(p))
    ts = eng.to_terms(src, ety)
    srcj = eng.to_terms(q.get(st, j), ety)
    for (lf, so), t, tj in zip(rt(ety).leaves(), ts, srcj):
        a = eng.fresh(st, 'sorted_arr', AS(I, so))
        st.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < n), z3.And(a[p] == t, pi(p) >= 0, pi(p) < n, inv(pi(p)) == p)), patterns=[a[p]]))
        if z3.is_select(tj) or z3.is_app(tj) and tj.num_args():
            try:
                st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(a[inv(j)] == tj, inv(j) >= 0, inv(j) < n)), patterns=[tj]))
            except z3.Z3Exception:
                pass
        eng.put_arr(st, res, lf, a)
    return [(st, res)]


def extremum(eng, st, v, key, is_max, default=None):
    if isinstance(v, VTup):
        q = eng.tup_seq(v)
    else:
        q = eng.seq_of(st, v)
    q = eng.snap(st, q)
    n = eng.seq_len(st, q)
    ok, bad = eng.branch(st, n > 0)
    res = []
    if bad is not None:
        if default is not None:
            res.append((bad, default))
        else:
            eng.do_raise(bad, VExc('ValueError'))
    if ok is None:
        return res
    st = ok
    if key is None:
        kget = q.get
    else:
        r = pointwise(eng, st, q, lambda s, x: eng.call(s, key, [x], {}))
        if r is None:
            raise Unsupported('key with effects')
        st, kget = r
    w = eng.fresh(st, 'arg' + ('max' if is_max else 'min'), I)
    st.assume(z3.And(w >= 0, w < n))
    j = z3.Int('j')
    op = 'GtE' if is_max else 'LtE'
    sop = 'Gt' if is_max else 'Lt'
    m = lit(n)
    kw_ = kget(st, w)
    if m is not None and m <= 8:
        for k in range(m):
            kk = kget(st, z3.IntVal(k))
            st.assume(eng.order(op, kw_, kk))
            st.assume(z3.Implies(k < w, eng.order(sop, kw_, kk)))
    else:
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), eng.order(op, kw_, kget(st, j)))))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), eng.order(sop, kw_, kget(st, j)))))
    res.append((st, q.get(st, w)))
    return res


@lib('max')
def b_max(eng, st, args, kw):
    return minmax(eng, st, args, kw, True)


@lib('min')
def b_min(eng, st, args, kw):
    return minmax(eng, st, args, kw, False)


def minmax(eng, st, args, kw, mx):
    if len(args) > 1 and not kw:
        v = args[0]
        for x in args[1:]:
            c = eng.order('Gt' if mx else 'Lt', x, v)
            v2 = eng.merge_val(c, x, v)
            if v2 is None:
                raise Unsupported('min/max')
            v = v2
        return [(st, v)]
    v = args[0] if len(args) == 1 else VTup(args)
    key = kw.get('key')
    return extremum(eng, st, v, None if key is None or key is VNone else key, mx, kw.get('default'))


def bool_list(eng, st, v):
    q = eng.seq_of(st, v)
    n = eng.seq_len(st, q)
    return q, n


@lib('any')
def b_any(eng, st, args, kw):
    return any_all(eng, st, args[0], True)


@lib('all')
def b_all(eng, st, args, kw):
    return any_all(eng, st, args[0], False)


def any_all(eng, st, v, is_any):
    q, n = bool_list(eng, st, v)
    m = lit(n)
    if m is not None and m <= 8:
        ts = [eng.truth(st, q.get(st, z3.IntVal(k))) for k in range(m)]
        return [(st, VNum(z3.simplify(z3.Or(ts) if is_any else z3.And(ts))))]
    c = eng.fresh(st, 'any' if is_any else 'all', B)
    w = eng.fresh(st, 'wit', I)
    j = z3.Int('j')
    tw = eng.truth(st, q.get(st, w))
    npc = len(st.pc)
    tj = eng.truth(st, q.get(st, j))
    del st.pc[npc:]
    rw = z3.And(w >= 0, w < n)
    rj = z3.And(j >= 0, j < n)
    if is_any:
        st.assume(z3.Implies(c, z3.And(rw, tw)))
        st.assume(z3.Implies(z3.Not(c), z3.ForAll([j], z3.Implies(rj, z3.Not(tj)))))
    else:
        st.assume(z3.Implies(z3.Not(c), z3.And(rw, z3.Not(tw))))
        st.assume(z3.Implies(c, z3.ForAll([j], z3.Implies(rj, tj))))
    return [(st, VNum(c))]


SUM = z3.Function('sum', AS(I, R), I, R)


def sum_axioms():
    a, n = z3.Const('a', AS(I, R)), z3.Int('n')
    return [z3.ForAll([a, n], z3.Implies(n <= 0, SUM(a, n) == 0), patterns=[SUM(a, n)]),
            z3.ForAll([a, n], z3.Implies(n > 0, SUM(a, n) == SUM(a, n - 1) + a[n - 1]), patterns=[SUM(a, n)])]


def real_array(eng, st, q, n):
    """array term holding the elements of a numeric sequence as reals"""
    j = z3.Int('j!sum')
    x = q.get(st.copy(), j)
    t = eng.as_real(x)
    if z3.is_select(t) and t.arg(1).eq(j) and not eng.mentions(t.arg(0), j):
        return t.arg(0)
    return z3.Lambda([j], t)


@lib('sum', 'numpy.sum', 'math.fsum')
def b_sum(eng, st, args, kw):
    q = eng.seq_of(st, args[0])
    n = eng.seq_len(st, q)
    m = lit(n)
    if m is not None and m <= 8:
        xs = [q.get(st, z3.IntVal(k)) for k in range(m)]
        if any(isinstance(x, VX) for x in xs):
            v = VNum(0)
            for x in xs:
                v = LIB['x_binop'](eng, st, ast.Add(), v, x)[0][1]
            return [(st, v)]
        real = any(x.t.sort() == R for x in xs)
        t = z3.RealVal(0) if real else z3.IntVal(0)
        for x in xs:
            t = t + (eng.as_real(x) if real else eng.as_int(x))
        return [(st, VNum(z3.simplify(t)))]
    return [(st, VNum(SUM(real_array(eng, st, q, n), n)))]


@lib('numpy.mean', 'statistics.mean', 'statistics.fmean', 'numpy.average')
def np_mean(eng, st, args, kw):
    q = eng.seq_of(st, args[0])
    n = eng.seq_len(st, q)
    m = lit(n)
    (st, s), = b_sum(eng, st, args, kw)
    return [(st, VNum(eng.as_real(s) / z3.ToReal(n)))]


@lib('contains')
def b_contains(eng, st, cont, x):
    if isinstance(cont, VOpt):
        cont = cont.v
    if isinstance(cont, (VTup,)):
        ts = [eng.equal(st, y, x, False)[0][1] for y in cont.items]
        return [(st, z3.simplify(z3.Or(ts)) if ts else z3.BoolVal(False))]
    if isinstance(cont, VStr) and isinstance(x, VStr):
        if cont.s is not None and x.s is not None:
            return [(st, z3.BoolVal(x.s in cont.s))]
        a, b = [eng.to_terms(v, TStr)[0] for v in (x, cont)]
        return [(st, z3.Function('str_contains', I, I, B)(a, b))]
    if isinstance(cont, VSDict):
        if isinstance(x, VStr) and x.s is not None:
            return [(st, z3.BoolVal(x.s in cont.items))]
        raise Unsupported('symbolic key')
    if isinstance(cont, VRef) and isinstance(cont.ty, TDict):
        return LIB['dict_has'](eng, st, cont, x)
    if isinstance(cont, VRef) and isinstance(cont.ty, TObj):
        return [(a, eng.truth(a, v)) for a, v in eng.call_method(st, cont, '__contains__', [x], {})]
    q = eng.seq_of(st, cont)
    n = eng.seq_len(st, q)
    m = lit(n)
    if m is not None and m <= 8:
        ts = [eng.equal(st, q.get(st, z3.IntVal(k)), x, False)[0][1] for k in range(m)]
        return [(st, z3.simplify(z3.Or(ts)) if ts else z3.BoolVal(False))]
    c = eng.fresh(st, 'in', B)
    w = eng.fresh(st, 'inw', I)
    j = z3.Int('j')
    e = q.get(st, w)
    eqw = eng.equal(st, e, x, False)
    npc = len(st.pc)
    eqj = eng.equal(st, q.get(st, j), x, False)
    del st.pc[npc:]
    if len(eqw) != 1 or len(eqj) != 1:
        raise Unsupported('membership with overloaded equality')
    st.assume(z3.Implies(c, z3.And(w >= 0, w < n, eqw[0][1])))
    st.assume(z3.Implies(z3.Not(c), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(eqj[0][1])))))
    return [(st, c)]


@lib('list_eq')
def list_eq(eng, st, l, r):
    if isinstance(rt(l.ty.elem), TVar) or isinstance(rt(r.ty.elem), TVar):
        return [(st, eng.list_len(st, l) == eng.list_len(st, r))] if False else [(st, z3.And(eng.list_len(st, l) == 0, eng.list_len(st, r) == 0))]
    n, m = eng.list_len(st, l), eng.list_len(st, r)
    c = eng.fresh(st, 'listeq', B)
    j = z3.Int('j')
    w = eng.fresh(st, 'neqw', I)
    ew = eng.equal(st, eng.list_get(st, l, w), eng.list_get(st, r, w), False)[0][1]
    npc = len(st.pc)
    ej = eng.equal(st, eng.list_get(st, l, j), eng.list_get(st, r, j), False)[0][1]
    del st.pc[npc:]
    st.assume(z3.Implies(c, z3.And(n == m, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), ej)))))
    st.assume(z3.Implies(z3.Not(c), z3.Or(n != m, z3.And(w >= 0, w < n, z3.Not(ew)))))
    return [(st, c)]


# slicing ---------------------------------------------------------------------
def norm_bounds(eng, st, n, lo, hi):
    def norm(v, dflt):
        if v is None:
            return dflt
        t = z3.simplify(eng.as_int(v))
        if z3.is_int_value(t):
            k = t.as_long()
            if k < 0:
                x = n + t
                if eng.holds(st, x >= 0):
                    return z3.simplify(x)
                return z3.simplify(z3.If(x < 0, z3.IntVal(0), x))
            if k == 0 or eng.holds(st, t <= n):
                return t
            return z3.simplify(z3.If(t > n, n, t))
        if eng.holds(st, z3.And(t >= 0, t <= n), full=True):
            return t
        x = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
        return z3.simplify(x)
    a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
    return a, b


@lib('slice')
def b_slice(eng, st, v, lo, hi, step):
    if isinstance(v, VOpt):
        v = v.v
    stp = None
    if step is not None:
        stp = lit(eng.as_int(step))
        if stp is None:
            raise Unsupported('symbolic slice step')
    if isinstance(v, VTup):
        l = None if lo is None else lit(eng.as_int(lo))
        h = None if hi is None else lit(eng.as_int(hi))
        if (lo is not None and l is None) or (hi is not None and h is None):
            raise Unsupported('symbolic tuple slice')
        return [(st, VTup(v.items[l:h:stp]))]
    if isinstance(v, VStr):
        return [(st, VOpaque('str'))]
    if isinstance(v, VArr):
        a, b = norm_bounds(eng, st, v.n, lo, hi)
        if stp not in (None, 1):
            raise Unsupported('array slice step')
        return [(st, VArr(z3.simplify(z3.If(b > a, b - a, z3.IntVal(0))), lambda j: v.get(a + j)))]
    q = eng.snap(st, eng.seq_of(st, v))
    n = eng.seq_len(st, q)
    if stp == -1 and lo is None and hi is None:
        return [(st, eng.list_from_seq(st, n, lambda s, j: q.get(s, n - 1 - j), q.elem_ty))]
    if stp not in (None, 1):
        if stp > 0 and hi is None:
            a, b = norm_bounds(eng, st, n, lo, hi)
            m = z3.simplify(z3.If(b > a, (b - a + stp - 1) / stp, z3.IntVal(0)))
            return [(st, eng.list_from_seq(st, m, lambda s, j: q.get(s, a + stp * j), q.elem_ty))]
        raise Unsupported('slice step')
    a, b = norm_bounds(eng, st, n, lo, hi)
    m = z3.simplify(b - a)
    if not eng.holds(st, m >= 0, full=True):
        m = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
    if isinstance(v, VSeq):
        return [(st, VSeq(m, lambda s, j: q.get(s, z3.simplify(a + j)), q.elem_ty))]
    return [(st, eng.list_from_seq(st, m, lambda s, j: q.get(s, z3.simplify(a + j)), q.elem_ty))]


@lib('slice_assign')
def slice_assign(eng, st, o, lo, hi, v):
    if not (isinstance(o, VRef) and isinstance(o.ty, TList)):
        raise Unsupported('slice assignment')
    q = eng.snap(st, eng.seq_of(st, v))
    if isinstance(v, VRef) and isinstance(v.ty, TList):
        eng.unify(o.ty, v.ty)
    m = eng.seq_len(st, q)
    n = eng.list_len(st, o)
    a, b = norm_bounds(eng, st, n, lo, hi)
    if not eng.holds(st, b >= a, full=True):
        b = z3.simplify(z3.If(b < a, a, b))
    same = eng.holds(st, m == b - a, full=True)
    e = rt(o.ty.elem)
    if isinstance(e, TVar):
        if isinstance(v, VRef) and isinstance(rt(v.ty.elem), TVar):
            return [st]
        raise Unsupported('slice assignment to untyped list')
    p, q1 = z3.Int('p'), z3.Int('q')
    d = z3.IntVal(0) if same else z3.simplify(m - (b - a))
    src_p = eng.to_terms(q.get(st.copy(), p - a), e)
    src_q = eng.to_terms(q.get(st.copy(), q1), e)
    for (lf, so), tp, tq in zip(e.leaves(), src_p, src_q):
        old = eng.list_arr(st, o, lf)
        arr = eng.fresh(st, 'sliced', AS(I, so))
        if same:
            st.assume(z3.ForAll([p], arr[p] == z3.If(z3.And(p >= a, p < b), tp, old[p]), patterns=[arr[p]]))
            if not z3.is_store(old):
                st.assume(z3.ForAll([p], z3.Implies(z3.Or(p < a, p >= b), arr[p] == old[p]), patterns=[old[p]]))
        else:
            st.assume(z3.ForAll([p], arr[p] == z3.If(p < a, old[p], z3.If(p < a + m, tp, old[p - d])), patterns=[arr[p]]))
            if not z3.is_store(old):
                st.assume(z3.ForAll([p], z3.Implies(p < a, arr[p] == old[p]), patterns=[old[p]]))
                st.assume(z3.ForAll([p], z3.Implies(p >= b, arr[p + d] == old[p]), patterns=[old[p]]))
        if z3.is_select(tq) and tq.arg(1).eq(q1):
            st.assume(z3.ForAll([q1], z3.Implies(z3.And(q1 >= 0, q1 < m), arr[a + q1] == tq), patterns=[tq]))
        eng.put_arr(st, o, lf, arr)
    if not same:
        eng.set_len(st, o, z3.simplify(n + d))
    return [st]


@lib('list_concat')
def list_concat(eng, st, l, r):
    eng.unify(l.ty, r.ty)
    n, m = eng.list_len(st, l), eng.list_len(st, r)
    e = rt(l.ty.elem)
    if isinstance(e, TVar):
        return [(st, eng.new_list(st, l.ty.elem))]
    ln, lm = lit(n), lit(m)
    if ln is not None and lm is not None and ln + lm <= 8:
        items = [eng.list_get(st, l, z3.IntVal(k)) for k in range(ln)] + [eng.list_get(st, r, z3.IntVal(k)) for k in range(lm)]
        return [(st, eng.new_list(st, l.ty.elem, items))]
    res = VRef(eng.alloc(st, 'concat'), TList(l.ty.elem))
    eng.set_len(st, res, z3.simplify(n + m))
    p = z3.Int('p')
    for lf, so in e.leaves():
        x, y = eng.list_arr(st, l, lf), eng.list_arr(st, r, lf)
        a = eng.fresh(st, 'cat', AS(I, so))
        concat_ax(st, a, x, y, n, m, p)
        eng.put_arr(st, res, lf, a)
    return [(st, res)]


def concat_ax(st, a, x, y, n, m, p):
    st.assume(z3.ForAll([p], z3.And(z3.Implies(z3.And(p >= 0, p < n), a[p] == x[p]),
                                    z3.Implies(z3.And(p >= n, p < n + m), a[p] == y[p - n])), patterns=[a[p]]))
    if not z3.is_store(x):
        st.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < n), a[p] == x[p]), patterns=[x[p]]))
    if not z3.is_store(y):
        st.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < m), a[n + p] == y[p]), patterns=[y[p]]))


@lib('list_repeat')
def list_repeat(eng, st, l, k):
    n = lit(eng.list_len(st, l))
    if n != 1:
        raise Unsupported('repetition of a list longer than 1')
    x = eng.list_get(st, l, z3.IntVal(0))
    t = eng.as_int(k)
    m = z3.simplify(z3.If(t > 0, t, z3.IntVal(0)))
    return [(st, eng.list_from_seq(st, m, lambda s, j: x, l.ty.elem))]


# list methods ------------------------------------------------------------
@lib('list.append')
def l_append(eng, st, l, args, kw):
    eng.list_append(st, l, args[0])
    return [(st, VNone)]


@lib('list.extend')
def l_extend(eng, st, l, args, kw):
    v = args[0]
    q = eng.snap(st, eng.seq_of(st, v))
    m = eng.seq_len(st, q)
    k = lit(m)
    if k is not None and k <= 6:
        for x in range(k):
            eng.list_append(st, l, q.get(st, z3.IntVal(x)))
        return [(st, VNone)]
    n = eng.list_len(st, l)
    if isinstance(v, VRef):
        eng.unify(l.ty, v.ty)
    x0 = q.get(st.copy(), z3.IntVal(0))
    if isinstance(rt(l.ty.elem), TVar):
        rt(l.ty.elem).ref = eng.type_of(x0)
    e = rt(l.ty.elem)
    p, q1 = z3.Int('p'), z3.Int('q')
    sp = eng.to_terms(q.get(st.copy(), p - n), e)
    sq = eng.to_terms(q.get(st.copy(), q1), e)
    for (lf, so), tp, tq in zip(e.leaves(), sp, sq):
        old = eng.list_arr(st, l, lf)
        a = eng.fresh(st, 'ext', AS(I, so))
        st.assume(z3.ForAll([p], z3.And(z3.Implies(p < n, a[p] == old[p]), z3.Implies(z3.And(p >= n, p < n + m), a[p] == tp)), patterns=[a[p]]))
        if not z3.is_store(old):
            st.assume(z3.ForAll([p], z3.Implies(p < n, a[p] == old[p]), patterns=[old[p]]))
        if z3.is_select(tq) and tq.arg(1).eq(q1) and not eng.mentions(tq.arg(0), q1):
            st.assume(z3.ForAll([q1], z3.Implies(z3.And(q1 >= 0, q1 < m), a[n + q1] == tq), patterns=[tq]))
        eng.put_arr(st, l, lf, a)
    eng.set_len(st, l, z3.simplify(n + m))
    return [(st, VNone)]


@lib('list.copy')
def l_copy(eng, st, l, args, kw):
    if isinstance(rt(l.ty.elem), TVar):
        return [(st, eng.new_list(st, l.ty.elem))]
    return [(st, eng.list_from_seq(st, eng.list_len(st, l), lambda s, j: eng.list_get(s, l, j), l.ty.elem))]


@lib('list.sort')
def l_sort(eng, st, l, args, kw):
    outs = sort_model(eng, st, l, kw.get('key'), kw.get('reverse'), into=l)
    return [(a, VNone) for a, _ in outs]


@lib('list.index')
def l_index(eng, st, l, args, kw):
    n = eng.list_len(st, l)
    out = []
    for a, c in b_contains(eng, st, l, args[0]):
        yes, no = eng.branch(a, c)
        if no is not None:
            eng.do_raise(no, VExc('ValueError'))
        if yes is not None:
            w = eng.fresh(yes, 'index', I)
            j = z3.Int('j')
            ew = eng.equal(yes, eng.list_get(yes, l, w), args[0], False)[0][1]
            npc = len(yes.pc)
            ej = eng.equal(yes, eng.list_get(yes, l, j), args[0], False)[0][1]
            del yes.pc[npc:]
            yes.assume(z3.And(w >= 0, w < n, ew))
            yes.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.Not(ej))))
            out.append((yes, VNum(w)))
    return out


@lib('list.pop')
def l_pop(eng, st, l, args, kw):
    n = eng.list_len(st, l)
    if args and lit(eng.as_int(args[0])) != -1:
        raise Unsupported('pop at index')
    ok, bad = eng.branch(st, n > 0)
    if bad is not None:
        eng.do_raise(bad, VExc('IndexError'))
    if ok is None:
        return []
    x = eng.list_get(ok, l, z3.simplify(n - 1))
    eng.set_len(ok, l, z3.simplify(n - 1))
    return [(ok, x)]


@lib('list.reverse')
def l_reverse(eng, st, l, args, kw):
    n = eng.list_len(st, l)
    q = eng.snap(st, eng.seq_of(st, l))
    tmp = eng.list_from_seq(st, n, lambda s, j: q.get(s, n - 1 - j), l.ty.elem)
    for lf, so in rt(l.ty.elem).leaves():
        eng.put_arr(st, l, lf, eng.list_arr(st, tmp, lf))
    return [(st, VNone)]


@lib('list.clear')
def l_clear(eng, st, l, args, kw):
    eng.set_len(st, l, z3.IntVal(0))
    return [(st, VNone)]


@lib('sdict.items')
def sd_items(eng, st, d, args, kw):
    return [(st, VTup([VTup([VStr(k), v]) for k, v in d.items.items()]))]


@lib('sdict.values')
def sd_values(eng, st, d, args, kw):
    return [(st, VTup(list(d.items.values())))]


@lib('sdict.keys')
def sd_keys(eng, st, d, args, kw):
    return [(st, VTup([VStr(k) for k in d.items]))]


@lib('sdict.get')
def sd_get(eng, st, d, args, kw):
    k = args[0]
    if isinstance(k, VStr) and k.s is not None:
        return [(st, d.items.get(k.s, args[1] if len(args) > 1 else VNone))]
    raise Unsupported('symbolic key')


@lib('str.split', 'str.join', 'str.format', 'str.lower', 'str.strip', 'str.upper')
def s_opaque(eng, st, s, args, kw):
    return [(st, VOpaque('str'))]


# randomness --------------------------------------------------------------
@lib('random.seed')
def r_seed(eng, st, args, kw):
    st.glob['$std_seed'] = args[0]
    return [(st, VNone)]


@lib('numpy.random.seed')
def np_seed(eng, st, args, kw):
    st.glob['$np_seed'] = args[0]
    return [(st, VNone)]


@lib('any.shutdown')
def any_shutdown(eng, st, o, args, kw):
    k = st.glob.get('$shutdowns', VNum(0))
    st.glob['$shutdowns'] = VNum(k.t + 1)
    return [(st, VNone)]


@lib('any.submit')
def any_submit(eng, st, o, args, kw):
    """executor contract: the future's result is what the function returns for these arguments"""
    return [(s, VAny(eng.any_code(v))) for s, v in eng.call(st, args[0], list(args[1:]), dict(kw))]


@lib('any.result')
def any_result(eng, st, o, args, kw):
    return [(st, VNum(z3.Function('real_of_any', I, R)(o.t)))]


@lib('any.map')
def any_map(eng, st, o, args, kw):
    """executor contract: the results of the function on the elements, in their order"""
    if len(args) != 2 or any(k not in ('timeout', 'chunksize') for k in kw):
        raise Unsupported('map of several sequences')
    q = eng.snap(st, eng.seq_of(st, args[1]))
    r = pointwise(eng, st, q, lambda s, x: eng.call(s, args[0], [x], {}))
    if r is None:
        raise Unsupported('map of a function with effects')
    st, get = r
    n = eng.seq_len(st, q)
    return [(st, VSeq(n, get, None))]


@lib('__dict__.values')
def dict_values(eng, st, o, args, kw):
    """the declared attributes of the object, in no particular order"""
    out = []
    seen = set()
    for c in eng.repo.mro(eng.repo.classes[o.ty.cname]):
        for (cn, f), ty in list(eng.ftypes.items()):
            if cn == c.name and f not in seen and not f.startswith('ghost_'):
                seen.add(f)
                out.append(eng.get_field(st, o.t, o.ty.cname, f))
    return [(st, VTup(out))]


@lib('__dict__.copy')
def dict_copy(eng, st, o, args, kw):
    """the declared attributes of an object of exactly this class"""
    if not o.ty.exact:
        raise Unsupported('__dict__ of an object of unknown class')
    out = {}
    for c in eng.repo.mro(eng.repo.classes[o.ty.cname]):
        for (cn, f), ty in list(eng.ftypes.items()):
            if cn == c.name and f not in out and not f.startswith('ghost'):
                out[f] = eng.get_field(st, o.t, o.ty.cname, f)
    return [(st, VSDict(out))]


def drew(eng, st, std=True):
    """a draw moves the random source on"""
    k = '$std_seed' if std else '$np_seed'
    if k in st.glob:
        st.glob[k] = VNum(eng.fresh(st, 'state', I))


@lib('time.time', 'time.perf_counter', 'time.monotonic')
def t_time(eng, st, args, kw):
    r = eng.fresh(st, 'now', R)
    st.assume(r >= 0)
    return [(st, VNum(r))]


@lib('time.time_ns')
def t_time_ns(eng, st, args, kw):
    r = eng.fresh(st, 'now', I)
    st.assume(r >= 0)
    return [(st, VNum(r))]


@lib('concurrent.futures.ThreadPoolExecutor', 'concurrent.futures.ProcessPoolExecutor', 'concurrent.futures.thread.ThreadPoolExecutor', 'concurrent.futures.process.ProcessPoolExecutor')
def f_executor(eng, st, args, kw):
    r = eng.fresh(st, 'executor', I)
    st.assume(z3.And(r != 0, z3.Not(z3.Function('any_is_Operator', I, B)(r))))
    return [(st, VAny(r))]


@lib('random.random')
def r_random(eng, st, args, kw):
    drew(eng, st)
    r = eng.fresh(st, 'rnd', R)
    st.assume(z3.And(r >= 0, r < 1))
    return [(st, VNum(r))]


@lib('random.getrandbits')
def r_getrandbits(eng, st, args, kw):
    drew(eng, st)
    k = lit(eng.as_int(args[0]))
    if k is None:
        raise Unsupported('getrandbits')
    v = eng.fresh(st, 'bits', I)
    st.assume(z3.And(v >= 0, v < 2 ** k))
    return [(st, VNum(v))]


@lib('random.randint')
def r_randint(eng, st, args, kw):
    drew(eng, st)
    a = [x.v if isinstance(x, VOpt) else x for x in args]
    lo, hi = eng.as_int(a[0]), eng.as_int(a[1])
    ok, bad = eng.branch(st, lo <= hi)
    if bad is not None:
        eng.do_raise(bad, VExc('ValueError'))
    if ok is None:
        return []
    r = eng.fresh(ok, 'randint', I)
    ok.assume(z3.And(r >= lo, r <= hi))
    return [(ok, VNum(r))]


@lib('random.randrange')
def r_randrange(eng, st, args, kw):
    drew(eng, st)
    lo, hi = (z3.IntVal(0), eng.as_int(args[0])) if len(args) == 1 else (eng.as_int(args[0]), eng.as_int(args[1]))
    return r_randint(eng, st, [VNum(lo), VNum(hi - 1)], {})


@lib('random.uniform')
def r_uniform(eng, st, args, kw):
    drew(eng, st)
    lo, hi = eng.as_real(args[0]), eng.as_real(args[1])
    r = eng.fresh(st, 'uniform', R)
    st.assume(z3.Or(z3.And(lo <= r, r <= hi), z3.And(hi <= r, r <= lo)))
    return [(st, VNum(r))]


@lib('random.gauss', 'random.normalvariate')
def r_gauss(eng, st, args, kw):
    drew(eng, st)
    return [(st, VNum(eng.fresh(st, 'gauss', R)))]


def pick(eng, st, pop, k, distinct, name):
    q = eng.snap(st, eng.seq_of(st, pop))
    n = eng.seq_len(st, q)
    c = eng.fresh_fn(st, name, I, I)
    p = z3.Int('p')
    facts = [c(p) >= 0, c(p) < n]
    if distinct:
        d = eng.fresh_fn(st, name + '_inv', I, I)
        facts.append(d(c(p)) == p)
    st.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < k), z3.And(facts)), patterns=[c(p)]))
    res = eng.list_from_seq(st, k, lambda s, j: q.get(s, c(j)), q.elem_ty, site=name)
    m = lit(k)
    if m is not None and m <= 6:
        for x in range(m):
            st.assume(z3.And([z3.substitute(f, (p, z3.IntVal(x))) for f in facts]))
    return st, res


@lib('random.choices')
def r_choices(eng, st, args, kw):
    drew(eng, st)
    pop = args[0]
    k = eng.as_int(kw['k']) if 'k' in kw else z3.IntVal(1)
    q = eng.seq_of(st, pop)
    n = eng.seq_len(st, q)
    ok, bad = eng.branch(st, z3.Or(n > 0, k <= 0))
    if bad is not None:
        eng.do_raise(bad, VExc('IndexError'))
    if ok is None:
        return []
    if not eng.holds(ok, k >= 0):
        k = z3.If(k > 0, k, z3.IntVal(0))
    st, res = pick(eng, ok, pop, k, False, 'choices')
    return [(st, res)]


@lib('random.sample')
def r_sample(eng, st, args, kw):
    drew(eng, st)
    pop = args[0]
    k = eng.as_int(kw['k']) if 'k' in kw else eng.as_int(args[1])
    q = eng.seq_of(st, pop)
    n = eng.seq_len(st, q)
    ok, bad = eng.branch(st, z3.And(k >= 0, k <= n))
    if bad is not None:
        eng.do_raise(bad, VExc('ValueError'))
    if ok is None:
        return []
    st, res = pick(eng, ok, pop, k, True, 'sample')
    return [(st, res)]


@lib('random.choice')
def r_choice(eng, st, args, kw):
    drew(eng, st)
    q = eng.seq_of(st, args[0])
    n = eng.seq_len(st, q)
    ok, bad = eng.branch(st, n > 0)
    if bad is not None:
        eng.do_raise(bad, VExc('IndexError'))
    if ok is None:
        return []
    c = eng.fresh(ok, 'choice', I)
    ok.assume(z3.And(c >= 0, c < n))
    return [(ok, q.get(ok, c))]


# numpy -----------------------------------------------------------------------
def absr(t):
    return z3.If(t >= 0, t, -t)


def ufunc(f, nargs):
    def h(eng, st, args, kw):
        if kw:
            raise Unsupported('ufunc keyword')
        if len(args) != nargs:
            raise Unsupported('ufunc arity')
        return [(st, lift(eng, st, f, args))]
    return h


def lift(eng, st, f, args):
    arrs = [a for a in args if isinstance(a, VArr)]

    def term(a, j):
        if isinstance(a, VArr):
            return a.get(j)
        if isinstance(a, VOpt):
            a = a.v
        if isinstance(a, VNum):
            return a.t
        raise Unsupported('array operation on %r' % a)
    if arrs:
        n = arrs[0].n
        return VArr(n, lambda j: f(*[term(a, j) for a in args]))
    return VNum(f(*[term(a, None) for a in args]))


def rl(t):
    if t.sort() == B:
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(t) if t.sort() == I else t


def tr(t):
    return t if t.sort() == B else t != 0


def arith(f):
    def g(a, b):
        if a.sort() == I and b.sort() == I:
            return f(a, b)
        return f(rl(a), rl(b))
    return g


def ite(c, a, b):
    if a.sort() != b.sort():
        a, b = rl(a), rl(b)
    return z3.If(tr(c), a, b)


def un(name):
    F = z3.Function('math_' + name, R, R)
    return lambda x: F(rl(x))


for nm in ('numpy.add', 'operator.add'):
    LIB[nm] = ufunc(arith(lambda a, b: a + b), 2)
for nm in ('numpy.subtract', 'operator.sub'):
    LIB[nm] = ufunc(arith(lambda a, b: a - b), 2)
for nm in ('numpy.multiply', 'operator.mul'):
    LIB[nm] = ufunc(arith(lambda a, b: a * b), 2)
LIB['numpy.divide'] = LIB['numpy.true_divide'] = ufunc(lambda a, b: rl(a) / rl(b), 2)
LIB['numpy.abs'] = LIB['numpy.absolute'] = LIB['numpy.fabs'] = ufunc(lambda a: absr(a), 1)
LIB['numpy.negative'] = ufunc(lambda a: -a, 1)
LIB['numpy.maximum'] = LIB['numpy.fmax'] = ufunc(arith(lambda a, b: z3.If(a >= b, a, b)), 2)
LIB['numpy.minimum'] = LIB['numpy.fmin'] = ufunc(arith(lambda a, b: z3.If(a <= b, a, b)), 2)
for nm in ('sqrt', 'log', 'sin', 'cos', 'tan', 'exp', 'log2', 'log10', 'log1p', 'arctan', 'tanh', 'floor', 'ceil'):
    LIB['numpy.' + nm] = ufunc(un(nm), 1)
    LIB['math.' + nm] = LIB['numpy.' + nm]
LIB['numpy.square'] = ufunc(lambda a: a * a, 1)
LIB['numpy.reciprocal'] = ufunc(lambda a: z3.RealVal(1) / rl(a), 1)
LIB['numpy.logical_and'] = ufunc(lambda a, b: z3.And(tr(a), tr(b)), 2)
LIB['numpy.logical_or'] = ufunc(lambda a, b: z3.Or(tr(a), tr(b)), 2)
LIB['numpy.logical_not'] = ufunc(lambda a: z3.Not(tr(a)), 1)
LIB['numpy.logical_xor'] = ufunc(lambda a, b: z3.Xor(tr(a), tr(b)), 2)
LIB['numpy.greater'] = ufunc(arith(lambda a, b: a > b), 2)
LIB['numpy.greater_equal'] = ufunc(arith(lambda a, b: a >= b), 2)
LIB['numpy.less'] = ufunc(arith(lambda a, b: a < b), 2)
LIB['numpy.less_equal'] = ufunc(arith(lambda a, b: a <= b), 2)
LIB['numpy.equal'] = ufunc(arith(lambda a, b: a == b), 2)
LIB['numpy.where'] = ufunc(ite, 3)


def bit(name):
    F = z3.Function('bit_' + name, I, I, I)

    def f(a, b):
        if a.sort() == B and b.sort() == B:
            return z3.And(a, b) if name == 'and' else z3.Or(a, b)
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0)) if a.sort() == B else a
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0)) if b.sort() == B else b
        if a.sort() == R or b.sort() == R:
            raise Unsupported('bitwise operation on floats')
        if name == 'and':
            g = z3.If(z3.Or(a == 0, b == 0), z3.IntVal(0), z3.If(a == b, a, F(a, b)))
        else:
            g = z3.If(a == 0, b, z3.If(b == 0, a, z3.If(a == b, a, F(a, b))))
        return g
    return f


LIB['numpy.bitwise_and'] = ufunc(bit('and'), 2)
LIB['numpy.bitwise_or'] = ufunc(bit('or'), 2)


@lib('numpy.errstate', 'warnings.catch_warnings')
def np_errstate(eng, st, args, kw):
    return [(st, VOpaque('ctx'))]


@lib('numpy.argmax')
def np_argmax(eng, st, args, kw):
    v = args[0]
    if isinstance(v, VRef) and isinstance(v.ty, TList):
        n = lit(eng.list_len(st, v))
        if n is not None and n <= 8:
            xs = [eng.list_get(st, v, z3.IntVal(k)) for k in range(n)]
            v = VTup(xs)
    if isinstance(v, VTup):
        def f(*ts):
            ts = [rl(t) for t in ts]
            best, val = z3.IntVal(0), ts[0]
            for k, t in enumerate(ts[1:], 1):
                c = t > val
                best = z3.If(c, z3.IntVal(k), best)
                val = z3.If(c, t, val)
            return best
        return [(st, lift(eng, st, f, v.items))]
    return arg_ext(eng, st, v, True)


@lib('numpy.argmin')
def np_argmin(eng, st, args, kw):
    return arg_ext(eng, st, args[0], False)


def arg_ext(eng, st, v, mx):
    q = eng.seq_of(st, v)
    n = eng.seq_len(st, q)
    ok, bad = eng.branch(st, n > 0)
    if bad is not None:
        eng.do_raise(bad, VExc('ValueError'))
    if ok is None:
        return []
    w = eng.fresh(ok, 'argext', I)
    j = z3.Int('j')
    ok.assume(z3.And(w >= 0, w < n))
    x, y = q.get(ok, w), q.get(ok.copy(), j)
    ok.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), eng.order('GtE' if mx else 'LtE', x, y))))
    ok.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), eng.order('Gt' if mx else 'Lt', x, y))))
    return [(ok, VNum(w))]


@lib('numpy.min', 'numpy.amin')
def np_min(eng, st, args, kw):
    return extremum(eng, st, args[0], None, False)


@lib('numpy.max', 'numpy.amax')
def np_max(eng, st, args, kw):
    return extremum(eng, st, args[0], None, True)


@lib('numpy.array', 'numpy.asarray')
def np_array(eng, st, args, kw):
    v = args[0]
    if isinstance(v, VArr):
        return [(st, v)]
    if isinstance(v, VNum):
        return [(st, v)]
    q = eng.snap(st, eng.seq_of(st, v))
    n = eng.seq_len(st, q)
    return [(st, VArr(n, lambda j: rl(q.get(st.copy(), j).t)))]


@lib('arr.astype')
def arr_astype(eng, st, a, args, kw):
    c = args[0]
    nm = c.name if isinstance(c, VBuiltin) else ''
    if nm == 'int':
        return [(st, VArr(a.n, lambda j: to_int(a.get(j))))]
    if nm == 'float':
        return [(st, VArr(a.n, lambda j: rl(a.get(j))))]
    raise Unsupported('astype')


def to_int(t):
    if t.sort() == B:
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if t.sort() == I:
        return t
    f = z3.ToInt(t)
    return z3.If(z3.Or(t >= 0, z3.ToReal(f) == t), f, f + 1)


@lib('num.astype')
def num_astype(eng, st, a, args, kw):
    c = args[0]
    nm = c.name if isinstance(c, VBuiltin) else ''
    if nm == 'int':
        return [(st, VNum(to_int(a.t)))]
    if nm == 'float':
        return [(st, VNum(rl(a.t)))]
    if nm == 'bool':
        return [(st, VNum(tr(a.t)))]
    raise Unsupported('astype')


@lib('arr_binop')
def arr_binop(eng, st, op, l, r):
    fs = {ast.Add: arith(lambda a, b: a + b), ast.Sub: arith(lambda a, b: a - b), ast.Mult: arith(lambda a, b: a * b),
          ast.Div: lambda a, b: rl(a) / rl(b)}
    f = fs.get(type(op))
    if f is None:
        raise Unsupported('array operator')
    return [(st, lift(eng, st, f, [l, r]))]


@lib('arr_compare')
def arr_compare(eng, st, op, l, r):
    fs = {'Lt': lambda a, b: a < b, 'Gt': lambda a, b: a > b, 'LtE': lambda a, b: a <= b, 'GtE': lambda a, b: a >= b,
          'Eq': lambda a, b: a == b, 'NotEq': lambda a, b: a != b}
    return lift(eng, st, arith(fs[type(op).__name__]), [l, r])


@lib('arr_getitem')
def arr_getitem(eng, st, o, k):
    if not isinstance(k, VNum):
        raise Unsupported('array index')
    return [(a, VNum(o.get(i))) for a, i in eng.norm_index(st, k, o.n)]


@lib('x_binop')
def x_binop(eng, st, op, l, r):
    a, b = eng.to_terms(l, TX), eng.to_terms(r, TX)
    if isinstance(op, ast.Add):
        return [(st, VX(z3.simplify(z3.Or(a[0], b[0])), z3.simplify(a[1] + b[1])))]
    if isinstance(op, (ast.Div, ast.Mult)) and isinstance(r, VNum):
        y = eng.as_real(r)
        if eng.holds(st, y > 0):
            return [(st, VX(a[0], a[1] / y if isinstance(op, ast.Div) else a[1] * y))]
    if isinstance(op, ast.Sub) and isinstance(r, VNum):
        return [(st, VX(a[0], a[1] - b[1]))]
    raise Unsupported('arithmetic on infinities')
