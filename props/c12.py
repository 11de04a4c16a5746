"""C12: executing a tree computes its expression."""
import z3
from pycv.engine import Contract
from pycv.vals import *
from .common import *
from . import trees
from .trees import *

APP = z3.Function('applied', I, I, AS(I, I), I)       # function, number of arguments, arguments
VAL = z3.Function('value_at', I, I)                   # value of the subtree that starts at a position
KW = TDict(TAny, TAny)


def given(u, st, d, k):
    from pycv.dicts import position, value
    s = st.copy()
    return position(u.eng, s, d, k) >= 0, value(u.eng, s, d, k).t


def values(u, st, N, P, kwd):
    """VAL is the value of the expression: by structure"""
    p, i = z3.Ints('p i')
    A = z3.Const('A', AS(I, I))
    inr = z3.And(p >= 0, p < N.n)
    fn, tv = N.f(p, FN, 'function').t, N.f(p, TN, 'value').t
    has, v = given(u, st, kwd, tv)
    return [z3.ForAll([p], z3.Implies(z3.And(inr, N.isterm(p)), VAL(p) == z3.If(has, v, tv)), patterns=[VAL(p)]),
            z3.ForAll([p, A], z3.Implies(z3.And(inr, N.isfun(p), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N.nargs(p)), A[i] == VAL(P.CH(p, i))))),
                                         VAL(p) == APP(fn, N.nargs(p), A)), patterns=[z3.MultiPattern(VAL(p), APP(fn, N.nargs(p), A))])]


def star(e, s, args):
    """(number, array of values) of the positional arguments of a call"""
    if len(args) == 1 and isinstance(args[0], tuple):
        v = args[0][1]
        if isinstance(v, VTup):
            args = v.items
        else:
            q = e.snap(s, e.seq_of(s, v))
            n = e.seq_len(s, q)
            a = e.fresh(s, 'args', AS(I, I))
            i = z3.Int('i')
            s.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), a[i] == e.any_code(q.get(s, i))), patterns=[a[i]]))
            return n, a
    a = e.fresh(s, 'args', AS(I, I))
    for k, x in enumerate(args):
        a = z3.Store(a, k, e.any_code(x))
    return z3.IntVal(len(args)), a


def callback(u):
    def apply(e, s, f, args, kw):
        n, a = star(e, s, args)
        return [(s, VAny(APP(f.t, n, a)))]
    u.eng.contracts['callback'] = Contract('a function node\'s function: a function of its argument values', apply)


def execute_rec(u):
    e = u.eng
    trees.schema(e)
    st = u.state()
    t = u.obj(st, 'Tree', 'tree')
    N = Nodes(u, st, u.field(st, t, 'tree'))
    P = Parse()
    pos = u.list(st, TInt, 'pos')
    kwd = VRef(z3.Int('kwargs'), KW)
    e.wf(st, kwd)
    callback(u)
    for f in parse_axioms(N, P) + values(u, st, N, P, kwd):
        st.assume(f)
    at = lambda s: elem(u, s, pos, z3.IntVal(0)).t
    p0 = at(st)
    st.assume(z3.And(e.list_len(st, pos) == 1, p0 >= 0, p0 < N.n, pos.t != N.lst.t))

    def rec(e, s, o, a, kw):
        e.require(s, 'execute: on the same tree, the same cursor and the same variables', z3.And(o.t == t.t, a[0].t == pos.t, kw['**'].t == kwd.t))
        q = at(s)
        e.require(s, 'execute: at a subtree', z3.And(e.list_len(s.copy(), pos) == 1, q >= 0, q < N.n))
        e.require(s, 'execute: further on', q > p0)
        e.list_set(s, pos, z3.IntVal(0), VNum(P.END(q) - 1))
        return [(s, VAny(VAL(q)))]
    e.contracts['Tree._execute'] = Contract('Tree._execute (this unit)', rec)
    e.state_invs.append(lambda s, i: [('cursor before the next argument', z3.And(at(s) == P.CH(p0, i) - 1, e.list_len(s.copy(), pos) == 1))])
    j = z3.Int('j')

    def collected(s, i, v):
        if not (isinstance(v, VRef) and isinstance(v.ty, TList)):
            return []
        try:
            c = lambda q: e.any_code(elem(u, s, v, q))
            return [('arguments so far', z3.And(e.list_len(s.copy(), v) == i, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), c(j) == VAL(P.CH(p0, j))), patterns=[c(j)])))]
        except Unsupported:
            return []
    e.local_invs.append(collected)
    outs, rs = u.call(st, 'Tree', '_execute', t, [pos], {'**': kwd})
    u.cover_any('execute', [s for s, _ in outs])
    u.no_raise('execute', rs)
    for s, v in outs:
        u.ob('execute: the value of the subtree', s, e.any_code(v) == VAL(p0))
        u.ob('execute: the cursor ends on the last node of the subtree', s, z3.And(at(s) == P.END(p0) - 1, e.list_len(s.copy(), pos) == 1))
        frame(u, 'execute', st, s, allow=lambda cn, r: r == pos.t)
    u.ob('execute: returns', st, z3.BoolVal(bool(outs)))


DEP = z3.Function('depth_at', I, I)
DEEP = z3.Function('deepest_argument', I, I)


def depths(N, P):
    """a terminal has depth 0, a function node is one deeper than its deepest argument"""
    p, i = z3.Ints('p i')
    inr = z3.And(p >= 0, p < N.n)
    return [z3.ForAll([p], z3.Implies(z3.And(inr, N.isterm(p)), DEP(p) == 0), patterns=[DEP(p)]),
            z3.ForAll([p], z3.Implies(z3.And(inr, N.isfun(p)), z3.And(DEEP(p) >= 0, DEEP(p) < N.nargs(p), DEP(p) == 1 + DEP(P.CH(p, DEEP(p))))), patterns=[DEP(p)]),
            z3.ForAll([p, i], z3.Implies(z3.And(inr, N.isfun(p), i >= 0, i < N.nargs(p)), DEP(P.CH(p, i)) + 1 <= DEP(p)), patterns=[P.CH(p, i)])]


def depth_rec(u):
    e = u.eng
    trees.schema(e)
    st = u.state()
    t = u.obj(st, 'Tree', 'tree')
    N = Nodes(u, st, u.field(st, t, 'tree'))
    P = Parse()
    pos = u.list(st, TInt, 'pos')
    d = VNum(z3.Int('d'))
    for f in parse_axioms(N, P) + depths(N, P):
        st.assume(f)
    at = lambda s: elem(u, s, pos, z3.IntVal(0)).t
    p0 = at(st)
    st.assume(z3.And(e.list_len(st, pos) == 1, p0 >= 0, p0 < N.n, pos.t != N.lst.t))

    def rec(e, s, o, a, kw):
        e.require(s, 'depth: on the same tree with the same cursor', z3.And(o.t == t.t, a[0].t == pos.t))
        q = at(s)
        e.require(s, 'depth: at a subtree', z3.And(e.list_len(s.copy(), pos) == 1, q >= 0, q < N.n))
        e.require(s, 'depth: further on', q > p0)
        e.list_set(s, pos, z3.IntVal(0), VNum(P.END(q) - 1))
        return [(s, VNum(DEP(q)))]
    e.contracts['Tree._depth'] = Contract('Tree._depth (this unit)', rec)
    e.state_invs.append(lambda s, i: [('cursor before the next argument', z3.And(at(s) == P.CH(p0, i) - 1, e.list_len(s.copy(), pos) == 1))])
    j = z3.Int('j')

    def collected(s, i, v):
        if isinstance(v, VRef) and isinstance(v.ty, TList) and (rt(v.ty.elem) is TInt or isinstance(rt(v.ty.elem), TVar)) and v.t is not pos.t:
            c = lambda q: e.to_terms(elem(u, s, v, q), TInt)[0]
            return [('depths so far', z3.And(e.list_len(s.copy(), v) == i, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), c(j) == 1 + DEP(P.CH(p0, j))), patterns=[c(j)])))]
        return []
    e.local_invs.append(collected)
    outs, rs = u.call(st, 'Tree', '_depth', t, [pos, d])
    u.cover_any('depth', [s for s, _ in outs])
    u.no_raise('depth', rs)
    for s, v in outs:
        u.ob('depth: of the subtree', s, e.to_terms(v, TInt)[0] == DEP(p0))
        u.ob('depth: the cursor ends on the last node of the subtree', s, z3.And(at(s) == P.END(p0) - 1, e.list_len(s.copy(), pos) == 1))
        frame(u, 'depth', st, s, allow=lambda cn, r: r == pos.t)
    u.ob('depth: returns', st, z3.BoolVal(bool(outs)))


def depth(u):
    """depth and size of a tree that is not empty"""
    e = u.eng
    trees.schema(e)
    st = u.state()
    t = u.obj(st, 'Tree', 'tree')
    N = Nodes(u, st, u.field(st, t, 'tree'))
    st.assume(N.n >= 1)

    def rec(e, s, o, a, kw):
        q = elem(u, s, a[0], z3.IntVal(0)).t
        e.require(s, 'depth: the whole tree', z3.And(o.t == t.t, e.list_len(s.copy(), a[0]) == 1, q == 0, a[0].t != N.lst.t, a[0].t >= st.alloc))
        e.list_set(s, a[0], z3.IntVal(0), VNum(e.fresh(s, 'cursor', I)))
        return [(s, VNum(DEP(z3.IntVal(0))))]
    e.contracts['Tree._depth'] = Contract('Tree._depth (unit depth_rec)', rec)
    outs, rs = u.call(st, 'Tree', 'depth', t)
    u.no_raise('depth', rs)
    u.ob('depth: returns', st, z3.BoolVal(bool(outs)))
    for s, v in outs:
        u.ob('depth: of the whole expression', s, v.t == DEP(0))
        frame(u, 'depth', st, s)
    outs, rs = u.call(st, 'Tree', 'size', t)
    u.no_raise('size', rs)
    u.ob('size: returns', st, z3.BoolVal(bool(outs)))
    for s, v in outs:
        u.ob('size: number of nodes', s, v.t == N.n)
        frame(u, 'size', st, s)


def execute(u):
    """execute with variables given by name"""
    e = u.eng
    trees.schema(e)
    e.ftypes[('Tree', 'terminal_set')] = KW
    st = u.state()
    t = u.obj(st, 'Tree', 'tree')
    N = Nodes(u, st, u.field(st, t, 'tree'))
    kwd = VRef(z3.Int('kwargs'), KW)
    e.wf(st, kwd)
    ts = u.field(st, t, 'terminal_set')
    st.assume(z3.And(kwd.t > 0, kwd.t < st.alloc, ts.t > 0, ts.t < st.alloc, kwd.t != ts.t))
    x = z3.Int('x')
    has_k, has_t = lambda c: given(u, st, kwd, c)[0], lambda c: given(u, st, ts, c)[0]
    bad = z3.Exists([x], z3.And(has_k(x), z3.Not(has_t(x))))
    ran = []

    def rec(e, s, o, a, kw):
        q = elem(u, s, a[0], z3.IntVal(0)).t
        e.require(s, 'execute: the whole tree, with the variables given', z3.And(o.t == t.t, e.list_len(s.copy(), a[0]) == 1, q == 0, a[0].t >= st.alloc, kw['**'].t == kwd.t))
        e.require(s, 'execute: the tree is not empty', N.n >= 1)
        e.list_set(s, a[0], z3.IntVal(0), VNum(e.fresh(s, 'cursor', I)))
        return [(s, VAny(VAL(z3.IntVal(0))))]
    e.contracts['Tree._execute'] = Contract('Tree._execute (unit execute_rec)', rec)
    outs, rs = u.call(st, 'Tree', 'execute', t, [], {'**': kwd})
    u.cover_any('execute', [s for s, _ in outs])
    u.ob('execute: returns', st, z3.BoolVal(bool(outs)))
    NUM = z3.Function('any_is_Number', I, B)
    c = z3.Int('some!variable')
    for s, v in outs:
        u.ob('execute: the value of the whole expression', s, e.any_code(v) == VAL(0))
        u.ob('execute: the tree is not empty', s, N.n >= 1)
        u.ob('execute: every given variable is in the terminal set', s, z3.Implies(has_k(c), has_t(c)))
        u.ob('execute: every variable terminal is given', s, z3.Implies(z3.And(has_t(c), z3.Not(NUM(c))), has_k(c)))
        frame(u, 'execute', st, s)
    for s, x_ in rs:
        why = z3.Or(N.n == 0, bad, z3.Exists([x], z3.And(has_t(x), z3.Not(NUM(x)), z3.Not(has_k(x)))))
        u.ob('execute: raises only for an empty tree, an unknown or a missing variable', s, z3.And(z3.BoolVal(x_.name == 'ValueError'), why))
        frame(u, 'execute refused', st, s)


UNITS = {'execute_rec': execute_rec, 'depth_rec': depth_rec, 'depth': depth, 'execute': execute}
