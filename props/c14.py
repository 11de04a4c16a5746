"""C14: Pareto dominance is a strict partial order in the declared directions; crowded comparison."""
import z3
from pycv.vals import *

N = 'NSGA2Fitness'


def setup(u):
    u.eng.ftypes[('Individual', 'fitness')] = TObj(N, exact=True)
    return u.state()


class Fit:
    """the abstract view of one fitness object in a state"""

    def __init__(self, u, st, v):
        e = u.eng
        self.v = v
        self.ev = u.field(st, v, '_is_evaluated').t
        self.lst = u.field(st, v, 'fitness')
        self.null = self.lst.t == 0
        self.n = e.list_len(st, self.lst)
        self.arr = e.list_arr(st, self.lst)
        h = u.field(st, v, 'higher_is_better')
        self.hlist = h.tag == 1
        self.hbool = h.items[0].t
        self.hn = e.list_len(st, h.items[1])
        self.harr = e.list_arr(st, h.items[1])
        self.hib = h
        self.crowd = u.field(st, v, 'crowding')
        self.rank = u.field(st, v, 'front_rank')

    def inv(self):
        """evaluated: there are scores, and one direction per objective"""
        return z3.Implies(self.ev, z3.And(z3.Not(self.null), z3.Or(self.hib.tag == 0, self.hib.tag == 1)))

    def listed(self):
        return z3.And(self.hlist, self.hn == self.n, self.hib.items[1].t > 0)


def atl(h, x, y):
    return z3.If(h, x >= y, x <= y)


def btr(h, x, y):
    return z3.If(h, x > y, x < y)


def dom(a, b):
    k = z3.Int('k')
    r = z3.And(k >= 0, k < a.n)
    return z3.And(z3.ForAll([k], z3.Implies(r, atl(a.harr[k], a.arr[k], b.arr[k]))), z3.Exists([k], z3.And(r, btr(a.harr[k], a.arr[k], b.arr[k]))))


def two(u):
    st = setup(u)
    a, b = u.obj(st, N, 'fa', exact=True), u.obj(st, N, 'fb', exact=True)
    x, y = u.obj(st, 'Individual', 'ia'), u.obj(st, 'Individual', 'ib')
    st.assume(u.field(st, x, 'fitness').t == a.t)
    st.assume(u.field(st, y, 'fitness').t == b.t)
    A, B_ = Fit(u, st, a), Fit(u, st, b)
    st.assume(A.inv())
    st.assume(B_.inv())
    st.assume(z3.Implies(A.ev, A.listed()))
    st.assume(z3.Implies(B_.ev, B_.listed()))
    return st, a, b, x, y, A, B_


def dominate(u):
    st, a, b, x, y, A, B_ = two(u)
    ok = z3.And(A.ev, B_.ev, A.n == B_.n)
    outs, rs = u.call(st, N, 'dominate', a, [x, b, y])
    u.cover('dominate', st)
    for s, v in outs:
        u.ob('dominate: true exactly when at least as good everywhere and better somewhere', s, u.eng.truth(s, v) == dom(A, B_))
        u.ob('dominate returns only for evaluated scores of equal length', s, ok)
        F = Fit(u, s, a)
        u.ob('dominate changes no score', s, z3.And(F.ev == A.ev, F.lst.t == A.lst.t, F.arr == A.arr, F.n == A.n, Fit(u, s, b).arr == B_.arr))
    for s, e in rs:
        u.ob('dominate raises only for unevaluated or differently long scores', s, z3.Not(ok))
        u.ob('dominate raises ValueError', s, z3.BoolVal(e.name == 'ValueError'))
    u.ob('dominate returns', st, z3.BoolVal(bool(outs)))


def lt(a, b):
    return z3.Or(z3.And(z3.Not(a.inf), b.inf), z3.And(z3.Not(a.inf), z3.Not(b.inf), a.val < b.val))


def eqx(a, b):
    return z3.Or(z3.And(a.inf, b.inf), z3.And(z3.Not(a.inf), z3.Not(b.inf), a.val == b.val))


def crowded(u):
    st, a, b, x, y, A, B_ = two(u)
    st.assume(z3.Not(A.rank.inf))
    ok = z3.And(A.ev, B_.ev, A.n == B_.n)
    outs, rs = u.call(st, N, 'better_than', a, [x, b, y])
    u.cover('better_than', st)
    for s, v in outs:
        u.ob('better_than prefers the lower rank, then the larger crowding distance', s,
             u.eng.truth(s, v) == z3.Or(lt(A.rank, B_.rank), z3.And(eqx(A.rank, B_.rank), lt(B_.crowd, A.crowd))))
        u.ob('better_than returns only for comparable scores', s, ok)
    for s, e in rs:
        u.ob('better_than raises only for incomparable scores', s, z3.Not(ok))
        u.ob('better_than raises ValueError', s, z3.BoolVal(e.name == 'ValueError'))
    u.ob('better_than returns', st, z3.BoolVal(bool(outs)))


def wrongtype(u):
    st, a, b, x, y, A, B_ = two(u)
    o = u.obj(st, 'SimpleFitness', 'fo', exact=True)
    st.assume(z3.And(A.ev, z3.Not(A.rank.inf)))
    for m in ('dominate', 'better_than'):
        outs, rs = u.call(st, N, m, a, [x, o, y])
        for s, v in outs:
            u.ob(m + ' refuses a scalar fitness', s, z3.BoolVal(False))
        u.ob(m + ' raises for a scalar fitness', st, z3.BoolVal(bool(rs)))


def setting(u):
    st = setup(u)
    a = u.obj(st, N, 'fa', exact=True)
    A = Fit(u, st, a)
    st.assume(z3.Or(A.hib.tag == 0, z3.And(A.hib.tag == 1, A.hib.items[1].t > 0, A.hib.items[1].t < st.alloc)))
    l = u.list(st, TReal, 'scores')
    n, arr = u.eng.list_len(st, l), u.eng.list_arr(st, l)
    k = z3.Int('k')
    outs, rs = u.call(st, N, 'set_fitness', a, [l])
    u.cover('set_fitness', st)
    for s, v in outs:
        F = Fit(u, s, a)
        u.ob('set_fitness works on an unevaluated fitness only', s, z3.Not(A.ev))
        u.ob('set_fitness evaluates', s, F.ev)
        u.ob('set_fitness stores the scores', s, z3.And(F.lst.t == l.t, F.n == n, F.arr == arr))
        u.ob('set_fitness: a single direction holds for every objective', s, z3.Implies(A.hib.tag == 0, z3.And(F.listed(), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), F.harr[k] == A.hbool)))))
        u.ob('set_fitness keeps declared directions', s, z3.Implies(A.hib.tag == 1, z3.And(F.hib.tag == 1, F.hib.items[1].t == A.hib.items[1].t, F.harr == A.harr)))
    for s, e in rs:
        u.ob('set_fitness refuses only a set score', s, A.ev)
    u.ob('set_fitness refuses a set score', st, z3.BoolVal(bool(rs)))
    outs, rs = u.call(st, N, 'set_not_evaluated', a)
    u.no_raise('set_not_evaluated', rs)
    for s, v in outs:
        F = Fit(u, s, a)
        u.ob('set_not_evaluated invalidates', s, z3.And(z3.Not(F.ev), F.rank.inf))
        o2, r2 = u.call(s, N, 'get_pure_fitness', a)
        for s2, _ in o2:
            u.ob('no stale score', s2, z3.BoolVal(False))
        u.ob('reading an invalidated score raises', s, z3.BoolVal(bool(r2)))
    # construction
    for kw, hb in (({}, z3.BoolVal(False)), ({'higher_is_better': VNum(z3.Bool('hb'))}, z3.Bool('hb'))):
        outs, rs = u.new(st, N, [l], dict(kw))
        u.no_raise('constructor', rs)
        for s, o in outs:
            F = Fit(u, s, o)
            u.ob('constructed with scores: evaluated, one direction per objective', s,
                 z3.And(F.ev, F.lst.t == l.t, F.listed(), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), F.harr[k] == hb))))
        outs, rs = u.new(st, N, [], dict(kw))
        u.no_raise('constructor', rs)
        for s, o in outs:
            u.ob('constructed without scores: not evaluated', s, z3.Not(Fit(u, s, o).ev))


def order(u):
    """lemmas over the contract of dominate"""
    n, k, i, m = z3.Ints('n k i m')
    a, b, c = [z3.Array(x, I, R) for x in 'abc']
    h = z3.Array('h', I, B)

    def d(x, y):
        r = z3.And(k >= 0, k < n)
        return z3.And(z3.ForAll([k], z3.Implies(r, atl(h[k], x[k], y[k])), patterns=[x[k], y[k]]), z3.Exists([k], z3.And(r, btr(h[k], x[k], y[k]))))
    u.lemma('irreflexive', [], z3.Not(d(a, a)))
    u.lemma('asymmetric', [], z3.Not(z3.And(d(a, b), d(b, a))))
    u.lemma('transitive', [], z3.Implies(z3.And(d(a, b), d(b, c)), d(a, c)))


UNITS = {'dominate': dominate, 'crowded comparison': crowded, 'type': wrongtype, 'setting': setting, 'order': order}
