"""C07: the application template of genetic operators and the retry loop of failable ones."""
import z3
from pycv.engine import Contract
from pycv.vals import *
from .common import *

GO, FO = 'GeneticOperator', 'FailableOperator'
OWN = z3.Function('owner', I, I)
KIND = z3.Function('kind', I, I)


def own_lists(u, st, kinds):
    """ownership: each individual has its own history, parents list and fitness"""
    r = z3.Int('r')
    for k, (f, ty) in enumerate(kinds):
        t = u.eng.get_field(st.copy(), r, 'Individual', f).t
        f_ = z3.ForAll([r], z3.Implies(z3.And(r > 0, r < st.alloc), z3.And(OWN(t) == r, KIND(t) == k + 1)), patterns=[t])
        st.assume(f_)
        u.eng.own.append(f_)


def apply_operator(u):
    st = u.state()
    op = u.obj(st, GO, 'op')
    g = u.list(st, TObj('Individual'), 'group')
    res = u.list(st, TObj('Individual'), 'results')
    own_lists(u, st, [('applied_operators', 0), ('parents', 0), ('fitness', 0)])
    st.assume(KIND(g.t) == 0)
    st.assume(KIND(res.t) == 0)
    n, m = u.eng.list_len(st, g), u.eng.list_len(st, res)
    i, j = z3.Ints('i j')
    R = lambda k: elem(u, st, res, k).t
    POS = z3.Function('pos', I, I)
    dist = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), POS(R(i)) == i), patterns=[R(i)])
    st.assume(dist)
    u.eng.own.append(dist)
    log = []

    def app(e, s, o, a, k):
        log.append((s.copy(), a[0]))
        return [(s, res)]
    u.eng.contracts[GO + '.apply'] = Contract('GeneticOperator.apply', app)
    p = u.field(st, op, 'probability').t
    outs, rs = u.call(st, GO, 'apply_operator', op, [g])
    u.cover('apply_operator', st)
    u.no_raise('apply_operator', rs)
    x, k = z3.Ints('x k')
    fl = lambda s_, t, f: u.eng.get_field(s_.copy(), t, 'Individual', f)
    ln = lambda s_, v: u.eng.list_len(s_.copy(), v)
    P = lambda t: u.eng.get_field(st.copy(), t, 'Individual', 'parents')
    A = lambda t: u.eng.get_field(st.copy(), t, 'Individual', 'applied_operators')
    UP = lambda t: u.eng.get_field(st.copy(), t, 'Individual', 'update_parents').t
    G = lambda q: elem(u, st, g, q).t
    ins = lambda q: z3.And(q >= 0, q < m)
    applied = 0
    for s, r in outs:
        u.ob('comes back: the very list given or the result of apply', s, z3.Or(r.t == g.t, r.t == res.t))
        if r.t.eq(g.t):
            u.ob('not applied: never with probability 1', s, p < 1)
            frame(u, 'not applied', st, s)
            continue
        applied += 1
        u.ob('applied: never with probability 0', s, p > 0)
        u.ob('history: one entry is appended', s, z3.Implies(ins(k), ln(s, A(R(k))) == ln(st, A(R(k))) + 1))
        u.ob('history: earlier entries are kept', s, z3.Implies(z3.And(ins(k), x >= 0, x < ln(st, A(R(k)))), elem(u, s, A(R(k)), x).t == elem(u, st, A(R(k)), x).t))
        u.ob('history: the entry names the operator', s, z3.Implies(ins(k), elem(u, s, A(R(k)), ln(st, A(R(k)))).t == clsname(u, st, op)))
        u.ob('parents: the whole group is appended', s, z3.Implies(z3.And(ins(k), UP(R(k))), ln(s, P(R(k))) == ln(st, P(R(k))) + n))
        u.ob('parents: earlier ones are kept', s, z3.Implies(z3.And(ins(k), x >= 0, x < ln(st, P(R(k)))), elem(u, s, P(R(k)), x).t == elem(u, st, P(R(k)), x).t))
        u.ob('parents: ids in order', s, z3.Implies(z3.And(ins(k), UP(R(k)), x >= 0, x < n), elem(u, s, P(R(k)), ln(st, P(R(k))) + x).t == fl(st, G(x), 'id').t))
        u.ob('parents: none without tracking', s, z3.Implies(z3.And(ins(k), z3.Not(UP(R(k)))), ln(s, P(R(k))) == ln(st, P(R(k)))))
        gk = z3.Int('gk')
        f = view(u, s, elem(u, st, g, gk))
        u.ob('every member of the group is unevaluated afterwards', s, z3.Implies(z3.And(gk >= 0, gk < n), z3.And(z3.Not(f.ev), f.none)))
        u.ob('the result list itself is unchanged', s, z3.And(ln(s, res) == m, z3.Implies(ins(k), elem(u, s, res, k).t == R(k))))
    u.ob('applied at all', st, z3.BoolVal(applied > 0))
    u.ob('apply is called once per application, with the group', st, z3.BoolVal(len(log) == 1 and log[0][1].t.eq(g.t)))
    for s, a in log:
        f = view(u, s, elem(u, st, g, k))
        u.ob('every member of the group is unevaluated when apply runs', s, z3.Implies(z3.And(k >= 0, k < n), z3.And(z3.Not(f.ev), f.none)))


def clsname(u, st, op):
    return z3.Function('typename', I, I)(u.eng.comp(st.copy(), 'cls', z3.ArraySort(I, I))[op.t])


SUCC = z3.Function('attempt_succeeds', I, B)
RES = z3.Function('attempt_result', I, I)


def retries(u):
    e = u.eng
    LT = TList(TObj('Individual'))
    for g in ('ghost_attempts', 'ghost_fails'):
        e.ftypes[(FO, g)] = TInt
    st = u.state()
    op = u.obj(st, FO, 'op')
    pay = u.list(st, TObj('Individual'), 'payload')
    gf = lambda s, g: e.get_field(s.copy(), op.t, FO, g).t
    args = []

    def bump(en, s, o, g):
        k = en.get_field(s, o.t, FO, g).t
        en.set_field(s, o.t, FO, g, VNum(k + 1))
        return k

    def attempt(en, s, o, a, kw):
        k = bump(en, s, o, 'ghost_attempts')
        args.append((s.copy(), (list(a) + list(kw.values()))[0]))
        return [(s, VTup([VNum(SUCC(k)), VRef(RES(k), LT)]))]

    def fail(en, s, o, a, kw):
        bump(en, s, o, 'ghost_fails')
        args.append((s.copy(), (list(a) + list(kw.values()))[0]))
        return [(s, VRef(z3.Int('handled'), LT))]
    e.contracts[FO + '.attempt_operator'] = Contract(FO + '.attempt_operator', attempt)
    e.contracts[FO + '.on_fail'] = Contract(FO + '.on_fail', fail)
    n = u.field(st, op, 'attempts').t
    st.assume(n >= 1)
    st.assume(gf(st, 'ghost_attempts') == 0)
    st.assume(gf(st, 'ghost_fails') == 0)
    outs, rs = u.call(st, FO, 'apply', op, [pay])
    u.cover('retries', st)
    u.no_raise('apply', rs)
    j = z3.Int('j')
    for s, r in outs:
        k, f = gf(s, 'ghost_attempts'), gf(s, 'ghost_fails')
        none = lambda m: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.Not(SUCC(j))))
        u.ob('retries: at least one and at most the configured number of attempts', s, z3.And(k >= 1, k <= n))
        u.ob('retries: no success before the last attempt', s, none(k - 1))
        u.ob('retries: a success ends it and its result is returned', s, z3.Implies(SUCC(k - 1), z3.And(r.t == RES(k - 1), f == 0)))
        u.ob('retries: otherwise all attempts are used, the handler runs once and its result is returned', s,
             z3.Implies(z3.Not(SUCC(k - 1)), z3.And(k == n, f == 1, r.t == z3.Int('handled'))))
    u.ob('retries: returns', st, z3.BoolVal(bool(outs)))
    for s, a in args:
        u.ob('retries: every attempt and the handler get the payload', s, a.t == pay.t)


def handler(u):
    st = u.state()
    op = u.obj(st, FO, 'op', exact=True)
    pay = u.list(st, TObj('Individual'), 'payload')
    outs, rs = u.call(st, FO, 'on_fail', op, [pay])
    u.no_raise('on_fail', rs)
    for s, r in outs:
        u.ob('default handler: hands the payload back', s, r.t == pay.t)
        frame(u, 'default handler', st, s)


UNITS = {'application': apply_operator, 'retries': retries, 'default handler': handler}
