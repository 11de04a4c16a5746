"""C17: publishers call each registered callback exactly once; acting through an operator is bracketed by events."""
import z3
from pycv.engine import Contract
from pycv.dicts import position, value, key_at
from pycv.vals import *
from .common import *

BP, OP = 'BeforeAfterPublisher', 'Operator'
TB = TDict(TInt, TFn)
ISEV = z3.Function('event_of_table', I, I)


class Reg:
    """the subscriber tables in a state"""

    def __init__(self, u, pub):
        self.u, self.e = u, u.eng
        self.pub = pub

    def events(self, s):
        return self.e.get_field(s.copy(), self.pub.t, BP, 'events')

    def has(self, s, ev):
        return position(self.e, s.copy(), self.events(s), ev) >= 0

    def table(self, s, ev):
        return VRef(value(self.e, s.copy(), self.events(s), ev).t, TB)

    def n(self, s, t):
        return self.e.list_len(s.copy(), t)

    def pos(self, s, t, i):
        return position(self.e, s.copy(), t, i)

    def cb(self, s, t, i):
        return value(self.e, s.copy(), t, i).t

    def key(self, s, t, p):
        return key_at(self.e, s.copy(), t, p).t

    def next(self, s):
        return self.e.get_field(s.copy(), self.pub.t, BP, 'customers_id').t


def setup(u):
    st = u.state()
    pub = u.obj(st, BP, 'publisher')
    R_ = Reg(u, pub)
    ev = z3.Int('event')
    k, p = z3.Ints('k p')
    # representation: every event has its own table; ids handed out so far are below the counter
    tab = R_.table(st, k)
    st.assume(z3.ForAll([k], z3.Implies(R_.has(st, k), z3.And(tab.t > 0, tab.t < st.alloc, ISEV(tab.t) == k, tab.t != R_.events(st).t)), patterns=[tab.t]))
    st.assume(z3.ForAll([k, p], z3.Implies(z3.And(R_.has(st, k), R_.pos(st, tab, p) >= 0), z3.And(p >= 0, p < R_.next(st))), patterns=[R_.pos(st, tab, p)]))
    st.assume(R_.next(st) >= 0)
    return st, pub, R_, ev


def same_table(R_, s, st, t, k=None, p=None):
    """callbacks, ids and order of a table are as before"""
    k, p = z3.Ints('tk tp')
    return z3.And(R_.n(s, t) == R_.n(st, t),
                  z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < R_.n(st, t)), z3.And(R_.key(s, t, p) == R_.key(st, t, p), R_.cb(s, t, R_.key(st, t, p)) == R_.cb(st, t, R_.key(st, t, p))))))


def register(u):
    st, pub, R_, ev = setup(u)
    cb = z3.Int('callback')
    st.assume(cb > 0)
    outs, rs = u.call(st, BP, 'register', pub, [VStr(None, ev), VFnSym(cb)])
    u.cover('register', st)
    for s, e in rs:
        u.ob('register: error only for an unknown event', s, z3.Not(R_.has(st, ev)))
        u.ob('register: then nothing is registered', s, R_.next(s) == R_.next(st))
    other, p = z3.Ints('other p')
    for s, r in outs:
        u.ob('register: the event is known', s, R_.has(st, ev))
        t = R_.table(st, ev)
        i = r.t
        u.ob('register: the id was not handed out before', s, z3.And(i == R_.next(st), R_.next(s) == i + 1))
        u.ob('register: the tables stay in place', s, z3.Implies(R_.has(st, other), z3.And(R_.has(s, other), R_.table(s, other).t == R_.table(st, other).t)))
        u.ob('register: one entry more', s, R_.n(s, t) == R_.n(st, t) + 1)
        u.ob('register: last in order', s, z3.And(R_.key(s, t, R_.n(st, t)) == i, R_.cb(s, t, i) == cb))
        u.ob('register: earlier subscriptions keep place and callback', s, z3.Implies(z3.And(p >= 0, p < R_.n(st, t)), z3.And(
            R_.key(s, t, p) == R_.key(st, t, p), R_.cb(s, t, R_.key(st, t, p)) == R_.cb(st, t, R_.key(st, t, p)))))
        o = R_.table(st, other)
        u.ob('register: other events are not affected', s, z3.Implies(z3.And(R_.has(st, other), other != ev), same_table(R_, s, st, o)))
        u.ob('register: the invariant is kept', s, z3.Implies(z3.And(R_.has(st, other), R_.pos(s, o, p) >= 0), z3.And(p >= 0, p < R_.next(s))))
    u.ob('register: returns', st, z3.BoolVal(bool(outs)))


def unregister(u):
    st, pub, R_, ev = setup(u)
    i = z3.Int('id')
    outs, rs = u.call(st, BP, 'unregister', pub, [VStr(None, ev), VNum(i)])
    u.cover('unregister', st)
    t = R_.table(st, ev)
    for s, e in rs:
        u.ob('unregister: error only for an unknown event or id', s, z3.Not(z3.And(R_.has(st, ev), R_.pos(st, t, i) >= 0)))
    other, p = z3.Ints('other p')
    for s, r in outs:
        q = R_.pos(st, t, i)
        k0 = R_.key(st, t, p)
        u.ob('unregister: the subscription existed', s, z3.And(R_.has(st, ev), q >= 0))
        u.ob('unregister: it is gone', s, R_.pos(s, t, i) < 0)
        u.ob('unregister: one entry less', s, R_.n(s, t) == R_.n(st, t) - 1)
        u.ob('unregister: earlier ones keep their place', s, z3.Implies(z3.And(p >= 0, p < q), z3.And(R_.key(s, t, p) == k0, R_.cb(s, t, k0) == R_.cb(st, t, k0), R_.pos(s, t, k0) == p)))
        u.ob('unregister: later ones keep their order', s, z3.Implies(z3.And(p > q, p < R_.n(st, t)), z3.And(R_.key(s, t, p - 1) == k0, R_.cb(s, t, k0) == R_.cb(st, t, k0), R_.pos(s, t, k0) == p - 1)))
        o = R_.table(st, other)
        u.ob('unregister: other events are not affected', s, z3.Implies(z3.And(R_.has(st, other), other != ev), same_table(R_, s, st, o)))
        u.ob('unregister: ids are not reused', s, R_.next(s) == R_.next(st))
        u.ob('unregister: the tables stay in place', s, z3.Implies(R_.has(st, other), z3.And(R_.has(s, other), R_.table(s, other).t == R_.table(st, other).t)))
    u.ob('unregister: returns', st, z3.BoolVal(bool(outs)))


def publish(u):
    u.eng.ftypes[(BP, 'ghost_log')] = TList(TFn)
    st, pub, R_, ev = setup(u)
    k = z3.Int('k')
    log = lambda s: u.eng.get_field(s.copy(), pub.t, BP, 'ghost_log')
    L = log(st)
    st.assume(L.t != R_.events(st).t)
    st.assume(z3.ForAll([k], z3.Implies(R_.has(st, k), L.t != R_.table(st, k).t), patterns=[R_.table(st, k).t]))
    args, dat = [], []
    st.assume(R_.has(st, ev))

    def data(e, s, o, a, kw):
        v = VAny(z3.Function('event_data', I, I)(e.to_terms(a[0], TStr)[0]))
        dat.append((s.copy(), v, o, a))
        return [(s, v)]

    def callback(e, s, f, a, kw):
        e.list_append(s, VRef(L.t, TList(TFn)), f)
        args.append((s.copy(), list(a), dict(kw)))
        return [(s, VNone)]
    u.eng.contracts[BP + '.event_name_to_data'] = Contract(BP + '.event_name_to_data', data)
    u.eng.contracts['callback'] = Contract('subscriber (arbitrary, does not change the registrations)', callback)
    outs, rs = u.call(st, BP, 'publish', pub, [VStr(None, ev)])
    u.cover('publish', st)
    u.no_raise('publish', rs)
    t = R_.table(st, ev)
    p = z3.Int('p')
    n, m = R_.n(st, t), u.eng.list_len(st.copy(), L)
    for s, r in outs:
        u.ob('publish: as many calls as subscriptions', s, u.eng.list_len(s.copy(), L) == m + n)
        u.ob('publish: each callback once, in registration order', s, z3.Implies(z3.And(p >= 0, p < n), elem(u, s, L, m + p).t == R_.cb(st, t, R_.key(st, t, p))))
        u.ob('publish: earlier calls stay recorded', s, z3.Implies(z3.And(p >= 0, p < m), elem(u, s, L, p).t == elem(u, st, L, p).t))
        u.ob('publish: the subscriptions are unchanged', s, z3.And(R_.n(s, t) == n, same_table(R_, s, st, t)))
        frame(u, 'publish', st, s, allow=lambda k_, r_: r_ == L.t)
    u.ob('publish: returns', st, z3.BoolVal(bool(outs)))
    want = z3.Function('event_data', I, I)(ev)
    for s, a, kw in args:
        ok = len(a) == 2 and not kw and isinstance(a[0], VRef) and isinstance(a[1], VAny)
        u.ob('publish: callbacks get the publisher and the data of the event', s, z3.And(a[0].t == pub.t, a[1].t == want) if ok else z3.BoolVal(False))


def init(u):
    """default construction: one empty table per event"""
    st = u.state()
    pub = u.eng.alloc(st, 'publisher')
    pub = VRef(pub, TObj(BP, exact=True))
    R_ = Reg(u, pub)
    outs, rs = u.call(st, BP, '__init__', pub, [])
    u.no_raise('__init__', rs)
    b, a = (u.eng.strcode(x) for x in ('before_operator', 'after_operator'))
    k = z3.Int('k')
    for s, r in outs:
        u.ob('init: exactly the two operator events', s, R_.has(s, k) == z3.Or(k == a, k == b))
        u.ob('init: no subscriptions', s, z3.Implies(R_.has(s, k), R_.n(s, R_.table(s, k)) == 0))
        u.ob('init: separate tables', s, R_.table(s, z3.IntVal(a)).t != R_.table(s, z3.IntVal(b)).t)
        u.ob('init: counter', s, R_.next(s) == 0)


def act(listy):
    def unit(u):
        e = u.eng
        e.ftypes[(BP, 'ghost_log')] = TList(TInt)
        st = u.state()
        op = u.obj(st, OP, 'op')
        L = e.get_field(st, op.t, BP, 'ghost_log')
        res = z3.Int('action_result')
        BEF, AFT, ACT = e.strcode('before_operator'), e.strcode('after_operator'), -7
        seen = []

        def pub(en, s, o, a, kw):
            s.assume(o.t == op.t) if False else None
            seen.append((s.copy(), o))
            en.list_append(s, L, VNum(en.to_terms(a[0], TStr)[0]))
            return [(s, VNone)]

        def action(en, s, o, a, kw):
            seen.append((s.copy(), o))
            acts.append((s.copy(), a))
            en.list_append(s, L, VNum(z3.IntVal(ACT)))
            return [(s, VAny(res))]
        acts = []
        e.contracts[BP + '.publish'] = Contract(BP + '.publish', pub)
        e.contracts[OP + '.apply_operator'] = Contract(OP + '.apply_operator', action)
        if listy:
            pay = u.list(st, TObj('Individual'), 'payload')
            st.assume(pay.t != L.t)
            ok = e.list_len(st, pay) == u.field(st, op, 'arity').t
        else:
            pay = u.obj(st, 'Population', 'payload')
            ok = u.field(st, op, 'arity').t == 1
        n = e.list_len(st, L)
        outs, rs = u.call(st, OP, 'act', op, [pay])
        u.cover('act', st)
        for s, ex in rs:
            u.ob('act: rejected only for a wrong arity', s, z3.Not(ok))
            u.ob('act: rejected with ValueError', s, z3.BoolVal(ex.name == 'ValueError'))
            u.ob('act: nothing published or performed when rejected', s, e.list_len(s.copy(), L) == n)
        for s, r in outs:
            u.ob('act: accepted only with the right arity', s, ok)
            u.ob('act: three steps', s, e.list_len(s.copy(), L) == n + 3)
            g = lambda d: elem(u, s, L, n + d).t
            u.ob('act: before, action, after', s, z3.And(g(0) == BEF, g(1) == ACT, g(2) == AFT))
            u.ob('act: returns the result of the action', s, r.t == res if isinstance(r, VAny) else z3.BoolVal(False))
        for s, o in seen:
            u.ob('act: the operator itself publishes and acts', s, o.t == op.t)
        for s, a in acts:
            u.ob('act: the action gets the payload', s, a[0].t == pay.t)
        u.ob('act: returns', st, z3.BoolVal(bool(outs)))
    return unit


UNITS = {'register': register, 'unregister': unregister, 'publish': publish, 'init': init, 'act list': act(True), 'act other': act(False)}
