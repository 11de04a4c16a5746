"""C05: scalar fitness comparison is a strict order in the declared direction."""
import z3
from pycv.engine import Contract
from pycv.vals import *

SIZE = z3.Function('size_of', I, I)


def size_contract(eng, st, o, args, kw):
    n = SIZE(o.t)
    st.assume(n >= 0)
    return [(st, VNum(n))]


def base(u):
    u.eng.contracts['Individual.size'] = Contract('Individual.size', size_contract)
    u.assume_note('Individual.size() is a pure function of the individual (contract on user subclasses)')
    st = u.state()
    return st


def score(u, st, f):
    return u.eng.get_field(st, f.t, 'SimpleFitness', 'fitness')


def ev(u, st, f):
    return u.field(st, f, '_is_evaluated').t


def hib(u, st, f):
    return u.field(st, f, 'higher_is_better').t


def rep(u, st, f):
    """representation invariant: an evaluated fitness has a score"""
    return z3.Implies(ev(u, st, f), z3.Not(score(u, st, f).none))


def aug(u, st, f, ind):
    s = score(u, st, f).v.t
    if f.ty.cname != 'GPFitness':
        return s
    w = u.field(st, f, 'bloat_weight').t
    z = z3.ToReal(SIZE(ind.t))
    return z3.If(hib(u, st, f), s - w * z, s + w * z)


def cmp_unit(c1, c2, meth):
    def run(u):
        st = base(u)
        a, b = u.obj(st, c1, 'fa', exact=True), u.obj(st, c2, 'fb', exact=True)
        x, y = u.obj(st, 'Individual', 'ia'), u.obj(st, 'Individual', 'ib')
        st.assume(rep(u, st, a))
        st.assume(rep(u, st, b))
        st.assume(hib(u, st, a) == hib(u, st, b))
        both = z3.And(ev(u, st, a), ev(u, st, b))
        h = hib(u, st, a)
        A, B_ = aug(u, st, a, x), aug(u, st, b, y)
        spec = z3.If(h, A > B_, A < B_) if meth == 'better_than' else A == B_
        outs, rs = u.call(st, c1, meth, a, [x, b, y])
        u.cover(meth, st)
        for s, v in outs:
            u.ob('%s.%s returns the documented order' % (c1, meth), s, u.eng.truth(s, v) == spec)
            u.ob('%s.%s returns only for evaluated fitness' % (c1, meth), s, both)
            u.ob('%s.%s modifies nothing' % (c1, meth), s, z3.BoolVal(s.heap == st.heap or all(s.heap[k].eq(st.heap.get(k, u.eng.init_comps.get(k))) for k in s.heap)))
        for s, e in rs:
            u.ob('%s.%s raises only when unevaluated' % (c1, meth), s, z3.Not(both))
            u.ob('%s.%s raises ValueError when unevaluated' % (c1, meth), s, z3.BoolVal(e.name == 'ValueError'))
        u.ob('%s.%s produces a result' % (c1, meth), st, z3.BoolVal(len(outs) > 0))
    return run


def pure_unit(c):
    def run(u):
        st = base(u)
        f = u.obj(st, c, 'f', exact=True)
        ind = u.obj(st, 'Individual', 'ind')
        st.assume(rep(u, st, f))
        for m, args in (('get_pure_fitness', []), ('get_augmented_fitness', [ind])):
            want = score(u, st, f).v.t if m == 'get_pure_fitness' else aug(u, st, f, ind)
            outs, rs = u.call(st, c, m, f, args)
            for s, v in outs:
                if isinstance(v, VOpt):
                    u.ob('%s.%s result is a score' % (c, m), s, z3.Not(v.none))
                u.ob('%s.%s returns the score' % (c, m), s, u.eng.as_real(v) == want)
                u.ob('%s.%s returns only when evaluated' % (c, m), s, ev(u, st, f))
            for s, e in rs:
                u.ob('%s.%s raises only when unevaluated' % (c, m), s, z3.Not(ev(u, st, f)))
                u.ob('%s.%s raises ValueError' % (c, m), s, z3.BoolVal(e.name == 'ValueError'))
            u.ob('%s.%s yields a result' % (c, m), st, z3.BoolVal(bool(outs)))
        # invalidation
        outs, rs = u.call(st, c, 'set_not_evaluated', f)
        u.no_raise(c + '.set_not_evaluated', rs)
        for s, v in outs:
            u.ob(c + '.set_not_evaluated leaves it unevaluated', s, z3.Not(ev(u, s, f)))
            o2, r2 = u.call(s, c, 'get_pure_fitness', f)
            for s2, v2 in o2:
                u.ob(c + ' no stale score after invalidation', s2, z3.BoolVal(False))
            u.ob(c + ' reading after invalidation raises', s, z3.BoolVal(len(r2) > 0))
        # setting a score
        sc = VNum(z3.Real('sc'))
        outs, rs = u.call(st, c, 'set_fitness', f, [sc])
        u.no_raise(c + '.set_fitness', rs)
        for s, v in outs:
            u.ob(c + '.set_fitness evaluates', s, z3.And(ev(u, s, f), rep(u, s, f)))
            u.ob(c + '.set_fitness stores the score', s, score(u, s, f).v.t == sc.t)
            u.ob(c + '.set_fitness keeps the direction', s, hib(u, s, f) == hib(u, st, f))
    return run


def ctor(c):
    def run(u):
        st = base(u)
        h = VNum(z3.Bool('h'))
        outs, rs = u.new(st, c, [], {'higher_is_better': h})
        u.no_raise(c + '()', rs)
        for s, o in outs:
            u.ob(c + '() is unevaluated', s, z3.Not(ev(u, s, o)))
            u.ob(c + '() has the declared direction', s, hib(u, s, o) == h.t)
        sc = VNum(z3.Real('sc'))
        outs, rs = u.new(st, c, [], {'fitness': sc, 'higher_is_better': h})
        u.no_raise(c + '(score)', rs)
        for s, o in outs:
            u.ob(c + '(score) is evaluated', s, z3.And(ev(u, s, o), rep(u, s, o), score(u, s, o).v.t == sc.t))
        outs, rs = u.new(st, c, [], {'higher_is_better': VNone})
        for s, o in outs:
            u.ob(c + ' without a direction is refused', s, z3.BoolVal(False))
        u.ob(c + ' without a direction raises ValueError', st, z3.BoolVal(bool(rs) and all(e.name == 'ValueError' for _, e in rs)))
    return run


BT = z3.Function('fit_better', I, I, I, I, B)


def individual(u):
    """Individual.better_than and friends against the fitness contracts"""
    st = base(u)
    e = u.eng
    e.contracts['SimpleFitness.better_than'] = Contract('better_than', lambda g, s, o, a, k: [(s, VNum(BT(o.t, a[0].t, a[1].t, a[2].t)))])
    x = u.obj(st, 'Individual', 'ia')
    y = u.obj(st, 'Individual', 'ib')
    outs, rs = u.call(st, 'Individual', 'better_than', x, [VNone])
    u.no_raise('Individual.better_than(None)', rs)
    for s, v in outs:
        u.ob('any individual is better than none', s, e.truth(s, v))
    outs, rs = u.call(st, 'Individual', 'better_than', x, [y])
    u.no_raise('Individual.better_than', rs)
    fx, fy = u.field(st, x, 'fitness').t, u.field(st, y, 'fitness').t
    for s, v in outs:
        u.ob('Individual.better_than compares the two fitnesses', s, e.truth(s, v) == BT(fx, x.t, fy, y.t))
    PF, AF = z3.Function('pure', I, R), z3.Function('augm', I, I, R)
    e.contracts['SimpleFitness.get_pure_fitness'] = Contract('p', lambda g, s, o, a, k: [(s, VNum(PF(o.t)))])
    e.contracts['SimpleFitness.get_augmented_fitness'] = Contract('p', lambda g, s, o, a, k: [(s, VNum(AF(o.t, a[0].t)))])
    outs, rs = u.call(st, 'Individual', 'get_pure_fitness', x)
    for s, v in outs:
        u.ob('Individual.get_pure_fitness', s, e.as_real(v) == PF(fx))
    outs, rs = u.call(st, 'Individual', 'get_augmented_fitness', x)
    for s, v in outs:
        u.ob('Individual.get_augmented_fitness', s, e.as_real(v) == AF(fx, x.t))
    inv = []

    def setne(g, s, o, a, k):
        inv.append(o.t)
        return [(s, VNone)]
    e.contracts['SimpleFitness.set_not_evaluated'] = Contract('p', setne)
    outs, rs = u.call(st, 'Individual', 'set_fitness_not_evaluated', x)
    u.ob('Individual.set_fitness_not_evaluated invalidates its fitness', st, z3.And([t == fx for t in inv]) if inv else z3.BoolVal(False))


def order(u):
    """the documented relation is a strict order (lemma over the contract of better_than)"""
    a, b, c = z3.Reals('a b c')
    h = z3.Bool('h')
    bt = lambda x, y: z3.If(h, x > y, x < y)
    u.lemma('irreflexive', [], z3.Not(bt(a, a)))
    u.lemma('asymmetric', [], z3.Not(z3.And(bt(a, b), bt(b, a))))
    u.lemma('transitive', [], z3.Implies(z3.And(bt(a, b), bt(b, c)), bt(a, c)))
    u.lemma('equal iff neither better', [], (a == b) == z3.And(z3.Not(bt(a, b)), z3.Not(bt(b, a))))


UNITS = {'order': order, 'individual': individual}
for _c in ('SimpleFitness', 'GPFitness'):
    UNITS[_c + ' score'] = pure_unit(_c)
    UNITS[_c + ' ctor'] = ctor(_c)
    for _d in ('SimpleFitness', 'GPFitness'):
        for _m in ('better_than', 'equal_to'):
            UNITS['%s.%s %s' % (_c, _m, _d)] = cmp_unit(_c, _d, _m)
