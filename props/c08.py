"""C08: vectors keep their length and stay within bounds."""
import z3
from pycv.engine import Contract
from pycv.vals import *
from .common import *
from pycv.unit import iteration_terms
from .trees import cell, put_cell

VEC = TObj('Vector')
q, p, k, i = z3.Ints('q p k i')


def schema(e, num=TReal, per=False, bit=False):
    """num: type of the cells; per: bounds per cell (a list of pairs), else one pair"""
    pair = TTup([num, num])
    e.ftypes[('Vector', 'vector')] = TList(num)
    e.ftypes[('Vector', 'bounds')] = TList(pair) if per else pair
    e.ftypes[('Vector', 'length')] = TInt
    for c, kw in [('Operator', dict(arity=TInt, applied_individuals=TList(VEC))),
                  ('VectorNPointMutation', dict(n=TInt, cell_selector=TFn, success_checker=TFn, mut_val_getter=TFn, attempts=TInt))]:
        for f, v in kw.items():
            e.ftypes[(c, f)] = v


def bounds_at(u, s, v, j):
    """(low, high) of cell j of the vector v"""
    b = u.eng.get_field(s.copy(), v.t, 'Vector', 'bounds')
    if isinstance(b, VRef):
        b = elem(u, s, b, j)
    return [x.t for x in b.items]


def cells(u, s, v):
    """list of the cells of v"""
    return u.eng.get_field(s.copy(), v.t, 'Vector', 'vector')


def in_bounds(u, s, v, j):
    lo, hi = bounds_at(u, s, v, j)
    c = elem(u, s, cells(u, s, v), j).t
    return z3.And(lo <= c, c <= hi)


def all_in_bounds(u, s, v, b=None):
    l = cells(u, s, v)
    n = u.eng.list_len(s.copy(), l)
    f = z3.Implies(z3.And(q >= 0, q < n), in_bounds(u, s, v, q))
    return z3.ForAll([q], f, patterns=[elem(u, s, l, q).t])


def shaped(u, s, v, per):
    """bounds given per cell: one pair for every cell"""
    if not per:
        return z3.BoolVal(True)
    b = u.eng.get_field(s.copy(), v.t, 'Vector', 'bounds')
    return u.eng.list_len(s.copy(), b) == u.eng.list_len(s.copy(), cells(u, s, v))


def check(per):
    def unit(u):
        e = u.eng
        schema(e, TReal, per)
        st = u.state()
        v = u.obj(st, 'Vector', 'vector')
        n = e.list_len(st, cells(u, st, v))
        st.assume(z3.And(n >= 0, shaped(u, st, v, per)))
        e.state_invs.append(lambda s, j: [('cells so far', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < j), in_bounds(u, st, v, q)), patterns=[elem(u, st, cells(u, st, v), q).t]))])
        outs, rs = u.call(st, 'Vector', 'check_if_in_bounds', v, [])
        u.cover_any('check_if_in_bounds', [s for s, _ in outs])
        u.no_raise('check_if_in_bounds', rs)
        x = z3.Int('some!cell')
        inr = z3.And(x >= 0, x < n)
        for s, r in outs:
            t = e.truth(s.copy(), r)
            u.ob('check_if_in_bounds: true only if every cell is within its bounds', s, z3.Implies(z3.And(t, inr), in_bounds(u, st, v, x)))
            w = s.copy()
            w.assume(z3.Not(t))
            w.assume(all_in_bounds(u, st, v))
            u.ob('check_if_in_bounds: false only if some cell is not', w, z3.BoolVal(False))
            frame(u, 'check_if_in_bounds', st, s)
        u.ob('check_if_in_bounds: returns', st, z3.BoolVal(bool(outs)))
    return unit


def sampler(cn, num, per):
    def unit(u):
        e = u.eng
        schema(e, num, per)
        st = u.state()
        v = u.obj(st, cn, 'vector', exact=True)
        j = VNum(z3.Int('index'))
        n = u.field(st, v, 'length').t
        st.assume(z3.And(j.t >= 0, j.t < n))
        if per:
            st.assume(e.list_len(st, u.field(st, v, 'bounds')) == n)
        lo, hi = bounds_at(u, st, v, j.t)
        st.assume(lo <= hi)
        outs, rs = u.call(st, cn, 'get_random_number_in_bounds', v, [j])
        u.cover_any('get_random_number_in_bounds', [s for s, _ in outs])
        u.no_raise('get_random_number_in_bounds', rs)
        for s, r in outs:
            ok = isinstance(r, VNum) and (num is TReal or r.t.sort() == I)
            u.ob('get_random_number_in_bounds: a %s within the bounds of the cell' % ('number' if num is TReal else 'whole number'), s, z3.And(r.t >= lo, r.t <= hi) if ok else z3.BoolVal(False))
            frame(u, 'get_random_number_in_bounds', st, s)
        u.ob('get_random_number_in_bounds: returns', st, z3.BoolVal(bool(outs)))
    return unit


def flip(u):
    e = u.eng
    schema(e, TInt)
    st = u.state()
    v = u.obj(st, 'BitStringVector', 'vector', exact=True)
    j = VNum(z3.Int('index'))
    l = cells(u, st, v)
    lo, hi = bounds_at(u, st, v, j.t)
    c = elem(u, st, l, j.t).t
    st.assume(z3.And(j.t >= 0, j.t < e.list_len(st, l), lo < hi, z3.Or(c == lo, c == hi)))
    outs, rs = u.call(st, 'BitStringVector', 'bit_flip', v, [j])
    u.cover_any('bit_flip', [s for s, _ in outs])
    u.no_raise('bit_flip', rs)
    for s, r in outs:
        u.ob('bit_flip: the other of the two values', s, z3.And(r.t != c, z3.Or(r.t == lo, r.t == hi)))
        frame(u, 'bit_flip', st, s)
    u.ob('bit_flip: returns', st, z3.BoolVal(bool(outs)))


NP = 'VectorNPointMutation'


def selector(u):
    e = u.eng
    schema(e)
    st = u.state()
    o = u.obj(st, NP, 'mutation', exact=True)
    v = u.obj(st, 'Vector', 'vector')
    m = e.list_len(st, cells(u, st, v))
    n = u.field(st, o, 'n').t
    outs, rs = u.call(st, NP, 'default_cell_selector', o, [v])
    u.cover_any('default_cell_selector', [s for s, _ in outs])
    for s, x in rs:
        u.ob('default_cell_selector: refuses only more cells than there are', s, z3.And(z3.BoolVal(x.name == 'ValueError'), z3.Or(n > m, n < 0)))
    x, y = z3.Ints('one another')
    for s, r in outs:
        c = lambda j: elem(u, s, r, j).t
        u.ob('default_cell_selector: the configured number of cells', s, e.list_len(s.copy(), r) == n)
        u.ob('default_cell_selector: different cells of the vector', s, z3.Implies(z3.And(x >= 0, x < y, y < n), z3.And(c(x) >= 0, c(x) < m, c(y) >= 0, c(y) < m, c(x) != c(y))))
        frame(u, 'default_cell_selector', st, s)
    u.ob('default_cell_selector: returns', st, z3.BoolVal(bool(outs)))


def check_contract(u):
    def inb(en, s, o, a, kw):
        b = en.fresh(s, 'in_bounds', B)
        l = cells(u, s, o)
        n = en.list_len(s, l)
        w = en.fresh(s, 'outside', I)
        s.assume(z3.Implies(b, all_in_bounds(u, s, o)))
        s.assume(z3.Implies(z3.Not(b), z3.And(w >= 0, w < n, z3.Not(in_bounds(u, s, o, w)))))
        return [(s, VNum(b))]
    u.eng.contracts['Vector.check_if_in_bounds'] = Contract('Vector.check_if_in_bounds (units check, check_per_cell)', inb)


def checker(u):
    e = u.eng
    schema(e)
    check_contract(u)
    st = u.state()
    old, new = u.obj(st, 'Vector', 'old'), u.obj(st, 'Vector', 'new')
    outs, rs = u.call(st, NP, 'default_success_checker', None, [old, new])
    u.no_raise('default_success_checker', rs)
    x = z3.Int('some!cell')
    for s, r in outs:
        t = e.truth(s.copy(), r)
        u.ob('default_success_checker: true only if the new vector is within bounds', s, z3.Implies(z3.And(t, x >= 0, x < e.list_len(s, cells(u, s, new))), in_bounds(u, s, new, x)))
        frame(u, 'default_success_checker', st, s)
    u.ob('default_success_checker: returns', st, z3.BoolVal(bool(outs)))


def clone_vector(u, n_of=None):
    """Individual.clone (C19): a new vector with cells of its own, of the same values"""
    def clone(en, s, o, a, kw):
        l0 = cells(u, s, o)
        c = en.new_obj(s, en.repo.classes['Vector']) if False else VRef(en.alloc(s, 'clone'), TObj('Vector'))
        l = VRef(en.alloc(s, 'clone_cells'), l0.ty)
        m = en.list_len(s, l0)
        en.set_len(s, l, m)
        s0 = s.copy()
        s.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), elem(u, s0, l, q).t == elem(u, s0, l0, q).t), patterns=[elem(u, s0, l, q).t]))
        en.set_field(s, c.t, 'Vector', 'vector', l)
        return [(s, c)]
    u.eng.contracts['Individual.clone'] = Contract('Individual.clone (C19)', clone)


def group(u, st, per):
    e = u.eng
    inds = u.list(st, VEC, 'individuals')
    n = e.list_len(st, inds)
    el = lambda s, j: elem(u, s, inds, j)
    A0 = st.alloc
    l = lambda j: cells(u, st, el(st, j)).t
    st.assume(z3.And(inds.t > 0, inds.t < A0, n >= 0))
    fs = [el(st, k).t > 0, el(st, k).t < A0, l(k) > 0, l(k) < A0, shaped(u, st, el(st, k), per)]
    if per:
        b = e.get_field(st.copy(), el(st, k).t, 'Vector', 'bounds').t
        fs += [b > 0, b < A0]
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(*fs)), patterns=[el(st, k).t]))
    st.assume(z3.ForAll([k, i], z3.Implies(z3.And(k >= 0, k < i, i < n), z3.And(el(st, k).t != el(st, i).t, l(k) != l(i))), patterns=[z3.MultiPattern(el(st, k).t, el(st, i).t)]))
    return inds, n, el, l


def attempt(per):
    def unit(u):
        e = u.eng
        schema(e, TReal, per)
        st = u.state()
        o = u.obj(st, NP, 'mutation', exact=True)
        inds, n, el, l = group(u, st, per)
        A0 = st.alloc
        y, x = z3.Ints('some!individual some!cell')
        V = el(st, y)
        st.assume(z3.And(y >= 0, y < n, o.t > 0, o.t < A0))
        clone_vector(u)
        sel, get, chk = [u.field(st, o, f).t for f in ('cell_selector', 'mut_val_getter', 'success_checker')]
        m = lambda j: e.list_len(st.copy(), cells(u, st, el(st, j)))
        my = m(y)
        c0 = elem(u, st, cells(u, st, V), x).t
        st.assume(z3.And(x >= 0, x < my))
        st.assume(all_in_bounds(u, st, V))
        put_cell(u, st, o, 'failed', z3.IntVal(0))

        def call(en, s, f, a, kw):
            a = a + list(kw.values())
            obj = [isinstance(v, VRef) and isinstance(v.ty, TObj) for v in a]
            if obj == [True]:
                en.require(s, 'cells are chosen by the configured selector', f.t == sel)
                r = en.list_from_seq(s, en.fresh(s, 'points', I), lambda s_, j: VNum(z3.Int('any')), TInt, 'points')
                arr, cnt = en.fresh(s, 'point', AS(I, I)), en.fresh(s, 'n_points', I)
                en.put_arr(s, r, '', arr)
                en.set_len(s, r, cnt)
                s.assume(cnt >= 0)
                s.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < cnt), z3.And(arr[q] >= 0, arr[q] < en.list_len(s.copy(), cells(u, s, a[0])))), patterns=[arr[q]]))
                h, w = en.fresh(s, 'hit', I), en.fresh(s, 'where', I)
                s.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < cnt, arr[q] == x), h == 1), patterns=[arr[q]]))
                s.assume(z3.Implies(h == 1, z3.And(w >= 0, w < cnt, arr[w] == x)))
                put_cell(u, s, a[0], 'hit', h)
                return [(s, r)]
            if obj == [True, False]:
                en.require(s, 'values are drawn by the configured getter', f.t == get)
                return [(s, VNum(en.fresh(s, 'mutated', R)))]
            if obj == [True, True]:
                en.require(s, 'results are checked by the configured checker', f.t == chk)
                b = en.fresh(s, 'legal', B)
                s.assume(z3.Implies(b, all_in_bounds(u, s, a[1])))
                put_cell(u, s, o, 'failed', z3.If(b, cell(u, s, o, 'failed'), a[1].t))
                return [(s, VNum(b))]
            raise Unsupported('some other function')
        e.contracts['callback'] = Contract('the configured selector, getter and checker (units selector, checker, getters)', call)

        def chosen(s):
            """the cell looked at was among those chosen for the individual looked at (a fact recorded by the selector)"""
            return cell(u, s, V, 'hit') == 1

        def inv(s, j):
            lv = cells(u, s, V)
            same = elem(u, s, lv, x).t == c0
            kv = cells(u, s, el(st, k))
            return [('vectors not reached yet keep their cells', z3.ForAll([k], z3.Implies(z3.And(k >= j, k < n), z3.And(kv.t == l(k), e.list_len(s.copy(), kv) == m(k))), patterns=[el(st, k).t])),
                    ('one not reached yet is as it was', z3.Implies(y >= j, z3.And(lv.t == l(y), same))),
                    ('same length', e.list_len(s.copy(), lv) == my),
                    ('its cells', z3.Or(lv.t == l(y), lv.t >= A0)),
                    ('within bounds once reached', z3.Implies(y < j, in_bounds(u, s, V, x))),
                    ('changed only where chosen', z3.Or(same, chosen(s))),
                    ('none failed so far', cell(u, s, o, 'failed') == 0)]
        e.state_invs.append(inv)
        outs, rs = u.call(st, NP, 'attempt_operator', o, [inds, VNum(z3.Int('attempt'))])
        u.cover_any('attempt', [s for s, _ in outs])
        u.no_raise('attempt', rs)
        for s, v in outs:
            ok = isinstance(v, VTup) and len(v.items) == 2
            u.ob('attempt: returns whether it succeeded, with the group', s, v.items[1].t == inds.t if ok else z3.BoolVal(False))
            done = e.truth(s.copy(), v.items[0])
            lv = cells(u, s, V)
            same = elem(u, s, lv, x).t == c0
            u.ob('attempt: vectors keep their length', s, e.list_len(s.copy(), lv) == my)
            u.ob('attempt: every cell stays within its bounds, whether it succeeds or not', s, in_bounds(u, s, V, x))
            u.ob('attempt: only chosen cells change', s, z3.Or(same, chosen(s)))
            bad = cell(u, s, o, 'failed')
            u.ob('attempt: fails exactly when a result is illegal', s, done == (bad == 0))
            u.ob('attempt: the vector that failed is as it was', s, z3.Implies(bad == V.t, same))
            fr = lambda cn, r: None if ':ghost.' in cn or cn.startswith('el:') else r == o.t if 'applied_individuals' in cn else z3.BoolVal(True) if '.vector:' in cn or '.length:' in cn else z3.BoolVal(False)
            frame(u, 'attempt', st, s, allow=fr)
        u.ob('attempt: returns', st, z3.BoolVal(bool(outs)))
    return unit


RM = ['fitness', 'bounds', 'length', 'vector', 'update_parents']


def named(u, cn, m, a, kw):
    """arguments of a call of cn.m by parameter name"""
    f = u.meth(cn, m)
    ps = [x.arg for x in f.node.args.args][0 if f.is_static else 1:]
    v = dict(zip(ps, a))
    v.update(kw)
    return v


def same(x, y):
    if x is VNone or y is VNone:
        return z3.BoolVal(x is VNone and y is VNone)
    if isinstance(x, VTup) and isinstance(y, VTup) and len(x.items) == len(y.items):
        return z3.And(*[same(p_, q_) for p_, q_ in zip(x.items, y.items)])
    try:
        return x.t == y.t if x.t.sort() == y.t.sort() else z3.BoolVal(False)
    except AttributeError:
        raise Unsupported('comparison of %r and %r' % (x, y))


def pairs(u, st, per, num=TReal):
    """bounds as the caller gives them"""
    if per:
        return u.list(st, TTup([num, num]), 'bounds')
    so = R if num is TReal else I
    return VTup([VNum(z3.Const('low', so)), VNum(z3.Const('high', so))])


def vector_init(per, given):
    def unit(u):
        e = u.eng
        schema(e, TReal, per)
        st = u.state()
        fit = u.obj(st, 'SimpleFitness', 'fitness')
        o = e.new_obj(st, u.repo.classes['Vector'])
        b, n = pairs(u, st, per), VNum(z3.Int('length'))
        vec = u.list(st, TReal, 'cells') if given else VNone
        up = VNum(z3.Bool('update_parents'))
        A = st.alloc
        outs, rs = u.call(st, 'Vector', '__init__', o, [], dict(fitness=fit, bounds=b, length=n, vector=vec, update_parents=up))
        u.cover_any('Vector()', [s for s, _ in outs])
        wrong = z3.Or(*([e.list_len(st.copy(), b) != n.t] if per else []) + ([e.list_len(st.copy(), vec) != n.t] if given else []) + [z3.BoolVal(False)])
        for s, x in rs:
            u.ob('Vector(): refuses only bounds or cells of another length', s, z3.And(z3.BoolVal(x.name == 'ValueError'), wrong))
        for s, _ in outs:
            g = lambda f: e.get_field(s.copy(), o.t, 'Vector', f)
            u.ob('Vector(): refuses bounds and cells of another length', s, z3.Not(wrong))
            u.ob('Vector(): keeps the fitness, bounds and length given', s, z3.And(same(g('fitness'), fit), same(g('bounds'), b), same(g('length'), n), same(g('update_parents'), up)))
            l = cells(u, s, o)
            u.ob('Vector(): with the cells given, or none yet, of its own', s, l.t == vec.t if given else z3.And(l.t >= A, l.t < s.alloc, e.list_len(s.copy(), l) == 0))
            frame(u, 'Vector()', st, s, allow=lambda c, r: z3.BoolVal(True) if c.startswith('el:') and False else r == o.t)
        u.ob('Vector(): returns', st, z3.BoolVal(bool(outs)))
    return unit


def subclass_init(cn):
    def unit(u):
        e = u.eng
        schema(e)
        st = u.state()
        seen = []

        def init(en, s, o_, a, kw):
            seen.append((s, o_, named(u, 'Vector', '__init__', a, kw)))
            return [(s, VNone)]
        e.contracts['Vector.__init__'] = Contract('Vector.__init__ (units vector_init)', init)
        o = e.new_obj(st, u.repo.classes[cn])
        v = dict(fitness=u.obj(st, 'SimpleFitness', 'fitness'), length=VNum(z3.Int('length')), bounds=pairs(u, st, False), vector=u.list(st, TReal, 'cells'), update_parents=VNum(z3.Bool('up')))
        outs, rs = u.call(st, cn, '__init__', o, [], v)
        u.no_raise(cn, rs)
        for s, o_, w in seen:
            u.ob(cn + ': built as a vector of what is given', s, z3.And(o_.t == o.t, *[same(w.get(f, VNone), v[f]) for f in v]))
        u.ob(cn + ': returns', st, z3.BoolVal(len(seen) == len(outs) > 0))
    return unit


def gene(u):
    """the default gene creator: a value of the vector's own sampler"""
    e = u.eng
    schema(e)
    e.contracts['*.get_random_number_in_bounds'] = None
    del e.contracts['*.get_random_number_in_bounds']
    for cn in ('IntVector', 'FloatVector', 'BitStringVector'):
        st = u.state()
        schema(e, TReal if cn == 'FloatVector' else TInt)
        v = u.obj(st, cn, 'vector_' + cn, exact=True)
        j = VNum(z3.Int('index'))
        lo, hi = bounds_at(u, st, v, j.t)
        st.assume(z3.And(j.t >= 0, lo <= hi))
        for c, m in (('GAVectorCreator', 'default_gene_creator'), (NP, 'default_mut_val_getter')):
            outs, rs = u.call(st, c, m, None, [v, j])
            u.no_raise(m, rs)
            for s, r in outs:
                u.ob('%s: within the bounds of the cell (%s)' % (m, cn), s, z3.And(r.t >= lo, r.t <= hi))
                frame(u, m, st, s)
            u.ob(m + ': returns', st, z3.BoolVal(bool(outs)))


def create_vector(per):
    def unit(u):
        e = u.eng
        schema(e, TReal, per)
        e.ftypes[('GAVectorCreator', 'gene_creator')] = TFn
        e.ftypes[('GAVectorCreator', 'length')] = TInt
        st = u.state()
        o = u.obj(st, 'GAVectorCreator', 'creator')
        v = u.obj(st, 'Vector', 'vector')
        n, gc = u.field(st, o, 'length').t, u.field(st, o, 'gene_creator').t
        st.assume(n >= 0)
        if per:
            b = e.get_field(st.copy(), v.t, 'Vector', 'bounds')
            st.assume(e.list_len(st, b) == n)
        A0 = st.alloc

        def call(en, s, f, a, kw):
            a = list(a) + list(kw.values())
            en.require(s, 'cells are made by the configured gene creator, for the vector', z3.And(f.t == gc, a[0].t == v.t))
            c = en.fresh(s, 'gene', R)
            lo, hi = bounds_at(u, s, v, a[1].t)
            s.assume(z3.And(lo <= c, c <= hi))
            return [(s, VNum(c))]
        e.contracts['callback'] = Contract('the gene creator: a value within the bounds of the cell asked for (default: units gene)', call)
        outs, rs = u.call(st, 'GAVectorCreator', 'create_vector', o, [v])
        u.cover_any('create_vector', [s for s, _ in outs])
        u.no_raise('create_vector', rs)
        x = z3.Int('some!cell')
        for s, _ in outs:
            l = cells(u, s, v)
            u.ob('create_vector: as many cells as configured, of its own', s, z3.And(e.list_len(s.copy(), l) == n, l.t >= A0, l.t < s.alloc))
            u.ob('create_vector: the length recorded', s, e.get_field(s.copy(), v.t, 'Vector', 'length').t == n)
            u.ob('create_vector: every cell within its bounds', s, z3.Implies(z3.And(x >= 0, x < n), in_bounds(u, s, v, x)), inst=[x], keep='all')
            frame(u, 'create_vector', st, s, allow=lambda c, r: r == v.t if '.vector:' in c or '.length:' in c else z3.BoolVal(False))
        u.ob('create_vector: returns', st, z3.BoolVal(bool(outs)))
    return unit


def captured(u, st, cn, v):
    """constructs a mutation; -> [(state, object, the arguments VectorNPointMutation.__init__ gets)]"""
    e = u.eng
    got = []

    def init(en, s, o_, a, kw):
        got.append((dict(s.frames), o_, named(u, NP, '__init__', a, kw)))
        return [(s, VNone)]
    e.contracts[NP + '.__init__'] = Contract(NP + '.__init__ (unit new_mutation)', init)
    outs, rs = u.new(st, cn, [], v)
    u.no_raise(cn + '()', rs)
    u.ob(cn + ': builds one vector mutation', st, z3.BoolVal(len(got) == len(outs) > 0))
    for (s, o), (fr, o_, w) in zip(outs, got):
        s.frames = {**fr, **s.frames}        # the getters see the arguments of the constructor
    return [(s, o, w) for (s, o), (_, o_, w) in zip(outs, got)]


def mutation(cn, vc, num, how, per=False):
    def unit(u):
        e = u.eng
        schema(e, num, per)
        for c in ('IntVectorOnePointMutation', 'BitStringVectorNFlipMutation'):
            e.ftypes[(c, 'probability_for_each')] = TReal
        st = u.state()
        N = VNum(z3.Int('n_points'))
        take = [x.arg for x in u.meth(cn, '__init__').node.args.args]
        v = dict(probability=VNum(z3.Real('probability')), arity=VNum(z3.Int('arity')), events=VNone)
        if 'n' in take:
            v['n'] = N
        for nm in ('mu', 'sigma', 'probability_for_each'):
            if nm in take:
                v[nm] = VNum(z3.Real(nm))
        if 'attempts' in take:
            v['attempts'] = VNum(z3.Int('attempts'))
        for s, o, w in captured(u, st, cn, v):
            vec = u.obj(s, vc, 'vector', exact=True)
            l = cells(u, s, vec)
            m = e.list_len(s, l)
            j = VNum(z3.Int('index'))
            lo, hi = bounds_at(u, s, vec, j.t)
            c = elem(u, s, l, j.t).t
            s.assume(z3.And(j.t >= 0, j.t < m, lo <= c, c <= hi, shaped(u, s, vec, per), vec.t > 0, vec.t < st.alloc, l.t > 0, l.t < st.alloc))
            if per:
                bl = e.get_field(s.copy(), vec.t, 'Vector', 'bounds')
                s.assume(z3.And(bl.t > 0, bl.t < st.alloc))
            if how == 'flip' or how == 'maybe':
                s.assume(z3.And(lo < hi, z3.Or(c == lo, c == hi)))
            f = w.get('mut_val_getter', VNone)
            if f is VNone:
                f = VFunc(u.meth(NP, 'default_mut_val_getter'))
            outs, rs = u.run(lambda: e.call(s.copy(), f, [vec, j], {}))
            u.cover_any(cn, [s2 for s2, _ in outs])
            u.no_raise(cn + ': value of a cell', rs)
            for s2, r in outs:
                if how == 'gauss':
                    u.ob(cn + ': some number', s2, z3.BoolVal(isinstance(r, VNum)))
                else:
                    u.ob(cn + ': the new value is within the bounds of the cell', s2, z3.And(r.t >= lo, r.t <= hi))
                if how == 'flip':
                    u.ob(cn + ': the other of the two values', s2, z3.And(r.t != c, z3.Or(r.t == lo, r.t == hi)))
                if how == 'maybe':
                    u.ob(cn + ': one of the two values', s2, z3.Or(r.t == lo, r.t == hi))
                frame(u, cn + ': value of a cell', s, s2)
            u.ob(cn + ': gives a value', s, z3.BoolVal(bool(outs)))
            g = w.get('cell_selector', VNone)
            if g is VNone:
                n = w['n'].t if 'n' in w else z3.IntVal(1)
                u.ob(cn + ': at most the configured number of cells', s, n <= (N.t if 'n' in take else 1))
            else:
                outs, rs = u.run(lambda: e.call(s.copy(), g, [vec], {}))
                u.no_raise(cn + ': cells to mutate', rs)
                a, b = z3.Ints('one another')
                for s2, r in outs:
                    r = e.as_seq(s2, r) if hasattr(e, 'as_seq') and not isinstance(r, VRef) else r
                    k_ = e.list_len(s2.copy(), r)
                    x, y = elem(u, s2, r, a).t, elem(u, s2, r, b).t
                    u.ob(cn + ': different cells of the vector', s2, z3.Implies(z3.And(a >= 0, a < b, b < k_), z3.And(x >= 0, x < m, y >= 0, y < m, x != y)))
                    u.ob(cn + ': cells of the vector', s2, z3.Implies(z3.And(a >= 0, a < k_), z3.And(x >= 0, x < m)))
                    if 'n' in take:
                        u.ob(cn + ': at most the configured number of cells', s2, k_ <= N.t)
                    frame(u, cn + ': cells to mutate', s, s2)
            h = w.get('success_checker', VNone)
            if h is not VNone:
                check_contract(u)
                new = u.obj(s, vc, 'changed', exact=True)
                outs, rs = u.run(lambda: e.call(s.copy(), h, [vec, new], {}))
                for s2, r in outs:
                    u.ob(cn + ': accepts only vectors within bounds', s2, z3.Implies(z3.And(e.truth(s2.copy(), r), a >= 0, a < e.list_len(s2, cells(u, s2, new))), in_bounds(u, s2, new, a)))
            if how == 'gauss':
                u.ob(cn + ': the attempts asked for', s, w['attempts'].t == v['attempts'].t if 'attempts' in w and 'attempts' in v else z3.BoolVal('attempts' not in v))
    return unit


def on_fail(cn):
    def unit(u):
        e = u.eng
        schema(e)
        st = u.state()
        o = u.obj(st, cn, 'mutation', exact=True)
        e.ftypes[('Operator', 'events')] = TAny
        n = u.field(st, o, 'n').t
        if 'One' in cn:
            st.assume(n == 1)
        payload = u.list(st, VEC, 'individuals')
        made = {}
        for c in ('FloatVectorUniformOnePointMutation', 'FloatVectorUniformNPointMutation'):
            def new(en, s, o_, a, kw, c=c):
                v = named(u, c, '__init__', a, kw)
                k_ = v['n'].t if 'n' in v else z3.IntVal(1)
                en.require(s, 'falls back on a uniform mutation of no more cells', k_ <= n)
                made[o_.t.get_id()] = o_
                return [(s, o_)]
            e.contracts[c + '.__new__'] = Contract(c + ' (unit %s)' % c, new)

        def apply(en, s, o_, a, kw):
            x = (list(a) + list(kw.values()))[0]
            en.require(s, 'the fallback is applied to the individuals', z3.And(z3.BoolVal(o_.t.get_id() in made), x.t == payload.t))
            return [(s, x)]
        for nm in ('GeneticOperator.apply_operator', 'FailableOperator.apply'):
            e.contracts[nm] = Contract(nm + ': the uniform mutation (C07, units attempt) returns the group', apply)
        outs, rs = u.call(st, cn, 'on_fail', o, [payload])
        u.no_raise(cn + '.on_fail', rs)
        for s, r in outs:
            u.ob(cn + '.on_fail: returns the group', s, r.t == payload.t)
            frame(u, cn + '.on_fail', st, s)
        u.ob(cn + '.on_fail: returns', st, z3.BoolVal(bool(outs)))
    return unit


def new_mutation(u):
    """VectorNPointMutation.__init__: keeps the functions given, and uses the default ones otherwise"""
    e = u.eng
    schema(e)
    for given in (True, False):
        st = u.state()
        o = e.new_obj(st, u.repo.classes[NP])
        v = dict(n=VNum(z3.Int('n')), probability=VNum(z3.Real('probability')), arity=VNum(z3.Int('arity')), events=VNone, attempts=VNum(z3.Int('attempts')))
        fs = dict(cell_selector='default_cell_selector', mut_val_getter='default_mut_val_getter', success_checker='default_success_checker')
        for f in fs:
            v[f] = VFnSym(z3.Int(f)) if given else VNone
        if given:
            st.assume(z3.And(*[z3.Int(f) > 0 for f in fs]))
        outs, rs = u.call(st, NP, '__init__', o, [], v)
        u.cover_any(NP, [s for s, _ in outs])
        for s, x in rs:
            u.ob(NP + ': refuses only fewer than one attempt', s, z3.And(z3.BoolVal(x.name == 'ValueError'), v['attempts'].t < 1))
        for s, _ in outs:
            g = lambda f: e.get_field(s.copy(), o.t, NP, f)
            u.ob(NP + ': at least one attempt', s, v['attempts'].t >= 1)
            u.ob(NP + ': keeps its parameters', s, z3.And(*[same(g(f), v[f]) for f in ('n', 'probability', 'arity', 'attempts')]))
            for f, d in fs.items():
                if given:
                    u.ob(NP + ': keeps the ' + f, s, e.to_terms(g(f), TFn)[0] == v[f].t)
                else:
                    m = u.meth(NP, d)
                    fn = VFunc(m) if m.is_static else VBound(o, VFunc(m))
                    u.ob(NP + ': the default ' + f, s, e.to_terms(g(f), TFn)[0] == e.to_terms(fn, TFn)[0])
            frame(u, NP, st, s, allow=lambda c, r: r == o.t)
        u.ob(NP + ': returns', st, z3.BoolVal(bool(outs)))


def creator_schema(e):
    for f, t in dict(gene_creator=TFn, length=TInt, type=TTyp, update_parents=TBool, bounds=e.ftypes[('Vector', 'bounds')]).items():
        e.ftypes[('GAVectorCreator', f)] = t
    e.ftypes[('Creator', 'fitness_type')] = TTyp
    e.ftypes[('Creator', 'created_individuals')] = TList(VEC, null=True)


def new_creator(u):
    """GAVectorCreator.__init__ keeps what it is given; the default gene creator otherwise"""
    e = u.eng
    schema(e)
    creator_schema(e)
    GC = 'GAVectorCreator'
    e.contracts['Operator.__init__'] = Contract('Operator.__init__: no parameter of the creator (C15 looks at the events)', lambda en, s, o_, a, kw: [(s, VNone)])
    for given in (True, False):
        st = u.state()
        o = e.new_obj(st, u.repo.classes[GC])
        v = dict(length=VNum(z3.Int('length')), bounds=pairs(u, st, False), gene_creator=VFnSym(z3.Int('gene_creator')) if given else VNone, vector_type=VClass(u.repo.classes['FloatVector']), update_parents=VNum(z3.Bool('up')))
        st.assume(z3.Int('gene_creator') > 0)
        outs, rs = u.call(st, GC, '__init__', o, [], v)
        u.no_raise(GC, rs)
        u.cover_any(GC, [s for s, _ in outs])
        for s, _ in outs:
            g = lambda f: e.get_field(s.copy(), o.t, GC, f)
            u.ob(GC + ': keeps its parameters', s, z3.And(same(g('length'), v['length']), same(g('bounds'), v['bounds']), same(g('update_parents'), v['update_parents'])))
            u.ob(GC + ': keeps the kind of vector', s, e.to_terms(g('type'), TTyp)[0] == e.to_terms(v['vector_type'], TTyp)[0])
            u.ob(GC + ': keeps the gene creator' if given else GC + ': the default gene creator', s, e.to_terms(g('gene_creator'), TFn)[0] == (v['gene_creator'].t if given else e.to_terms(VFunc(u.meth(GC, 'default_gene_creator')), TFn)[0]))
        u.ob(GC + ': returns', st, z3.BoolVal(bool(outs)))
    for cn, vc in (('GAIntVectorCreator', 'IntVector'), ('GAFloatVectorCreator', 'FloatVector'), ('GABitStringVectorCreator', 'BitStringVector')):
        seen = []

        def init(en, s, o_, a, kw):
            seen.append((s, o_, named(u, GC, '__init__', a, kw)))
            return [(s, VNone)]
        e.contracts[GC + '.__init__'] = Contract(GC + '.__init__', init)
        st = u.state()
        o = e.new_obj(st, u.repo.classes[cn])
        v = dict(length=VNum(z3.Int('length')), bounds=pairs(u, st, False), gene_creator=VFnSym(z3.Int('gene_creator')), update_parents=VNum(z3.Bool('up')))
        outs, rs = u.call(st, cn, '__init__', o, [], v)
        u.no_raise(cn, rs)
        for s, o_, w in seen:
            t = w.get('vector_type')
            u.ob(cn + ': a creator of %ss with the parameters given' % vc, s, z3.And(z3.BoolVal(isinstance(t, VClass) and t.cls.name == vc), o_.t == o.t, *[same(w.get(f, VNone), v[f]) for f in v]))
        u.ob(cn + ': returns', st, z3.BoolVal(len(seen) == len(outs) > 0))


def new_fitness(u):
    """the fitness of a new vector: unevaluated, in the direction given"""
    e = u.eng
    st = u.state()
    hib = VNum(z3.Bool('hib'))
    outs, rs = u.new(st, 'SimpleFitness', [], dict(higher_is_better=hib))
    u.no_raise('SimpleFitness()', rs)
    for s, o in outs:
        g = lambda f: e.get_field(s.copy(), o.t, 'SimpleFitness', f).t
        u.ob('SimpleFitness(): not evaluated, in the direction given', s, z3.And(z3.Not(g('_is_evaluated')), g('higher_is_better') == hib.t))
        frame(u, 'SimpleFitness()', st, s)
    u.ob('SimpleFitness(): returns', st, z3.BoolVal(bool(outs)))


def create_individuals(per):
    def unit(u):
        e = u.eng
        schema(e, TReal, per)
        creator_schema(e)
        CN = 'GAVectorCreator'
        st = u.state()
        o = u.obj(st, CN, 'creator', exact=True)
        n, hib = VNum(z3.Int('n')), VNum(z3.Bool('hib'))
        g = lambda s, f: u.field(s.copy(), o, f)
        L, typ, ftyp, up, bd = g(st, 'length').t, g(st, 'type').t, g(st, 'fitness_type').t, g(st, 'update_parents').t, g(st, 'bounds')
        st.assume(L >= 0)
        if per:
            st.assume(z3.And(bd.t > 0, bd.t < st.alloc, e.list_len(st, bd) == L))
        A0 = st.alloc

        def construct(en, s, f, a, kw):
            if 'higher_is_better' in kw or len(a) == 1:
                en.require(s, 'fitness of the configured type, in the direction asked for', z3.And(f.t == ftyp, (list(a) + list(kw.values()))[0].t == hib.t))
                r = VRef(en.alloc(s, 'new_fitness'), TObj('SimpleFitness'))
                en.set_field(s, r.t, 'Fitness', '_is_evaluated', VNum(z3.BoolVal(False)))
                en.set_field(s, r.t, 'Fitness', 'higher_is_better', VNum(hib.t))
                return [(s, r)]
            if a:
                raise Unsupported('vectors built from positional arguments')
            en.require(s, 'vectors of the configured kind, bounds and length, without cells given', z3.And(f.t == typ, same(kw['length'], VNum(L)), same(kw['bounds'], bd), z3.BoolVal(kw.get('vector', VNone) is VNone)))
            r = VRef(en.alloc(s, 'new_vector'), VEC)
            for nm in ('fitness', 'bounds', 'length', 'update_parents'):
                if nm in kw:
                    en.set_field(s, r.t, 'Vector', nm, kw[nm])
            en.set_field(s, r.t, 'Vector', 'vector', en.new_list(s, TReal))
            return [(s, r)]
        e.lib = dict(e.lib)
        e.lib['construct_symbolic'] = construct

        def fill(en, s, o_, a, kw):
            v = (list(a) + list(kw.values()))[0]
            l = en.new_list(s, TReal)
            en.put_arr(s, l, '', en.fresh(s, 'made_cells', AS(I, R)))
            en.set_len(s, l, L)
            en.set_field(s, v.t, 'Vector', 'vector', l)
            en.set_field(s, v.t, 'Vector', 'length', VNum(L))
            s.assume(all_in_bounds(u, s, v))
            return [(s, VNone)]
        e.contracts[CN + '.create_vector'] = Contract('GAVectorCreator.create_vector (units create_vector)', fill)
        outs, rs = u.call(st, CN, 'create_individuals', o, [n, hib])
        u.cover_any('create_individuals', [s for s, _ in outs])
        u.no_raise('create_individuals', rs)
        j, x, y = z3.Ints('j x y')
        for s, v in outs:
            H = iteration_terms(u.facts(s), [j, x], [v.t])
            N = e.list_len(s.copy(), v)
            a, b = elem(u, s, v, j), elem(u, s, v, k)
            f = lambda nm, w=a: e.get_field(s.copy(), w.t, 'Vector', nm)
            fit = f('fitness')
            inr = z3.And(j >= 0, j < N)
            nm = 'create_individuals: '
            u.ob(nm + 'the number asked for', s, N == z3.If(n.t > 0, n.t, 0))
            u.ob(nm + 'new vectors with the bounds of the creator', s, z3.Implies(inr, z3.And(a.t >= A0, a.t < s.alloc, same(f('bounds'), bd), f('length').t == L)))
            u.ob(nm + 'of the length asked for', s, z3.Implies(inr, e.list_len(s.copy(), cells(u, s, a)) == L))
            u.ob(nm + 'every cell within its bounds', s, z3.Implies(z3.And(inr, x >= 0, x < L), in_bounds(u, s, a, x)))
            u.ob(nm + 'no two the same, nor sharing cells or a fitness', s, z3.Implies(z3.And(inr, k >= 0, k < N, j != k), z3.And(a.t != b.t, cells(u, s, a).t != cells(u, s, b).t, fit.t != f('fitness', b).t)))
            ff = lambda nm: e.get_field(s.copy(), fit.t, 'Fitness', nm).t
            u.ob(nm + 'an unevaluated fitness of the direction asked for', s, z3.Implies(inr, z3.And(z3.Not(ff('_is_evaluated')), ff('higher_is_better') == hib.t, fit.t >= A0)))
            u.ob(nm + 'remembered by the creator', s, u.field(s.copy(), o, 'created_individuals').t == v.t)
            frame(u, nm[:-2], st, s, allow=lambda c, r: r == o.t if 'created_individuals' in c else None)
        u.ob('create_individuals: returns', st, z3.BoolVal(bool(outs)))
    return unit


UNITS = {'check': check(False), 'check_per_cell': check(True), 'int': sampler('IntVector', TInt, False), 'int_per_cell': sampler('IntVector', TInt, True),
         'float': sampler('FloatVector', TReal, False), 'float_per_cell': sampler('FloatVector', TReal, True), 'bit': sampler('BitStringVector', TInt, False),
         'flip': flip, 'selector': selector, 'checker': checker, 'attempt': attempt(False), 'attempt_per_cell': attempt(True)}
UNITS.update({'vector_init': vector_init(False, False), 'vector_init_given': vector_init(False, True), 'vector_init_per_cell': vector_init(True, False), 'vector_init_per_cell_given': vector_init(True, True),
              'gene': gene, 'create_vector': create_vector(False), 'create_vector_per_cell': create_vector(True), 'new_mutation': new_mutation})
for _c in ('IntVector', 'FloatVector', 'BitStringVector'):
    UNITS['init_' + _c] = subclass_init(_c)
for _c, _v, _n, _h in [('FloatVectorUniformOnePointMutation', 'FloatVector', TReal, 'in'), ('FloatVectorUniformNPointMutation', 'FloatVector', TReal, 'in'),
                       ('FloatVectorGaussOnePointMutation', 'FloatVector', TReal, 'gauss'), ('FloatVectorGaussNPointMutation', 'FloatVector', TReal, 'gauss'),
                       ('IntVectorOnePointMutation', 'IntVector', TInt, 'in'), ('IntVectorNPointMutation', 'IntVector', TInt, 'in'),
                       ('BitStringVectorFlipMutation', 'BitStringVector', TInt, 'flip'), ('BitStringVectorNFlipMutation', 'BitStringVector', TInt, 'maybe')]:
    UNITS[_c] = mutation(_c, _v, _n, _h)
    if _h == 'in':
        UNITS[_c + '_per_cell'] = mutation(_c, _v, _n, _h, True)
    if _h == 'gauss':
        UNITS[_c + '_on_fail'] = on_fail(_c)
UNITS.update({'new_creator': new_creator, 'create_individuals': create_individuals(False), 'create_individuals_per_cell': create_individuals(True), 'new_fitness': new_fitness})
