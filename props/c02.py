"""C02, C03: breeding.

An individual and everything it owns (genome, fitness, id, history) is abstracted to one value, ghost_state; the contracts of
the selections (C04), of cloning (C19) and of operators (C07) say whose state may change.
"""
import z3
from pycv.engine import Contract
from pycv.vals import *
from pycv.unit import witnesses
from .common import *

IND = TObj('Individual')
SB = 'SimpleBreeder'
GENOME = z3.Function('genome_of', I, I)
AIA = z3.ArraySort(I, I)


def ghost(u):
    u.eng.ftypes[('Individual', 'ghost_state')] = TInt
    u.eng.ftypes[('Individual', 'ghost_origin')] = TInt


def gcomp(u, s):
    u.eng.get_field(s, z3.IntVal(1), 'Individual', 'ghost_state')
    return [k for k in u.eng.init_comps if 'ghost_state' in k][0]


def gstate(u, s, t):
    return u.eng.get_field(s.copy(), t, 'Individual', 'ghost_state').t


def first(a, kw, n=1):
    v = list(a) + list(kw.values())
    return v[0] if n == 1 else v[:n]


def operator_contract(u, FLOOR):
    """GeneticOperator.apply_operator: gives back as many individuals as it was given, each one of the group or new, no two the same;
    changes nothing but the group's individuals and new ones"""
    e = u.eng

    def apply(en, s, o, a, kw):
        g = first(a, kw)
        n = en.list_len(s, g)
        j, k, r = z3.Ints('j k r')
        G = lambda q: elem(u, s0, g, q).t
        s0 = s.copy()
        en.require(s, 'operators get groups of their arity', n == en.get_field(s.copy(), o.t, 'Operator', 'arity').t)
        en.require(s, 'operators get distinct individuals', z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), G(j) != G(k))))
        if FLOOR is not None:
            en.require(s, 'operators get no individual of the current generation', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Or(FLOOR(G(j))))))
        # new individuals
        A = s.alloc
        s.alloc = en.fresh(s, 'alloc_op', I)
        s.assume(s.alloc > A)
        nm = gcomp(u, s)
        K0 = s.heap.get(nm, en.init_comps[nm])
        K = en.fresh(s, 'states', AIA)
        w = en.fresh_fn(s, 'member', I, I)
        s.assume(z3.ForAll([r], z3.Implies(r < A, z3.Or(K[r] == K0[r], z3.And(w(r) >= 0, w(r) < n, r == G(w(r))))), patterns=[K[r]]))
        s.heap[nm] = K
        res = en.fresh(s, 'op_result', I)
        s.assume(z3.Or(res == g.t, z3.And(res >= A, res < s.alloc)))
        v = VRef(res, TList(IND))
        arr = en.fresh(s, 'op_inds', AIA)
        src = en.fresh_fn(s, 'from', I, I)
        inr = lambda x: z3.And(x >= 0, x < n)
        s.assume(z3.ForAll([j], z3.Implies(inr(j), z3.Or(z3.And(inr(src(j)), arr[j] == G(src(j))), z3.And(arr[j] >= A, arr[j] < s.alloc))), patterns=[arr[j]]))
        pos = en.fresh_fn(s, 'opos', I, I)
        s.assume(z3.ForAll([j], z3.Implies(inr(j), pos(arr[j]) == j), patterns=[arr[j]]))
        en.put_arr(s, v, '', arr)
        en.set_len(s, v, n)
        return [(s, v)]
    e.contracts['GeneticOperator.apply_operator'] = Contract('GeneticOperator.apply_operator (C07)', apply)


IN0 = z3.Function('given', I, B)


def apply_operators(u):
    e = u.eng
    ghost(u)
    st = u.state()
    br = u.obj(st, SB, 'breeder', exact=True)
    ops = u.list(st, TObj('GeneticOperator'), 'operators')
    L = u.list(st, IND, 'individuals')
    st.assume(ops.t != L.t)
    n, m = e.list_len(st, L), e.list_len(st, ops)
    j, k, r = z3.Ints('j k r')
    E = lambda s, q: elem(u, s, L, q).t
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), IN0(E(st, j))), patterns=[E(st, j)]))
    P0 = z3.Function('pos0', I, I)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), P0(E(st, j)) == j), patterns=[E(st, j)]))
    ar = lambda q: e.get_field(st.copy(), elem(u, st, ops, q).t, 'Operator', 'arity').t
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(ar(j) >= 1, n % ar(j) == 0)), patterns=[elem(u, st, ops, j).t]))
    operator_contract(u, lambda t: [IN0(t), t >= A0])
    A0 = st.alloc
    nm = gcomp(u, st)
    K0 = e.init_comps[nm]
    ok = lambda t: z3.Or(IN0(t), t >= A0)

    def inv(s):
        K = s.heap.get(nm, K0)
        out = [('only the given individuals and new ones change', z3.ForAll([r], z3.Implies(z3.And(r > 0, r < A0, z3.Not(IN0(r))), K[r] == K0[r]), patterns=[K[r]]))]
        out.append(('as many individuals', e.list_len(s.copy(), L) == n))
        out.append(('given or new', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), ok(E(s, j))), patterns=[E(s, j)])))
        out.append(('existing', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(E(s, j) > 0, E(s, j) < s.alloc)), patterns=[E(s, j)])))
        out.append(('distinct', z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), E(s, j) != E(s, k)))))
        return out
    e.state_invs.append(inv)
    e.cand_filter = lambda nm: nm == 'idx<=n' or nm.startswith('frame of')
    outs, rs = u.call(st, SB, '_apply_operators', br, [ops, L])
    u.cover('operators', st)
    u.no_raise('operators', rs)
    for s, res in outs:
        u.ob('operators: give the list back', s, res.t == L.t)
        for q, f in inv(s):
            u.ob('operators: ' + q, s, f)
    u.ob('operators: return', st, z3.BoolVal(bool(outs)))


def clones_into(u, en, s, src, dst, count, best=False):
    """effect of a selection (C04): `count` independent copies of source individuals are appended to dst"""
    en.unify(TList(IND), dst.ty)
    n, d = en.list_len(s, src), en.list_len(s, dst)
    s0 = s.copy()
    j, k, q, r = z3.Ints('j k q r')
    A = s.alloc
    s.alloc = en.fresh(s, 'alloc_sel', I)
    s.assume(s.alloc >= A)
    D0 = en.list_arr(s, dst, '')
    arr = en.fresh(s, 'selected', AIA)
    pos = en.fresh_fn(s, 'selpos', I, I)
    w = en.fresh_fn(s, 'chosen', I, I)
    new = lambda p: z3.And(p >= d, p < d + count)
    s.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < d), arr[j] == D0[j]), patterns=[arr[j]]))
    nm = gcomp(u, s)
    K0 = s.heap.get(nm, en.init_comps[nm])
    K = en.fresh(s, 'states', AIA)
    s.assume(z3.ForAll([r], z3.Implies(r < A, K[r] == K0[r]), patterns=[K[r]]))
    S = lambda p: elem(u, s0, src, p).t
    s.assume(z3.ForAll([j], z3.Implies(new(j), z3.And(arr[j] >= A, arr[j] < s.alloc, arr[j] > 0, pos(arr[j]) == j, w(j) >= 0, w(j) < n,
                                                      GENOME(K[arr[j]]) == GENOME(K0[S(w(j))]))), patterns=[arr[j]]))
    s.heap[nm] = K
    o = en.get_field(s, z3.IntVal(1), 'Individual', 'ghost_origin')
    on = [c for c in en.init_comps if 'ghost_origin' in c][0]
    OK = en.fresh(s, 'origins', AIA)
    O0 = s.heap.get(on, en.init_comps[on])
    s.assume(z3.ForAll([r], z3.Implies(r < A, OK[r] == O0[r]), patterns=[OK[r]]))
    s.assume(z3.ForAll([j], z3.Implies(new(j), OK[arr[j]] == S(w(j))), patterns=[arr[j]]))
    s.heap[on] = OK
    if best:
        inv = en.fresh_fn(s, 'rank', I, I)
        v = lambda t: view(u, s0, VRef(t, IND))
        s.assume(z3.ForAll([q, j], z3.Implies(z3.And(q >= 0, q < n, new(j)),
                                              z3.Or(z3.And(new(inv(q)), OK[arr[inv(q)]] == S(q)), z3.Not(better(v(S(q)), v(S(w(j))))))), patterns=[z3.MultiPattern(S(q), arr[j])]))
    en.put_arr(s, dst, '', arr)
    en.set_len(s, dst, z3.simplify(d + count))


def breed(u):
    e = u.eng
    ghost(u)
    st = u.state()
    br = u.obj(st, SB, 'breeder', exact=True)
    pop = u.obj(st, 'Population', 'population', exact=True)
    sub = u.obj(st, 'Subpopulation', 'subpopulation', exact=True)
    e.set_field(st, pop.t, 'Population', 'sub_populations', e.new_list(st, TObj('Subpopulation', exact=True), [sub]))
    g = lambda f: e.get_field(st, sub.t, 'Subpopulation', f)
    inds = u.list(st, IND, 'current')
    e.set_field(st, sub.t, 'Subpopulation', 'individuals', inds)
    ops, sels = g('_operators_sequence'), g('_selection_methods')
    n, no, ns = e.list_len(st, inds), e.list_len(st, ops), e.list_len(st, sels)
    m, size, hib = g('n_elite').t, g('population_size').t, g('higher_is_better').t
    st.assume(z3.And(m >= 0, m <= n, size == n, n >= 1, ns >= 1))
    j, k, q, r, x = z3.Ints('j k q r x')
    ar = lambda t: e.get_field(st.copy(), t, 'Operator', 'arity').t
    aro = lambda p: ar(elem(u, st, ops, p).t)
    ars = lambda p: ar(elem(u, st, sels, p).items[0].t)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < no), aro(j) >= 1), patterns=[aro(j)]))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ns), ars(j) >= 1), patterns=[ars(j)]))
    st.assume(z3.Distinct(inds.t, ops.t, sels.t))
    all_evaluated(u, st, inds, hib)
    A0 = st.alloc
    old = lambda p: elem(u, st, inds, p).t
    fit = lambda t: e.get_field(st.copy(), t, 'Individual', 'fitness').t
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(old(j) > 0, old(j) < A0, fit(old(j)) > 0, fit(old(j)) < A0)), patterns=[old(j)]))     # existing objects
    nm = gcomp(u, st)
    K0 = e.init_comps[nm]

    def elit(en, s, o, a, kw):
        src, dst = first(a, kw, 2)
        me = en.get_field(s, o.t, 'ElitismSelection', 'num_elites').t
        en.require(s, 'elitism reads the declared direction', en.get_field(s.copy(), o.t, 'SelectionMethod', 'higher_is_better').t == hib)
        ln = en.list_len(s, src)
        clones_into(u, en, s, src, dst, z3.If(me < ln, me, ln) if not en.holds(s, me <= ln, full=True) else me, best=True)
        return [(s, dst)]

    def sele(en, s, o, a, kw):
        src, dst = first(a, kw, 2)
        d, ln = en.list_len(s, dst), en.list_len(s, src)
        en.require(s, 'the selection has room to fill', d <= ln)
        clones_into(u, en, s, src, dst, ln - d)
        return [(s, dst)]
    e.contracts['ElitismSelection.select'] = Contract('ElitismSelection.select (C04)', elit)
    e.contracts['SelectionMethod.select'] = Contract('SelectionMethod.select (C04)', sele)

    def appl(en, s, o, a, kw):
        sq, L = first(a, kw, 2)
        ln = en.list_len(s, L)
        s0 = s.copy()
        E = lambda p: elem(u, s0, L, p).t
        inr = lambda p: z3.And(p >= 0, p < ln)
        en.require(s, 'operators: arities divide the number of individuals',
                   z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < en.list_len(s.copy(), sq)), z3.And(ar(elem(u, s0, sq, j).t) >= 1, ln % ar(elem(u, s0, sq, j).t) == 0))))
        en.require(s, 'operators: distinct individuals', z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < ln), E(j) != E(k))))
        en.require(s, 'operators: only copies', z3.ForAll([j], z3.Implies(inr(j), E(j) >= A0)))
        A = s.alloc
        s.alloc = en.fresh(s, 'alloc_ops', I)
        s.assume(s.alloc >= A)
        Ks = s.heap.get(nm, K0)
        K = en.fresh(s, 'states', AIA)
        mem = en.fresh_fn(s, 'touched', I, I)
        s.assume(z3.ForAll([r], z3.Implies(r < A, z3.Or(K[r] == Ks[r], z3.And(inr(mem(r)), r == E(mem(r))))), patterns=[K[r]]))
        s.heap[nm] = K
        arr = en.fresh(s, 'bred', AIA)
        src, pos = en.fresh_fn(s, 'from', I, I), en.fresh_fn(s, 'bpos', I, I)
        s.assume(z3.ForAll([j], z3.Implies(inr(j), z3.And(pos(arr[j]) == j, arr[j] > 0, z3.Or(z3.And(inr(src(j)), arr[j] == E(src(j))), z3.And(arr[j] >= A, arr[j] < s.alloc)))), patterns=[arr[j]]))
        en.put_arr(s, L, '', arr)
        return [(s, L)]
    e.contracts[SB + '._apply_operators'] = Contract(SB + '._apply_operators (unit operators)', appl)
    outs, rs = u.call(st, SB, 'apply_breed', br, [pop])
    u.cover('breeding', st)
    divides = z3.And(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < no), n % aro(j) == 0)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ns), n % ars(j) == 0)))
    seen = False
    for s, ex in rs:
        if ex.name == 'ValueError':
            seen = True
            u.ob('rejected only if an arity does not divide the population size', s, z3.Not(divides))
            frame(u, 'rejected', st, s)
        else:
            u.ob('breeding: no ' + ex.name, s, z3.BoolVal(False))
    u.ob('breeding: can be rejected', st, z3.BoolVal(seen))
    u.cover_any('breeding succeeds', [s for s, _ in outs])
    for s, _ in outs:
        u.ob('accepted only if every operator\'s arity divides the population size', s, z3.Implies(z3.And(j >= 0, j < no), n % aro(j) == 0), hint=[j, ns + j])
        u.ob('accepted only if every selection\'s arity divides the population size', s, z3.Implies(z3.And(j >= 0, j < ns), n % ars(j) == 0), hint=[j])
        new = e.get_field(s.copy(), sub.t, 'Subpopulation', 'individuals')
        N = lambda p: elem(u, s, new, p).t
        inr = lambda p: z3.And(p >= 0, p < n)
        u.ob('breeding: as many individuals as before', s, z3.And(new.t > 0, e.list_len(s.copy(), new) == n))
        u.ob('breeding: pairwise distinct', s, z3.Implies(z3.And(inr(j), inr(k), j != k), N(j) != N(k)))
        u.ob('breeding: none is an object of the current generation', s, z3.Implies(inr(j), N(j) >= A0))
        K = s.heap.get(nm, K0)
        u.ob('breeding: the current generation is not modified', s, z3.Implies(z3.And(r > 0, r < A0), K[r] == K0[r]))
        O = lambda p: e.get_field(s.copy(), N(p), 'Individual', 'ghost_origin').t
        v = lambda t: view(u, st, VRef(t, IND))
        el = lambda p: z3.And(p >= 0, p < m)
        fs = s.facts()
        hint = [j, N(j)]
        hint += witnesses(fs, ('touched', 'chosen', 'selpos', 'from'), [j, N(j)])
        hint += [old(x) for x in witnesses(fs, ('chosen',), [j])]
        u.ob('elites: copies of members', s, z3.Implies(el(j), z3.Exists([x], z3.And(inr(x), O(j) == old(x)))))
        u.ob('elites: genomes unaltered', s, z3.Implies(el(j), GENOME(K[N(j)]) == GENOME(K0[O(j)])), hint=hint)
        rk = witnesses(fs, ('rank',), [q])
        inside = z3.Or([z3.And(el(x), O(x) == old(q)) for x in rk] or [z3.Exists([x], z3.And(el(x), O(x) == old(q)))])
        u.ob('elites: nobody outside is strictly better', s, z3.Implies(z3.And(inr(q), el(j)), z3.Or(inside, z3.Not(better(v(old(q)), v(O(j)))))),
             hint=[j, N(j), q] + rk + [N(x) for x in rk] + witnesses(fs, ('chosen',), [j]))
    u.ob('breeding: returns', st, z3.BoolVal(bool(outs)))


def sizes(u):
    u.only = lambda n: not n.startswith('elites') and 'elitism reads' not in n
    breed(u)


UNITS = {'operators': apply_operators, 'breeding': sizes}
