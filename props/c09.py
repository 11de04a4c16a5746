"""C09: k-point crossover."""
import z3
from pycv.engine import Contract
from pycv.vals import *
from .common import *

KX = 'VectorKPointsCrossover'
VEC = TObj('Vector')
CELLS = TList(TAny)


def strictly_increasing(x, n):
    a, b = z3.Ints('a b')
    return z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < n), x(a) < x(b)), patterns=[z3.MultiPattern(x(a), x(b))])


def swap(u):
    e = u.eng
    st = u.state()
    op = u.obj(st, KX, 'op', exact=True)
    v1, v2 = u.list(st, CELLS.elem, 'vector1'), u.list(st, CELLS.elem, 'vector2')
    xs = u.list(st, TInt, 'points')
    st.assume(z3.Distinct(v1.t, v2.t, xs.t))
    k = u.field(st, op, 'k').t
    L = e.list_len(st, v1)
    X = lambda p: elem(u, st, xs, p).t
    a = z3.Int('a')
    st.assume(z3.And(e.list_len(st, v2) == L, e.list_len(st, xs) == k, k >= 0, L >= 1))
    st.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < k), z3.And(X(a) >= 1, X(a) <= L - 1)), patterns=[X(a)]))
    st.assume(strictly_increasing(X, k))
    # segment s is [CUT(s - 1), CUT(s)): the points, closed by both ends; SWAP: in an even segment
    CUT, SWAP = z3.Function('cut', I, I), z3.Function('exchanged', I, B)
    s_, p, b = z3.Ints('s p b')
    st.assume(CUT(-1) == 0)
    st.assume(z3.ForAll([a], z3.Implies(a >= k, CUT(a) == L), patterns=[CUT(a)]))
    st.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < k), CUT(a) == X(a)), patterns=[CUT(a)]))
    mono = z3.ForAll([a, b], z3.Implies(z3.And(a >= -1, a < b, b <= k), CUT(a) < CUT(b)), patterns=[z3.MultiPattern(CUT(a), CUT(b))])
    u.ob('swap: cut points are increasing', st, mono)
    st.assume(mono)
    seg = lambda s, q: z3.And(s >= 0, s <= k, CUT(s - 1) <= q, q < CUT(s))
    st.assume(z3.ForAll([s_, p], z3.Implies(seg(s_, p), SWAP(p) == (s_ % 2 == 0)), patterns=[z3.MultiPattern(SWAP(p), CUT(s_))]))
    c = lambda s, v, q: elem(u, s, v, q).t

    def cells(s, done):
        sw = z3.And(c(s, v1, p) == c(st, v2, p), c(s, v2, p) == c(st, v1, p))
        same = z3.And(c(s, v1, p) == c(st, v1, p), c(s, v2, p) == c(st, v2, p))
        return z3.Implies(z3.And(p >= 0, p < L), z3.If(z3.And(done, SWAP(p)), sw, same))

    def inv(s, i):
        return [('exchanged up to the cut reached', z3.ForAll([p], cells(s, p < CUT(2 * i - 1)), patterns=[c(s, v1, p), c(s, v2, p)] if not str(i) == '0' else [])),
                ('lengths', z3.And(e.list_len(s.copy(), v1) == L, e.list_len(s.copy(), v2) == L))]
    e.state_invs.append(inv)
    e.local_invs.append(lambda s, i, x: [('the cut reached', z3.Implies(2 * i - 1 <= k, x.t == CUT(2 * i - 1)))] if isinstance(x, VNum) else [])
    e.own = [z3.Distinct(v1.t, v2.t, xs.t)]
    e.cand_filter = lambda n: n == 'idx<=n' or n.startswith('frame') or n.endswith(('==prev', '==init'))
    outs, rs = u.call(st, KX, '_swap_vector_parts', op, [v1, v2, xs])
    u.cover('swap', st)
    u.no_raise('swap', rs)
    for s, _ in outs:
        u.ob('swap: every other segment is exchanged, the rest stays', s, z3.And(z3.Implies(z3.And(seg(s_, p), s_ % 2 == 0), cells(s, z3.BoolVal(True))), z3.Implies(z3.And(seg(s_, p), s_ % 2 == 1), cells(s, z3.BoolVal(False)))))
        u.ob('swap: lengths are unchanged', s, z3.And(e.list_len(s.copy(), v1) == L, e.list_len(s.copy(), v2) == L))
        frame(u, 'swap', st, s, allow=lambda cn, r: z3.Or(r == v1.t, r == v2.t, r == xs.t))
    u.ob('swap: returns', st, z3.BoolVal(bool(outs)))


def swap_contract(u, called):
    """VectorKPointsCrossover._swap_vector_parts, as proved by the unit swap; the cut points it was given are recorded"""
    def apply(e, s, o, a, kw):
        v1, v2, xs = first3(a, kw)
        k = e.get_field(s.copy(), o.t, KX, 'k').t
        L = e.list_len(s, v1)
        x0 = s.copy()
        X = lambda p: elem(u, x0, xs, p).t
        p, q = z3.Ints('p q')
        e.require(s, 'cut points: as many as asked for', e.list_len(s.copy(), xs) == k)
        e.require(s, 'cut points: inside the vector', z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < k), z3.And(X(p) >= 1, X(p) <= L - 1))))
        e.require(s, 'cut points: distinct and in order', z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < k), X(p) < X(q))))
        e.require(s, 'vectors: two of equal length', z3.And(v1.t != v2.t, v1.t != xs.t, v2.t != xs.t, e.list_len(s.copy(), v2) == L))
        SW, SEG = e.fresh_fn(s, 'exchanged', I, B), e.fresh_fn(s, 'segment', I, I)
        cut = lambda b: z3.If(b < 0, 0, z3.If(b < k, X(b), L))
        s.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < L), z3.And(SEG(p) >= 0, SEG(p) <= k, cut(SEG(p) - 1) <= p, p < cut(SEG(p)), SW(p) == (SEG(p) % 2 == 0))), patterns=[SEG(p)]))
        A = []
        for v in (v1, v2):
            A.append(e.fresh(s, 'cells', AS(I, I)))
        c = lambda v, j: e.to_terms(e.list_get(x0, v, j), TAny)[0]
        s.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < L), z3.And(SEG(p) >= 0, z3.If(SW(p), z3.And(A[0][p] == c(v2, p), A[1][p] == c(v1, p)), z3.And(A[0][p] == c(v1, p), A[1][p] == c(v2, p))))), patterns=[A[0][p]]))
        for v, a_ in zip((v1, v2), A):
            e.put_arr(s, v, '', a_)
        # the list of cut points may be changed
        e.set_len(s, xs, e.fresh(s, 'cuts_len', I))
        e.put_arr(s, xs, '', e.fresh(s, 'cuts', AS(I, I)))
        called.append((s, o, v1, v2, SEG, cut, k, x0))
        return [(s, VNone)]
    u.eng.contracts[KX + '._swap_vector_parts'] = Contract(KX + '._swap_vector_parts (unit swap)', apply)


def first3(a, kw):
    names = ['vector1', 'vector2', 'xo_points']
    return [a[i] if i < len(a) else kw[n] for i, n in enumerate(names)]


def apply(u):
    e = u.eng
    st = u.state()
    op = u.obj(st, KX, 'op', exact=True)
    g = u.list(st, VEC, 'individuals')
    called = []
    swap_contract(u, called)
    st.assume(e.list_len(st, g) == 2)
    a, b = elem(u, st, g, z3.IntVal(0)), elem(u, st, g, z3.IntVal(1))
    va, vb = u.field(st, a, 'vector'), u.field(st, b, 'vector')
    L = e.list_len(st, va)
    k = u.field(st, op, 'k').t
    A0 = st.alloc
    st.assume(z3.And(a.t != b.t, va.t != vb.t, a.t != op.t, b.t != op.t, e.list_len(st, vb) == L, L >= 1))
    st.assume(z3.And([z3.And(r > 0, r < A0) for r in (a.t, b.t, va.t, vb.t, g.t, op.t)] + [g.t != va.t, g.t != vb.t]))
    p = z3.Int('p')
    outs, rs = u.call(st, KX, 'apply', op, [g])
    u.cover_any('apply', [s for s, _ in outs])
    u.ob('apply: returns', st, z3.BoolVal(bool(outs)))
    for s, v in outs:
        mine = [x for x in called if x[0] is s or same_path(x[0], s)]
        if len(mine) != 1:
            u.ob('apply: exchanges the two vectors once', s, z3.BoolVal(False))
            continue
        _, o, v1, v2, SEG, cut, k_, x0 = mine[0]
        c = lambda q, w, j: elem(u, q, w, j).t
        u.ob('apply: the vectors are those of the two individuals', s, z3.Or(z3.And(v1.t == va.t, v2.t == vb.t), z3.And(v1.t == vb.t, v2.t == va.t)))
        u.ob('apply: as many cut points as configured', s, k_ == k)
        sw = z3.And(c(s, va, p) == c(st, vb, p), c(s, vb, p) == c(st, va, p))
        same = z3.And(c(s, va, p) == c(st, va, p), c(s, vb, p) == c(st, vb, p))
        inr = z3.And(p >= 0, p < L)
        u.ob('apply: cells in every other segment are exchanged, the others stay', s, z3.Implies(inr, z3.And(SEG(p) >= 0, SEG(p) <= k, cut(SEG(p) - 1) <= p, p < cut(SEG(p)), z3.If(SEG(p) % 2 == 0, sw, same))))
        u.ob('apply: the individuals keep their vectors and their lengths', s, z3.And(u.field(s, a, 'vector').t == va.t, u.field(s, b, 'vector').t == vb.t, e.list_len(s.copy(), va) == L, e.list_len(s.copy(), vb) == L))
        if isinstance(v, VRef):
            u.ob('apply: gives back the two individuals', s, z3.And(e.list_len(s.copy(), v) == 2, elem(u, s, v, z3.IntVal(0)).t == a.t, elem(u, s, v, z3.IntVal(1)).t == b.t))
        else:
            u.ob('apply: gives back the two individuals', s, z3.BoolVal(False))
        frame(u, 'apply', st, s, allow=lambda cn, r: z3.Or(r == va.t, r == vb.t, r == op.t))
    for r in rs:
        u.ob('apply: raises only when there is no room for the cut points', r[0], z3.And(z3.BoolVal(getattr(r[1], 'name', None) == 'ValueError'), z3.Or(k > L - 1, k < 0)))


def same_path(a, b):
    return len(a.pc) <= len(b.pc) and all(x is y or x[0].eq(y[0]) for x, y in zip(a.pc, b.pc))


UNITS = {'swap': swap, 'apply': apply}
