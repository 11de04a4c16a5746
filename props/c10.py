"""C10: GP operators keep trees well formed and well typed."""
import z3
from pycv.engine import Contract
from pycv.vals import *
from .common import *
from . import trees
from .trees import *

q, p, i, k = z3.Ints('q p i k')


def forall(vs, f, pats):
    return z3.ForAll(vs, f, patterns=pats)


def seg(N, G, a, b):
    """the subtree [a, b) is well formed: trees.local at every position"""
    return [forall([q], z3.Implies(z3.And(q >= a, q < b), f), ps) for _, f, ps in local(N, G, q, a, b)]


def nest(N, G, a, b):
    """subtrees are nested or apart (lemma 'nested')"""
    return forall([p, q], z3.Implies(z3.And(p >= a, p < q, q < G.end[p], q < b), z3.And(G.end[q] <= G.end[p], G.par[q] >= p)), [z3.MultiPattern(G.end[p], G.end[q])])


# ------------------------------------------------------------------ lemmas about well-formed node sequences
def nested(u):
    """for all p < q < end(p): end(q) <= end(p) and the parent of q is not before p, by strong induction over q"""
    N = AbsNodes(z3.Function('ref', I, I), z3.Int('n'))
    G = AbsArr('g')
    a, b, x, y = z3.Ints('a b x y')
    facts = [a >= 0] + seg(N, G, a, b)
    hyp = forall([p, q], z3.Implies(z3.And(p >= a, p < q, q < G.end[p], q < b, q < y), z3.And(G.end[q] <= G.end[p], G.par[q] >= p)), [z3.MultiPattern(G.end[p], G.end[q])])
    terms = [G.end[t] for t in (x, y, G.par[y], G.prev[y])] + [G.par[G.prev[y]]]
    st = u.eng.new_state()
    for f in facts + [hyp, x >= a, x < y, y < G.end[x], y < b] + [t == t for t in terms]:
        st.assume(f)
    extra = [z3.Function('seen', I, B)(t) for t in terms]
    u.cover('nested', st)
    u.ob('nested: a subtree that starts within another ends within it', st, z3.And(G.end[y] <= G.end[x], G.par[y] >= x), extra=extra)


def arguments(u):
    """the arguments of a function node by number: CH(p, 0) = p + 1, CH(p, i + 1) = end(CH(p, i)); by induction over i they are what trees.parse_axioms says"""
    N = AbsNodes(z3.Function('ref', I, I), z3.Int('n'))
    G = AbsArr('g')
    CH = z3.Function('child', I, I, I)
    x, m = z3.Ints('x m')
    st = u.eng.new_state()
    for f in seg(N, G, z3.IntVal(0), N.n) + [N.n >= 1, G.end[0] == N.n, CH(x, 0) == x + 1, x >= 0, x < N.n, N.isfun(x), CH(x, m + 1) == G.end[CH(x, m)]]:
        st.assume(f)
    hyp = lambda j: z3.And(CH(x, j) > x, CH(x, j) < N.n, G.par[CH(x, j)] == x, G.idx[CH(x, j)] == j, G.end[CH(x, j)] <= G.end[x])
    u.cover('arguments', st)
    seen = z3.Function('seen', I, B)
    u.ob('arguments: the first argument follows its function', st, hyp(z3.IntVal(0)), extra=[seen(N.ref(x)), seen(N.ref(x + 1)), seen(G.par[x + 1])])
    step = st.copy()
    step.assume(z3.And(m >= 0, m < N.nargs(x), hyp(m)))
    c = G.end[CH(x, m)]
    ex = [seen(t) for t in (c, G.par[CH(x, m)], G.idx[CH(x, m)], G.end[c], G.par[c])]
    u.ob('arguments: each follows the one before, the last ends with its function', step, z3.And(z3.Implies(m + 1 < N.nargs(x), hyp(m + 1)), z3.Implies(m + 1 == N.nargs(x), CH(x, m + 1) == G.end[x])), extra=ex)


def splice(u):
    """replacing the subtree [s, e) of one well-formed tree by the subtree [x, y) of another one, of the same type, gives a well-formed tree"""
    T, T2, R = [z3.Function(c, I, I) for c in ('T', 'T2', 'R')]
    n, n2, s, x = z3.Ints('n n2 s x')
    N, N2 = AbsNodes(T, n), AbsNodes(T2, n2)
    G, G2, H = AbsArr('g'), AbsArr('g2'), AbsArr('h')
    z = z3.IntVal(0)
    e, y = G.end[s], G2.end[x]
    m = y - x
    d = m - (e - s)
    NR = AbsNodes(R, n + d)
    GOOD = z3.Function('admissible', I, B)      # any condition on single nodes: function of the set, declared terminal or constant
    st = u.eng.new_state()
    facts = seg(N, G, z, n) + seg(N2, G2, z, n2) + [nest(N, G, z, n), nest(N2, G2, z, n2)]
    facts += [n >= 1, n2 >= 1, G.end[0] == n, G2.end[0] == n2, s >= 0, s < n, x >= 0, x < n2, N.typ(s) == N2.typ(x)]
    facts += [forall([q], z3.Implies(z3.And(q >= 0, q < n), GOOD(T(q))), [T(q)]), forall([q], z3.Implies(z3.And(q >= 0, q < n2), GOOD(T2(q))), [T2(q)])]
    for f in facts:
        st.assume(f)
    for at, v in [(R, (lambda t: T(t), lambda t: T2(t - s + x), lambda t: T(t - d))),
                  (H.end.f, (lambda t: z3.If(G.end[t] <= s, G.end[t], G.end[t] + d), lambda t: G2.end[t - s + x] - x + s, lambda t: G.end[t - d] + d)),
                  (H.par.f, (lambda t: G.par[t], lambda t: z3.If(t == s, G.par[s], G2.par[t - s + x] - x + s), lambda t: z3.If(G.par[t - d] < e, G.par[t - d], G.par[t - d] + d))),
                  (H.idx.f, (lambda t: G.idx[t], lambda t: z3.If(t == s, G.idx[s], G2.idx[t - s + x]), lambda t: G.idx[t - d])),
                  (H.prev.f, (lambda t: G.prev[t], lambda t: z3.If(t == s, G.prev[s], G2.prev[t - s + x] - x + s), lambda t: z3.If(G.prev[t - d] <= s, G.prev[t - d], G.prev[t - d] + d))),
                  (H.dep.f, (lambda t: G.dep[t], lambda t: G.dep[s] + G2.dep[t - s + x] - G2.dep[x], lambda t: G.dep[t - d]))]:
        st.assume(forall([q], z3.And(z3.Implies(q < s, at(q) == v[0](q)), z3.Implies(z3.And(q >= s, q < s + m), at(q) == v[1](q)), z3.Implies(q >= s + m, at(q) == v[2](q))), [at(q)]))
    u.cover('splice', st)
    seen = z3.Function('seen', I, B)
    t = z3.Int('some!position')
    ghosts = lambda A, N_, v: [N_.ref(v), A.end[v], A.par[v], A.idx[v], A.prev[v], A.dep[v], A.end[A.par[v]], A.end[A.prev[v]], A.par[A.end[v]], A.idx[A.end[v]], A.prev[A.end[v]], A.par[A.prev[v]], A.idx[A.prev[v]], N_.ref(A.par[v])]
    for where, cond, old in [('before', z3.And(t >= 0, t < s), ghosts(G, N, t) + ghosts(G, N, s)),
                             ('the new root', t == s, ghosts(G2, N2, x) + ghosts(G, N, s)),
                             ('within', z3.And(t > s, t < s + m), ghosts(G2, N2, t - s + x) + [G2.end[x]]),
                             ('after', z3.And(t >= s + m, t < NR.n), ghosts(G, N, t - d) + ghosts(G, N, s))]:
        for nm, f, ps in local(NR, H, t, z, NR.n):
            w = st.copy()
            w.assume(cond)
            u.ob('splice: %s: %s' % (where, nm), w, f, extra=[seen(v) for v in old])
        w = st.copy()
        w.assume(cond)
        u.ob('splice: %s: every node is one of the two trees' % where, w, GOOD(R(t)), extra=[seen(v) for v in old])
    u.ob('splice: one tree, nothing left over', st, z3.And(NR.n >= 1, H.end[0] == NR.n), extra=[seen(v) for v in ghosts(G, N, s) + ghosts(G2, N2, x)])
    u.ob('splice: the root keeps its type', st, NR.typ(0) == N.typ(0), extra=[seen(N.ref(s)), seen(N2.ref(x))])



# ------------------------------------------------------------------ the code
NEQ = z3.Function('nodes_equal', I, I, B)


def schema(e):
    trees.schema(e)
    e.ftypes[('Tree', 'function_set')] = TList(TFn)


def node_equality(u):
    """== on nodes (unit node_eq): an equivalence relation, equal nodes have the same type"""
    e = u.eng

    def eq(en, s, o, a, kw):
        b = a[0]
        if not (isinstance(b, VRef) and isinstance(b.ty, TObj)):
            raise Unsupported('comparison of a node with something else')
        return [(s, VNum(NEQ(o.t, b.t)))]
    for c in ('TreeNode', FN, TN):
        e.contracts[c + '.__eq__'] = Contract('== on nodes (unit node_eq)', eq)


def equality_facts(N):
    a, b, c = p, q, i
    return [forall([a], NEQ(a, a), [NEQ(a, a)]), forall([a, b], NEQ(a, b) == NEQ(b, a), [NEQ(a, b)]),
            forall([a, b, c], z3.Implies(z3.And(NEQ(a, b), NEQ(b, c)), NEQ(a, c)), [z3.MultiPattern(NEQ(a, b), NEQ(b, c))])]


def node_eq(u):
    """for every two and three nodes of either class"""
    e = u.eng
    schema(e)

    def eq(s, x, y):
        outs, rs = u.call(s, x.ty.cname, '__eq__', x, [y])
        u.no_raise('==', rs)
        return [(w, e.truth(w, v)) for w, v in outs]
    ty = lambda s, x: e.get_field(s.copy(), x.t, 'TreeNode', 'node_type').t

    def nodes(*cs):
        st = u.state()
        out = [u.obj(st, c, x, exact=True) for c, x in zip(cs, 'abc')]
        for x in out:
            st.assume(z3.And(x.t > 0, x.t < st.alloc))
        return st, out
    n = 0
    for ca in (FN, TN):
        st, (a,) = nodes(ca)
        for s, t in eq(st, a, a):
            u.ob('==: a node equals itself', s, t)
            frame(u, '==', st, s)
        for cb in (FN, TN):
            st, (a, b) = nodes(ca, cb)
            for s, t in eq(st, a, b):
                n += 1
                u.ob('==: equal nodes have the same type', s, z3.Implies(t, ty(s, a) == ty(s, b)))
                for s2, t2 in eq(s, b, a):
                    u.ob('==: symmetric', s2, t == t2)
            for cc in (FN, TN):
                st, (a, b, c) = nodes(ca, cb, cc)
                for s, t in eq(st, a, b):
                    w = s.copy()
                    w.assume(t)
                    for s2, t2 in eq(w, b, c):
                        w2 = s2.copy()
                        w2.assume(t2)
                        for s3, t3 in eq(w2, a, c):
                            u.ob('==: transitive', s3, t3)
    st, ab = nodes(FN, TN)
    u.cover('==', st)
    u.ob('==: returns', st, z3.BoolVal(n >= 4))


def in_set(u, st, N, fs):
    """every function of the tree is in its function set"""
    FI = z3.Function('index_in_function_set', I, I)
    n = u.eng.list_len(st, fs)
    return forall([p], z3.Implies(z3.And(p >= 0, p < N.n, N.isfun(p)), z3.And(FI(p) >= 0, FI(p) < n, elem(u, st, fs, FI(p)).t == N.function(p))), [N.ref(p)])


def find_end(u):
    e = u.eng
    schema(e)
    st = u.state()
    t = u.obj(st, 'Tree', 'tree')
    N = Nodes(u, st, u.field(st, t, 'tree'))
    P = Parse()
    pos = u.list(st, TInt, 'pos')
    for f in parse_axioms(N, P) + [in_set(u, st, N, u.field(st, t, 'function_set'))]:
        st.assume(f)
    at = lambda s: elem(u, s, pos, z3.IntVal(0)).t
    p0 = at(st)
    st.assume(z3.And(e.list_len(st, pos) == 1, p0 >= 0, p0 < N.n, pos.t != N.lst.t))

    def rec(e, s, o, a, kw):
        a = a + list(kw.values())
        e.require(s, '_find_subtree_end: on the same tree with the same cursor', z3.And(o.t == t.t, a[0].t == pos.t))
        c = at(s)
        e.require(s, '_find_subtree_end: at a subtree further on', z3.And(e.list_len(s.copy(), pos) == 1, c > p0, c < N.n))
        e.list_set(s, pos, z3.IntVal(0), VNum(P.END(c) - 1))
        return [(s, VNum(P.END(c) - 1))]
    e.contracts['Tree._find_subtree_end'] = Contract('Tree._find_subtree_end (this unit)', rec)
    e.state_invs.append(lambda s, j: [('cursor before the next argument', z3.And(at(s) == P.CH(p0, j) - 1, e.list_len(s.copy(), pos) == 1))])
    outs, rs = u.call(st, 'Tree', '_find_subtree_end', t, [pos])
    u.cover_any('_find_subtree_end', [s for s, _ in outs])
    u.no_raise('_find_subtree_end', rs)
    for s, v in outs:
        u.ob('_find_subtree_end: the last node of the subtree', s, e.as_int(v) == P.END(p0) - 1)
        u.ob('_find_subtree_end: leaves the cursor there', s, z3.And(at(s) == P.END(p0) - 1, e.list_len(s.copy(), pos) == 1))
        frame(u, '_find_subtree_end', st, s, allow=lambda cn, r: r == pos.t)
    u.ob('_find_subtree_end: returns', st, z3.BoolVal(bool(outs)))


UNTYPED = z3.Bool('untyped')


def one_typing(N):
    """untyped tree: no node has a type; typed tree: every node has one"""
    return forall([p], z3.Implies(z3.And(p >= 0, p < N.n), (N.typ(p) == 0) == UNTYPED), [N.typ(p)])


def tree_state(u, st, name='tree'):
    t = u.obj(st, 'Tree', name)
    N = Nodes(u, st, u.field(st, t, 'tree'))
    st.assume(z3.And(N.n >= 1, t.t > 0, t.t < st.alloc, N.lst.t > 0, N.lst.t < st.alloc))
    st.assume(forall([p], z3.Implies(z3.And(p >= 0, p < N.n), z3.And(N.ref(p) > 0, N.ref(p) < st.alloc)), [N.ref(p)]))
    return t, N


def is_first(N, s):
    return z3.And(s >= 0, s < N.n, forall([p], z3.Implies(z3.And(p >= 0, p < s), z3.Not(NEQ(N.ref(p), N.ref(s)))), [N.ref(p)]))


def is_slice(u, s, v, N, a, b):
    """list v holds the nodes [a, b) of N"""
    c = lambda j: elem(u, s, v, j).t
    return z3.And(u.eng.list_len(s.copy(), v) == b - a, forall([q], z3.Implies(z3.And(q >= 0, q < b - a), c(q) == N.ref(a + q)), [c(q)]))


def by_root(u):
    e = u.eng
    schema(e)
    node_equality(u)
    st = u.state()
    t, N = tree_state(u, st)
    P = Parse()
    w = z3.Int('w')
    for f in equality_facts(N) + [forall([p], z3.Implies(z3.And(p >= 0, p < N.n), z3.And(P.END(p) > p, P.END(p) <= N.n)), [P.END(p)]), P.END(0) == N.n, w >= 0, w < N.n]:
        st.assume(f)
    root = VRef(N.ref(w), NODE)

    def end(e, s, o, a, kw):
        a = a + list(kw.values())
        c = elem(u, s, a[0], z3.IntVal(0)).t
        e.require(s, '_find_subtree_end: of a position of this tree', z3.And(o.t == t.t, e.list_len(s.copy(), a[0]) == 1, c >= 0, c < N.n, a[0].t >= st.alloc))
        e.list_set(s, a[0], z3.IntVal(0), VNum(P.END(c) - 1))
        return [(s, VNum(P.END(c) - 1))]
    e.contracts['Tree._find_subtree_end'] = Contract('Tree._find_subtree_end (unit find_end)', end)
    outs, rs = u.call(st, 'Tree', '_get_subtree_by_root', t, [root])
    u.cover_any('_get_subtree_by_root', [s for s, _ in outs])
    u.no_raise('_get_subtree_by_root', rs)
    for s, v in outs:
        f = z3.Int('first!equal')
        first = z3.And(f >= 0, f < N.n, NEQ(N.ref(f), N.ref(w)), forall([p], z3.Implies(z3.And(p >= 0, p < f), z3.Not(NEQ(N.ref(p), N.ref(w)))), [N.ref(p)]))
        u.ob('_get_subtree_by_root: the complete subtree at the first node equal to the one given', s, z3.Implies(first, is_slice(u, s, v, N, f, P.END(f))))
        u.ob('_get_subtree_by_root: a new list, or the whole tree', s, z3.Or(v.t >= st.alloc, v.t == N.lst.t))
        frame(u, '_get_subtree_by_root', st, s)
    u.ob('_get_subtree_by_root: returns', st, z3.BoolVal(bool(outs)))


def random_subtree(typed):
    def unit(u):
        e = u.eng
        schema(e)
        node_equality(u)
        st = u.state()
        t, N = tree_state(u, st)
        P = Parse()
        nt = VAny(z3.Int('node_type')) if typed else VNone
        for f in equality_facts(N) + [one_typing(N), forall([p, q], z3.Implies(z3.And(p >= 0, p < N.n, q >= 0, q < N.n, NEQ(N.ref(p), N.ref(q))), N.typ(p) == N.typ(q)), [NEQ(N.ref(p), N.ref(q))])]:
            st.assume(f)
        chosen = []

        def get(e, s, o, a, kw):
            r = (a + list(kw.values()))[0]
            w = e.fresh(s, 'where', I)
            e.require(s, '_get_subtree_by_root: of a node of this tree', z3.And(o.t == t.t, z3.Exists([p], z3.And(p >= 0, p < N.n, r.t == N.ref(p)))))
            f = e.fresh(s, 'first', I)
            s.assume(z3.And(is_first(N, f), NEQ(N.ref(f), r.t)))
            l = VRef(e.fresh(s, 'subtree', I), TList(NODE))
            A = s.alloc
            s.alloc = e.fresh(s, 'alloc_sub', I)
            s.assume(z3.And(s.alloc > A, z3.Or(z3.And(l.t >= A, l.t < s.alloc), l.t == N.lst.t)))
            s.assume(is_slice(u, s, l, N, f, P.END(f)))
            chosen.append((l, f))
            return [(s, l)]
        e.contracts['Tree._get_subtree_by_root'] = Contract('Tree._get_subtree_by_root (unit by_root)', get)
        outs, rs = u.call(st, 'Tree', 'random_subtree', t, [nt] if typed else [])
        u.cover_any('random_subtree', [s for s, _ in outs])
        u.no_raise('random_subtree', rs)
        want = nt.t if typed else z3.IntVal(0)
        some = False
        for s, v in outs:
            frame(u, 'random_subtree', st, s)
            if v is VNone:
                continue
            some = True
            ok = lambda f: z3.If(UNTYPED, N.typ(f) == 0, z3.And(f > 0, N.typ(f) != 0, z3.Or(want == 0, N.typ(f) == want)))
            u.ob('random_subtree: a subtree of this tree, of the type asked for; in a typed tree not the root', s, z3.Implies(v.t != 0, z3.Or([z3.And(v.t == l.t, ok(f)) for l, f in chosen])))
        u.ob('random_subtree: can return a subtree', st, z3.BoolVal(some))
    return unit


def replace(u):
    e = u.eng
    schema(e)
    node_equality(u)
    st = u.state()
    t, N = tree_state(u, st)
    s0, end = z3.Ints('s e')
    old, new = u.list(st, NODE, 'old'), u.list(st, NODE, 'new')
    M = Nodes(u, st, new)
    for f in equality_facts(N) + [is_first(N, s0), end > s0, end <= N.n, is_slice(u, st, old, N, s0, end), M.n >= 1]:
        st.assume(f)
    st.assume(forall([p], z3.Implies(z3.And(p >= 0, p < M.n), z3.And(M.ref(p) > 0, M.ref(p) < st.alloc)), [M.ref(p)]))
    st.assume(z3.And(old.t > 0, old.t < st.alloc, new.t > 0, new.t < st.alloc))
    outs, rs = u.call(st, 'Tree', 'replace_subtree', t, [], {'old_subtree': old, 'new_subtree': new})
    u.cover_any('replace_subtree', [s for s, _ in outs])
    u.no_raise('replace_subtree', rs)
    x = z3.Int('some!position')
    for s, v in outs:
        r = e.get_field(s.copy(), t.t, 'Tree', 'tree')
        c = elem(u, s, r, x).t
        d = M.n - (end - s0)
        u.ob('replace_subtree: the tree is as long as its parts', s, e.list_len(s.copy(), r) == N.n + d)
        u.ob('replace_subtree: the nodes before, the new subtree, the nodes after', s, z3.Implies(z3.And(x >= 0, x < N.n + d), c == z3.If(x < s0, N.ref(x), z3.If(x < s0 + M.n, M.ref(x - s0), N.ref(x - d)))))
        u.ob('replace_subtree: in a new list', s, z3.And(r.t >= st.alloc, r.t < s.alloc))
        fr = lambda cn, ref: ref == t.t if cn.startswith('F:') and cn.split('.')[-1].startswith('tree') else z3.BoolVal(False)
        frame(u, 'replace_subtree', st, s, allow=fr)
    u.ob('replace_subtree: returns', st, z3.BoolVal(bool(outs)))



# ------------------------------------------------------------------ crossover: START(l): where a subtree list starts in the node list of its tree
START = z3.Function('subtree_start', I, I)
ENDL = z3.Function('subtree_end', I, I, I)            # node list, position -> end of the subtree there
WELL = z3.Function('well_formed', I, B)               # node list: trees.local holds, one typing, its functions are in its set
SUBS = TList(TList(NODE, null=True))
TREES = TList(TObj('Tree'))


def lst(t):
    return VRef(t, TList(NODE))


def at(u, s, l, j):
    return elem(u, s, lst(l), j).t


def type_at(u, s, l, j):
    return u.eng.get_field(s.copy(), at(u, s, l, j), 'TreeNode', 'node_type').t


def length(u, s, l):
    return u.eng.list_len(s.copy(), lst(l))


def tree_of(u, s, t):
    return u.eng.get_field(s.copy(), t, 'Tree', 'tree').t


def sub_spec(u, s, l, T, v=(), pats=None, cond=True):
    """l holds the subtree at START(l) of the node list T, the first node equal to its root"""
    f = START(l)
    pre = lambda c, x: z3.Implies(z3.And(cond, c), x)
    vs = list(v)
    one = z3.And(l > 0, f >= 0, f < length(u, s, T), length(u, s, l) == ENDL(T, f) - f, ENDL(T, f) > f, ENDL(T, f) <= length(u, s, T), z3.Implies(l == T, f == 0))
    return [('extent', z3.ForAll(vs, pre(True, one), patterns=pats) if vs else one),
            ('first', forall(vs + [q], pre(z3.And(q >= 0, q < f), z3.Not(NEQ(at(u, s, T, q), at(u, s, T, f)))), [z3.MultiPattern(*((pats or []) + [at(u, s, T, q)]))] if pats else [at(u, s, T, q)])),
            ('nodes', forall(vs + [q], pre(z3.And(q >= 0, q < ENDL(T, f) - f), at(u, s, l, q) == at(u, s, T, f + q)), [at(u, s, l, q)]))]


def typing(u, s, l, T, want):
    ty = type_at(u, s, T, START(l))
    return z3.If(UNTYPED, ty == 0, z3.And(START(l) > 0, ty != 0, z3.Or(want == 0, ty == want)))


def random_subtree_contract(u, calls=None):
    def pick(e, s, o, a, kw):
        a = a + list(kw.values())
        want = e.any_code(a[0]) if a else z3.IntVal(0)
        T = tree_of(u, s, o.t)
        e.require(s, 'random_subtree: of a well-formed tree', z3.And(WELL(T), length(u, s, T) >= 1))
        l = e.fresh(s, 'subtree', I)
        if calls is not None:
            calls.append((l, T))
        A = s.alloc
        s.alloc = e.fresh(s, 'alloc_sub', I)
        s.assume(z3.And(s.alloc > A, z3.Or(l == 0, l == T, z3.And(l >= A, l < s.alloc))))
        for _, f in sub_spec(u, s, l, T) + [('', typing(u, s, l, T, want)), ('', type_at(u, s, l, z3.IntVal(0)) == type_at(u, s, T, START(l)))]:
            s.assume(z3.Implies(l != 0, f))
        return [(s, VRef(l, TList(NODE, null=True)))]
    u.eng.contracts['Tree.random_subtree'] = Contract('Tree.random_subtree (units random_subtree, by_root, find_end)', pick)


def parents(u, st, n=None):
    """distinct well-formed trees"""
    e = u.eng
    inds = u.list(st, TObj('Tree'), 'individuals')
    n = e.list_len(st, inds)
    el = lambda s, j: elem(u, s, inds, j).t
    T = lambda j: tree_of(u, st, el(st, j))
    A0 = st.alloc
    st.assume(z3.And(n >= 1, inds.t > 0, inds.t < A0))
    st.assume(forall([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(el(st, k) > 0, el(st, k) < A0, T(k) > 0, T(k) < A0, WELL(T(k)), length(u, st, T(k)) >= 1)), [el(st, k)]))
    st.assume(forall([k, i], z3.Implies(z3.And(k >= 0, k < i, i < n), el(st, k) != el(st, i)), [z3.MultiPattern(el(st, k), el(st, i))]))
    return inds, n, el, T


def picked(u, s, v, el, lo, hi, off, st, want=None):
    """v[j] is None or a subtree of individual j + off, for lo <= j < hi"""
    x = elem(u, s, v, k).t
    T = tree_of(u, st, elem_off(el, st, k, off))
    c = z3.And(k >= lo, k < hi, x != 0)
    out = sub_spec(u, s, x, T, [k], [x], c)
    out.append(('known', z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), z3.And(x >= 0, x < s.alloc)), patterns=[x])))
    if want is not None:
        out.append(('type', z3.ForAll([k], z3.Implies(c, typing(u, s, x, T, want)), patterns=[x])))
    return out


def elem_off(el, s, j, off):
    return el(s, j + off) if off else el(s, j)


def pick(u):
    e = u.eng
    schema(e)
    st = u.state()
    inds, n, el, T = parents(u, st)
    first = []
    random_subtree_contract(u, first)

    def inv(s, j, v):
        if not (isinstance(v, VRef) and isinstance(v.ty, TList) and isinstance(rt(v.ty.elem), TList)):
            return []
        if not first:
            return []
        want = type_at(u, s, first[0][1], START(first[0][0]))
        return [('subtrees so far: ' + nm, f) for nm, f in picked(u, s, v, el, z3.IntVal(0), j, 1, st, want)] + [('as many as individuals', e.list_len(s.copy(), v) == j)]
    e.local_invs.append(inv)
    outs, rs = u.call(st, 'SubtreeCrossover', '_pick_subtrees', None, [inds])
    u.cover_any('_pick_subtrees', [s for s, _ in outs])
    u.no_raise('_pick_subtrees', rs)
    some = False
    for s, v in outs:
        frame(u, '_pick_subtrees', st, s)
        if v is VNone:
            continue
        some = True
        y = z3.Int('some!individual')
        x = elem(u, s, v, y).t
        Ty = T(y)
        inr = z3.And(y >= 0, y < n)
        u.ob('_pick_subtrees: as many subtrees as individuals', s, e.list_len(s.copy(), v) == n)
        for nm, f in sub_spec(u, s, x, Ty):
            u.ob('_pick_subtrees: each a complete subtree of its individual: ' + nm, s, z3.Implies(inr, f))
        a, b = elem(u, s, v, z3.IntVal(0)).t, T(z3.IntVal(0))
        u.ob('_pick_subtrees: all of one type; not the root of a typed tree', s, z3.Implies(inr, z3.And(type_at(u, s, Ty, START(x)) == type_at(u, s, b, START(a)), z3.Or(UNTYPED, START(x) > 0))))
    u.ob('_pick_subtrees: can succeed', st, z3.BoolVal(some))



def first_equal(u, s, T, f):
    return forall([q], z3.Implies(z3.And(q >= 0, q < f), z3.Not(NEQ(at(u, s, T, q), at(u, s, T, f)))), [at(u, s, T, q)])


def replace_contract(u):
    def rep(e, s, o, a, kw):
        v = dict(zip(['old_subtree', 'new_subtree'], a))
        v.update(kw)
        old, new = v['old_subtree'].t, v['new_subtree'].t
        T = tree_of(u, s, o.t)
        f = START(old)
        n, m, c = length(u, s, T), length(u, s, new), length(u, s, old)
        e.require(s, 'replace_subtree: of nodes of this tree', z3.And(old > 0, new > 0, f >= 0, c >= 1, f + c <= n, m >= 1))
        e.require(s, 'replace_subtree: they begin with the first node equal to the first of them', first_equal(u, s, T, f))
        e.require(s, 'replace_subtree: they follow each other in the tree', forall([q], z3.Implies(z3.And(q >= 0, q < c), at(u, s, old, q) == at(u, s, T, f + q)), [at(u, s, old, q)]))
        r = VRef(e.alloc(s, 'spliced'), TList(NODE))
        s.assume(length(u, s, r.t) == n + m - c)
        for g in spliced(u, s, r.t, T, f, c, of_list(u, s, new)):
            s.assume(g)
        e.set_field(s, o.t, 'Tree', 'tree', r)
        put_cell(u, s, o, 'replacement', new)
        return [(s, VNone)]
    u.eng.contracts['Tree.replace_subtree'] = Contract('Tree.replace_subtree (unit replace)', rep)


def of_list(u, s, new):
    return length(u, s, new), lambda j: at(u, s, new, j)


def spliced(u, s, r, T, f, c, new, v=(), pats=None, cond=True):
    """node list r: T with the c nodes at f replaced by new = (number of nodes, node by position)"""
    m, node = new
    d = m - c
    vs = list(v)
    one = z3.Implies(cond, length(u, s, r) == length(u, s, T) + d)
    return [z3.ForAll(vs, one, patterns=pats) if vs else one,
            forall(vs + [q], z3.Implies(z3.And(cond, q >= 0, q < length(u, s, T) + d), at(u, s, r, q) == z3.If(q < f, at(u, s, T, q), z3.If(q < f + m, node(q - f), at(u, s, T, q - d)))), [at(u, s, r, q)])]


def subtree_list(u, st, name, n, el, A0):
    """a subtree of every individual"""
    e = u.eng
    v = u.list(st, rt(SUBS).elem, name)
    st.assume(z3.And(v.t > 0, v.t < A0, e.list_len(st, v) == n))
    x = elem(u, st, v, k).t
    for nm, f in picked(u, st, v, el, z3.IntVal(0), n, 0, st):
        st.assume(f)
    st.assume(forall([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(x > 0, x < A0)), [x]))
    return v


def before(n, j):
    return z3.If(j == 0, n - 1, j - 1)


def swap(u):
    e = u.eng
    schema(e)
    st = u.state()
    inds, n, el, T = parents(u, st)
    replace_contract(u)
    A0 = st.alloc
    subs = subtree_list(u, st, 'subtrees', n, el, A0)
    sub = lambda s, j: elem(u, s, subs, j).t

    def result(s, j, **kw):
        return spliced(u, s, tree_of(u, s, el(s, j)), T(j), START(sub(st, j)), length(u, st, sub(st, j)), of_list(u, s, sub(st, before(n, j))), **kw)

    y = z3.Int('some!individual')      # any one of them
    st.assume(z3.And(y >= 0, y < n))

    def inv(s, j):
        x, xy = tree_of(u, s, el(st, k)), tree_of(u, s, el(st, y))
        out = []
        for way, done, ahead in [('down', y > n - 1 - j, k <= n - 1 - j), ('up', y < j, k >= j)]:      # whichever way the loop goes
            out += [('individuals not reached yet, ' + way, forall([k], z3.Implies(z3.And(k >= 0, k < n, ahead), x == T(k)), [el(st, k)])),
                    ('its tree is new once reached, ' + way, z3.Implies(done, z3.And(xy >= A0, xy < s.alloc)))]
            out += [('its tree once reached, %s, %d' % (way, h), z3.Implies(done, f)) for h, f in enumerate(result(s, y))]
        return out
    e.state_invs.append(inv)
    outs, rs = u.call(st, 'SubtreeCrossover', '_swap_subtrees', None, [inds, subs])
    u.cover_any('_swap_subtrees', [s for s, _ in outs])
    u.no_raise('_swap_subtrees', rs)
    for s, v in outs:
        for f in result(s, y):
            u.ob('_swap_subtrees: every tree has its subtree replaced by the one of the individual before it', s, f)
        frame_trees(u, '_swap_subtrees', st, s, el, n)
    u.ob('_swap_subtrees: returns', st, z3.BoolVal(bool(outs)))


def frame_trees(u, name, st, s, el, n):
    a = z3.Int('a!individual')
    own = lambda ref: z3.Exists([a], z3.And(a >= 0, a < n, el(st, a) == ref))
    frame(u, name, st, s, allow=lambda cn, ref: None if '.ghost.' in cn or ':ghost.' in cn else own(ref) if cn.startswith('F:') and '.tree:' in cn else z3.BoolVal(False))



def operators(e):
    def d(c, **kw):
        for f, v in kw.items():
            e.ftypes[(c, f)] = v
    d('Operator', arity=TInt, individuals=TREES, applied_individuals=TREES)
    d('SubtreeMutation', init_depth=TTup([TInt, TInt]), tree_creator=TObj('GrowCreator', exact=True, null=True))
    d('GPTreeCreator', init_depth=TTup([TInt, TInt]))
    d('ERCMutation', mu=TReal, sigma=TReal)


def outcome(u, name, st, s, v, inds):
    """(succeeded, the group itself)"""
    ok = isinstance(v, VTup) and len(v.items) == 2 and isinstance(v.items[1], VRef)
    u.ob('%s: returns whether it succeeded, with the group' % name, s, v.items[1].t == inds.t if ok else z3.BoolVal(False))
    return u.eng.truth(s.copy(), v.items[0]) if ok else None


def bred(u, name, s, y, r, T, f, new, type_, done):
    """tree of individual y: one subtree of T, not the root of a typed tree, replaced by a well-formed one of the same type (then lemma splice applies)"""
    c = ENDL(T, f) - f
    u.ob('%s: a subtree is replaced, in a typed tree not the root' % name, s, z3.Implies(done, z3.And(f >= 0, f < length(u, s, T), z3.Or(UNTYPED, f > 0))))
    u.ob('%s: by one of the same type' % name, s, z3.Implies(done, type_at(u, s, T, f) == type_))
    for g in spliced(u, s, r, T, f, c, new):
        u.ob('%s: exactly it is replaced, by a complete well-formed subtree' % name, s, z3.Implies(done, g))


def crossover(u):
    e = u.eng
    schema(e)
    operators(e)
    st = u.state()
    o = u.obj(st, 'SubtreeCrossover', 'crossover', exact=True)
    inds, n, el, T = parents(u, st)
    A0 = st.alloc
    y = z3.Int('some!individual')
    st.assume(z3.And(y >= 0, y < n, o.t > 0, o.t < A0))
    picks = []

    def pick_(en, s, o_, a, kw):
        g = (a + list(kw.values()))[0]
        en.require(s, '_pick_subtrees: of the group', g.t == inds.t)
        v = VRef(en.fresh(s, 'subtrees', I), TList(rt(SUBS).elem, null=True))
        A = s.alloc
        s.alloc = en.fresh(s, 'alloc_sub', I)
        s.assume(z3.And(s.alloc > A, z3.Or(v.t == 0, z3.And(v.t >= A, v.t < s.alloc))))
        x = elem(u, s, v, k).t
        got = v.t != 0
        s.assume(z3.Implies(got, en.list_len(s.copy(), v) == n))
        for _, f in picked(u, s, v, el, z3.IntVal(0), n, 0, st):
            s.assume(z3.Implies(got, f))
        a0 = type_at(u, s, T(z3.IntVal(0)), START(elem(u, s, v, z3.IntVal(0)).t))
        s.assume(z3.Implies(got, forall([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(x > 0, type_at(u, s, T(k), START(x)) == a0, z3.Or(UNTYPED, START(x) > 0))), [x])))
        picks.append(v)
        return [(s, v)]
    e.contracts['SubtreeCrossover._pick_subtrees'] = Contract('SubtreeCrossover._pick_subtrees (unit pick)', pick_)

    def swap_(en, s, o_, a, kw):
        g, v = (a + list(kw.values()))[:2]
        en.require(s, '_swap_subtrees: the group and the subtrees just picked from it', z3.And(g.t == inds.t, z3.BoolVal(bool(picks)), v.t == (picks[-1].t if picks else 0), v.t != 0))
        en.require(s, '_swap_subtrees: of trees still as they were', forall([k], z3.Implies(z3.And(k >= 0, k < n), tree_of(u, s, el(s, k)) == T(k)), [el(s, k)]))
        A = s.alloc
        s.alloc = en.fresh(s, 'alloc_swap', I)
        s.assume(s.alloc > A)
        nm = en.fcomp('Tree', 'tree', TList(NODE)) if False else [c for c in list(en.init_comps) + list(s.heap) if c.startswith('F:') and '.tree:' in c][0]
        K0 = s.heap.get(nm, en.init_comps.get(nm))
        K = en.fresh(s, 'trees', AS(I, I))
        r = z3.Int('r')
        w = en.fresh_fn(s, 'who', I, I)
        s.assume(z3.ForAll([r], z3.Or(K[r] == K0[r], z3.And(w(r) >= 0, w(r) < n, r == el(st, w(r)))), patterns=[K[r]]))
        s.heap[nm] = K
        for j in (y,):
            x = tree_of(u, s, el(st, j))
            s.assume(z3.And(x >= A, x < s.alloc))
            sub = lambda j_: elem(u, s, v, j_).t
            for f in spliced(u, s, x, T(j), START(sub(j)), length(u, s, sub(j)), of_list(u, s, sub(before(n, j)))):
                s.assume(f)
        return [(s, VNone)]
    e.contracts['SubtreeCrossover._swap_subtrees'] = Contract('SubtreeCrossover._swap_subtrees (unit swap)', swap_)
    outs, rs = u.call(st, 'SubtreeCrossover', 'attempt_operator', o, [inds, VNum(z3.Int('attempt'))])
    u.cover_any('crossover', [s for s, _ in outs])
    arity = e.get_field(st.copy(), o.t, 'Operator', 'arity').t
    for s, x in rs:
        u.ob('crossover: refuses only a group of another size', s, z3.And(z3.BoolVal(x.name == 'ValueError'), n != arity))
        frame(u, 'crossover refused', st, s)
    some = False
    for s, v in outs:
        done = outcome(u, 'crossover', st, s, v, inds)
        if done is None:
            continue
        now = tree_of(u, s, el(s, y))
        u.ob('crossover: a failed attempt leaves the trees', s, z3.Implies(z3.Not(done), now == T(y)))
        if not picks:
            u.ob('crossover: picks subtrees', s, z3.Not(done))
            continue
        some = True
        sub = lambda j: elem(u, s, picks[-1], j).t
        z = before(n, y)
        T2, x2 = T(z), START(sub(z))
        bred(u, 'crossover', s, y, now, T(y), START(sub(y)), (ENDL(T2, x2) - x2, lambda j: at(u, s, T2, x2 + j)), type_at(u, s, T2, x2), done)
        u.ob('crossover: the subtree put in is one of another well-formed tree', s, z3.Implies(done, z3.And(x2 >= 0, x2 < length(u, s, T2), WELL(T2))))
        u.ob('crossover: the node lists themselves stay', s, z3.Implies(z3.And(q >= 0, q < length(u, st, T(y))), at(u, s, T(y), q) == at(u, st, T(y), q)))
        own = lambda cn, ref: ref == o.t if not ('.tree:' in cn) else z3.Exists([k], z3.And(k >= 0, k < n, el(st, k) == ref))
        frame(u, 'crossover', st, s, allow=own)
    u.ob('crossover: can succeed', st, z3.BoolVal(some))



# ------------------------------------------------------------------ mutation
GENLEN = z3.Function('generated_length', I, I)        # list filled by create_tree (C11): how many nodes, which; they form one well-formed subtree
GENNODE = z3.Function('generated_node', I, I, I)


def creator_contracts(u):
    e = u.eng

    def create(en, s, o, a, kw):
        v = dict(zip(['tree', 'random_function', 'random_terminal', 'depth', 'node_type'], a))
        v.update(kw)
        t, rf, rt_ = v['tree'], v['random_function'], v['random_terminal']
        ok = isinstance(rf, VBound) and isinstance(rt_, VBound) and rf.fn.func.name == 'random_function' and rt_.fn.func.name == 'random_terminal'
        en.unify(t.ty, TList(NODE))
        if isinstance(rt(t.ty.elem), TVar):
            rt(t.ty.elem).ref = NODE
        en.require(s, 'create_tree: with the node generators of one tree, on an empty list', z3.And(z3.BoolVal(ok), *([rf.self_v.t == rt_.self_v.t, en.list_len(s, t) == 0, t.t > 0] if ok else [])))
        lo, hi = [x.t for x in en.get_field(s.copy(), o.t, 'GPTreeCreator', 'init_depth').items]
        d = v['depth'].t if 'depth' in v else z3.IntVal(0)
        en.require(s, 'create_tree: a depth within a valid range', z3.And(lo >= 0, lo <= hi, d >= 0, d <= hi))
        bad = s.copy()
        en.do_raise(bad, VExc('ValueError'))
        want = en.any_code(v.get('node_type', VNone))
        A = s.alloc
        s.alloc = en.fresh(s, 'alloc_gen', I)
        n = GENLEN(t.t)
        s.assume(z3.And(s.alloc > A, n >= 1))
        arr = en.fresh(s, 'generated', AS(I, I))
        s.assume(forall([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(arr[q] >= A, arr[q] < s.alloc, arr[q] == GENNODE(t.t, q))), [arr[q]]))
        en.put_arr(s, t, '', arr)
        en.set_len(s, t, n)
        s.assume(type_at(u, s, t.t, z3.IntVal(0)) == want)
        if ok:
            put_cell(u, s, t, 'generator', rf.self_v.t)
        return [(s, VNone)]
    e.contracts['GrowCreator.create_tree'] = Contract('GrowCreator.create_tree (C11)', create)

    def new(en, s, o, a, kw):
        names = ['init_depth', 'function_set', 'terminal_set']
        v = dict(zip(names, a))
        v.update(kw)
        if set(v) != set(names) or not isinstance(v['init_depth'], VTup):
            raise Unsupported('GrowCreator(...) with other arguments')
        en.set_field(s, o.t, 'GPTreeCreator', 'init_depth', v['init_depth'])
        return [(s, o)]
    e.contracts['GrowCreator.__new__'] = Contract('GrowCreator(...): keeps init_depth (constructor not under contract)', new)


def mutation_swap(u):
    e = u.eng
    schema(e)
    operators(e)
    e.ftypes[('Tree', 'terminal_set')] = TAny
    st = u.state()
    o = u.obj(st, 'SubtreeMutation', 'mutation', exact=True)
    inds, n, el, T = parents(u, st)
    replace_contract(u)
    creator_contracts(u)
    A0 = st.alloc
    subs = subtree_list(u, st, 'old_subtrees', n, el, A0)
    sub = lambda s, j: elem(u, s, subs, j).t
    y = z3.Int('some!individual')
    lo, hi = [x.t for x in u.field(st, o, 'init_depth').items]
    c0 = e.get_field(st.copy(), o.t, 'SubtreeMutation', 'tree_creator')
    cl, ch = [x.t for x in e.get_field(st.copy(), c0.t, 'GPTreeCreator', 'init_depth').items]
    st.assume(z3.And(y >= 0, y < n, o.t > 0, o.t < A0, lo >= 0, lo <= hi, z3.Or(c0.t == 0, z3.And(c0.t > 0, c0.t < A0, cl >= 0, cl <= ch))))
    new = lambda s: cell(u, s, VRef(el(st, y), TObj('Tree')), 'replacement')

    def result(s):
        g = new(s)
        f = START(sub(st, y))
        return [('fresh nodes of the type of the old subtree', z3.And(GENLEN(g) >= 1, type_at(u, s, g, z3.IntVal(0)) == type_at(u, st, sub(st, y), z3.IntVal(0)), at(u, s, g, z3.IntVal(0)) == GENNODE(g, 0), cell(u, s, lst(g), 'generator') == el(st, y)))] + \
               [('spliced', x) for x in spliced(u, s, tree_of(u, s, el(st, y)), T(y), f, length(u, st, sub(st, y)), (GENLEN(g), lambda j: GENNODE(g, j)))]

    def inv(s, j):
        x = tree_of(u, s, el(st, k))
        g = new(s)
        return [('individuals not reached yet', forall([k], z3.Implies(z3.And(k >= j, k < n), x == T(k)), [el(st, k)])),
                ('its new subtree', z3.Implies(y < j, z3.And(g >= A0, g < s.alloc, tree_of(u, s, el(st, y)) >= A0, tree_of(u, s, el(st, y)) < s.alloc, at(u, s, g, z3.IntVal(0)) >= A0, at(u, s, g, z3.IntVal(0)) < s.alloc)))] + \
               [('once reached: %s %d' % (nm, h), z3.Implies(y < j, f)) for h, (nm, f) in enumerate(result(s))]
    e.state_invs.append(inv)
    outs, rs = u.call(st, 'SubtreeMutation', '_swap_subtrees', o, [inds, subs])
    u.cover_any('mutation _swap_subtrees', [s for s, _ in outs])
    u.no_raise('mutation _swap_subtrees', rs, allowed=('ValueError',))
    for s, v in outs:
        for nm, f in result(s):
            u.ob('mutation _swap_subtrees: every tree has its subtree replaced by a new one: ' + nm, s, f)
        c1 = e.get_field(s.copy(), o.t, 'SubtreeMutation', 'tree_creator').t
        d = [x.t for x in e.get_field(s.copy(), c1, 'GPTreeCreator', 'init_depth').items]
        u.ob('mutation _swap_subtrees: keeps a creator with a valid depth range', s, z3.And(c1 > 0, d[0] >= 0, d[0] <= d[1]))
        a = z3.Int('a!individual')
        own = lambda cn, ref: None if ':ghost.' in cn else z3.Exists([a], z3.And(a >= 0, a < n, el(st, a) == ref)) if '.tree:' in cn else ref == o.t if 'tree_creator' in cn else z3.BoolVal(False)
        frame(u, 'mutation _swap_subtrees', st, s, allow=own)
    u.ob('mutation _swap_subtrees: returns', st, z3.BoolVal(bool(outs)))



def tree_comp(e, s):
    return [c for c in list(e.init_comps) + list(s.heap) if c.startswith('F:') and '.tree:' in c][0]


def havoc_trees(u, s, st, el, n, only=None):
    """the tree fields of the group's individuals become arbitrary"""
    e = u.eng
    nm = tree_comp(e, s)
    K0 = s.heap.get(nm, e.init_comps.get(nm))
    K = e.fresh(s, 'trees', AS(I, I))
    r = z3.Int('r')
    w = e.fresh_fn(s, 'who', I, I)
    s.assume(z3.ForAll([r], z3.Or(K[r] == K0[r], z3.And(w(r) >= 0, w(r) < n, r == el(st, w(r)))), patterns=[K[r]]))
    s.heap[nm] = K


def mutation(u):
    e = u.eng
    schema(e)
    operators(e)
    st = u.state()
    o = u.obj(st, 'SubtreeMutation', 'mutation', exact=True)
    inds, n, el, T = parents(u, st)
    A0 = st.alloc
    y = z3.Int('some!individual')
    st.assume(z3.And(y >= 0, y < n, o.t > 0, o.t < A0))
    random_subtree_contract(u)
    swapped = []

    def inv(s, j, v):
        if not (isinstance(v, VRef) and isinstance(v.ty, TList) and isinstance(rt(v.ty.elem), TList)):
            return []
        x = elem(u, s, v, k).t
        return [('subtrees so far: ' + nm, f) for nm, f in picked(u, s, v, el, z3.IntVal(0), j, 0, st, z3.IntVal(0))] + \
               [('of their own type', forall([k], z3.Implies(z3.And(k >= 0, k < j, x != 0), type_at(u, s, x, z3.IntVal(0)) == type_at(u, s, T(k), START(x))), [x])), ('as many as individuals', e.list_len(s.copy(), v) == j)]
    e.local_invs.append(inv)

    def swap_(en, s, o_, a, kw):
        v = dict(zip(['individuals', 'old_subtrees'], a))
        v.update(kw)
        g, b = v['individuals'], v['old_subtrees']
        x = elem(u, s, b, k).t
        en.require(s, '_swap_subtrees: the group, with a subtree of every individual', z3.And(g.t == inds.t, en.list_len(s.copy(), b) == n, forall([k], z3.Implies(z3.And(k >= 0, k < n), x > 0), [x])))
        for nm, f in picked(u, s, b, el, z3.IntVal(0), n, 0, st):
            en.require(s, '_swap_subtrees: each of its individual: ' + nm, f)
        en.require(s, '_swap_subtrees: of trees still as they were', forall([k], z3.Implies(z3.And(k >= 0, k < n), tree_of(u, s, el(s, k)) == T(k)), [el(s, k)]))
        bad = s.copy()
        havoc_trees(u, bad, st, el, n)
        en.do_raise(bad, VExc('ValueError'))
        A = s.alloc
        s.alloc = en.fresh(s, 'alloc_swap', I)
        new = en.fresh(s, 'new_subtree', I)
        sub = elem(u, s, b, y).t
        s.assume(z3.And(s.alloc > A, new >= A, new < s.alloc, GENLEN(new) >= 1, length(u, s, new) == GENLEN(new)))
        s.assume(type_at(u, s, new, z3.IntVal(0)) == type_at(u, s, sub, z3.IntVal(0)))
        havoc_trees(u, s, st, el, n)
        now = tree_of(u, s, el(st, y))
        s.assume(z3.And(now >= A, now < s.alloc))
        for f in spliced(u, s, now, T(y), START(sub), length(u, s, sub), (GENLEN(new), lambda j: GENNODE(new, j))):
            s.assume(f)
        swapped.append((new, START(sub)))
        return [(s, VNone)]
    e.contracts['SubtreeMutation._swap_subtrees'] = Contract('SubtreeMutation._swap_subtrees (unit mutation_swap)', swap_)
    outs, rs = u.call(st, 'SubtreeMutation', 'attempt_operator', o, [inds, VNum(z3.Int('attempt'))])
    u.cover_any('mutation', [s for s, _ in outs])
    u.no_raise('mutation', rs, allowed=('ValueError',))
    some = False
    for s, v in outs:
        done = outcome(u, 'mutation', st, s, v, inds)
        if done is None:
            continue
        now = tree_of(u, s, el(s, y))
        u.ob('mutation: a failed attempt leaves the trees', s, z3.Implies(z3.Not(done), now == T(y)))
        if not swapped:
            u.ob('mutation: replaces subtrees', s, z3.Not(done))
            continue
        some = True
        new, f = swapped[-1]
        bred(u, 'mutation', s, y, now, T(y), f, (GENLEN(new), lambda j: GENNODE(new, j)), type_at(u, s, new, z3.IntVal(0)), done)
        u.ob('mutation: the node lists themselves stay', s, z3.Implies(z3.And(q >= 0, q < length(u, st, T(y))), at(u, s, T(y), q) == at(u, st, T(y), q)))
        own = lambda cn, ref: ref == o.t if not ('.tree:' in cn) else z3.Exists([k], z3.And(k >= 0, k < n, el(st, k) == ref))
        frame(u, 'mutation', st, s, allow=own)
    u.ob('mutation: can succeed', st, z3.BoolVal(some))


NUM = z3.Function('any_is_Number', I, B)


def numeric_node(u):
    """Tree.get_random_numeric_node: None, or a terminal node of the tree that holds a number"""
    e = u.eng
    schema(e)
    st = u.state()
    t, N = tree_state(u, st)
    outs, rs = u.call(st, 'Tree', 'get_random_numeric_node', t, [])
    u.cover_any('get_random_numeric_node', [s for s, _ in outs])
    u.no_raise('get_random_numeric_node', rs)
    some = False
    for s, v in outs:
        frame(u, 'get_random_numeric_node', st, s)
        if v is VNone:
            continue
        some = True
        K = e.comp(s, 'cls', AS(I, I))
        hit = z3.Exists([p], z3.And(p >= 0, p < N.n, N.ref(p) == v.t))
        u.ob('get_random_numeric_node: a node of the tree', s, z3.Implies(v.t != 0, hit))
        u.ob('get_random_numeric_node: a terminal that holds a number', s, z3.Implies(v.t != 0, z3.And(K[v.t] == u.repo.classes[TN].code, NUM(e.get_field(s.copy(), v.t, TN, 'value').t))))
    u.ob('get_random_numeric_node: can return a node', st, z3.BoolVal(some))


def erc(u):
    e = u.eng
    schema(e)
    operators(e)
    st = u.state()
    o = u.obj(st, 'ERCMutation', 'mutation', exact=True)
    inds, n, el, T = parents(u, st)
    A0 = st.alloc
    K0 = e.comp(st, 'cls', AS(I, I))
    tcode = u.repo.classes[TN].code
    st.assume(z3.And(o.t > 0, o.t < A0))
    sums = z3.Function('any_Add', I, I, I)
    st.assume(z3.ForAll([p, q], z3.Implies(z3.And(NUM(p), NUM(q)), NUM(sums(p, q))), patterns=[sums(p, q)]))
    x = z3.Const('x', R)
    fl = z3.Function('any_of_real', R, I)
    st.assume(z3.ForAll([x], NUM(fl(x)), patterns=[fl(x)]))

    def node(en, s, o_, a, kw):
        l = VRef(en.fresh(s, 'leaf', I), TObj(TN, exact=True, null=True))
        s.assume(z3.Or(l.t == 0, z3.And(l.t > 0, l.t < A0, K0[l.t] == tcode, NUM(en.get_field(s.copy(), l.t, TN, 'value').t))))
        return [(s, l)]
    e.contracts['Tree.get_random_numeric_node'] = Contract('Tree.get_random_numeric_node (unit numeric_node)', node)
    val = lambda s, r: e.get_field(s.copy(), r, TN, 'value').t

    def inv(s, j, v):
        if not (isinstance(v, VRef) and isinstance(v.ty, TList) and isinstance(rt(v.ty.elem), TObj)):
            return []
        c = elem(u, s, v, k).t
        return [('leaves so far', forall([k], z3.Implies(z3.And(k >= 0, k < e.list_len(s.copy(), v), c != 0), z3.And(c > 0, c < A0, K0[c] == tcode, NUM(val(s, c)))), [c]))]
    e.local_invs.append(inv)
    e.state_invs.append(lambda s, j: [('numbers stay numbers', forall([p], z3.Implies(NUM(val(st, p)), NUM(val(s, p))), [val(s, p)])),
                                      ('only terminals that hold a number change', forall([p], z3.Implies(z3.Or(K0[p] != tcode, z3.Not(NUM(val(st, p)))), val(s, p) == val(st, p)), [val(s, p)]))])
    outs, rs = u.call(st, 'ERCMutation', 'attempt_operator', o, [inds, VNum(z3.Int('attempt'))])
    u.cover_any('erc', [s for s, _ in outs])
    u.no_raise('erc', rs)
    z = z3.Int('some!node')
    for s, v in outs:
        done = outcome(u, 'erc', st, s, v, inds)
        if done is None:
            continue
        u.ob('erc: only values of terminals that hold a number change, to numbers', s, z3.Implies(z3.And(z > 0, z < A0), z3.Or(val(s, z) == val(st, z), z3.And(K0[z] == tcode, NUM(val(st, z)), NUM(val(s, z))))))
        u.ob('erc: a failed attempt leaves the trees', s, z3.Implies(z3.And(z > 0, z < A0, z3.Not(done)), val(s, z) == val(st, z)))
        frame(u, 'erc: no node list, node type, function or arity changes', st, s, allow=lambda cn, ref: None if cn.endswith('.value:any') else ref == o.t)
    u.ob('erc: returns', st, z3.BoolVal(bool(outs)))


UNITS = {'nested': nested, 'arguments': arguments, 'splice': splice, 'node_eq': node_eq, 'find_end': find_end, 'by_root': by_root,
         'random_subtree': random_subtree(False), 'random_subtree_typed': random_subtree(True), 'replace': replace, 'pick': pick, 'swap': swap, 'crossover': crossover,
         'mutation_swap': mutation_swap, 'mutation': mutation, 'numeric_node': numeric_node, 'erc': erc}
