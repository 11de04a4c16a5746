"""C11: tree creators."""
import z3
from pycv.engine import Contract
from pycv import dicts
from pycv.lib import QUOT
from pycv.vals import *
from pycv.unit import iteration_terms, constants
from .common import *
from . import trees
from .trees import *

TYPES = TList(TAny)


def schema(e):
    trees.schema(e)

    def d(c, **kw):
        for k, v in kw.items():
            e.ftypes[(c, k)] = v
    d('GPTreeCreator', init_depth=TTup([TInt, TInt]), function_set=TAny, terminal_set=TAny, erc_range=TAny, bloat_weight=TReal, root_type=TAny, update_parents=TBool)
    d('GrowCreator', p_prune=TReal)


def library(u):
    """get_func_types (unit func_types) and arity (inspect, trusted)"""
    e = u.eng

    def types(en, s, o, a, kw):
        f = (a[0] if a else kw['f']).t
        n = ARITY(f)
        s.assume(n >= 0)
        l = en.list_from_seq(s, n + 1, lambda s_, j: VAny(z3.If(j < n, ARGT(f, j), RETT(f))), TAny, 'func_types')
        return [(s, l)]
    e.contracts['utils.get_func_types'] = Contract('get_func_types (unit func_types)', types)

    def arity(en, s, o, a, kw):
        f = (a[0] if a else kw['func']).t
        s.assume(ARITY(f) >= 0)
        return [(s, VNum(ARITY(f)))]
    e.contracts['utils.arity'] = Contract('arity: number of positional parameters', arity)


def generators(u, rf, rt_, added=None):
    """random_function and random_terminal (unit random_nodes): None, or a new node of the type asked for"""
    e = u.eng

    def gen(en, s, f, a, kw):
        t = a[0] if a else list(kw.values())[0]
        fun = f.t.eq(rf.t)
        if not fun and not f.t.eq(rt_.t):
            raise Unsupported('some other function')
        nul = s.copy()
        o = en.new_obj(s, en.repo.classes[FN if fun else TN])
        en.set_field(s, o.t, 'TreeNode', 'node_type', VAny(en.any_code(t)))
        if fun:
            fn = en.fresh(s, 'function', I)
            en.set_field(s, o.t, FN, 'function', VFnSym(fn))
            en.set_field(s, o.t, FN, 'n_args', VNum(ARITY(fn)))
            s.assume(z3.And(fn != 0, ARITY(fn) >= 1, RETT(fn) == en.any_code(t)))
        else:
            en.set_field(s, o.t, TN, 'value', VAny(en.fresh(s, 'value', I)))
        if added is not None:
            put_cell(u, s, added, 'node', o.t)
        return [(nul, VNone), (s, o)]
    e.contracts['callback'] = Contract('Tree.random_function / random_terminal (unit random_nodes)', gen)


def leaf_rule(cn, N, G, q, mn, mx):
    if cn == 'FullCreator':
        return z3.And(z3.Implies(N.isterm(q), G.dep[q] == mx), z3.Implies(N.isfun(q), G.dep[q] < mx))
    return z3.And(z3.Implies(N.isterm(q), z3.And(G.dep[q] >= mn, G.dep[q] <= mx)), z3.Implies(N.isfun(q), G.dep[q] < mx))


def create(cn):
    def unit(u):
        e = u.eng
        schema(e)
        library(u)
        st = u.state()
        o = u.obj(st, cn, 'creator', exact=True)
        tree = u.list(st, NODE, 'tree')
        rf, rt_ = VFnSym(z3.Int('random_function')), VFnSym(z3.Int('random_terminal'))
        depth, nt = VNum(z3.Int('depth')), VAny(z3.Int('node_type'))
        generators(u, rf, rt_, tree)
        mn, mx = [x.t for x in u.field(st, o, 'init_depth').items]
        p0 = e.list_len(st, tree)
        A0 = st.alloc
        st.assume(z3.And(rf.t != rt_.t, rf.t != 0, rt_.t != 0, p0 >= 0, mn >= 0, mn <= mx, depth.t >= 0, depth.t <= mx, tree.t > 0, tree.t < A0, o.t > 0, o.t < A0))
        q, j = z3.Ints('q j')
        st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < p0), z3.And(elem(u, st, tree, q).t > 0, elem(u, st, tree, q).t < A0)), patterns=[elem(u, st, tree, q).t]))
        put_cell(u, st, tree, 'k', z3.IntVal(0))
        put_cell(u, st, tree, 'last', p0)
        G0 = Arr(u, st, tree)

        def seg(N, G, a, b):
            return [z3.ForAll([q], z3.Implies(z3.And(q >= a, q < b), f), patterns=ps) for _, f, ps in local(N, G, q, a, b) + leaf(N, G)]

        def leaf(N, G, k=None):
            return [('leaf depth', leaf_rule(cn, N, G, q, mn, mx), [z3.MultiPattern(N.ref(q), G.dep[q])])]

        def rec(en, s, o_, a, kw):
            names = ['tree', 'random_function', 'random_terminal', 'depth', 'node_type']
            v = dict(zip(names, a))
            v.update(kw)
            d = v.get('depth', VNum(0)).t
            t = en.any_code(v.get('node_type', VNone))
            en.require(s, 'create_tree: the same list and the same node generators', z3.And(o_.t == o.t, v['tree'].t == tree.t, v['random_function'].t == rf.t, v['random_terminal'].t == rt_.t))
            en.require(s, 'create_tree: deeper, not beyond the maximal depth', z3.And(d > depth.t, d <= mx))
            a_ = en.list_len(s, tree)
            k, last = cell(u, s, tree, 'k'), cell(u, s, tree, 'last')
            s0, G = s.copy(), Arr(u, s, tree)
            A = s.alloc
            s.alloc = en.fresh(s, 'alloc_sub', I)
            s.assume(s.alloc > A)
            b_ = en.fresh(s, 'sub_end', I)
            s.assume(b_ > a_)
            arr = en.fresh(s, 'nodes', AII)
            old = Nodes(u, s0, tree)
            s.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < a_), arr[q] == old.ref(q)), patterns=[arr[q]]))
            s.assume(z3.ForAll([q], z3.Implies(z3.And(q >= a_, q < b_), z3.And(arr[q] >= A, arr[q] < s.alloc)), patterns=[arr[q]]))
            en.put_arr(s, tree, '', arr)
            en.set_len(s, tree, b_)
            new = {}
            for g in GH:
                new[g] = en.fresh(s, 'ghost_' + g, AII)
                s.assume(z3.ForAll([q], z3.Implies(q < a_, new[g][q] == getattr(G, g)[q]), patterns=[new[g][q]]))
                put_ghost(u, s, tree, g, new[g])
            G2 = Arr(u, s, tree)
            N2 = Nodes(u, s, tree)
            for f in seg(N2, G2, a_, b_):
                s.assume(f)
            # the new subtree is the next argument of the node at p0
            s.assume(z3.And(G2.end[a_] == b_, G2.dep[a_] == d, u_type(N2, a_) == t, G2.par[a_] == p0, G2.idx[a_] == k, G2.prev[a_] == last))
            put_cell(u, s, tree, 'k', k + 1)
            put_cell(u, s, tree, 'last', a_)
            return [(s, VNone)]
        e.contracts[cn + '.create_tree'] = Contract(cn + '.create_tree (this unit)', rec)

        def inv(s, i):
            s = s.copy()
            k, L, last = cell(u, s, tree, 'k'), e.list_len(s, tree), cell(u, s, tree, 'last')
            N, G = Nodes(u, s, tree), Arr(u, s, tree)
            fs = [('arguments so far', z3.And(k == i, L > p0, z3.Implies(k == 0, L == p0 + 1), z3.Implies(k > 0, z3.And(L > p0 + 1, last > p0, last < L, G.par[last] == p0, G.idx[last] == k - 1, G.par[p0 + 1] == p0, G.idx[p0 + 1] == 0, G.end[last] == L)))),
                  ('nodes exist', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < L), z3.And(N.ref(q) > 0, N.ref(q) < s.alloc, z3.Implies(q >= p0, N.ref(q) >= A0))), patterns=[N.ref(q)])),
                  ('older nodes stay', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < p0), N.ref(q) == elem(u, st, tree, q).t), patterns=[N.ref(q)])),
                  ('the function node', z3.And(N.ref(p0) == cell(u, s, tree, 'node'), node_ok(N, p0), N.isfun(p0), u_type(N, p0) == nt.t)),
                  ('depth of the function', G.dep[p0] == depth.t)]
            for nm, f, ps in local(N, G, q, p0, L, (k, last)) + leaf(N, G):
                fs.append(('argument subtrees: ' + nm, z3.ForAll([q], z3.Implies(z3.And(q > p0, q < L), f), patterns=ps)))
            return fs
        # ghost code: the depth of the node about to be added, before the call
        put_ghost(u, st, tree, 'dep', z3.Store(G0.dep, p0, depth.t))
        e.state_invs.append(inv)
        e.cand_timeout = 6.0
        e.cand_filter = lambda n: n == 'idx<=n' or n.startswith('frame')
        outs, rs = u.call(st, cn, 'create_tree', o, [tree, rf, rt_, depth, nt])
        u.cover_any('create_tree', [s for s, _ in outs])
        u.ob('create_tree: returns', st, z3.BoolVal(bool(outs)))
        for s, x in rs:
            u.ob('create_tree: raises only when no node could be generated', s, z3.BoolVal(x.name == 'ValueError'))
        x = z3.Int('some!position')
        for s, v in outs:
            # ghost code: the node added first now spans everything added since
            L = e.list_len(s, tree)
            G = Arr(u, s, tree)
            put_ghost(u, s, tree, 'end', z3.Store(G.end, p0, L))
            G, N = Arr(u, s, tree), Nodes(u, s, tree)
            inr = z3.And(x >= p0, x < L)
            for nm, f, _ in local(N, G, x, p0, L):
                u.ob('create_tree: adds one well-formed, well-typed subtree: ' + nm, s, z3.Implies(inr, f))
            u.ob('create_tree: leaf depths', s, z3.Implies(inr, leaf_rule(cn, N, G, x, mn, mx)))
            u.ob('create_tree: the subtree spans all that was added, has the type asked for and the depth given', s, z3.And(L > p0, G.end[p0] == L, G.dep[p0] == depth.t, u_type(N, p0) == nt.t))
            u.ob('create_tree: only adds, and adds new nodes', s, z3.And(z3.Implies(z3.And(x >= 0, x < p0), N.ref(x) == elem(u, st, tree, x).t), z3.Implies(inr, z3.And(N.ref(x) >= A0, N.ref(x) < s.alloc))))
            frame(u, 'create_tree', st, s, allow=lambda cn_, r: r == tree.t)
    return unit


def types_of_functions(u):
    e = u.eng
    e.contracts['utils.get_return_type'] = Contract('get_return_type (unit func_types)', lambda en, s, o, a, kw: [(s, VAny(RETT((a + list(kw.values()))[0].t)))])


def random_function(u):
    e = u.eng
    schema(e)
    library(u)
    types_of_functions(u)
    e.ftypes[('Tree', 'function_set')] = TList(TFn)
    st = u.state()
    t = u.obj(st, 'Tree', 'tree', exact=True)
    nt = VAny(z3.Int('node_type'))
    fs = u.field(st, t, 'function_set')
    A0 = st.alloc
    outs, rs = u.call(st, 'Tree', 'random_function', t, [nt])
    u.cover_any('random_function', [s for s, _ in outs])
    u.no_raise('random_function', rs)
    j = z3.Int('j')
    n = e.list_len(st, fs)
    for s, v in outs:
        if v is VNone:
            u.ob('random_function: None only when no function returns the type', s, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), RETT(elem(u, st, fs, j).t) != nt.t)))
        else:
            g = lambda c, f: e.get_field(s.copy(), v.t, c, f).t
            f = g(FN, 'function')
            u.ob('random_function: a new function node of the type asked for', s, z3.And(v.t >= A0, v.t < s.alloc, exact(u, s, v, FN), g('TreeNode', 'node_type') == nt.t, RETT(f) == nt.t, g(FN, 'n_args') == ARITY(f)))
            u.ob('random_function: its function is in the function set', s, z3.Exists([j], z3.And(j >= 0, j < n, f == elem(u, st, fs, j).t)))
        frame(u, 'random_function', st, s)


def exact(u, s, v, cn):
    return u.eng.read_arr(s, u.eng.comp(s, 'cls', AS(I, I)), v.t) == u.repo.classes[cn].code


def random_terminal(erc):
    def unit(u):
        e = u.eng
        schema(e)
        num = TReal if erc == 'float' else TInt
        e.ftypes[('Tree', 'terminal_set')] = TDict(TAny, TAny)
        if erc:
            e.ftypes[('Tree', 'erc_range')] = TTup([num, num])
        st = u.state()
        t = u.obj(st, 'Tree', 'tree', exact=True)
        if not erc:
            e.set_field(st, t.t, 'Tree', 'erc_range', VNone)
        nt = VAny(z3.Int('node_type'))
        ts = u.field(st, t, 'terminal_set')
        lo = hi = None
        if erc:
            lo, hi = [x.t for x in u.field(st, t, 'erc_range').items]
            st.assume(lo <= hi)
        A0 = st.alloc
        outs, rs = u.call(st, 'Tree', 'random_terminal', t, [nt])
        u.cover_any('random_terminal', [s for s, _ in outs])
        u.no_raise('random_terminal', rs)
        for s, v in outs:
            if v is VNone:
                continue
            g = lambda c, f: e.get_field(s.copy(), v.t, c, f).t
            u.ob('random_terminal: a new terminal node of the type asked for', s, z3.And(v.t >= A0, v.t < s.alloc, exact(u, s, v, TN), g('TreeNode', 'node_type') == nt.t))
            val = g(TN, 'value')
            declared = z3.And(dicts.position(e, st.copy(), ts, val) >= 0, dicts.value(e, st.copy(), ts, val).t == nt.t)
            if erc:
                so, fn = (R, 'any_of_real') if erc == 'float' else (I, 'any_of_int')
                x = z3.Const('constant', so)
                declared = z3.Or(declared, z3.And(z3.Or(nt.t == 0, nt.t == e.any_code(VBuiltin(erc))), z3.Exists([x], z3.And(x >= lo, x <= hi, val == z3.Function(fn, so, I)(x)))))
            u.ob('random_terminal: the value is a declared terminal of the type asked for, or a constant of the declared range', s, declared)
            frame(u, 'random_terminal', st, s)
    return unit


def tree_schema(e):
    for f in ('function_set', 'terminal_set', 'erc_range', 'root_type'):
        e.ftypes[('Tree', f)] = TAny


TREE_ARGS = ['fitness', 'function_set', 'terminal_set', 'tree', 'erc_range', 'root_type', 'update_parents']


def tree_init(en, s, o, a, kw):
    """Tree.__init__ without a given node list: keeps what it is given, with a new empty node list"""
    v = dict(zip(TREE_ARGS, a))
    v.update(kw)
    if 'tree' in v or set(v) != set(TREE_ARGS) - {'tree'}:
        raise Unsupported('Tree(...) with other arguments')
    for f in ('fitness', 'root_type', 'update_parents', 'erc_range'):
        en.set_field(s, o.t, 'Tree', f, v[f])
    en.set_field(s, o.t, 'Tree', 'tree', en.new_list(s, NODE))
    return [(s, o)]


def new_tree(u):
    e = u.eng
    schema(e)
    tree_schema(e)

    def inputs(en, s, o_, a, kw):
        a = list(a) + list(kw.values())
        return [(s, VTup([a[0], a[1]]))]
    e.contracts['Tree._handle_input_types'] = Contract('Tree._handle_input_types: accepts the sets (rejections not under contract)', inputs)
    st = u.state()
    A0 = st.alloc
    o = e.new_obj(st, u.repo.classes['Tree'])
    fit = u.obj(st, 'SimpleFitness', 'fitness')
    v = dict(fitness=fit, function_set=VAny(z3.Int('functions')), terminal_set=VAny(z3.Int('terminals')), erc_range=VAny(z3.Int('erc')), root_type=VAny(z3.Int('root')), update_parents=VNum(z3.Bool('up')))
    A = st.alloc
    outs, rs = u.call(st, 'Tree', '__init__', o, [], v)
    u.cover('Tree()', st)
    u.no_raise('Tree()', rs)
    for s, _ in outs:
        g = lambda f: e.get_field(s.copy(), o.t, 'Tree', f)
        u.ob('Tree(): keeps what it is given', s, z3.And(*[g(f).t == v[f].t for f in ('fitness', 'root_type', 'update_parents', 'erc_range')]))
        t = g('tree')
        u.ob('Tree(): with a new empty node list', s, z3.And(t.t >= A, t.t < s.alloc, e.list_len(s, t) == 0))
        frame(u, 'Tree()', st, s, allow=lambda c, x: x == o.t)
    u.ob('Tree(): returns', st, z3.BoolVal(bool(outs)))


CELLS = ('built', 'lo', 'hi', 'root')


def create_individuals(cn):
    """GPTreeCreator.create_individuals as inherited by the two recursive creators"""
    def unit(u):
        e = u.eng
        schema(e)
        tree_schema(e)
        e.ftypes[('GPTreeCreator', 'created_individuals')] = TList(TObj('Tree', exact=True), null=True)
        st = u.state()
        o = u.obj(st, cn, 'creator', exact=True)
        n, hib = VNum(z3.Int('n')), VNum(z3.Bool('hib'))
        g = lambda s, f: u.field(s.copy(), o, f)
        mn, mx = [x.t for x in g(st, 'init_depth').items]
        rt0, bw, up = g(st, 'root_type').t, g(st, 'bloat_weight').t, g(st, 'update_parents').t
        st.assume(z3.And(mn >= 0, mn <= mx))
        A0 = st.alloc

        e.contracts['Tree.__new__'] = Contract('Tree(...) (unit new_tree)', tree_init)

        def rec(en, s, o_, a, kw):
            names = ['tree', 'random_function', 'random_terminal', 'depth', 'node_type']
            v = dict(zip(names, a))
            v.update(kw)
            t, rf, rt_ = v['tree'], v['random_function'], v['random_terminal']
            ok = isinstance(rf, VBound) and isinstance(rt_, VBound) and rf.fn.func.name == 'random_function' and rt_.fn.func.name == 'random_terminal'
            en.require(s, 'create_tree: with the generators of one tree, on its own still empty node list', z3.And(z3.BoolVal(ok), *([rf.self_v.t == rt_.self_v.t, t.t == en.get_field(s.copy(), rf.self_v.t, 'Tree', 'tree').t, en.list_len(s, t) == 0, o_.t == o.t] if ok else [])))
            en.require(s, 'create_tree: from the root', v['depth'].t == 0 if 'depth' in v else z3.BoolVal(True))
            d = [x.t for x in en.get_field(s.copy(), o_.t, cn, 'init_depth').items]
            for c, x in zip(CELLS, [z3.IntVal(1), d[0], d[1], en.any_code(v.get('node_type', VNone))]):
                put_cell(u, s, t, c, x)
            m = en.fresh(s, 'size', I)
            s.assume(m >= 1)
            en.put_arr(s, t, '', en.fresh(s, 'nodes', AII))
            en.set_len(s, t, m)
            return [(s, VNone)]
        e.contracts[cn + '.create_tree'] = Contract(cn + '.create_tree (units full, grow)', rec)
        j, k = z3.Ints('j k')
        fresh = st.copy()
        r = z3.Int('r')
        for c in CELLS:
            cell(u, st, VRef(r, TList(NODE)), c)
        outs, rs = u.call(st, cn, 'create_individuals', o, [n, hib])
        u.cover_any('create_individuals', [s for s, _ in outs])
        u.no_raise('create_individuals', rs)
        for ob in e.obligations:
            fs = u.facts(ob['st'])
            ob['hint'] = iteration_terms(fs, constants(fs, ('i!',)), [x for x in constants(fs, ('new_list',))])
            u.ob(**ob)
        e.obligations = []
        for s, v in outs:
            H = iteration_terms(u.facts(s), [j, k], [v.t])
            N = e.list_len(s, v)
            t = elem(u, s, v, j)
            w = elem(u, s, v, k)
            f = lambda nm, x=t: e.get_field(s.copy(), x.t, 'Tree', nm)
            fit = f('fitness')
            ff = lambda c, nm: e.get_field(s.copy(), fit.t, c, nm)
            inr = z3.And(j >= 0, j < N)
            nm = cn + '.create_individuals: '
            u.ob(nm + 'the number asked for', s, N == z3.If(n.t > 0, n.t, 0), hint=H)
            u.ob(nm + 'new trees, each built once from the root, with the depths and the root type of the creator', s,
                 z3.Implies(inr, z3.And(t.t >= A0, t.t < s.alloc, *[cell(u, s.copy(), f('tree'), c) == x for c, x in zip(CELLS, [z3.IntVal(1), mn, mx, rt0])], f('root_type').t == rt0, f('update_parents').t == up)), hint=H)
            u.ob(nm + 'no two the same, nor of one node list or one fitness', s, z3.Implies(z3.And(inr, k >= 0, k < N, j != k), z3.And(t.t != w.t, f('tree').t != f('tree', w).t, fit.t != f('fitness', w).t)), hint=H)
            u.ob(nm + 'a fresh unevaluated GP fitness of the direction and bloat weight asked for', s,
                 z3.Implies(inr, z3.And(fit.t >= A0, exact(u, s, fit, 'GPFitness'), z3.Not(ff('Fitness', '_is_evaluated').t), ff('Fitness', 'higher_is_better').t == hib.t, ff('GPFitness', 'bloat_weight').t == bw)), hint=H)
            u.ob(nm + 'remembered by the creator', s, u.field(s.copy(), o, 'created_individuals').t == v.t)
            frame(u, nm[:-2], st, s, allow=lambda c, x: z3.BoolVal(True) if c.startswith('F:ghost') else (x == o.t if 'created_individuals' in c else None))
    return unit


def pat(*ts):
    todo = list(ts)
    while todo:
        t = todo.pop()
        if z3.is_quantifier(t) or z3.is_app(t) and (z3.is_bool(t) or t.decl().kind() == z3.Z3_OP_ITE):
            return []
        todo += t.children()
    return [z3.MultiPattern(*ts) if len(ts) > 1 else ts[0]]


def half(u):
    """HalfCreator.create_individuals over the contracts of the two creators"""
    e = u.eng
    schema(e)
    TREE = TObj('Tree', exact=True)
    e.ftypes[('GPTreeCreator', 'created_individuals')] = TList(TREE, null=True)
    e.ftypes[('HalfCreator', 'grow_creator')] = TObj('GrowCreator', exact=True)
    e.ftypes[('HalfCreator', 'full_creator')] = TObj('FullCreator', exact=True)
    st = u.state()
    o = u.obj(st, 'HalfCreator', 'creator', exact=True)
    n, hib = VNum(z3.Int('n')), VNum(z3.Bool('hib'))
    mn, mx = [x.t for x in u.field(st, o, 'init_depth').items]
    gc, fc = u.field(st, o, 'grow_creator'), u.field(st, o, 'full_creator')
    st.assume(z3.And(mn >= 0, mn <= mx, n.t >= 0, gc.t != fc.t, gc.t != o.t, fc.t != o.t))
    A0 = st.alloc
    AR = ('grown', 'filled')

    def cnt(s, w):
        nm, K = gcomp_(u, s, w)
        return u.eng.read_arr(s, K, o.t)

    for w in AR:
        put_ghost(u, st, o, w, z3.K(I, z3.IntVal(0)))

    def creator(cn, w):
        def make(en, s, o_, a, kw):
            v = dict(zip(['n_individuals', 'higher_is_better'], a))
            v.update(kw)
            k = v['n_individuals'].t
            lo, hi = [x.t for x in en.get_field(s.copy(), o_.t, cn, 'init_depth').items]
            en.require(s, cn + ': the direction asked for, the minimal depth of the creator', z3.And(v['higher_is_better'].t == hib.t, lo == mn, hi >= mn, hi <= mx, k >= 0))
            put_ghost(u, s, o, w, z3.Store(cnt(s, w), hi, cnt(s, w)[hi] + k))
            A = s.alloc
            s.alloc = en.fresh(s, 'alloc_made', I)
            s.assume(s.alloc > A)
            l = VRef(en.fresh(s, 'made', I), TList(TREE))
            s.assume(z3.And(l.t >= A, l.t < s.alloc))
            arr = en.fresh(s, 'trees', AII)
            p, q = z3.Ints('p q')
            s.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < k), z3.And(arr[p] >= A, arr[p] < s.alloc, arr[p] != l.t)), patterns=[arr[p]]))
            s.assume(z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < k), arr[p] != arr[q]), patterns=[z3.MultiPattern(arr[p], arr[q])]))
            en.put_arr(s, l, '', arr)
            en.set_len(s, l, k)
            en.set_field(s, o_.t, cn, 'created_individuals', l)
            return [(s, l)]
        e.contracts[cn + '.create_individuals'] = Contract(cn + '.create_individuals (units create_full, create_grow)', make)
    creator('GrowCreator', 'grown')
    creator('FullCreator', 'filled')
    j, k, d = z3.Ints('j k d')
    D = 2 * (mx + 1 - mn)
    G = QUOT(n.t, z3.simplify(D))      # the size of a group
    e.exit_equality = True

    def trees_ok(s, v):
        x = lambda t: elem(u, s, v, t).t
        N = e.list_len(s, v)
        return [('new trees', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), z3.And(x(j) >= A0, x(j) < s.alloc)), patterns=pat(x(j)))),
                ('distinct trees', z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < N), x(j) != x(k)), patterns=pat(x(j), x(k))))]

    def inv(s, i, v):
        if not (isinstance(v, VRef) and isinstance(v.ty, TList)):
            return []
        s = s.copy()
        el = rt(v.ty.elem)
        fs = [('size', e.list_len(s, v) == D_at(i))]
        if isinstance(el, TObj):
            fs += trees_ok(s, v)
        return fs

    def D_at(i):
        return 2 * (G * i)

    def ghosts(s, i):
        s = s.copy()
        return [('%s per depth' % w, z3.ForAll([d], z3.Select(cnt(s, w), d) == z3.If(z3.And(d >= mn, d < mn + i), G, 0), patterns=pat(cnt(s, w)[d]))) for w in AR]
    e.local_invs.append(inv)
    e.state_invs.append(ghosts)
    e.cand_timeout = 4.0
    e.cand_filter = lambda n: n.startswith(('idx<=n', 'frame'))
    outs, rs = u.call(st, 'HalfCreator', 'create_individuals', o, [n, hib])
    u.cover_any('create_individuals', [s for s, _ in outs])
    nm = 'HalfCreator.create_individuals: '
    for s, x in rs:
        u.ob(nm + 'rejects populations too small to split, nothing else', s, z3.And(z3.BoolVal(x.name == 'ValueError'), G == 0))
    u.ob(nm + 'returns', st, z3.BoolVal(bool(outs)))
    for s, v in outs:
        N = e.list_len(s, v)
        u.ob(nm + 'never an empty group', s, G >= 1)
        u.ob(nm + 'the number asked for', s, N == n.t)
        for a, f in trees_ok(s, v):
            u.ob(nm + a, s, f)
        u.ob(nm + 'the grown trees are split evenly over the depths', s, cnt(s, 'grown')[d] == z3.If(z3.And(d >= mn, d <= mx), G, 0))
        u.ob(nm + 'the full trees too, the remaining ones being of maximal depth', s, cnt(s, 'filled')[d] == z3.If(z3.And(d >= mn, d <= mx), G, 0) + z3.If(d == mx, n.t - D * G, 0))
        u.ob(nm + 'remembered by the creator', s, u.field(s.copy(), o, 'created_individuals').t == v.t)
        frame(u, nm[:-2], st, s, allow=lambda c, x: None if c.startswith('el:ghost') else z3.Or(x == gc.t, x == fc.t) if 'init_depth' in c else z3.Or(x == gc.t, x == fc.t, x == o.t) if 'created_individuals' in c else z3.BoolVal(False))


def func_types(u):
    """get_func_types, get_return_type, arity over the library's introspection"""
    e = u.eng
    HD = TDict(TStr, TAny)
    n_hints = z3.Function('number_of_hints', I, I)

    def hints(en, s, args, kw):
        f = (list(args) + list(kw.values()))[0].t
        d = VRef(en.fresh(s, 'hints', I), HD)
        s.assume(d.t > 0)
        en.wf(s, d)
        N = en.list_len(s, d)
        n = ARITY(f)
        s.assume(z3.And(N == n_hints(f), z3.Or(N == 0, N == n + 1), z3.Implies(N == 0, RETT(f) == 0)))
        j = z3.Int('j')
        at = lambda t: dicts.value(en, s.copy(), d, en.to_terms(dicts.key_at(en, s.copy(), d, t), TStr)[0]).t
        s.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), at(j) == z3.If(j < n, ARGT(f, j), RETT(f)))))
        s.assume(z3.ForAll([j], z3.Implies(N == 0, ARGT(f, j) == 0), patterns=[ARGT(f, j)]))
        ret = en.strcode('return')
        s.assume(dicts.value(en, s.copy(), d, z3.IntVal(ret) if isinstance(ret, int) else ret).t == RETT(f))
        has = dicts.position(en, s.copy(), d, z3.IntVal(ret) if isinstance(ret, int) else ret)
        s.assume((has >= 0) == (N > 0))
        return [(s, d)]

    def argspec(en, s, args, kw):
        f = (list(args) + list(kw.values()))[0].t
        n = en.fresh(s, 'n_parameters', I)
        s.assume(z3.And(n >= 0, n == ARITY(f)))
        l = en.list_from_seq(s, n, lambda s_, j: VStr(z3.Function('parameter_name', I, I, I)(f, j)), TStr, 'argspec')
        return [(s, VTup([l, VNone, VNone, VNone, VNone, VNone, VNone]))]
    e.lib = dict(e.lib)
    for k in ('typing.get_type_hints', 'get_type_hints'):
        e.lib[k] = hints
    for k in ('inspect.getfullargspec', 'getfullargspec'):
        e.lib[k] = argspec
    u.assume_note('get_type_hints lists the parameters in order and the result last (or nothing, for a function without hints); getfullargspec lists the parameters')
    f = VFnSym(z3.Int('function'))
    j = z3.Int('j')
    st = u.state()
    st.assume(f.t != 0)
    T = 'eckity.genetic_encodings.gp.tree.utils'
    outs, rs = u.callf(st, T, 'get_func_types', [f])
    u.cover_any('get_func_types', [s for s, _ in outs])
    u.no_raise('get_func_types', rs)
    for s, v in outs:
        n = ARITY(f.t)
        x = e.list_get(s.copy(), v, j)
        x = e.any_code(x)
        u.ob('get_func_types: one type for each parameter, and the type of the result', s, e.list_len(s, v) == n + 1)
        u.ob('get_func_types: in their order', s, z3.Implies(z3.And(j >= 0, j <= n), x == z3.If(j < n, ARGT(f.t, j), RETT(f.t))))
    outs, rs = u.callf(st, T, 'get_return_type', [f])
    u.cover_any('get_return_type', [s for s, _ in outs])
    u.no_raise('get_return_type', rs)
    for s, v in outs:
        u.ob('get_return_type: the type of the result', s, e.any_code(v) == RETT(f.t))
    outs, rs = u.callf(st, 'eckity.base.utils', 'arity', [f])
    u.cover_any('arity', [s for s, _ in outs])
    u.no_raise('arity', rs)
    for s, v in outs:
        u.ob('arity: the number of parameters', s, v.t == ARITY(f.t))


UNITS = {'full': create('FullCreator'), 'grow': create('GrowCreator'), 'random_function': random_function, 'new_tree': new_tree}
UNITS.update({'random_terminal' + ('_' + k if k else ''): random_terminal(k) for k in ('', 'int', 'float')})
UNITS.update({'create_' + n[:4].lower(): create_individuals(n) for n in ('FullCreator', 'GrowCreator')})
UNITS['half'] = half
UNITS['func_types'] = func_types
