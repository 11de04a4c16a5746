"""C19: unique ids, independent clones."""
import z3
from pycv.engine import Contract
from pycv.vals import *
from .common import *
from . import c08, trees
from .c08 import named, same

q = z3.Int('q')
ATTRS = ('id', 'gen', 'fitness', 'cloned_from', 'selected_by', 'applied_operators', 'update_parents', 'parents')


def schema(e, cn='Individual'):
    c08.schema(e)
    trees.schema(e)
    for f in ('function_set', 'terminal_set', 'erc_range', 'root_type'):
        e.ftypes[('Tree', f)] = TAny


def fields(e, cn, sub=False):
    """declared attributes of the objects of class cn"""
    cs = list(e.repo.mro(e.repo.classes[cn])) + (list(e.repo.subclasses(e.repo.classes[cn])) if sub else [])
    names = [c.name for c in cs]
    return [(c, f, t) for (c, f), t in list(e.ftypes.items()) if c in names and not f.startswith('ghost')]


def counter(e, s):
    return e.getattr(s, VClass(e.repo.classes['Individual']), 'id')[0][1].t


def like(u, s, a, b, cn, A):
    """facts: the new object b has the attributes of a, lists and objects of its own"""
    e = u.eng
    K = e.comp(s, 'cls', AS(I, I))
    fs = [K[b] == K[a]]
    for c, f, t in fields(e, cn, True):
        x, y = e.get_field(s.copy(), a, c, f, t), e.get_field(s.copy(), b, c, f, t)
        if isinstance(t, (TObj, TList, TDict)):
            fs.append(y.t >= A)
        elif isinstance(x, (VNum, VAny, VFnSym)):
            fs.append(x.t == y.t)
    return fs


def more(e, s):
    """any number of further new objects"""
    a = e.fresh(s, 'alloc_copies', I)
    s.assume(a >= s.alloc)
    s.alloc = a


def deep_list(u, s, l, A):
    e = u.eng
    el = rt(l.ty).elem
    r = VRef(e.alloc(s, 'copied_list'), TList(el))
    n = e.list_len(s.copy(), l)
    e.set_len(s, r, n)
    if isinstance(el, TObj):
        arr = e.fresh(s, 'copied_members', AS(I, I))
        lo = s.alloc
        more(e, s)
        e.put_arr(s, r, '', arr)
        m = elem(u, s, l, q).t
        s.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(arr[q] >= lo, arr[q] < s.alloc, *like(u, s, m, arr[q], el.cname, lo))), patterns=[arr[q]]))
    else:
        for suffix, so in rt(el).leaves():
            nm, K = e.elcomp(s, l.ty, suffix)
            e.put_arr(s, r, suffix, K[l.t])
    return VRef(z3.If(l.t == 0, 0, r.t), l.ty) if rt(l.ty).null else r


def deep(u, s, o):
    """copy.deepcopy of an individual or a fitness: a new object of the same class, attribute by attribute, nothing mutable shared"""
    e = u.eng
    cn = o.ty.cname
    A = s.alloc
    for c in list(e.repo.mro(e.repo.classes[cn])) + list(e.repo.subclasses(e.repo.classes[cn])):
        if any(m in c.methods for m in ('__deepcopy__', '__reduce__', '__reduce_ex__', '__setstate__')) or ('__getstate__' in c.methods and e.repo.is_sub(c, e.repo.classes['Individual'])):
            raise Unsupported('copies of %s have a protocol of their own' % c.name)
    r = VRef(e.alloc(s, 'copied'), TObj(cn, exact=o.ty.exact))
    K = e.comp(s, 'cls', AS(I, I))
    e.write(s, 'cls', K, r.t, e.cls_of(s, o))
    fit = e.repo.is_sub(e.repo.classes[cn], e.repo.classes['Fitness'])
    keep = None
    if fit:
        keep = e.get_field(s.copy(), o.t, cn, 'cache').t
    for c, f, t in fields(e, cn, not o.ty.exact):
        v = e.get_field(s.copy(), o.t, c, f, t)
        if isinstance(v, VRef) and isinstance(rt(v.ty), TList):
            v = deep_list(u, s, v, A)
        elif isinstance(v, VRef):
            v = deep(u, s, v)
        if fit and f == '_is_evaluated':
            v = VNum(z3.And(keep, v.t))
        if fit and f == 'fitness':
            v = VOpt(z3.Or(z3.Not(keep), v.none), v.v)
        e.set_field(s, r.t, c, f, v)
    return r


def shallow(u, s, o):
    e = u.eng
    r = VRef(e.alloc(s, 'shallow'), TObj(o.ty.cname, exact=o.ty.exact))
    e.write(s, 'cls', e.comp(s, 'cls', AS(I, I)), r.t, e.cls_of(s, o))
    for c, f, t in fields(e, o.ty.cname, not o.ty.exact):
        e.set_field(s, r.t, c, f, e.get_field(s.copy(), o.t, c, f, t))
    return r


def copies(u):
    e = u.eng
    e.lib = dict(e.lib)

    def deepcopy(en, s, a, kw):
        if len(a) != 1 or kw or not isinstance(a[0], VRef):
            raise Unsupported('deepcopy of something else')
        v = a[0]
        if isinstance(v.ty, TObj):
            return [(s, deep(u, s, v))]
        if isinstance(rt(v.ty), TList):
            return [(s, deep_list(u, s, v, s.alloc))]
        raise Unsupported('deepcopy of something else')

    def copy(en, s, a, kw):
        if len(a) != 1 or kw or not isinstance(a[0], VRef) or not isinstance(a[0].ty, TObj):
            raise Unsupported('copy of something else')
        return [(s, shallow(u, s, a[0]))]
    e.lib['copy.deepcopy'] = deepcopy
    e.lib['copy.copy'] = copy
    u.assume_note('copy.deepcopy: a new object graph of the same shape; fitness objects through __getstate__ (units getstate)')


def clone(cn, exact=True):
    def unit(u):
        e = u.eng
        schema(e)
        copies(u)
        st = u.state()
        o = u.obj(st, cn, 'origin', exact=exact)
        fs = fields(e, cn)
        g = lambda s, w, c, f, t: e.get_field(s.copy(), w.t, c, f, t)
        A0 = st.alloc
        c0 = counter(e, st)
        oid = u.field(st, o, 'id').t
        st.assume(z3.And(o.t > 0, o.t < A0, oid < c0))
        for c, f, t in fs:
            v = g(st, o, c, f, t)
            if isinstance(v, VRef):
                st.assume(z3.And(v.t < A0, v.t > 0 if isinstance(t, TObj) or f != 'parents' else v.t >= 0))
        up = u.field(st, o, 'update_parents').t
        fit = u.field(st, o, 'fitness')
        cached, was = u.field(st, fit, 'cache').t, u.field(st, fit, '_is_evaluated').t
        outs, rs = u.call(st, cn, 'clone', o, [])
        u.cover_any(cn + '.clone', [s for s, _ in outs])
        u.no_raise(cn + '.clone', rs)
        x = z3.Int('some!position')
        nm = cn + '.clone: '
        for s, r in outs:
            get = lambda f, w=r: u.field(s, w, f)
            u.ob(nm + 'a new individual of the same class', s, z3.And(r.t >= A0, r.t < s.alloc, e.cls_of(s, VRef(r.t, TObj('Individual'))) == e.cls_of(st, VRef(o.t, TObj('Individual')))))
            u.ob(nm + 'with an id no earlier individual has', s, z3.And(get('id').t >= c0, counter(e, s) > get('id').t))
            u.ob(nm + 'remembers its origin', s, get('cloned_from').t == oid)
            u.ob(nm + 'starts without parents', s, z3.Implies(up, e.list_len(s.copy(), get('parents')) == 0))
            lists = []
            for c, f, t in fs:
                a, b = g(st, o, c, f, t), g(s, r, c, f, t)
                if isinstance(a, VRef):
                    new = z3.And(b.t >= A0, b.t < s.alloc)
                    u.ob(nm + f + ' of its own', s, z3.Implies(up, new) if f == 'parents' else new)
                    lists.append((f, b))
                if f in ('id', 'cloned_from', 'parents', 'fitness'):
                    continue
                if isinstance(a, VRef) and isinstance(rt(t), TList):
                    n = e.list_len(st.copy(), a)
                    p, w = elem(u, st, a, x), elem(u, s, b, x)
                    if isinstance(rt(t).elem, TObj):
                        if t.elem.cname == 'TreeNode':
                            eq = z3.And(w.t >= A0, w.t < s.alloc, *[z3.BoolVal(True)] + [h for h in node_like(u, st, s, p, w)])
                        else:
                            raise Unsupported('members of ' + f)
                    else:
                        eq = same(p, w) if not isinstance(p, VStr) else p.t == w.t
                    u.ob(nm + 'the same ' + f, s, z3.And(e.list_len(s.copy(), b) == n, z3.Implies(z3.And(x >= 0, x < n), eq)))
                elif not isinstance(a, VRef):
                    u.ob(nm + 'the same ' + f, s, same(a, b) if not isinstance(a, VStr) else a.t == b.t)
            f2 = get('fitness')
            ff = lambda f: u.field(s, f2, f)
            f0 = lambda f: u.field(st, fit, f)
            u.ob(nm + 'a fitness of the same kind, direction and policy', s, z3.And(ff('higher_is_better').t == f0('higher_is_better').t, ff('cache').t == cached, ff('is_relative_fitness').t == f0('is_relative_fitness').t, e.cls_of(s, f2) == e.cls_of(st, fit)))
            u.ob(nm + 'evaluated only if the origin is and caching is on', s, ff('_is_evaluated').t == z3.And(was, cached))
            u.ob(nm + 'a cached score is kept', s, z3.Implies(cached, z3.And(ff('fitness').none == f0('fitness').none, z3.Or(f0('fitness').none, ff('fitness').v.t == f0('fitness').v.t))))
            u.ob(nm + 'no list twice', s, z3.And(*[z3.Implies(up, a.t != b.t) for i_, (f, a) in enumerate(lists) for h, b in lists[:i_]]))
            frame(u, nm[:-2], st, s)
        u.ob(nm + 'returns', st, z3.BoolVal(bool(outs)))
    return unit


def node_like(u, st, s, a, b):
    e = u.eng
    K0, K1 = e.comp(st, 'cls', AS(I, I)), e.comp(s, 'cls', AS(I, I))
    out = [K0[a.t] == K1[b.t]]
    for c, f, t in fields(e, 'TreeNode', True):
        v, w = e.get_field(st.copy(), a.t, c, f, t), e.get_field(s.copy(), b.t, c, f, t)
        out.append(v.t == w.t if not isinstance(v, VFnSym) else v.t == w.t)
    return out


def getstate(cn):
    """what deepcopy gets to see of a fitness"""
    def unit(u):
        e = u.eng
        st = u.state()
        o = u.obj(st, cn, 'fitness', exact=True)
        g = lambda f: u.field(st, o, f)
        cache = g('cache').t
        outs, rs = u.call(st, cn, '__getstate__', o, [])
        u.cover_any(cn + '.__getstate__', [s for s, _ in outs])
        u.no_raise(cn + '.__getstate__', rs)
        for s, d in outs:
            if not isinstance(d, VSDict):
                raise Unsupported('another kind of state')
            nm = cn + ': the state of a copy '
            names = {f for c, f, t in fields(e, cn)}
            u.ob(nm + 'has the attributes of the fitness', s, z3.BoolVal(set(d.items) == names))
            for f in sorted(names & set(d.items)):
                v = d.items[f]
                if f == '_is_evaluated':
                    u.ob(nm + 'is evaluated only if caching is on', s, v.t == z3.And(cache, g(f).t))
                elif f == 'fitness':
                    none = z3.BoolVal(True) if v is VNone else v.none if isinstance(v, VOpt) else v.t == 0 if isinstance(v, VRef) else z3.BoolVal(False)
                    w = g(f)
                    same_ = z3.BoolVal(False) if v is VNone else z3.And(v.none == w.none, z3.Or(w.none, v.v.t == w.v.t)) if isinstance(v, VOpt) else v.t == w.t
                    u.ob(nm + 'keeps the score only if caching is on', s, z3.If(cache, same_, none))
                elif isinstance(v, (VNum, VRef, VX)) and isinstance(g(f), type(v)) and hasattr(v, 't'):
                    u.ob(nm + 'keeps ' + f, s, v.t == g(f).t)
            frame(u, cn + '.__getstate__', st, s)
        u.ob(cn + '.__getstate__: returns', st, z3.BoolVal(bool(outs)))
    return unit


def update_id(u):
    e = u.eng
    schema(e)
    st = u.state()
    o = u.obj(st, 'Individual', 'individual')
    c0 = counter(e, st)
    outs, rs = u.call(st, 'Individual', 'update_id', o, [])
    u.no_raise('update_id', rs)
    u.cover_any('update_id', [s for s, _ in outs])
    for s, _ in outs:
        i = u.field(s, o, 'id').t
        u.ob('update_id: an id not given before', s, z3.And(i >= c0, i < counter(e, s)))
        frame(u, 'update_id', st, s, allow=lambda c, r: r == o.t if '.id:' in c else z3.BoolVal(False))
    u.ob('update_id: returns', st, z3.BoolVal(bool(outs)))


def init(u):
    e = u.eng
    schema(e)
    st = u.state()
    o = e.new_obj(st, u.repo.classes['Individual'])
    fit = u.obj(st, 'SimpleFitness', 'fitness')
    up = VNum(z3.Bool('update_parents'))
    c0, A = counter(e, st), st.alloc
    outs, rs = u.call(st, 'Individual', '__init__', o, [fit], dict(update_parents=up))
    u.no_raise('Individual()', rs)
    u.cover_any('Individual()', [s for s, _ in outs])
    for s, _ in outs:
        g = lambda f: u.field(s, o, f)
        u.ob('Individual(): an id not given before', s, z3.And(g('id').t >= c0, g('id').t < counter(e, s)))
        u.ob('Individual(): keeps its fitness and settings', s, z3.And(g('fitness').t == fit.t, g('update_parents').t == up.t))
        ls = ['selected_by', 'applied_operators']
        u.ob('Individual(): history lists of its own', s, z3.And(*[z3.And(g(f).t >= A, g(f).t < s.alloc, e.list_len(s.copy(), g(f)) == 0) for f in ls] + [g(ls[0]).t != g(ls[1]).t]))
        p = g('parents')
        u.ob('Individual(): parents of its own where tracked', s, z3.Implies(up.t, z3.And(p.t >= A, p.t < s.alloc, e.list_len(s.copy(), p) == 0, *[p.t != g(f).t for f in ls])))
        frame(u, 'Individual()', st, s, allow=lambda c, r: r == o.t)
    u.ob('Individual(): returns', st, z3.BoolVal(bool(outs)))


def sub_init(cn):
    """every individual class gets its id from Individual.__init__ once, and keeps it"""
    def unit(u):
        e = u.eng
        schema(e)
        if cn == 'Tree':
            e.contracts['Tree._handle_input_types'] = Contract('Tree._handle_input_types: accepts the sets', lambda en, s, o_, a, kw: [(s, VTup((list(a) + list(kw.values()))[:2]))])

        def base(en, s, o_, a, kw):
            c = counter(en, s)
            i = en.fresh(s, 'given_id', I)
            n = en.fresh(s, 'next_id', I)
            s.assume(z3.And(i >= c, n > i))
            en.set_field(s, o_.t, 'Individual', 'id', VNum(i))
            s.glob['G:Individual.id'] = VNum(n)
            v = named(u, 'Individual', '__init__', a, kw)
            for f in ('fitness', 'update_parents'):
                if f in v:
                    en.set_field(s, o_.t, 'Individual', f, v[f])
            return [(s, VNone)]
        e.contracts['Individual.__init__'] = Contract('Individual.__init__ (unit init)', base)
        st = u.state()
        fit = u.obj(st, 'SimpleFitness', 'fitness')
        up = VNum(z3.Bool('update_parents'))
        o = e.new_obj(st, u.repo.classes[cn])
        c0 = counter(e, st)
        if cn == 'Tree':
            v = dict(fitness=fit, function_set=VAny(z3.Int('functions')), terminal_set=VAny(z3.Int('terminals')), erc_range=VAny(z3.Int('erc')), root_type=VAny(z3.Int('root')), update_parents=up)
        else:
            v = dict(fitness=fit, length=VNum(z3.Int('length')), bounds=c08.pairs(u, st, False), vector=VNone, update_parents=up)
        outs, rs = u.call(st, cn, '__init__', o, [], v)
        u.no_raise(cn + '()', rs)
        u.cover_any(cn + '()', [s for s, _ in outs])
        for s, _ in outs:
            i = u.field(s, o, 'id').t
            u.ob(cn + '(): an id not given before', s, z3.And(i >= c0, i < counter(e, s)))
            u.ob(cn + '(): keeps its fitness', s, z3.And(u.field(s, o, 'fitness').t == fit.t, u.field(s, o, 'update_parents').t == up.t))
        u.ob(cn + '(): returns', st, z3.BoolVal(bool(outs)))
    return unit


UNITS = {'update_id': update_id, 'init': init, 'clone': clone('Individual', False)}
for _c in ('Vector', 'IntVector', 'FloatVector', 'BitStringVector', 'Tree'):
    UNITS['init_' + _c] = sub_init(_c)
    if _c != 'Vector':
        UNITS['clone_' + _c] = clone(_c)
for _c in ('SimpleFitness', 'GPFitness', 'NSGA2Fitness'):
    UNITS['getstate_' + _c] = getstate(_c)
