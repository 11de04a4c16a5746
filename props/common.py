"""Contracts shared between properties.  Each is proved against its implementation in the unit named beside it."""
import z3
from pycv.engine import Contract
from pycv.vals import *

AUG = z3.Function('augmented', I, B, R, R, I, R)      # class, direction, score, bloat weight, size
SIZE = z3.Function('size_of', I, I)
AS = z3.ArraySort


class F:
    """abstract view of the fitness of an individual in a state"""

    def __init__(self, eng, st, ind, fit=None):
        self.ind = ind
        self.fit = fit if fit is not None else eng.get_field(st, ind.t, ind.ty.cname, 'fitness')
        t = self.fit.t
        g = lambda c, f: eng.get_field(st, t, c, f)
        self.ev = g('Fitness', '_is_evaluated').t
        self.hib = g('Fitness', 'higher_is_better').t
        sc = g('SimpleFitness', 'fitness')
        self.none, self.score = sc.none, sc.v.t
        self.w = g('GPFitness', 'bloat_weight').t
        K = eng.comp(st, 'cls', AS(I, I))
        self.cls = eng.read_arr(st, K, t)
        self.aug = AUG(self.cls, self.hib, self.score, self.w, SIZE(ind.t))


def better(a, b):
    """the documented order (C05) between two views"""
    return z3.If(a.hib, a.aug > b.aug, a.aug < b.aug)


def score_contract(field):
    def apply(eng, st, o, args, kw):
        f = F(eng, st, o)
        ok, bad = eng.branch(st, f.ev)
        if bad is not None:
            eng.do_raise(bad, VExc('ValueError'))
        if ok is None:
            return []
        return [(ok, VNum(getattr(f, field)))]
    return apply


def better_contract(eng, st, o, args, kw):
    other = args[0] if args else kw['other_individual']
    if other is VNone:
        return [(st, VNum(True))]
    a = F(eng, st, o)
    res = []
    if other.ty.null:
        nul, st = eng.branch(st, other.t == 0)
        if nul is not None:
            res.append((nul, VNum(True)))
        if st is None:
            return res
        other = VRef(other.t, TObj(other.ty.cname, other.ty.exact))
    b = F(eng, st, other)
    ok, bad = eng.branch(st, z3.And(a.ev, b.ev))
    if bad is not None:
        eng.do_raise(bad, VExc('ValueError'))
    if ok is not None:
        res.append((ok, VNum(better(a, b))))
    return eng.merge_outs(st, res) if len(res) > 1 else res


def set_contract(eng, st, o, args, kw):
    v = args[0] if args else kw['fitness']
    eng.set_field(st, o.t, 'SimpleFitness', 'fitness', VNum(eng.as_real(v)))
    eng.set_field(st, o.t, 'Fitness', '_is_evaluated', VNum(z3.BoolVal(True)))
    return [(st, VNone)]


def fit_better_contract(eng, st, o, args, kw):
    a = list(args)
    for n in ('individual', 'other_fitness', 'other_individual')[len(a):]:
        a.append(kw[n])
    x, y = F(eng, st, a[0], fit=o), F(eng, st, a[2], fit=a[1])
    ok, bad = eng.branch(st, z3.And(x.ev, y.ev))
    if bad is not None:
        eng.do_raise(bad, VExc('ValueError'))
    return [(ok, VNum(better(x, y)))] if ok is not None else []


def fitness_object_contracts(u):
    """contracts of the fitness objects themselves (proved by C05)"""
    c = u.eng.contracts
    c['SimpleFitness.set_fitness'] = Contract('SimpleFitness.set_fitness', set_contract)
    c['SimpleFitness.better_than'] = Contract('SimpleFitness.better_than', fit_better_contract)
    c['Fitness.better_than'] = Contract('Fitness.better_than', fit_better_contract)


def fitness_contracts(u, *names):
    """contracts of Individual's score queries (proved by C05)"""
    c = u.eng.contracts
    if not names or 'get_pure_fitness' in names:
        c['Individual.get_pure_fitness'] = Contract('Individual.get_pure_fitness', score_contract('score'))
    if not names or 'get_augmented_fitness' in names:
        c['Individual.get_augmented_fitness'] = Contract('Individual.get_augmented_fitness', score_contract('aug'))
    if not names or 'better_than' in names:
        c['Individual.better_than'] = Contract('Individual.better_than', better_contract)


def all_evaluated(u, st, lst, hib=None):
    """every member of the list is evaluated (and of direction hib)"""
    eng = u.eng
    j = z3.Int('j')
    n = eng.list_len(st, lst)
    x = eng.list_get(st.copy(), lst, j)
    f = F(eng, st.copy(), x)
    cs = [f.ev] + ([f.hib == hib] if hib is not None else [])
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(cs)), patterns=[x.t]))


def elem(u, st, lst, j):
    return u.eng.list_get(st.copy(), lst, j)


def view(u, st, ind):
    return F(u.eng, st.copy(), ind)


def final_comps(u, s):
    return {k: v for k, v in s.heap.items()}


def frame(u, name, st, s, keep=(), allow=None, A0=None):
    """every location allocated before is unchanged, except those allow(comp, ref) admits"""
    A = A0 if A0 is not None else st.alloc
    r = z3.Int('r')
    n = 0
    for k, K in s.heap.items():
        K0 = st.heap.get(k)
        if K0 is None:
            K0 = u.eng.init_comps.get(k)
        if K.eq(K0):
            continue
        n += 1
        ex = allow(k, r) if allow else z3.BoolVal(False)
        if ex is None:
            continue
        u.ob('%s: frame of %s' % (name, k), s, z3.ForAll([r], z3.Implies(z3.And(r > 0, r < A, z3.Not(ex)), K[r] == K0[r])))
    for k, v in s.glob.items():
        pass
    if n == 0:
        u.ob('%s: nothing modified' % name, s, z3.BoolVal(True))


def havoc_above(u, s, A, tag):
    """locations from A on are arbitrary, older ones as they were"""
    e = u.eng
    r = z3.Int('r')
    for k in list({**e.init_comps, **s.heap}):
        K = s.heap.get(k)
        if K is None:
            K = e.init_comps[k]
        N = z3.Const('%s.%s' % (tag, k), K.sort())
        s.assume(z3.ForAll([r], z3.Implies(r < A, N[r] == K[r]), patterns=[N[r]]))
        s.heap[k] = N


def clone_contract(u):
    """Individual.clone (proved by C19): a new individual of the same class with the same genome, score and history, objects of its own"""
    e = u.eng
    e.ftypes[('Individual', 'ghost_origin')] = TInt
    e.ftypes[('Individual', 'ghost_genome')] = TInt

    def clone(en, st, o, args, kw):
        def field(c, f):
            return en.get_field(st, o.t, c, f)
        old = {f: field('Individual', f) for f in ('fitness', 'selected_by', 'applied_operators', 'parents', 'gen', 'id', 'update_parents', 'ghost_genome')}
        c = en.alloc(st, 'clone')
        K = en.comp(st, 'cls', AS(I, I))
        cl = en.read_arr(st, K, o.t)
        en.write(st, 'cls', K, c, cl)
        r = VRef(c, TObj(o.ty.cname, o.ty.exact))
        fc = en.alloc(st, 'clone_fitness')
        K = en.comp(st, 'cls', AS(I, I))
        en.write(st, 'cls', K, fc, en.read_arr(st, K, old['fitness'].t))
        for cn, f in (('Fitness', '_is_evaluated'), ('Fitness', 'higher_is_better'), ('SimpleFitness', 'fitness'), ('GPFitness', 'bloat_weight')):
            en.set_field(st, fc, cn, f, en.get_field(st, old['fitness'].t, cn, f))
        en.set_field(st, c, 'Individual', 'fitness', VRef(fc, TObj('SimpleFitness')))
        for f in ('selected_by', 'applied_operators'):
            q = old[f]
            l = VRef(en.alloc(st, f), q.ty)
            en.set_len(st, l, en.list_len(st, q))
            nm, E = en.elcomp(st, q.ty, '')
            en.write(st, nm, E, l.t, en.read_arr(st, E, q.t))
            en.set_field(st, c, 'Individual', f, l)
        for f in ('gen', 'update_parents', 'ghost_genome'):
            en.set_field(st, c, 'Individual', f, old[f])
        en.set_field(st, c, 'Individual', 'cloned_from', old['id'])
        en.set_field(st, c, 'Individual', 'ghost_origin', VNum(o.t))
        i = en.fresh(st, 'new_id', I)
        en.set_field(st, c, 'Individual', 'id', VNum(i))
        return [(st, r)]
    e.contracts['Individual.clone'] = Contract('Individual.clone', clone)
