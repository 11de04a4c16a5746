"""C20: termination conditions."""
import z3
from pycv.engine import Contract
from pycv.vals import *
from .common import *

TH, ST, CR = 'ThresholdFromTargetTerminationChecker', 'BestFitnessStagnationTerminationChecker', 'CrowdingTerminationChecker'


def absr(t):
    return z3.If(t >= 0, t, -t)


def threshold(u):
    fitness_contracts(u)
    st = u.state()
    c = u.obj(st, TH, 'checker', exact=True)
    pop = u.obj(st, 'Population', 'pop', exact=True)
    x = u.obj(st, 'Individual', 'best')
    g = z3.Int('gen')
    v = view(u, st, x)
    st.assume(v.ev)
    f = lambda n: u.field(st, c, n).t
    outs, rs = u.call(st, TH, 'should_terminate', c, [pop, x, VNum(g)])
    u.cover('threshold', st)
    u.no_raise('should_terminate', rs)
    for s, r in outs:
        u.ob('threshold: holds exactly when |score - target| <= threshold', s, u.eng.truth(s, r) == (absr(v.score - f('optimal')) <= f('threshold')))
        frame(u, 'should_terminate', st, s)
    u.ob('threshold: returns', st, z3.BoolVal(bool(outs)))


def threshold_init(u):
    st = u.state()
    o, t = z3.Reals('o t')
    outs, rs = u.new(st, TH, [VNum(o), VNum(t)])
    u.no_raise('__init__', rs)
    for s, r in outs:
        u.ob('threshold: stores the target', s, u.eng.as_real(u.field(s, r, 'optimal')) == o)
        u.ob('threshold: stores the threshold', s, u.eng.as_real(u.field(s, r, 'threshold')) == t)


def stagnation_init(u):
    st = u.state()
    n = z3.Int('n')
    outs, rs = u.new(st, ST, [VNum(n)])
    u.no_raise('__init__', rs)
    for s, r in outs:
        u.ob('stagnation: stores the limit', s, u.field(s, r, 'stagnation_generations_to_terminate').t == n)
        u.ob('stagnation: starts with no best scores', s, u.field(s, r, 'best_fitnesses').t == 0)


def close(a, b):
    """math.isclose with its default tolerances"""
    m = z3.If(absr(a) >= absr(b), absr(a), absr(b))
    return z3.Or(a == b, absr(a - b) <= z3.RealVal('1/1000000000') * m)


def stagnation(u):
    """one call: same best scores -> counter + 1, fires iff counter reaches the limit; otherwise restart from the new scores"""
    Q = z3.Function('best_of', I, I)
    fitness_contracts(u)

    def con(e, s, o, a, k):
        r = VRef(e.fresh(s, 'bests', I), TList(TObj('Individual')))
        e.wf(s, r)
        s.assume(e.list_len(s, r) == np_)
        all_evaluated(u, s, r)
        log.append(r)
        return [(s, r)]
    log = []
    st = u.state()
    u.eng.contracts['Population.get_best_individuals'] = Contract('Population.get_best_individuals', con)
    c = u.obj(st, ST, 'checker', exact=True)
    pop = u.obj(st, 'Population', 'pop', exact=True)
    x = u.obj(st, 'Individual', 'best', null=True)
    np_ = z3.Int('n_sub_populations')
    st.assume(np_ >= 1)
    f = lambda s, n: u.eng.get_field(s.copy(), c.t, ST, n).t
    bf = f(st, 'best_fitnesses')
    old = VRef(bf, TList(TReal))
    st.assume(z3.Implies(bf != 0, u.eng.list_len(st, old) == np_))
    outs, rs = u.call(st, ST, 'should_terminate', c, [pop, x, VNum(z3.Int('gen'))])
    u.cover('stagnation', st)
    u.no_raise('should_terminate', rs)
    u.ob('stagnation: one call of get_best_individuals', st, z3.BoolVal(len(log) == 1))
    j = z3.Int('j')
    rng = z3.And(j >= 0, j < np_)
    for s, r in outs:
        sc = lambda t: view(u, s, elem(u, s, log[0], t)).score
        ol = lambda t: elem(u, st, old, t).t
        same = z3.And(bf != 0, z3.ForAll([j], z3.Implies(rng, close(sc(j), ol(j)))))
        k0, k1 = f(st, 'stagnation_generations'), f(s, 'stagnation_generations')
        lim = f(st, 'stagnation_generations_to_terminate')
        u.ob('stagnation: unchanged scores count one more generation', s, z3.Implies(same, z3.And(k1 == k0 + 1, f(s, 'best_fitnesses') == bf)))
        u.ob('stagnation: fires exactly when the count of unchanged generations reaches the limit', s, u.eng.truth(s, r) == z3.And(same, k0 + 1 >= lim))
        u.ob('stagnation: a change restarts the count', s, z3.Implies(z3.Not(same), z3.And(k1 == 0, f(s, 'best_fitnesses') != 0)))
        nw = VRef(f(s, 'best_fitnesses'), TList(TReal))
        u.ob('stagnation: a change remembers the new scores (number)', s, z3.Implies(z3.Not(same), u.eng.list_len(s, nw) == np_))
        u.ob('stagnation: a change remembers the new scores', s, z3.Implies(z3.Not(same), z3.ForAll([j], z3.Implies(rng, elem(u, s, nw, j).t == sc(j)))))
        u.ob('stagnation: the remembered scores are not edited', s, z3.Implies(bf != 0, z3.ForAll([j], z3.Implies(rng, elem(u, s, old, j).t == ol(j)))))
        u.ob('stagnation: the limit is not edited', s, f(s, 'stagnation_generations_to_terminate') == lim)
        frame(u, 'should_terminate', st, s, allow=lambda k, r: r == c.t)
    u.ob('stagnation: returns', st, z3.BoolVal(bool(outs)))


def crowd_setup(u):
    u.eng.ftypes[('Individual', 'fitness')] = TObj('NSGA2Fitness', exact=True)
    st = u.state()
    c = u.obj(st, CR, 'checker', exact=True)
    pop = u.obj(st, 'Population', 'pop', exact=True)
    sps = u.field(st, pop, 'sub_populations')
    n = u.eng.list_len(st, sps)
    i = z3.Int('i')
    W = z3.Function('finite_member', I, I)

    def inds(s, k):
        return VRef(u.eng.get_field(s.copy(), elem(u, st, sps, k).t, 'Subpopulation', 'individuals').t, TList(TObj('Individual')))

    def cd(s, k, m):
        x = elem(u, s, inds(s, k), m)
        ft = u.eng.get_field(s.copy(), x.t, 'Individual', 'fitness')
        return u.eng.get_field(s.copy(), ft.t, 'NSGA2Fitness', 'crowding')
    ln = lambda s, k: u.eng.list_len(s.copy(), inds(s, k))
    sp = lambda k: elem(u, st, sps, k).t
    # every sub-population has been created and has a member of finite distance
    st.assume(n >= 1)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(inds(st, i).t > 0, inds(st, i).t < st.alloc, W(i) >= 0, W(i) < ln(st, i), z3.Not(cd(st, i, W(i)).inf))), patterns=[sp(i)]))
    fin = lambda a, b: z3.And(a >= 0, a < n, b >= 0, b < ln(st, a), z3.Not(cd(st, a, b).inf))
    return st, c, pop, fin, lambda a, b: cd(st, a, b).val


def crowding_max(u):
    st, c, pop, fin, cd = crowd_setup(u)
    outs, rs = u.call(st, CR, '_find_max_crowding', c, [pop])
    u.cover('crowding', st)
    u.no_raise('_find_max_crowding', rs)
    i, j = z3.Ints('i j')
    for s, r in outs:
        if not isinstance(r, VX):
            r = VX(z3.BoolVal(False), u.eng.as_real(r))
        w = [x.arg(1) for x in (r.val,) if z3.is_select(x)]
        u.ob('largest crowding distance: finite', s, z3.Not(r.inf), inst=None)
        i0, j0 = z3.Ints('i0 j0')
        A = [x.arg(0) for x in (r.val,) if z3.is_select(x)]
        seed = [hint(x[i0]) for x in A]
        u.ob('largest crowding distance: no finite distance is larger', s, z3.Implies(fin(i0, j0), cd(i0, j0) <= r.val), extra=seed, inst=[i0, j0] + [x.arg(1) for x in (r.val,) if z3.is_select(x)], keep="all")
        u.ob('largest crowding distance: it is that of a member', s, z3.Exists([i, j], z3.And(fin(i, j), cd(i, j) == r.val)), inst=[x.arg(1) for x in (r.val,) if z3.is_select(x)], keep="all")
        frame(u, '_find_max_crowding', st, s)
    u.ob('largest crowding distance: returns', st, z3.BoolVal(bool(outs)))


def hint(t):
    return z3.Function('hint_' + str(t.sort()), t.sort(), B)(t)


def crowding(u):
    st, c, pop, fin, cd = crowd_setup(u)
    M, wi, wj = z3.Real('largest'), z3.Int('wi'), z3.Int('wj')
    i, j = z3.Ints('i j')

    def con(e, s, o, a, k):
        s.assume(z3.And(fin(wi, wj), cd(wi, wj) == M))
        s.assume(z3.ForAll([i, j], z3.Implies(fin(i, j), cd(i, j) <= M)))
        return [(s, VX(z3.BoolVal(False), M))]
    u.eng.contracts[CR + '._find_max_crowding'] = Contract(CR + '._find_max_crowding', con)
    th = u.field(st, c, 'threshold').t
    outs, rs = u.call(st, CR, 'should_terminate', c, [pop, VNone, VNum(z3.Int('gen'))])
    u.cover('crowding', st)
    u.no_raise('should_terminate', rs)
    for s, r in outs:
        u.ob('crowding: holds exactly when the largest finite distance is non-zero and below the threshold', s, u.eng.truth(s, r) == z3.And(M != 0, M < th))
        frame(u, 'should_terminate', st, s)
    u.ob('crowding: returns', st, z3.BoolVal(bool(outs)))


UNITS = {'threshold': threshold, 'threshold init': threshold_init, 'stagnation': stagnation, 'stagnation init': stagnation_init, 'crowding': crowding,
         'largest crowding': crowding_max}
