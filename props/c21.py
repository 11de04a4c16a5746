"""C21: population queries."""
import z3
from pycv.engine import Contract
from pycv.vals import *
from .common import *

S = 'Subpopulation'


def subpop(u, st, name='sp'):
    sp = u.obj(st, S, name, exact=True)
    lst = VRef(u.field(st, sp, 'individuals').t, TList(TObj('Individual')))
    st.assume(z3.And(lst.t > 0, lst.t < st.alloc))
    return sp, lst


def extreme(meth, best):
    def run(u):
        fitness_contracts(u)
        st = u.state()
        sp, lst = subpop(u, st)
        h = u.field(st, sp, 'higher_is_better').t
        n = u.eng.list_len(st, lst)
        st.assume(n > 0)
        all_evaluated(u, st, lst, h)
        outs, rs = u.call(st, S, meth, sp)
        u.cover(meth, st)
        u.no_raise(meth, rs)
        j = z3.Int('j')
        for s, v in outs:
            x = elem(u, st, lst, j)
            u.ob(meth + ' returns a member', s, z3.Exists([j], z3.And(j >= 0, j < n, x.t == v.t)))
            a, b = view(u, st, x), view(u, st, v)
            bt = better(a, b) if best else better(b, a)
            u.ob(meth + (': nobody is better' if best else ': better than nobody'), s, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(bt))))
            frame(u, meth, st, s)
        u.ob(meth + ' returns', st, z3.BoolVal(bool(outs)))
    return run


def average(u):
    fitness_contracts(u)
    st = u.state()
    sp, lst = subpop(u, st)
    n = u.eng.list_len(st, lst)
    st.assume(n > 0)
    all_evaluated(u, st, lst)
    outs, rs = u.call(st, S, 'get_average_fitness', sp)
    u.no_raise('get_average_fitness', rs)
    j = z3.Int('j')
    x = elem(u, st, lst, j)
    A = z3.Const('scores', AS(I, R))
    ax = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), A[j] == view(u, st, x).score), patterns=[A[j]])
    from pycv.lib import SUM
    for s, v in outs:
        u.ob('average is the mean of the raw scores', s, u.eng.as_real(v) * z3.ToReal(n) == SUM(A, n), extra=[ax] + u.sum_facts(s, v.t, SUM(A, n)))
        frame(u, 'get_average_fitness', st, s)



def contains(u):
    st = u.state()
    sp, lst = subpop(u, st)
    x = u.obj(st, 'Individual', 'x')
    n = u.eng.list_len(st, lst)
    j = z3.Int('j')
    outs, rs = u.call(st, S, 'contains_individual', sp, [x])
    u.no_raise('contains_individual', rs)
    for s, v in outs:
        u.ob('contains_individual is membership', s, u.eng.truth(s, v) == z3.Exists([j], z3.And(j >= 0, j < n, elem(u, st, lst, j).t == x.t)))
        frame(u, 'contains_individual', st, s)


CONT = z3.Function('contains', I, I, B)


def pop(u, st):
    p = u.obj(st, 'Population', 'pop', exact=True)
    return p, u.field(st, p, 'sub_populations')


def find(u):
    u.eng.contracts[S + '.contains_individual'] = Contract(S + '.contains_individual', lambda e, s, o, a, k: [(s, VNum(CONT(o.t, a[0].t)))])
    st = u.state()
    p, sps = pop(u, st)
    x = u.obj(st, 'Individual', 'x')
    n = u.eng.list_len(st, sps)
    j = z3.Int('j')
    el = lambda t: elem(u, st, sps, t).t
    some = z3.Exists([j], z3.And(j >= 0, j < n, CONT(el(j), x.t)))
    outs, rs = u.call(st, 'Population', 'find_individual_subpopulation', p, [x])
    u.cover('find', st)
    for s, v in outs:
        if v is VNone:
            u.ob('lookup never returns nothing', s, z3.BoolVal(False))
            continue
        u.ob('lookup returns a sub-population of the population', s, z3.Exists([j], z3.And(j >= 0, j < n, el(j) == v.t)))
        u.ob('lookup returns a sub-population containing the individual', s, CONT(v.t, x.t))
        frame(u, 'find_individual_subpopulation', st, s)
    for s, e in rs:
        u.ob('lookup raises only when no sub-population contains it', s, z3.Not(some))
        u.ob('lookup raises ValueError', s, z3.BoolVal(e.name == 'ValueError'))
    u.ob('lookup can return and can raise', st, z3.BoolVal(bool(outs) and bool(rs)))


def per_pop(meth, sub, real):
    Q = z3.Function('query', I, R if real else I)

    def run(u):
        def con(e, s, o, a, k):
            t = Q(o.t)
            if real:
                return [(s, VNum(t))]
            v = VRef(t, TObj('Individual'))
            e.wf(s, v)
            return [(s, v)]
        u.eng.contracts[S + '.' + sub] = Contract(S + '.' + sub, con)
        st = u.state()
        p, sps = pop(u, st)
        n = u.eng.list_len(st, sps)
        outs, rs = u.call(st, 'Population', meth, p)
        u.no_raise(meth, rs)
        j = z3.Int('j')
        for s, v in outs:
            u.ob(meth + ': one result per sub-population', s, u.eng.list_len(s, v) == n)
            u.ob(meth + ': results in order', s, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), elem(u, s, v, j).t == Q(elem(u, st, sps, j).t))))
            frame(u, meth, st, s)
        u.ob(meth + ' returns', st, z3.BoolVal(bool(outs)))
    return run


def create(u):
    st = u.state()
    sp = u.obj(st, S, 'sp', exact=True)
    calls = []

    def ci(e, s, o, a, k):
        r = VRef(e.fresh(s, 'created', I), TList(TObj('Individual')))
        e.wf(s, r)
        calls.append((s.copy(), o, a, k, r))
        return [(s, r)]
    u.eng.contracts['Creator.create_individuals'] = Contract('Creator.create_individuals', ci)
    f = lambda s, x: u.eng.get_field(s.copy(), sp.t, S, x)
    cr = f(st, 'creators')
    n = u.eng.list_len(st, cr)
    st.assume(z3.And(n >= 1, u.eng.list_len(st, f(st, '_pcr')) == n))
    old = f(st, 'individuals').t
    outs, rs = u.call(st, S, 'create_subpopulation_individuals', sp)
    u.cover('create', st)
    u.no_raise('create_subpopulation_individuals', rs)
    j = z3.Int('j')
    for s, o, a, k, r in calls:
        u.ob('creation only when there are no individuals', s, old == 0)
        u.ob('creation uses one of the creators', s, z3.Exists([j], z3.And(j >= 0, j < n, elem(u, st, cr, j).t == o.t)))
        a = list(a) + [k[x] for x in ('n_individuals', 'higher_is_better') if x in k]
        u.ob('creation with the own size', s, u.eng.as_int(a[0]) == f(st, 'population_size').t)
        u.ob('creation with the own direction', s, u.eng.truth(s, a[1]) == f(st, 'higher_is_better').t)
    for s, v in outs:
        new = f(s, 'individuals').t
        u.ob('given individuals are never replaced; created ones are stored', s, z3.Or([z3.And(old != 0, new == old)] + [z3.And(old == 0, new == r.t) for _, _, _, _, r in calls]))
        frame(u, 'create_subpopulation_individuals', st, s, allow=lambda k, r: r == sp.t if '.individuals' in k else z3.BoolVal(False))
    u.ob('one creator call site reached', st, z3.BoolVal(len(calls) >= 1))


def create_pop(u):
    """every sub-population creates its individuals once"""
    cnt = z3.Function('ncreate', I, I)
    st = u.state()
    p, sps = pop(u, st)
    n = u.eng.list_len(st, sps)
    u.eng.ftypes[(S, 'ghost_created')] = TInt
    g = lambda s, t: u.eng.get_field(s.copy(), t, S, 'ghost_created').t
    j, k = z3.Ints('j k')
    el = lambda t: elem(u, st, sps, t).t
    st.assume(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), el(j) != el(k)), patterns=[z3.MultiPattern(el(j), el(k))]))

    def con(e, s, o, a, kw):
        e.set_field(s, o.t, S, 'ghost_created', VNum(e.get_field(s, o.t, S, 'ghost_created').t + 1))
        return [(s, VNone)]
    u.eng.contracts[S + '.create_subpopulation_individuals'] = Contract('create', con)
    outs, rs = u.call(st, 'Population', 'create_population_individuals', p)
    u.no_raise('create_population_individuals', rs)
    for s, v in outs:
        u.ob('every sub-population creates its individuals exactly once', s, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), g(s, el(j)) == g(st, el(j)) + 1), patterns=[el(j)]))


def constructor(creators):
    """what a sub-population accepts, and what it is made of"""
    def unit(u):
        from pycv.lib import SUM
        e = u.eng
        PUB = TObj('BeforeAfterPublisher')
        for pk in ('none', 'list'):
            for ok in ('none', 'list'):
                for sk in ('none', 'list'):
                    st = u.state()
                    nm = lambda x: '%s_%s_%s_%s' % (x, pk, ok, sk)
                    a = dict(evaluator=u.obj(st, 'IndividualEvaluator', nm('evaluator')))
                    j = z3.Int('j')
                    if creators == 'none':
                        cr, good, n = VNone, z3.BoolVal(False), z3.IntVal(0)
                    elif creators == 'one':
                        cr = u.obj(st, 'Creator', nm('creator'))
                        good, n = z3.BoolVal(True), z3.IntVal(1)
                    else:
                        cr = u.list(st, PUB, nm('creators'))
                        n = e.list_len(st, cr)
                        isc = lambda q: e.isinst(st.copy(), elem(u, st, cr, q), u.cls('Creator'))
                        good = z3.And(n >= 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), isc(j))))
                    a['creators'] = cr
                    p = u.list(st, TReal, nm('pcr')) if pk == 'list' else VNone
                    ops = u.list(st, TObj('GeneticOperator'), nm('ops')) if ok == 'list' else VNone
                    sels = u.list(st, TTup([TObj('SelectionMethod'), TReal]), nm('sels')) if sk == 'list' else VNone
                    inds = VRef(z3.Int(nm('inds')), TList(TObj('Individual'), null=True))
                    e.wf(st, inds)
                    hib, size, rate = z3.Bool(nm('hib')), z3.Int(nm('size')), z3.Real(nm('rate'))
                    st.assume(z3.And(size >= 0, rate >= 0, rate <= 1))
                    a.update(pcr=p, operators_sequence=ops, selection_methods=sels, elitism_rate=VNum(rate), population_size=VNum(size),
                             individuals=inds, higher_is_better=VNum(hib))
                    outs, rs = u.new(st, S, [], a)
                    for s, ex in rs:
                        u.ob('constructor: refuses with ValueError (%s)' % ex.name, s, z3.BoolVal(ex.name == 'ValueError' or (ex.name == 'ZeroDivisionError')) if ex.name != 'ZeroDivisionError' else z3.BoolVal(False))
                    if creators == 'none' or ok == 'none':
                        u.ob('constructor: missing creators or operators are refused', st, z3.BoolVal(not outs))
                        for s, _ in outs:
                            u.ob('constructor: missing creators or operators are refused', s, z3.BoolVal(False))
                        continue
                    u.cover_any('constructor %s %s' % (pk, sk), [s for s, _ in outs])
                    for s, o in outs:
                        g = lambda f: e.get_field(s.copy(), o.t, S, f)
                        u.ob('constructor: accepted only with creators', s, good)
                        if pk == 'list':
                            u.ob('constructor: accepted only with one probability per creator', s, e.list_len(st.copy(), p) == n)
                            u.ob('constructor: accepted only with probabilities summing to 1', s, SUM(e.list_arr(st.copy(), p, ''), e.list_len(st.copy(), p)) == 1)
                            u.ob('constructor: probabilities stored', s, g('_pcr').t == p.t)
                        else:
                            u.ob('constructor: one probability per creator', s, z3.And(e.list_len(s.copy(), g('_pcr')) == n, z3.Implies(z3.And(j >= 0, j < n), elem(u, s, g('_pcr'), j).t * z3.ToReal(n) == 1)))
                        u.ob('constructor: operators stored', s, g('_operators_sequence').t == ops.t)
                        if sk == 'list':
                            u.ob('constructor: selection methods stored', s, g('_selection_methods').t == sels.t)
                        else:
                            u.ob('constructor: default selection in the declared direction', s, z3.And(e.list_len(s.copy(), g('_selection_methods')) == 1,
                                 e.get_field(s.copy(), elem(u, s, g('_selection_methods'), z3.IntVal(0)).items[0].t, 'SelectionMethod', 'higher_is_better').t == hib))
                        if creators == 'one':
                            u.ob('constructor: the creator is kept', s, z3.And(e.list_len(s.copy(), g('creators')) == 1, elem(u, s, g('creators'), z3.IntVal(0)).t == cr.t))
                        else:
                            u.ob('constructor: the creators are kept', s, g('creators').t == cr.t)
                        u.ob('constructor: the rest as given', s, z3.And(g('population_size').t == size, g('higher_is_better').t == hib, g('individuals').t == inds.t, g('evaluator').t == a['evaluator'].t))
                        x = rate * z3.ToReal(size)
                        ne = g('n_elite').t
                        d = z3.ToReal(ne) - x
                        u.ob('constructor: elites are the rate times the size, rounded', s, z3.And(d <= z3.RealVal('1/2'), d >= z3.RealVal('-1/2')))
    return unit


UNITS = {'best': extreme('get_best_individual', True), 'worst': extreme('get_worst_individual', False), 'average': average,
         'contains': contains, 'find': find, 'create': create, 'constructor without creators': constructor('none'), 'constructor with a creator': constructor('one'), 'constructor with creators': constructor('list'), 'create population': create_pop,
         'population best': per_pop('get_best_individuals', 'get_best_individual', False),
         'population worst': per_pop('get_worst_individuals', 'get_worst_individual', False),
         'population average': per_pop('get_average_fitness', 'get_average_fitness', True)}
