"""C06: evaluation of a population (also used by C01)."""
import z3
from pycv.engine import Contract
from pycv.vals import *
from .common import *

SCORE = z3.Function('evaluator_score', I, I, R)      # evaluator, individual
PE, SE = 'PopulationEvaluator', 'SimplePopulationEvaluator'
POS = z3.Function('position', I, I)


def world(u, one=True):
    st = u.state()
    e = u.eng
    ev = u.obj(st, SE, 'evaluator', exact=True)
    pop = u.obj(st, 'Population', 'population', exact=True)
    sps = u.field(st, pop, 'sub_populations')
    if one:
        st.assume(e.list_len(st, sps) == 1)
    sp = elem(u, st, sps, z3.IntVal(0))
    st.assume(z3.Implies(e.list_len(st, sps) >= 1, z3.And(sp.t > 0, sp.t < st.alloc)))
    inds = e.get_field(st, sp.t, 'Subpopulation', 'individuals')
    inds = VRef(inds.t, TList(TObj('Individual')))
    judge = e.get_field(st, sp.t, 'Subpopulation', 'evaluator')
    n = e.list_len(st, inds)
    st.assume(n >= 1)
    j, r = z3.Ints('j r')
    x = elem(u, st, inds, j).t
    fit = e.get_field(st.copy(), x, 'Individual', 'fitness').t
    # each individual appears once and has a fitness object of its own
    for f in (z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(POS(fit) == j, fit > 0, fit < st.alloc)), patterns=[x]),):
        st.assume(f)
        e.own.append(f)
    e.init_axioms.append(z3.ForAll([z3.Real('q')], z3.Function('real_of_any', I, R)(z3.Function('any_of_real', R, I)(z3.Real('q'))) == z3.Real('q'),
                                   patterns=[z3.Function('any_of_real', R, I)(z3.Real('q'))]))
    fitness_object_contracts(u)
    fitness_contracts(u)
    e.contracts['IndividualEvaluator.evaluate_individual'] = Contract('evaluate_individual (user code: returns a score, no effects)', lambda en, s, o, a, k: [(s, VNum(SCORE(o.t, (list(a) + list(k.values()))[0].t)))])
    u.assume_note('evaluators are functions of the individual (C06 is about what is done with their scores)')
    return st, ev, pop, sps, sp, inds, judge, n


def evaluate(method):
    def unit(u):
        st, ev, pop, sps, sp, inds, judge, n = world(u)
        e = u.eng
        e.set_field(st, ev.t, SE, 'executor_method', VStr(method))
        hib = z3.Bool('hib')
        j = z3.Int('j')
        f = view(u, st, elem(u, st, inds, j))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), f.hib == hib), patterns=[elem(u, st, inds, j).t]))
        outs, rs = u.call(st, SE, '_evaluate', ev, [pop])
        u.cover('evaluate', st)
        u.no_raise('evaluate', rs)
        for s, b in outs:
            ind = elem(u, st, inds, j)
            v = view(u, s, ind)
            ins = z3.And(j >= 0, j < n)
            u.ob('evaluation: every score is the one of its evaluator', s, z3.Implies(ins, z3.And(z3.Not(v.none), v.score == SCORE(judge.t, ind.t))), inst=[j], keep='all')
            u.ob('evaluation: every individual is marked evaluated', s, z3.Implies(ins, v.ev))
            k = z3.Int('k')
            u.ob('evaluation: the best is a member', s, z3.Exists([k], z3.And(k >= 0, k < n, b.t == elem(u, st, inds, k).t)))
            u.ob('evaluation: nobody is strictly better than the best', s, z3.Implies(ins, z3.Not(better(v, view(u, s, VRef(b.t, TObj('Individual')))))))
            r = z3.Int('r')
            frame(u, 'evaluation', st, s, allow=lambda c, r_: z3.And(POS(r_) >= 0, POS(r_) < n, r_ == e.get_field(st.copy(), elem(u, st, inds, POS(r_)).t, 'Individual', 'fitness').t)
                  if 'Fitness.' in c else r_ == ev.t if 'applied_individuals' in c else z3.BoolVal(False))
        u.ob('evaluation: returns', st, z3.BoolVal(bool(outs)))
    return unit


def reject(u):
    st, ev, pop, sps, sp, inds, judge, n = world(u, one=False)
    e = u.eng
    st.assume(e.list_len(st, sps) != 1)
    outs, rs = u.call(st, SE, '_evaluate', ev, [pop])
    u.cover('several sub-populations', st)
    for s, _ in outs:
        u.ob('rejects: more or fewer than one sub-population is an error', s, z3.BoolVal(False))
    for s, x in rs:
        u.ob('rejects: with a ValueError', s, z3.BoolVal(x.name == 'ValueError'))
        frame(u, 'rejects', st, s, allow=lambda c, r_: r_ == ev.t if 'applied_individuals' in c else z3.BoolVal(False))


def ctor(u):
    st = u.state()
    m = VStr(None, z3.Int('method'))
    known = z3.Or(*[m.t == u.eng.strcode(x) for x in ('map', 'submit')])
    outs, rs = u.new(st, SE, [m])
    for s, o in outs:
        u.ob('constructor: an unknown mode is rejected', s, known)
        u.ob('constructor: the mode is kept', s, u.eng.get_field(s.copy(), o.t, SE, 'executor_method').t == m.t)
    for s, x in rs:
        u.ob('constructor: a known mode is accepted', s, z3.Not(known))
        u.ob('constructor: rejected with ValueError', s, z3.BoolVal(x.name == 'ValueError'))
    u.ob('constructor: returns', st, z3.BoolVal(bool(outs) and bool(rs)))


def plumbing(u):
    """act/apply_operator hand the population to _evaluate and its result back; set_executor stores"""
    st = u.state()
    e = u.eng
    ev = u.obj(st, SE, 'evaluator', exact=True)
    pop = u.obj(st, 'Population', 'population', exact=True)
    best = u.obj(st, 'Individual', 'best')
    calls = []

    def evalu(en, s, o, a, k):
        en.require(s, 'apply: evaluates the population it is given', z3.And(o.t == ev.t, (list(a) + list(k.values()))[0].t == pop.t))
        calls.append(1)
        return [(s, best)]
    e.contracts[SE + '._evaluate'] = Contract('PopulationEvaluator._evaluate', evalu)
    outs, rs = u.call(st, PE, 'apply_operator', ev, [pop])
    u.no_raise('apply', rs)
    for s, v in outs:
        u.ob('apply: gives back the best', s, v.t == best.t)
    u.ob('apply: once', st, z3.BoolVal(len(outs) == 1 and len(calls) == 1))
    ex = VAny(z3.Int('executor'))
    outs, rs = u.call(st, PE, 'set_executor', ev, [ex])
    u.no_raise('set_executor', rs)
    for s, v in outs:
        u.ob('set_executor: stored', s, e.get_field(s.copy(), ev.t, PE, 'executor').t == ex.t)


def single(u):
    st = u.state()
    e = u.eng
    ev = u.obj(st, 'SimpleIndividualEvaluator', 'judge')
    ind = u.obj(st, 'Individual', 'ind')
    env = u.list(st, TObj('Individual'), 'env')
    fitness_object_contracts(u)
    e.contracts['IndividualEvaluator.evaluate_individual'] = Contract('evaluate_individual (user code: returns a score, no effects)', lambda en, s, o, a, k: [(s, VNum(SCORE(o.t, (list(a) + list(k.values()))[0].t)))])
    fit = u.field(st, ind, 'fitness')
    for n, args in (('evaluate', [ind, env]), ('apply_operator', [VTup([ind, env])])):
        outs, rs = u.call(st, 'SimpleIndividualEvaluator', n, ev, args)
        u.no_raise(n, rs)
        for s, v in outs:
            f = view(u, s, ind)
            u.ob(n + ': the score is set', s, z3.And(f.ev, z3.Not(f.none), f.score == SCORE(ev.t, ind.t)))
            u.ob(n + ': gives back the individual', s, v.t == ind.t)
            frame(u, n, st, s, allow=lambda c, r_: r_ == fit.t if 'Fitness.' in c else r_ == ev.t if 'applied_individuals' in c else z3.BoolVal(False))
        u.ob(n + ': returns', st, z3.BoolVal(bool(outs)))


UNITS = {'evaluate map': evaluate('map'), 'evaluate submit': evaluate('submit'), 'reject': reject, 'constructor': ctor, 'plumbing': plumbing, 'single': single}
