"""C01: best of run.  The invariant 'best_of_run_ is evaluated and unbeaten by everything evaluated so far' is established by
initialize (over the evaluator's contract, C06) and kept by generation_iteration (over the contracts of breeding, C02/C04, and
evaluation, C06); evolve_main_loop changes best_of_run_ only through generation_iteration (unit of C15)."""
import z3
from pycv.engine import Contract
from pycv.vals import *
from .common import *
from . import c15, c06, c05
from .c15 import Run, SE, AL


def only(unit, *words):
    def f(u):
        u.only = lambda n: any(w in n for w in words) or n.endswith('returns') or ': no ' in n
        unit(u)
    return f


def generation(u):
    r = Run(u, SE)
    st, e = r.st, u.eng
    pop, al = r.f(st, 'population'), r.al
    sps = u.field(st, pop, 'sub_populations')
    st.assume(e.list_len(st, sps) == 1)
    sp = elem(u, st, sps, z3.IntVal(0))
    st.assume(z3.And(sp.t > 0, sp.t < st.alloc))
    hib = z3.Bool('hib')
    b0 = VRef(r.f(st, 'best_of_run_').t, TObj('Individual'))
    st.assume(b0.t != 0)
    v0 = view(u, st, b0)
    st.assume(z3.And(v0.ev, v0.hib == hib))
    seen = z3.Real('score_of_anything_evaluated_earlier')       # augmented
    beats = lambda a, b: z3.If(hib, a > b, a < b)
    st.assume(z3.Not(beats(seen, v0.aug)))
    A0 = st.alloc
    A1 = z3.Int('A1')
    L = z3.Int('next_generation')
    n = z3.Int('n')
    j = z3.Int('j')
    best = z3.Int('best_of_generation')
    mem = lambda s, k: elem(u, s, VRef(L, TList(TObj('Individual'))), k)

    def breed(en, s, o, a):
        en.require(s, 'generation: breeds the population of the run first', z3.And(a[0].t == pop.t, o.t == r.f(st, 'breeder').t, r.g(s, 'ghost_bred') == 0, r.g(s, 'ghost_evals') == 0))
        r.bump(s, 'ghost_bred')
        # C02: a list of new individuals, nothing older changes except which list the sub-population holds
        for c in ('Individual', 'Fitness', 'SimpleFitness', 'GPFitness'):
            F(en, s.copy(), b0)
        havoc_above(u, s, A0, 'bred')
        s.alloc = A1
        s.assume(z3.And(A1 > A0, L >= A0, L < A1, n >= 1))
        en.set_field(s, sp.t, 'Subpopulation', 'individuals', VRef(L, TList(TObj('Individual'))))
        s.assume(en.list_len(s, VRef(L, TList(TObj('Individual')))) == n)
        x = mem(s, j).t
        f = en.get_field(s.copy(), x, 'Individual', 'fitness').t
        h = en.get_field(s.copy(), f, 'Fitness', 'higher_is_better').t
        s.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(x >= A0, x < A1, f >= A0, f < A1, h == hib)), patterns=[x]))
        return [(s, VNone)]

    def act(en, s, o, a):
        en.require(s, 'generation: evaluates the bred population', z3.And(a[0].t == pop.t, o.t == r.f(st, 'population_evaluator').t, r.g(s, 'ghost_bred') == 1, r.g(s, 'ghost_evals') == 0))
        r.bump(s, 'ghost_evals')
        # C06: scores of the members change, nothing else
        lst = en.get_field(s.copy(), sp.t, 'Subpopulation', 'individuals').t
        en.require(s, 'generation: evaluates what was bred', lst == L)
        q = z3.Int('r')
        for k in list(s.heap):
            if 'Fitness.' in k and 'higher' not in k and 'weight' not in k:
                N = z3.Const('evaluated.' + k, s.heap[k].sort())
                s.assume(z3.ForAll([q], z3.Implies(q < A0, N[q] == s.heap[k][q]), patterns=[N[q]]))
                s.heap[k] = N
        b = VRef(best, TObj('Individual'))
        k = z3.Int('place_of_best')
        s.assume(z3.And(k >= 0, k < n, best == mem(s, k).t, best >= A0, best < A1))
        vb, vj = view(u, s, b), view(u, s, mem(s, j))
        s.assume(z3.And(vb.ev, vb.hib == hib))
        s.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(vj.ev, z3.Not(beats(vj.aug, vb.aug)))), patterns=[mem(s, j).t]))
        return [(s, b)]
    r.contract('Breeder.breed', breed)
    r.contract('PopulationEvaluator.act', act)
    w = z3.Int('worst')
    r.contract('Subpopulation.get_worst_individual', lambda en, s, o, a: [(s, VRef(w, TObj('Individual')))])
    r.publish({})
    fitness_contracts(u)
    outs, rs = u.call(st, SE, 'generation_iteration', al, [VNum(z3.Int('gen'))])
    u.no_raise('generation_iteration', rs)
    u.cover_any('generation', [s for s, _ in outs if True])
    for s, _ in outs:
        nb = VRef(r.f(s, 'best_of_run_').t, TObj('Individual'))
        v = view(u, s, nb)
        vj = view(u, s, mem(s, j))
        u.ob('best of run: evaluated', s, v.ev)
        u.ob('best of run: not beaten by anything evaluated earlier', s, z3.Not(beats(seen, v.aug)))
        u.ob('best of run: not beaten by anything of this generation', s, z3.Implies(z3.And(j >= 0, j < n), z3.Not(beats(vj.aug, v.aug))))
        vg = view(u, s, VRef(best, TObj('Individual')))
        u.ob('best of run: replaced exactly by a strictly better one', s, nb.t == z3.If(beats(vg.aug, v0.aug), best, b0.t))
        u.ob('best of run: reports the score it was evaluated with', s, z3.Implies(nb.t == b0.t, z3.And(v.score == v0.score, v.none == v0.none, v.ev == v0.ev, v.aug == v0.aug)))
    u.ob('generation: returns', st, z3.BoolVal(bool(outs)))


UNITS = {'initial best': only(c15.initialize(SE), 'best', 'evaluation'), 'generation': generation, 'main loop': only(c15.main_loop, 'best'),
         'stamping': only(c15.update_gen, 'frame'), 'evaluate map': c06.UNITS['evaluate map'], 'evaluate submit': c06.UNITS['evaluate submit'],
         'order': c05.UNITS['order']}
