"""C15: phases, generations and events of a run; C16 shares the seed schedule."""
import z3
from pycv.engine import Contract
from pycv.vals import *
from .common import *

AL, SE = 'Algorithm', 'SimpleEvolution'
GH = ('ghost_inits', 'ghost_gens', 'ghost_after', 'ghost_init_events', 'ghost_finished', 'ghost_shut', 'ghost_loops', 'ghost_stamp', 'ghost_created', 'ghost_evals', 'ghost_bred', 'ghost_best')
STOP = z3.Function('condition_holds', I, B)      # after generation g
M32 = 2 ** 32


class Run:
    """ghost state of a run: what happened so far"""

    def __init__(self, u, cname, exact=True):
        self.u, self.e = u, u.eng
        for g in GH:
            self.e.ftypes[(AL, g)] = TInt
        self.st = u.state()
        self.al = u.obj(self.st, cname, 'algorithm', exact=exact)
        self.c = cname
        for g in ('$std_seed', '$np_seed'):
            self.st.glob[g] = VNum(z3.Int(g[1:] + '0'))
        self.st.glob['$shutdowns'] = VNum(z3.IntVal(0))
        for g in GH:
            self.st.assume(self.g(self.st, g) == 0)

    def f(self, s, n):
        return self.e.get_field(s.copy(), self.al.t, self.c, n)

    def g(self, s, n):
        return self.f(s, n).t

    def bump(self, s, n, to=None):
        k = self.e.get_field(s, self.al.t, self.c, n).t
        self.e.set_field(s, self.al.t, self.c, n, VNum(k + 1 if to is None else to))

    def contract(self, name, fn):
        def apply(en, s, o, a, kw):
            return fn(en, s, o, list(a) + list(kw.values()))
        self.e.contracts[name] = Contract(name, apply)

    def publish(self, pre):
        """pre: event name -> function(state) giving the precondition"""
        ev = {n: self.e.strcode(n) for n in ('init', 'after_generation', 'evolution_finished')}
        cnt = {'init': 'ghost_init_events', 'after_generation': 'ghost_after', 'evolution_finished': 'ghost_finished'}

        def pub(en, s, o, a):
            en.require(s, 'publish: by the algorithm', o.t == self.al.t)
            if not (isinstance(a[0], VStr) and a[0].s is not None):
                raise Unsupported('publishing a computed event name')
            n = a[0].s
            if n in cnt:
                if n in pre:
                    en.require(s, 'publish %s: in its place' % n, pre[n](s))
                else:
                    en.require(s, 'publish %s: not here' % n, z3.BoolVal(False))
                self.bump(s, cnt[n])
            return [(s, VNone)]
        self.contract('BeforeAfterPublisher.publish', pub)

    def stop(self):
        def should(en, s, o, a):
            en.require(s, 'termination: asked about this population, best and generation',
                       z3.And(a[0].t == self.f(s, 'population').t, a[1].t == self.f(s, 'best_of_run_').t if isinstance(a[1], VRef) else z3.BoolVal(False), a[2].t == self.g(s, 'ghost_gens')))
            return [(s, VNum(STOP(a[2].t)))]
        self.contract(AL + '.should_terminate', should)


def seeded(s, v):
    return z3.And(s.glob['$std_seed'].t == v, s.glob['$np_seed'].t == v)


def main_loop(u):
    r = Run(u, AL, exact=False)
    st, e = r.st, u.eng
    n, base = r.g(st, 'max_generation'), r.g(st, 'generation_seed')
    st.assume(base >= 0)
    st.assume(base < M32)

    def upd(en, s, o, a):
        r.bump(s, 'ghost_stamp', a[0].t)
        return [(s, VNone)]

    def gen(en, s, o, a):
        g = a[0].t
        k = r.g(s, 'ghost_gens')
        en.require(s, 'generation: the numbers follow each other', g == k + 1)
        en.require(s, 'generation: announced as the current one', r.g(s, 'generation_num') == g)
        en.require(s, 'generation: individuals are stamped with its number', r.g(s, 'ghost_stamp') == g)
        en.require(s, 'generation: both random sources are seeded with base seed + g', seeded(s, (base + g) % M32))
        en.require(s, 'generation: the previous one has been published', r.g(s, 'ghost_after') == k)
        en.require(s, 'generation: no condition held after the previous one', z3.Implies(k >= 1, z3.Not(STOP(k))))
        r.bump(s, 'ghost_gens')
        # the body may change the population, the best and the random sources, nothing of the bookkeeping
        for f in ('best_of_run_', 'best_of_gen', 'worst_of_gen'):
            v = VRef(en.fresh(s, f, I), TObj('Individual', null=True))
            en.wf(s, v)
            en.set_field(s, r.al.t, AL, f, v)
            if f == 'best_of_run_':
                r.bump(s, 'ghost_best', v.t)
        for x in ('$std_seed', '$np_seed'):
            s.glob[x] = VNum(en.fresh(s, 'state', I))
        return [(s, VNone)]
    r.contract(AL + '.update_gen', upd)
    r.contract(AL + '.generation_iteration', gen)
    r.publish({'after_generation': lambda s: r.g(s, 'ghost_after') == r.g(s, 'ghost_gens') - 1})
    r.stop()
    outs, rs = u.call(st, AL, 'evolve_main_loop', r.al, [])
    u.cover('main loop', st)
    u.no_raise('evolve_main_loop', rs)
    k = z3.Int('k')
    for s, _ in outs:
        G = r.g(s, 'ghost_gens')
        u.ob('main loop: the best of run is the one the last generation left', s, r.f(s, 'best_of_run_').t == z3.If(G >= 1, r.g(s, 'ghost_best'), r.f(st, 'best_of_run_').t))
        u.ob('main loop: at most the limit', s, z3.And(G >= 0, z3.Implies(n >= 0, G <= n)))
        u.ob('main loop: runs up to the limit or the first generation after which a condition holds', s, z3.Or(z3.And(G >= 1, STOP(G)), G == n, n < 1))
        u.ob('main loop: never past a generation after which a condition holds', s, z3.Implies(z3.And(k >= 1, k < G), z3.Not(STOP(k))))
        fg = r.f(s, 'final_generation_')
        u.ob('main loop: the final generation is the last one run', s, z3.Implies(G >= 1, z3.And(z3.Not(fg.none), fg.v.t == G, r.g(s, 'generation_num') == G)))
        u.ob('main loop: one event per generation', s, r.g(s, 'ghost_after') == G)
        u.ob('main loop: no other events', s, z3.And(r.g(s, 'ghost_finished') == 0, r.g(s, 'ghost_init_events') == 0))
        u.ob('main loop: the limit is not edited', s, r.g(s, 'max_generation') == n)
    u.ob('main loop: returns', st, z3.BoolVal(bool(outs)))


def evolve(u):
    r = Run(u, AL, exact=False)
    st = r.st
    g0 = r.g(st, 'generation_num')
    st.assume(g0 == 0)

    def init(en, s, o, a):
        en.require(s, 'initialisation: once, first', z3.And(r.g(s, 'ghost_inits') == 0, r.g(s, 'ghost_loops') == 0))
        r.bump(s, 'ghost_inits')
        r.bump(s, 'ghost_init_events')
        v = VRef(en.fresh(s, 'best', I), TObj('Individual'))
        en.wf(s, v)
        en.set_field(s, r.al.t, AL, 'best_of_run_', v)
        return [(s, VNone)]

    def loop(en, s, o, a):
        en.require(s, 'generations: after the initialisation, unless a condition holds', z3.And(r.g(s, 'ghost_inits') == 1, r.g(s, 'ghost_loops') == 0, z3.Not(STOP(0)), r.g(s, 'ghost_after') == 0))
        r.bump(s, 'ghost_loops')
        k = en.fresh(s, 'gens', I)
        s.assume(k >= 0)
        r.bump(s, 'ghost_gens', k)
        r.bump(s, 'ghost_after', k)
        en.set_field(s, r.al.t, AL, 'final_generation_', VNum(k))
        return [(s, VNone)]

    def fin(en, s, o, a):
        en.require(s, 'end: once, after the last event', z3.And(r.g(s, 'ghost_finished') == 1, r.g(s, 'ghost_shut') == 0))
        r.bump(s, 'ghost_shut')
        return [(s, VNone)]
    r.contract(AL + '.initialize', init)
    r.contract(AL + '.evolve_main_loop', loop)
    r.contract(AL + '.finish', fin)
    r.publish({'after_generation': lambda s: z3.And(r.g(s, 'ghost_after') == 0, r.g(s, 'ghost_loops') == 0, STOP(0), r.g(s, 'ghost_inits') == 1),
               'evolution_finished': lambda s: z3.And(r.g(s, 'ghost_finished') == 0, r.g(s, 'ghost_inits') == 1, z3.Or(STOP(0), r.g(s, 'ghost_loops') == 1))})
    r.stop()
    for n in ('evolve', 'apply_operator'):
        outs, rs = u.call(st, AL, n, r.al, [] if n == 'evolve' else [VNone])
        u.cover(n, st)
        u.no_raise(n, rs)
        for s, _ in outs:
            u.ob(n + ': initialises once', s, r.g(s, 'ghost_inits') == 1)
            u.ob(n + ': a condition true initially means no generation', s, z3.Implies(STOP(0), z3.And(r.g(s, 'ghost_loops') == 0, r.g(s, 'ghost_after') == 1)))
            fg = r.f(s, 'final_generation_')
            u.ob(n + ': final generation 0 then', s, z3.Implies(STOP(0), z3.And(z3.Not(fg.none), fg.v.t == 0)))
            u.ob(n + ': otherwise the generations are run once', s, z3.Implies(z3.Not(STOP(0)), z3.And(r.g(s, 'ghost_loops') == 1, r.g(s, 'ghost_after') == r.g(s, 'ghost_gens'))))
            u.ob(n + ': finished is published once and the run is closed', s, z3.And(r.g(s, 'ghost_finished') == 1, r.g(s, 'ghost_shut') == 1))
            u.ob(n + ': final generation is that of the loop', s, z3.Implies(z3.Not(STOP(0)), z3.And(z3.Not(fg.none), fg.v.t == r.g(s, 'ghost_gens'))))
        u.ob(n + ': returns', st, z3.BoolVal(bool(outs)))


def initialize(cname):
    def unit(u):
        r = Run(u, cname)
        st = r.st
        seed = r.g(st, 'random_seed')
        best = z3.Int('first_best')
        is_op = z3.Function('any_is_Operator', I, B)
        for (cn, f), ty in list(u.eng.ftypes.items()):
            if ty is TAny and cn in [c.name for c in u.repo.mro(u.repo.classes[cname])]:
                st.assume(z3.Not(is_op(r.f(st, f).t)))
        u.assume_note('the executor and other attributes of no declared class are not operators')

        def create(en, s, o, a):
            en.require(s, 'creation: once, before any evaluation', z3.And(r.g(s, 'ghost_created') == 0, r.g(s, 'ghost_evals') == 0))
            en.require(s, 'creation: both random sources carry the seed of the run', seeded(s, seed))
            en.require(s, 'creation: of the population of the run', o.t == r.f(st, 'population').t)
            r.bump(s, 'ghost_created')
            return [(s, VNone)]

        def act(en, s, o, a):
            en.require(s, 'evaluation: once, after the creation', z3.And(r.g(s, 'ghost_created') == 1, r.g(s, 'ghost_evals') == 0))
            en.require(s, 'evaluation: by the evaluator of the run, on its population', z3.And(o.t == r.f(st, 'population_evaluator').t, a[0].t == r.f(st, 'population').t))
            en.require(s, 'evaluation: on the executor of the run', en.get_field(s.copy(), o.t, 'PopulationEvaluator', 'executor').t == r.f(st, 'executor').t)
            r.bump(s, 'ghost_evals')
            v = VRef(best, TObj('Individual'))
            en.wf(s, v)
            return [(s, v)]
        r.contract('Population.create_population_individuals', create)
        r.contract('PopulationEvaluator.act', act)
        r.publish({'init': lambda s: z3.And(r.g(s, 'ghost_created') == 1, r.g(s, 'ghost_evals') == 1, r.g(s, 'ghost_init_events') == 0)})
        regs = []

        def register(en, s, o, a):
            regs.append(a)
            return [(s, VNum(en.fresh(s, 'id', I)))]
        r.contract('BeforeAfterPublisher.register', register)
        outs, rs = u.call(st, cname, 'initialize', r.al, [])
        u.cover('initialize', st)
        u.no_raise('initialize', rs)
        for s, _ in outs:
            u.ob('initialize: the population is created and evaluated once', s, z3.And(r.g(s, 'ghost_created') == 1, r.g(s, 'ghost_evals') == 1))
            u.ob('initialize: the first best of run is the one the evaluation returned', s, r.f(s, 'best_of_run_').t == best)
            u.ob('initialize: init is published once', s, z3.And(r.g(s, 'ghost_init_events') == 1, r.g(s, 'ghost_after') == 0, r.g(s, 'ghost_finished') == 0))
            u.ob('initialize: the seed is kept', s, r.g(s, 'random_seed') == seed)
            u.ob('initialize: the generation seed is kept', s, r.g(s, 'generation_seed') == r.g(st, 'generation_seed'))
            u.ob('initialize: the population object stays', s, r.f(s, 'population').t == r.f(st, 'population').t)
        u.ob('initialize: returns', st, z3.BoolVal(bool(outs)))
    return unit


def finish(cname):
    def unit(u):
        r = Run(u, cname)
        st = r.st
        b = r.f(st, 'best_of_run_').t
        st.assume(b != 0)
        u.eng.contracts['Individual.show'] = Contract('show (prints)', lambda en, s, o, a, k: [(s, VNone)])
        u.eng.contracts['Individual.get_pure_fitness'] = Contract('Individual.get_pure_fitness', lambda en, s, o, a, k: [(s, VAny(en.fresh(s, 'sc', I)))])
        outs, rs = u.call(st, cname, 'finish', r.al, [])
        u.no_raise('finish', rs)
        for s, _ in outs:
            u.ob('finish: the executor is shut down once', s, s.glob['$shutdowns'].t == 1)
        u.ob('finish: returns', st, z3.BoolVal(bool(outs)))
    return unit


HOLDS = z3.Function('checker_holds', I, B)


def should_terminate(u):
    r = Run(u, AL, exact=False)
    st = r.st
    pop, best, g = r.f(st, 'population'), u.obj(st, 'Individual', 'best', null=True), z3.Int('gen')

    def chk(en, s, o, a):
        en.require(s, 'termination: the checker gets population, best and generation', z3.And(a[0].t == pop.t, a[1].t == best.t, a[2].t == g) if len(a) == 3 else z3.BoolVal(False))
        return [(s, VNum(HOLDS(o.t)))]
    r.contract('TerminationChecker.should_terminate', chk)
    tc = r.f(st, 'termination_checker')
    single, many = tc.items
    n = u.eng.list_len(st, many)
    outs, rs = u.call(st, AL, 'should_terminate', r.al, [pop, best, VNum(g)])
    u.cover('should_terminate', st)
    u.no_raise('should_terminate', rs)
    j = z3.Int('j')
    for s, v in outs:
        t = u.eng.truth(s, v)
        some = z3.Exists([j], z3.And(j >= 0, j < n, HOLDS(elem(u, st, many, j).t)))
        want = z3.If(tc.tag == 0, z3.And(single.t != 0, HOLDS(single.t)), some)
        u.ob('termination: no checker never stops, one decides, of several any', s, t == want)
        frame(u, 'should_terminate', st, s)
    u.ob('termination: returns', st, z3.BoolVal(bool(outs)))


def update_gen(u):
    r = Run(u, AL, exact=False)
    st, e = r.st, u.eng
    pop = r.f(st, 'population')
    sps = u.field(st, pop, 'sub_populations')
    n = e.list_len(st, sps)
    g = z3.Int('gen')
    i, j, x = z3.Ints('i j x')
    inds = lambda s, k: VRef(e.get_field(s.copy(), elem(u, st, sps, k).t, 'Subpopulation', 'individuals').t, TList(TObj('Individual')))
    sp = lambda k: elem(u, st, sps, k).t
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(inds(st, i).t > 0, inds(st, i).t < st.alloc)), patterns=[sp(i)]))
    outs, rs = u.call(st, AL, 'update_gen', r.al, [VNum(g)])
    u.cover('update_gen', st)
    u.no_raise('update_gen', rs)
    for s, _ in outs:
        m = elem(u, st, inds(st, i), j).t
        gen = lambda s_, t: e.get_field(s_.copy(), t, 'Individual', 'gen').t
        u.ob('stamping: every individual carries the number', s, z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < e.list_len(st.copy(), inds(st, i))), gen(s, m) == g), inst=[i, j], keep='all')
        frame(u, 'stamping', st, s, allow=lambda k, r_: None if 'Individual.gen' in k else z3.BoolVal(False))
    u.ob('stamping: returns', st, z3.BoolVal(bool(outs)))


def generation(cname):
    def unit(u):
        r = Run(u, cname)
        st = r.st
        pop = r.f(st, 'population')
        best = z3.Int('best_of_generation')

        def breed(en, s, o, a):
            en.require(s, 'generation: one breeding step first', z3.And(r.g(s, 'ghost_bred') == 0, r.g(s, 'ghost_evals') == 0, a[0].t == pop.t, o.t == r.f(st, 'breeder').t))
            r.bump(s, 'ghost_bred')
            return [(s, VNone)]

        def act(en, s, o, a):
            en.require(s, 'generation: then one evaluation of the bred population', z3.And(r.g(s, 'ghost_bred') == 1, r.g(s, 'ghost_evals') == 0, a[0].t == pop.t, o.t == r.f(st, 'population_evaluator').t))
            r.bump(s, 'ghost_evals')
            v = VRef(best, TObj('Individual'))
            en.wf(s, v)
            s.assume(view(u, s, v).ev)
            return [(s, v)]
        r.contract('Breeder.breed', breed)
        r.contract('PopulationEvaluator.act', act)
        r.contract('NSGA2FrontSorting.select_for_population', lambda en, s, o, a: (en.require(s, 'generation: front sorting after the evaluation', z3.And(r.g(s, 'ghost_evals') == 1, a[0].t == pop.t)), [(s, VNone)])[1])
        r.contract('NSGA2Evolution._get_pareto_fronts', lambda en, s, o, a: [(s, VAny(en.fresh(s, 'fronts', I)))])
        w = z3.Int('worst')
        r.contract('Subpopulation.get_worst_individual', lambda en, s, o, a: [(s, VRef(w, TObj('Individual')))])
        r.publish({})
        fitness_contracts(u)
        sps = u.field(st, pop, 'sub_populations')
        st.assume(u.eng.list_len(st, sps) >= 1)
        b0 = r.f(st, 'best_of_run_')
        st.assume(b0.t != 0)
        st.assume(view(u, st, VRef(b0.t, TObj('Individual'))).ev)
        outs, rs = u.call(st, cname, 'generation_iteration', r.al, [VNum(z3.Int('gen'))])
        u.cover('generation', st)
        u.no_raise('generation_iteration', rs)
        for s, _ in outs:
            u.ob('generation: exactly one breeding step and one evaluation', s, z3.And(r.g(s, 'ghost_bred') == 1, r.g(s, 'ghost_evals') == 1))
            for f in ('generation_num', 'max_generation', 'generation_seed', 'random_seed'):
                u.ob('generation: %s is not touched' % f, s, r.g(s, f) == r.g(st, f))
            if cname == SE:
                vb, v0 = view(u, s, VRef(best, TObj('Individual'))), view(u, st, VRef(b0.t, TObj('Individual')))
                u.ob('generation: best of run replaced exactly by a strictly better best of generation', s, r.f(s, 'best_of_run_').t == z3.If(better(vb, v0), best, b0.t))
                u.ob('generation: best of generation', s, r.f(s, 'best_of_gen').t == best)
        u.ob('generation: returns', st, z3.BoolVal(bool(outs)))
    return unit


def breed(u):
    """Breeder.breed acts once on the population; acting is apply_breed"""
    st = u.state()
    b = u.obj(st, 'Breeder', 'breeder')
    pop = u.obj(st, 'Population', 'pop', exact=True)
    calls = []
    u.eng.contracts['Operator.act'] = Contract('Operator.act', lambda en, s, o, a, k: (calls.append((s.copy(), 'act', o, list(a) + list(k.values()))), [(s, VNone)])[1])
    u.eng.contracts['Breeder.apply_breed'] = Contract('Breeder.apply_breed', lambda en, s, o, a, k: (calls.append((s.copy(), 'apply', o, list(a) + list(k.values()))), [(s, VNone)])[1])
    for m, kind in (('breed', 'act'), ('apply_operator', 'apply')):
        del calls[:]
        outs, rs = u.call(st, 'Breeder', m, b, [pop])
        u.no_raise(m, rs)
        u.ob(m + ': one step', st, z3.BoolVal(len(calls) == 1 and calls[0][1] == kind and len(outs) == 1))
        for s, _, o, a in calls:
            u.ob(m + ': on this population', s, z3.And(o.t == b.t, a[0].t == pop.t))


def ctor(cname):
    def unit(u):
        from . import c16
        u.only = lambda n: 'seed' not in n
        c16.ctor(cname)(u)
    return unit


UNITS = {'main loop': main_loop, 'evolve': evolve, 'initialize': initialize(AL), 'initialize simple': initialize(SE), 'initialize nsga2': initialize('NSGA2Evolution'),
         'finish': finish(AL), 'finish simple': finish(SE), 'finish nsga2': finish('NSGA2Evolution'), 'should terminate': should_terminate, 'stamping': update_gen,
         'generation simple': generation(SE), 'generation nsga2': generation('NSGA2Evolution'), 'breeding step': breed, 'constructor': ctor(AL), 'constructor simple': ctor(SE), 'constructor nsga2': ctor('NSGA2Evolution')}
