"""C16: the seed schedule (the units on the phases of a run are shared with C15)."""
import z3
from pycv.engine import Contract
from pycv.vals import *
from .common import *
from . import c15
from .c15 import Run, AL, SE, M32, seeded


def shared(unit):
    def f(u):
        u.only = lambda n: 'seed' in n or n.endswith('returns') or ': no ' in n
        unit(u)
    return f


def rng(u):
    r = Run(u, AL, exact=False)
    st, e = r.st, u.eng
    g = r.f(st, 'random_generator')
    v = z3.Int('seed')
    outs, rs = u.call(st, 'RNG', 'set_seed', g, [VNum(v)])
    u.no_raise('set_seed', rs)
    for s, _ in outs:
        u.ob('set_seed: seeds both random sources', s, seeded(s, v))
        k = e.get_field(s.copy(), g.t, 'RNG', '_seed')
        u.ob('set_seed: recorded', s, z3.And(z3.Not(k.none), k.v.t == v))
        frame(u, 'set_seed', st, s, allow=lambda k, r_: r_ == g.t if 'RNG._seed' in k else z3.BoolVal(False))
    u.ob('set_seed: returns', st, z3.BoolVal(bool(outs)))
    for m, f in (('set_random_seed', 'random_seed'), ('set_generation_seed', 'generation_seed')):
        outs, rs = u.call(st, AL, m, r.al, [VNum(v)])
        u.no_raise(m, rs)
        for s, _ in outs:
            u.ob(m + ': seeds both random sources', s, seeded(s, v))
            u.ob(m + ': recorded', s, r.g(s, f) == v)
            frame(u, m, st, s, allow=lambda k, r_: r_ == g.t if 'RNG._seed' in k else r_ == r.al.t if k.split(':')[1].endswith('.' + f) else z3.BoolVal(False))
        u.ob(m + ': returns', st, z3.BoolVal(bool(outs)))
    outs, rs = u.call(st, AL, 'next_seed', r.al, [])
    u.no_raise('next_seed', rs)
    for s, x in outs:
        u.ob('next_seed: one more, modulo 2**32', s, x.t == (r.g(st, 'generation_seed') + 1) % M32)
        frame(u, 'next_seed', st, s)
        u.ob('next_seed: draws nothing', s, seeded_as(s, st))
    u.ob('next_seed: returns', st, z3.BoolVal(bool(outs)))


def seeded_as(s, st):
    return z3.And(*[s.glob[x].t == st.glob[x].t for x in ('$std_seed', '$np_seed')])


def ctor(cname):
    def unit(u):
        """__init__: the seed of the run and the base of the generation seeds"""
        r = Run(u, cname, exact=cname != AL)
        st, e = r.st, u.eng
        for n in (AL + '._validate_population_type', AL + '._validate_statistics_type'):
            e.contracts[n] = Contract(n, lambda en, s, o, a, k: [(s, VNone)])
        sd, gs = VOpt(z3.Bool('no_seed'), VNum(z3.Int('seed'))), VOpt(z3.Bool('no_base'), VNum(z3.Int('base')))
        gen = r.f(st, 'random_generator')
        br, pe = u.obj(st, 'SimpleBreeder', 'breeder_'), u.obj(st, 'SimplePopulationEvaluator', 'evaluator_')
        mx, g0 = z3.Ints('limit first')
        more = dict(NSGA2FrontSorting=u.obj(st, 'NSGA2FrontSorting', 'sorting_')) if cname == 'NSGA2Evolution' else {}
        more['termination_checker'] = u.obj(st, 'TerminationChecker', 'checker_')
        for ex in ('thread', 'process'):
            outs, rs = u.call(st, cname, '__init__', r.al, [r.f(st, 'population')],
                              dict(statistics=r.f(st, 'statistics'), random_generator=gen, random_seed=sd, generation_seed=gs, executor=VStr(ex), breeder=br, population_evaluator=pe,
                                   max_generation=VNum(mx), generation_num=VNum(g0), **more))
            u.cover('constructor', st)
            u.no_raise('constructor', rs)
            for s, _ in outs:
                k = r.g(s, 'random_seed')
                u.ob('constructor: an explicit seed is kept', s, z3.Implies(z3.Not(sd.none), k == sd.v.t))
                u.ob('constructor: a derived seed is in range', s, z3.Implies(sd.none, z3.And(k >= 0, k < M32)))
                u.ob('constructor: the seed base defaults to the seed', s, r.g(s, 'generation_seed') == z3.If(gs.none, k, gs.v.t))
                u.ob('constructor: the generator that is seeded is kept', s, r.f(s, 'random_generator').t == gen.t)
                u.ob('constructor: the limit is kept', s, z3.And(r.g(s, 'max_generation') == mx, r.g(s, 'generation_num') == g0))
                u.ob('constructor: breeder and evaluator are kept', s, z3.And(r.f(s, 'breeder').t == br.t, r.f(s, 'population_evaluator').t == pe.t))
            u.ob('constructor: returns', st, z3.BoolVal(bool(outs)))
    return unit


UNITS = {'seed schedule': shared(c15.main_loop), 'first seeding': shared(c15.initialize(AL)), 'first seeding simple': shared(c15.initialize(SE)),
         'first seeding nsga2': shared(c15.initialize('NSGA2Evolution')), 'seeding': rng, 'constructor': shared(ctor(AL)), 'constructor simple': shared(ctor(SE)), 'constructor nsga2': shared(ctor('NSGA2Evolution'))}
