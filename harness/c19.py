"""C19 identity and clones"""
import types
from .common import *
from .trees import rand_tree, TYPED, UNTYPED
from eckity.genetic_encodings.ga import IntVector, FloatVector, BitStringVector
from eckity.genetic_encodings.gp import Tree
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.creators.ga_creators.int_vector_creator import GAIntVectorCreator
from eckity.creators.gp_creators.half import HalfCreator
import eckity.base.untyped_functions as U

DOC = 'creation and clone histories of all encodings; object graphs of clone and origin compared and mutated'
ATOM = (int, float, str, bytes, bool, type(None), type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, np.ufunc, np.generic)


def reach(o, seen=None):
    """ids of all mutable objects reachable"""
    seen = {} if seen is None else seen
    if isinstance(o, ATOM) or id(o) in seen:
        return seen
    if isinstance(o, (tuple, frozenset)):
        for x in o:
            reach(x, seen)
        return seen
    seen[id(o)] = o
    if isinstance(o, dict):
        for k, v in o.items():
            reach(k, seen)
            reach(v, seen)
    elif isinstance(o, (list, set)):
        for x in o:
            reach(x, seen)
    elif hasattr(o, '__dict__'):
        reach(vars(o), seen)
        del seen[id(vars(o))]
    return seen


def make(kind, fk, hib, cache, parents, evaluated, rng, sc=0.0):
    if fk == 'nsga':
        f = NSGA2Fitness(higher_is_better=[hib, not hib], cache=cache)
        val = [sc, 1.0]
    else:
        f = SimpleFitness(higher_is_better=hib, cache=cache) if fk == 'simple' else GPFitness(higher_is_better=hib, cache=cache, bloat_weight=0.25)
        val = sc
    n = rng.choice([1, 2, 7])
    if kind == 'user':
        ind = Ind(f, [rng.random() for _ in range(n)], update_parents=parents)
    elif kind == 'int':
        bs = [(0, i + 3) for i in range(n)] if rng.random() < .5 else (-2, 9)
        ind = IntVector(f, length=n, bounds=bs, vector=[rng.randint(0, 3) for _ in range(n)], update_parents=parents)
    elif kind == 'float':
        bs = [(0.0, i + 3.0) for i in range(n)] if rng.random() < .5 else (-2.0, 9.0)
        ind = FloatVector(f, length=n, bounds=bs, vector=[rng.random() for _ in range(n)], update_parents=parents)
    elif kind == 'bit':
        ind = BitStringVector(f, length=n, vector=[rng.randint(0, 1) for _ in range(n)], update_parents=parents)
    else:
        ind = rand_tree(rng, UNTYPED if kind == 'tree' else TYPED, depth=rng.choice([0, 1, 3]) if kind == 'tree' else 3, fitness=f, update_parents=parents)
    if evaluated:
        f.set_fitness(val)
    return ind, val


def settings(ind):
    d = {k: getattr(ind, k) for k in ('bounds', 'length', 'update_parents', 'function_set', 'terminal_set', 'erc_range', 'root_type') if hasattr(ind, k)}
    f = ind.fitness
    d['fit'] = (type(f), f.higher_is_better, f.cache, f.is_relative_fitness, getattr(f, 'bloat_weight', None))
    return d


def clone(kind, fk, hib, cache, parents, evaluated, sc, s):
    rng = random.Random(s)
    o, val = make(kind, fk, hib, cache, parents, evaluated, rng, sc)
    o.gen = 5
    o.selected_by.append('x')
    o.applied_operators.extend(['y', 'z'])
    if parents:
        o.parents.extend([1, 2])
    ids = {o.id}
    before, g0 = snap(o), settings(o)
    attrs = {k: id(v) for k, v in vars(o).items()}
    last = o
    for k in range(3):
        src = last if k == 2 else o
        sb = snap(src)
        c = src.clone()
        need(type(c) is type(o) and c is not src, 'clone has another type')
        need(c.id not in ids, 'clone has the id %r of an earlier individual', c.id)
        ids.add(c.id)
        need(c.cloned_from == src.id, 'clone remembers %r, origin is %r', c.cloned_from, src.id)
        need(genome(c) == genome(src), 'genomes differ')
        need(str(settings(c)) == str(settings(src)), 'settings differ: %r %r', settings(c), settings(src))
        if parents:
            need(c.parents == [], 'clone starts with parents %r', c.parents)
        need(snap(src) == sb, 'cloning modified the origin')
        if cache:
            need(c.fitness.is_fitness_evaluated() == evaluated and score(c) == (val if evaluated else 'unevaluated'), 'cached fitness lost')
        else:
            need(not c.fitness.is_fitness_evaluated() and score(c) == 'unevaluated', 'clone of an uncached fitness is evaluated')
        a, b2 = reach(o), reach(c)
        sh = [x for i, x in a.items() if i in b2]
        need(not sh, 'clone shares mutable state with its origin: %r', sh[:1] and type(sh[0]))
        last = c
    need({k: id(v) for k, v in vars(o).items()} == attrs, 'origin attributes replaced')
    # change either, the other stays
    keep, g = snap(c), settings(o)
    o.selected_by.append('new')
    o.applied_operators.append('new')
    o.gen = 77
    (o.genome if kind == 'user' else o.vector if kind in ('int', 'float', 'bit') else o.tree).append('extra')
    o.set_fitness_not_evaluated()
    need(snap(c) == keep, 'changing the origin changed the clone')
    keep = o.selected_by[:], o.applied_operators[:], len(reach(o))
    c.selected_by.append('q')
    c.set_fitness_not_evaluated()
    c.fitness.set_fitness(val)
    (c.genome if kind == 'user' else c.vector if kind in ('int', 'float', 'bit') else c.tree).clear()
    need(keep == (o.selected_by, o.applied_operators, len(reach(o))) and score(o) == 'unevaluated', 'changing the clone changed the origin')


def unique(n, s):
    rng = random.Random(s)
    seen, pool = set(), []
    for k in range(n):
        a = rng.random()
        if a < .4 or not pool:
            new = [make(rng.choice(['user', 'int', 'float', 'bit', 'tree', 'typed']), 'simple', True, False, False, False, rng)[0]]
        elif a < .7:
            new = [rng.choice(pool).clone()]
        elif a < .85:
            new = GAIntVectorCreator(length=2, bounds=(0, 5)).create_individuals(rng.randint(1, 4), False)
        else:
            new = HalfCreator(init_depth=(1, 2), function_set=[U.f_add, U.f_neg], terminal_set=['x', 'y']).create_individuals(4, True)
        for i in new:
            need(i.id not in seen, 'id %r used twice', i.id)
            seen.add(i.id)
            need(i.cloned_from == -1 or i.cloned_from in seen, 'origin of an individual is unknown')
        pool += new


def run(h):
    r = h.rng
    for kind in ('user', 'int', 'float', 'bit', 'tree', 'typed'):
        for fk in ('simple', 'gp', 'nsga'):
            for cache in (False, True):
                for parents in (False, True):
                    for ev in (False, True):
                        for _ in range(h.scale(3)):
                            h.run(clone, kind=kind, fk=fk, hib=r.random() < .5, cache=cache, parents=parents, evaluated=ev, sc=r.choice([0.0, 1.5, -2.0]))
    for n in h.ints([10, 60, 300], 1, 120):
        h.run(unique, n=n)
