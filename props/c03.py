"""C03: elites (the units on breeding, selection and construction are shared with C02, C04 and C21)."""
from . import c02, c04, c21


def shared(unit, *words):
    def f(u):
        u.only = lambda n: any(w in n for w in words) or n.endswith('returns') or n.startswith('cover')
        unit(u)
    return f


UNITS = {'breeding': shared(c02.breed, 'elites:', 'elitism reads', 'operators: only copies', 'operators: distinct'),
         'operators': shared(c02.apply_operators, 'operators: only the given'),
         'elitism': c04.elitism,
         'number of elites': shared(c21.constructor('one'), 'rate times')}
