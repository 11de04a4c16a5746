"""Bounded replay harness: runs the real code of /repo under executable contracts.

It is the *counterexample search* that accompanies the proofs: `case` functions take JSON-able parameters and raise
`Broken` (via `need`) when the observed behaviour contradicts the property. A failing case is stored as a replay file.
Runs in the project's own interpreter (/opt/venv/bin/python), never writes to the repository.
"""
import ast
import copy
import json
import os
import random
import sys
import time
import traceback

import numpy as np

ROOT = os.environ.get('PYCV_REPO', '/repo')


CASE_LIMIT = 100        # seconds; every case takes well under a second on the unchanged tree


class Broken(Exception):
    pass


class Hung(BaseException):
    pass


def need(cond, msg, *a):
    if not cond:
        raise Broken(msg % a if a else msg)


def raises(fn, exc=Exception):
    """-> the exception fn() raises, or None"""
    try:
        fn()
    except exc as e:
        return e
    return None


def literals(files):
    """numeric literals of the given repository files: the sizes and values at which code is likely to branch"""
    out = set()
    for f in files:
        p = os.path.join(ROOT, f)
        if not os.path.exists(p):
            continue
        try:
            tree = ast.parse(open(p).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and type(n.value) in (int, float) and abs(n.value) < 1e12:
                out.add(n.value)
    return out


class H:
    def __init__(self, seed, tier, files):
        self.seed, self.tier = seed, tier
        self.rng = random.Random(seed * 7919 + 13)
        self.lits = literals(files)
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.per_case = {}
        self.t0 = time.time()
        self.limit = float(os.environ.get('HARNESS_LIMIT') or (240 if tier == 'quick' else 800))
        self.truncated = False

    def scale(self, quick, thorough=None):
        return quick if self.tier == 'quick' else (thorough or quick * 8)

    def ints(self, base, lo=1, hi=60):
        """sizes: the given ones and those next to integer literals of the code"""
        s = set(base)
        for v in self.lits:
            if v == int(v) and lo <= v <= hi:
                s |= {int(v) - 1, int(v), int(v) + 1}
        return sorted(x for x in s if lo <= x <= hi)

    def floats(self, base, hi=1e6):
        s = set(base)
        for v in self.lits:
            if abs(v) <= hi:
                s |= {float(v), -float(v), float(v) + 0.5, float(v) - 0.5}
        return sorted(s)

    def run(self, fn, **params):
        if time.time() - self.t0 > self.limit:
            self.truncated = True
            return
        self.evaluations += 1
        params.setdefault('s', self.rng.randrange(2 ** 31))
        key = fn.__name__ + json.dumps(params, sort_keys=True, default=str)
        e = execute(fn, params)
        if e is not None:
            raise Found(fn, params, e)
        if key not in self.keys:
            self.keys.add(key)
            self.per_case[fn.__name__] = self.per_case.get(fn.__name__, 0) + 1
            if self.per_case[fn.__name__] == 2 and len(self.samples) < 6:
                self.samples.append(key[:300])


class Found(Exception):
    def __init__(self, fn, params, err):
        self.fn, self.params, self.err = fn, params, err


def execute(fn, params):
    """run one case -> None or a description of how the property broke"""
    import signal

    def late(*_):
        raise Hung()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(CASE_LIMIT)
    random.seed(params['s'])
    np.random.seed(params['s'] % 2 ** 32)
    try:
        with np.errstate(all='ignore'):
            fn(**params)
    except Broken as e:
        return 'contract violated: %s' % e
    except (KeyboardInterrupt, MemoryError):
        raise
    except Hung:
        # beside other runs of the harness the time a case takes says nothing
        return None if os.environ.get('HARNESS_LIMIT') else 'unexpected hang: no end after %d s\n%s' % (CASE_LIMIT, traceback.format_exc()[-1500:])
    except RecursionError:
        return 'unexpected RecursionError\n' + traceback.format_exc(limit=-4)
    except BaseException as e:
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    return None


# ---------------------------------------------------------------- shared building blocks

def _imports():
    global Individual, SimpleFitness, GPFitness, Subpopulation, Population
    from eckity.individual import Individual
    from eckity.fitness.simple_fitness import SimpleFitness
    from eckity.fitness.gp_fitness import GPFitness
    from eckity.subpopulation import Subpopulation
    from eckity.population import Population
    import logging
    logging.disable(logging.CRITICAL)


_imports()


class Ind(Individual):
    """a user-defined individual with a list genome"""

    def __init__(self, fitness, genome, update_parents=False):
        super().__init__(fitness, update_parents=update_parents)
        self.genome = list(genome)

    def size(self):
        return len(self.genome)

    def execute(self, *a, **k):
        return self.genome

    def show(self):
        pass


def genome(ind):
    for n in ('genome', 'vector'):
        if hasattr(ind, n):
            return copy.copy(getattr(ind, n))
    return [node_key(n) for n in ind.tree]


def node_key(n):
    return ('F', n.function, n.node_type) if hasattr(n, 'function') else ('T', n.value, n.node_type)


def score(ind):
    try:
        return ind.get_pure_fitness()
    except ValueError:
        return 'unevaluated'


def snap(ind):
    """observable state of an individual"""
    s = score(ind)
    return dict(id=ind.id, gen=ind.gen, genome=genome(ind), score=list(s) if isinstance(s, list) else s,
                cloned_from=ind.cloned_from, selected_by=list(ind.selected_by),
                applied=list(ind.applied_operators), parents=list(getattr(ind, 'parents', ['-'])),
                fit=id(ind.fitness))


def better(a, b, hib):
    """strictly better, on augmented scores"""
    return a > b if hib else a < b


def aug(ind):
    f = ind.fitness
    s = f.fitness
    w = getattr(f, 'bloat_weight', 0)
    return s - w * ind.size() if f.higher_is_better else s + w * ind.size()


def mk(scores, hib, kind='simple', bloat=0.5, sizes=None, cache=True, parents=False):
    """individuals with the given scores and unique genomes"""
    out = []
    for i, s in enumerate(scores):
        n = sizes[i] if sizes else 3
        f = SimpleFitness(s, higher_is_better=hib, cache=cache) if kind == 'simple' else \
            GPFitness(s, higher_is_better=hib, bloat_weight=bloat, cache=cache)
        out.append(Ind(f, [('g', i, j) for j in range(n)], update_parents=parents))
    return out


def main(argv):
    import importlib
    if argv[0] == 'replay':
        d = json.load(open(argv[1]))
        m = importlib.import_module('harness.' + d['module'])
        e = execute(getattr(m, d['case']), d['params'])
        print('REPRODUCED: ' + e if e else 'not reproduced')
        return 1 if e else 0
    prop, seed, tier, out = argv[0], int(argv[1]), argv[2], argv[3]
    files = json.loads(argv[4]) if len(argv) > 4 else []
    t = time.time()
    res = dict(violation=None)
    h = H(seed, tier, files)
    try:
        m = importlib.import_module('harness.' + prop.lower())
        m.run(h)
    except Found as f:
        res['violation'] = dict(property=prop, module=prop.lower(), case=f.fn.__name__, params=f.params, message=f.err)
    except Exception:
        res['error'] = traceback.format_exc()[-3000:]
    res.update(evaluations=h.evaluations, distinct=len(h.keys), samples=h.samples, per_case=h.per_case,
               truncated=h.truncated, wall_s=round(time.time() - t, 2))
    json.dump(res, open(out, 'w'), default=str)
    return 0


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from harness import common
    sys.exit(common.main(sys.argv[1:]))
