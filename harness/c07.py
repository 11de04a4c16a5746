"""C07 operator application template and retries"""
import math
from .common import *
from eckity.genetic_operators import (GeneticOperator, FailableOperator, IdentityTransformation, VectorKPointsCrossover, IntVectorNPointMutation,
                                      IntVectorOnePointMutation, SubtreeCrossover, SubtreeMutation, ERCMutation, BitStringVectorFlipMutation,
                                      FloatVectorUniformNPointMutation, FloatVectorGaussOnePointMutation, BitStringVectorNFlipMutation)
from eckity.genetic_encodings.ga import IntVector, FloatVector, BitStringVector
from .trees import rand_tree, UNTYPED_ERC

DOC = 'user-defined and built-in operators on groups of 1..6 individuals; retry scripts; probabilities 0, 1 and in between'


class Op(GeneticOperator):
    def __init__(self, res, log, **k):
        super().__init__(**k)
        self.res, self.log = res, log

    def apply(self, individuals):
        self.log.append([snap(i) for i in individuals])
        return self.res if self.res is not None else individuals


class Fail(FailableOperator):
    def __init__(self, script, handler, log, **k):
        super().__init__(**k)
        self.script, self.handler, self.log = script, handler, log

    def attempt_operator(self, payload, attempt_num):
        self.log.append(('try', attempt_num, payload))
        k = len([x for x in self.log if x[0] == 'try']) - 1
        ok = self.script[k] if k < len(self.script) else False
        return ok, (['result', k] if ok else ['failed', k])

    def on_fail(self, payload):
        self.log.append(('fail', None, payload))
        return self.handler


class FailDefault(FailableOperator):
    def attempt_operator(self, payload, attempt_num):
        return False, None


def group(n, rng, kind='simple'):
    g = []
    for k in range(n):
        i = mk([rng.choice([0.0, 1.0, -2.0]) if rng.random() < .7 else None], rng.random() < .5, kind, parents=rng.random() < .6)[0]
        i.applied_operators.extend(['before'] * rng.randint(0, 3))
        if i.update_parents:
            i.parents.extend([7] * rng.randint(0, 2))
        g.append(i)
    return g


def applied(n, result, kind, via, s):
    rng = random.Random(s)
    g = group(n, rng, kind)
    res = {'same': None, 'new': group(rng.randint(0, 4), rng), 'mixed': g[:1] + group(2, rng), 'subset': g[1:], 'rev': g[::-1]}[result]
    log = []
    op = Op(res, log, probability=1, arity=n)
    out = g if res is None else res
    before = {id(i): snap(i) for i in list(g) + list(out)}
    gl, ol = list(g), list(out)
    ids = [i.id for i in g]
    r = op.act(g) if via == 'act' else op.apply_operator(g)
    need(len(log) == 1, 'operator applied %d times', len(log))
    need(all(x['score'] == 'unevaluated' for x in log[0]) or all(score(i) == 'unevaluated' for i in gl), 'fitness not invalidated')
    for i in gl:
        need(not i.fitness.is_fitness_evaluated() and score(i) == 'unevaluated', 'an individual of the group keeps its fitness')
        if not any(i is o for o in ol):
            need(i.applied_operators == before[id(i)]['applied'], 'entry for an individual that is not a result')
    need(len(r) == len(ol) and all(a is b for a, b in zip(r, ol)), 'result of apply not returned')
    for i in ol:
        b = before[id(i)]
        need(i.applied_operators == b['applied'] + ['Op'], 'history %r after %r', i.applied_operators, b['applied'])
        if i.update_parents:
            need(i.parents == b['parents'] + ids, 'parents %r, expected %r', i.parents, b['parents'] + ids)
        else:
            need(not hasattr(i, 'parents'), 'parents recorded though tracking is off')
        need(i.id == b['id'] and genome(i) == b['genome'] and i.selected_by == b['selected_by'] and i.cloned_from == b['cloned_from'], 'something else changed')


def probability(p, n, draws, s):
    rng = random.Random(s)
    log, hits = [], 0
    op = Op(None, log, probability=p, arity=n)
    for _ in range(draws):
        g = group(n, rng)
        b, k = [snap(i) for i in g], len(log)
        r = op.apply_operator(g)
        need(len(r) == n and all(x is y for x, y in zip(r, g)), 'other individuals returned')
        if len(log) == k:
            need([snap(i) for i in g] == b, 'not applied, but individuals changed')
        else:
            hits += 1
            need(len(log) == k + 1 and all(i.applied_operators[-1:] == ['Op'] and score(i) == 'unevaluated' for i in g), 'application incomplete')
    if p == 1:
        need(hits == draws, 'probability 1 skipped an application')
    elif p == 0:
        need(hits == 0, 'probability 0 applied')
    else:
        need(abs(hits - draws * p) <= 6.5 * math.sqrt(draws * p * (1 - p)) + 3, 'probability %r applied %d of %d times', p, hits, draws)


def extreme(p, rnd, s):
    """the extreme draws of the random source"""
    import random as rmod
    import eckity.genetic_operators.genetic_operator as mod
    keep = rmod.random
    rmod.random = lambda: rnd
    try:
        g = group(2, random.Random(s))
        log, b = [], [snap(i) for i in g]
        r = Op(None, log, probability=p, arity=2).apply_operator(g)
        need(len(log) == (1 if p == 1 else 0), 'probability %r with draw %r: applied %d times', p, rnd, len(log))
        if p == 0:
            need([snap(i) for i in g] == b and all(x is y for x, y in zip(r, g)), 'untouched')
    finally:
        rmod.random = keep


def retry(attempts, first, handler, via, s):
    log = []
    script = [False] * first + [True] * 3
    h = ['handled'] if handler else None
    op = Fail(script, h, log, probability=1.0, arity=1, attempts=attempts)
    payload = []
    r = op.apply(payload) if via == 'apply' else None
    tries = [x for x in log if x[0] == 'try']
    fails = [x for x in log if x[0] == 'fail']
    need(all(x[2] is payload for x in log), 'payload')
    if first < attempts:
        need(len(tries) == first + 1 and not fails, '%d attempts, %d failure handlers; success at %d of %d', len(tries), len(fails), first, attempts)
        need(r == ['result', first], 'result %r', r)
    else:
        need(len(tries) == attempts and len(fails) == 1, '%d attempts of %d, %d failure handlers', len(tries), attempts, len(fails))
        need(r is h and log[-1][0] == 'fail', 'result of the failure handler not returned')


def retry_default(attempts, n, s):
    g = group(n, random.Random(s))
    op = FailDefault(probability=1.0, arity=n, attempts=attempts)
    b = [snap(i) for i in g]
    r = op.apply_operator(g)
    need(len(r) == n and all(x is y for x, y in zip(r, g)), 'default failure handler')
    for i, x in zip(g, b):
        need(i.applied_operators == x['applied'] + ['FailDefault'] and genome(i) == x['genome'], 'history after failure')


def refused(a, s):
    need(raises(lambda: FailDefault(attempts=a)), '%d attempts accepted', a)


def built_in(which, p, s):
    rng = random.Random(s)
    vec = lambda c, lo, hi: c(SimpleFitness(1.0, higher_is_better=True, cache=True), length=6, bounds=(lo, hi), vector=[lo] * 6, update_parents=True)
    ops = {'id': (lambda: IdentityTransformation(probability=p), lambda: vec(IntVector, 0, 9)),
           'xo': (lambda: VectorKPointsCrossover(probability=p, k=2), lambda: vec(IntVector, 0, 9)),
           'intn': (lambda: IntVectorNPointMutation(probability=p, n=2), lambda: vec(IntVector, 0, 9)),
           'int1': (lambda: IntVectorOnePointMutation(probability=p), lambda: vec(IntVector, 0, 9)),
           'flip': (lambda: BitStringVectorFlipMutation(probability=p), lambda: vec(BitStringVector, 0, 1)),
           'nflip': (lambda: BitStringVectorNFlipMutation(probability=p, n=3), lambda: vec(BitStringVector, 0, 1)),
           'uni': (lambda: FloatVectorUniformNPointMutation(probability=p, n=2), lambda: vec(FloatVector, 0.0, 1.0)),
           'gauss': (lambda: FloatVectorGaussOnePointMutation(probability=p, sigma=0.01, mu=0.3), lambda: vec(FloatVector, 0.0, 1.0)),
           'sxo': (lambda: SubtreeCrossover(probability=p), lambda: rand_tree(rng, UNTYPED_ERC, 3, update_parents=True)),
           'smut': (lambda: SubtreeMutation(probability=p), lambda: rand_tree(rng, UNTYPED_ERC, 3, update_parents=True)),
           'erc': (lambda: ERCMutation(probability=p), lambda: rand_tree(rng, UNTYPED_ERC, 3, update_parents=True))}
    mkop, mki = ops[which]
    op = mkop()
    for _ in range(3):
        g = [mki() for _ in range(op.arity)]
        b = [snap(i) for i in g]
        r = op.act(g)
        need(len(r) == len(g) and all(x is y for x, y in zip(r, g)), 'other individuals returned')
        for i, x in zip(g, b):
            if p == 0:
                need(snap(i) == x, 'probability 0 changed an individual')
            else:
                need(score(i) == 'unevaluated', '%s keeps the fitness', which)
                need(i.applied_operators[len(x['applied']):].count(type(op).__name__) == 1, '%s history %r', which, i.applied_operators)
                need(i.parents[:len(x['parents'])] == x['parents'] and i.parents[-len(g):] == [k.id for k in g], 'parents')


def run(h):
    r = h.rng
    for n in h.ints([1, 2, 3, 6], 1, 12):
        for result in ('same', 'new', 'mixed', 'subset', 'rev'):
            for kind in ('simple', 'gp'):
                h.run(applied, n=n, result=result, kind=kind, via=r.choice(['act', 'apply']))
    for p, d in ((1, 300), (1.0, 300), (0, 300), (0.0, 300), (0.5, 1500), (0.1, 1500), (0.9, 1500), (0.05, 1500)):
        for n in (1, 2):
            h.run(probability, p=p, n=n, draws=d)
    for p in (0, 0.0, 1, 1.0):
        for x in (0.0, 1e-300, 0.5, 1 - 2 ** -53):
            h.run(extreme, p=p, rnd=x)
    for att in h.ints([1, 2, 3, 5, 8], 1, 24):
        for first in sorted({0, 1, att - 1, att, att + 1}):
            for hd in (True, False):
                h.run(retry, attempts=att, first=first, handler=hd, via='apply')
        h.run(retry_default, attempts=att, n=2)
    for a in (0, -1, -5):
        h.run(refused, a=a)
    for w in ('id', 'xo', 'intn', 'int1', 'flip', 'nflip', 'uni', 'gauss', 'sxo', 'smut', 'erc'):
        for p in (0, 1.0):
            for _ in range(4):
                h.run(built_in, which=w, p=p)
