"""C17 publish/subscribe"""
from .common import *
from eckity.before_after_publisher import BeforeAfterPublisher
from eckity.event_based_operator import Operator
from eckity.genetic_operators import (TournamentSelection, ElitismSelection, FitnessProportionateSelection, GeneticOperator,
                                      FailableOperator, VectorKPointsCrossover, IntVectorNPointMutation)

DOC = 'random register/unregister/publish histories against a list model; act() of user-defined and built-in operators'


class Op(Operator):
    def __init__(self, log, result, arity=1, events=None, event_names=None, fail=False):
        super().__init__(arity=arity, events=events, event_names=event_names)
        self.log, self.result, self.fail = log, result, fail

    def apply_operator(self, payload):
        self.log.append(('act', payload))
        self.applied_individuals = payload
        if self.fail:
            raise ArithmeticError('user error')
        return self.result


class Pub(BeforeAfterPublisher):
    """publisher with its own event data"""
    n = 0

    def event_name_to_data(self, name):
        return {'event': name, 'n': self.n}


def history(steps, extra, s, kind='plain', plain_events=False):
    rng = random.Random(s)
    names = ['e%d' % i for i in range(extra)]
    if plain_events:
        evs = names + ['before_operator', 'after_operator']
        mkpub = lambda: Pub(events={e: {} for e in evs})
    else:
        evs = names + ['before_operator', 'after_operator']
        mkpub = lambda: Pub(event_names=list(names)) if names or rng.random() < .5 else Pub()
    pubs = [mkpub(), mkpub()]
    model = [{e: [] for e in evs} for _ in pubs]      # event -> [(id, tag)]
    used = [[], []]
    calls = []
    tag = [0]

    def cb(t):
        def f(sender, data):
            calls.append((t, sender, data))
        return f
    shared = cb('shared')
    for k in range(steps):
        i = rng.randrange(2)
        p, m = pubs[i], model[i]
        e = rng.choice(evs)
        a = rng.random()
        if a < .45:
            tag[0] += 1
            if rng.random() < .1:
                t, f = 'shared', shared
            elif rng.random() < .1:
                t, f = None, None
            else:
                t = tag[0]
                f = cb(t)
            cid = p.register(e, f) if f is not None else p.register(e)
            need(cid not in used[i], 'id %r handed out twice', cid)
            used[i].append(cid)
            m[e].append((cid, t))
        elif a < .6 and any(m.values()):
            e = rng.choice([x for x in evs if m[x]])
            j = rng.randrange(len(m[e]))
            p.unregister(e, m[e][j][0])
            del m[e][j]
        else:
            calls.clear()
            p.n += 1
            p.publish(e)
            want = [t for _, t in m[e] if t is not None]
            need([c[0] for c in calls] == want, 'publish %s called %r, expected %r', e, [c[0] for c in calls], want)
            for c in calls:
                need(c[1] is p, 'callback got the wrong publisher')
                need(c[2] == {'event': e, 'n': p.n}, 'callback got the wrong data %r', c[2])
    for p, m in zip(pubs, model):
        for e in evs:
            calls.clear()
            p.publish(e)
            need([c[0] for c in calls] == [t for _, t in m[e] if t is not None], 'final publish %s', e)


def act(arity, payload_len, n_before, n_after, none_result, fail, s):
    log = []
    res = None if none_result else [object()]
    op = Op(log, res, arity=arity, fail=fail, event_names=['extra'] if s % 2 else None)
    other = Op(log, res, arity=arity)
    other.register('before_operator', lambda *_: log.append('other'))
    other.register('after_operator', lambda *_: log.append('other'))
    for k in range(max(n_before, n_after)):           # interleaved
        if k < n_before:
            op.register('before_operator', lambda sender, data, k=k: log.append(('before', k, sender, dict(data))))
        if k < n_after:
            op.register('after_operator', lambda sender, data, k=k: log.append(('after', k, sender, dict(data))))
    if s % 2:
        op.register('extra', lambda *_: log.append('extra'))
    payload = [object() for _ in range(payload_len)] if payload_len >= 0 else object()
    bad = (payload_len != arity) if payload_len >= 0 else arity != 1
    if bad:
        need(raises(lambda: op.act(payload)), 'payload of the wrong arity accepted')
        need(not log, 'something happened before a payload of the wrong arity was rejected: %r', log)
        return
    if fail:
        need(isinstance(raises(lambda: op.act(payload)), ArithmeticError), 'exception of the action lost')
        need(sum(1 for x in log if x[0] == 'act') == 1, 'action repeated')
        return
    got = op.act(payload)
    need(got is res, 'act returned %r instead of the result of the action', got)
    want = ['before'] * n_before + ['act'] + ['after'] * n_after
    need([x[0] for x in log] == want, 'order of events %r', [x[0] if isinstance(x, tuple) else x for x in log])
    need([x[1] for x in log[:n_before]] == list(range(n_before)), 'order of before callbacks')
    need([x[1] for x in log[n_before + 1:]] == list(range(n_after)), 'order of after callbacks')
    need(log[n_before][1] is payload, 'payload')
    for x in log:
        if x[0] in ('before', 'after'):
            need(x[2] is op, 'sender')
    for x in log[n_before + 1:]:
        need(x[3].get('applied_individuals') is payload, 'data of the after event')
    log.clear()
    need(op.act(payload) is res and [x[0] for x in log] == want, 'second act')


def built_in(which, n, s):
    """act() through built-in operators"""
    log = []
    if which in ('tour', 'elite', 'fp'):
        op = {'tour': lambda: TournamentSelection(2), 'elite': lambda: ElitismSelection(n), 'fp': lambda: FitnessProportionateSelection()}[which]()
        src, dst = mk([float(i + 1) for i in range(n)], False), []
        payload = (src, dst)
        observe = lambda: len(dst)
    else:
        from eckity.genetic_encodings.ga import IntVector
        op = VectorKPointsCrossover(k=1) if which == 'xo' else IntVectorNPointMutation(n=1)
        payload = [IntVector(SimpleFitness(1.0), length=n + 2, bounds=(0, 9), vector=[0] * (n + 2)) for _ in range(op.arity)]
        observe = lambda: len(payload[0].applied_operators)
    op.register('before_operator', lambda snd, d: log.append(('b', observe())))
    op.register('after_operator', lambda snd, d: log.append(('a', observe())))
    r = op.act(payload)
    need(len(log) == 2 and log[0] == ('b', 0), '%s: before event %r', which, log)
    need(log[1][0] == 'a' and log[1][1] >= 1, '%s: after event %r', which, log)
    if which in ('tour', 'elite', 'fp'):
        need(r is dst and len(dst) == n, '%s: result', which)
    else:
        need(len(r) == len(payload) and all(x is y for x, y in zip(r, payload)), '%s: result', which)


def run(h):
    r = h.rng
    for kind in (False, True):
        for extra in (0, 1, 3):
            for _ in range(h.scale(25)):
                h.run(history, steps=r.choice([5, 20, 60, 150]), extra=extra, plain_events=kind)
    for arity in h.ints([1, 2, 3, 5], 1, 12):
        for pl in (-1, 0, arity - 1, arity, arity + 1):
            for nb, na in ((0, 0), (1, 0), (0, 1), (1, 1), (3, 2), (2, 12)):
                for nr in (False, True):
                    h.run(act, arity=arity, payload_len=pl, n_before=nb, n_after=na, none_result=nr, fail=False)
        h.run(act, arity=arity, payload_len=arity, n_before=1, n_after=1, none_result=False, fail=True)
    for w in ('tour', 'elite', 'fp', 'xo', 'mut'):
        for n in (1, 2, 5, 11):
            h.run(built_in, which=w, n=n)
