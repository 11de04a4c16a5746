"""Discharging obligations.  Back ends: z3 (several configurations), cvc5."""
import time
import z3

STATS = dict(queries=0, z3_s=0.0, cvc5_s=0.0, proved_z3=0, proved_cvc5=0)

_has_q = {}


def has_quant(t):
    k = t.get_id()
    if k in _has_q:
        return _has_q[k][1]
    stack, seen, res = [t], set(), False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        stack.extend(x.children())
    _has_q[k] = (t, res)
    return res


def qf(facts):
    return [f for f in facts if not has_quant(f)]


RL_PER_S = 4000000        # resource units per nominal second: deterministic, machine independent
WALL = 4.0                # wall clock guard, in multiples of the nominal time
LAST = {'reason': ''}


def check(facts, timeout, mbqi=None, seed=0):
    s = z3.Solver()
    s.set('rlimit', int(timeout * RL_PER_S))
    s.set('timeout', int(timeout * WALL * 1000) + 2000)
    if mbqi is not None:
        s.set('smt.mbqi', mbqi)
    if seed:
        s.set('smt.random_seed', seed)
    for f in facts:
        s.add(f)
    t = time.time()
    r = s.check()
    dt = time.time() - t
    STATS['z3_s'] += dt
    STATS['queries'] += 1
    if dt > STATS.get('z3_max', 0):
        STATS['z3_max'] = dt
    LAST['reason'] = s.reason_unknown() if r == z3.unknown else ''
    return str(r), s


def resource_out():
    r = LAST['reason']
    return 'incomplete' not in r and r != ''


def prove(facts, goal, timeout=10.0, want_model=False, use_cvc5=True):
    """-> (status, info); status 'proved' | 'sat' | 'incomplete' | 'resource'
    sat: counter-model of a quantifier-free query; incomplete: the solver saturated without a contradiction;
    resource: every attempt ran out of resources (undecided)"""
    g = z3.simplify(goal)
    if z3.is_true(g):
        return 'proved', 'simplify'
    neg = z3.Not(goal)
    fs = list(facts) + [neg]
    quant = any(has_quant(f) for f in fs)
    if not quant:
        r, s = check(fs, timeout)
        if r == 'unsat':
            STATS['proved_z3'] += 1
            return 'proved', 'z3'
        if r == 'sat':
            return 'sat', s.model()
        if use_cvc5 and cvc5_check(fs, timeout) == 'unsat':
            STATS['proved_cvc5'] += 1
            return 'proved', 'cvc5'
        return 'resource', None
    sat = False
    for mb, seed, tm in ((False, 0, timeout / 3), (False, 7, timeout), (True, 0, timeout / 2)):
        r, s = check(fs, tm, mbqi=mb, seed=seed)
        if r == 'unsat':
            STATS['proved_z3'] += 1
            return 'proved', 'z3' + ('-mbqi' if mb else '')
        if r == 'sat' and mb:
            return 'sat', s.model()
        if not resource_out():
            sat = True
        if not mb and seed == 0:
            try:
                from .ground import ground_check
                r, _ = ground_check(fs, timeout / 3)
            except z3.Z3Exception:
                r = 'unknown'
            if r == 'unsat':
                STATS['proved_z3'] += 1
                return 'proved', 'z3-instances'
    if use_cvc5:
        rr = cvc5_check(fs, timeout)
        if rr == 'unsat':
            STATS['proved_cvc5'] += 1
            return 'proved', 'cvc5'
    return ('incomplete' if sat else 'resource'), None


def cvc5_check(facts, timeout):
    try:
        import cvc5
        s = z3.Solver()
        for f in facts:
            s.add(f)
        txt = s.to_smt2()
        t = time.time()
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(int(timeout * 1000)))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(slv, sm)
            if out and out.strip() in ('sat', 'unsat', 'unknown'):
                res = out.strip()
        STATS['cvc5_s'] += time.time() - t
        return res
    except Exception:
        return None
