"""Running one proof unit (one function, or one lemma over contracts)."""
import json
import multiprocessing as mp
import os
import time
import traceback
import z3
from . import solver
from .repo import Repo
from .engine import Engine, Contract
from .vals import *


class Unit:
    """handed to the functions of props/*.py"""

    def __init__(self, repo, name):
        self.repo = repo
        self.name = name
        self.eng = Engine(repo)
        from props import schema
        schema.setup(self.eng)
        self.obs = []
        self.assumed = []
        self.covers = []
        self.timeout = 12.0

    # -- building
    def state(self):
        st = self.eng.new_state()
        return st

    def cls(self, n):
        return self.repo.classes[n]

    def obj(self, st, cname, name, exact=False, null=False):
        v = VRef(z3.Int(name), TObj(cname, exact=exact, null=null))
        self.eng.wf(st, v)
        if exact:
            K = self.eng.comp(st, 'cls', z3.ArraySort(I, I))
            st.assume(K[v.t] == self.cls(cname).code)
        return v

    def list(self, st, elem, name):
        v = VRef(z3.Int(name), TList(elem))
        self.eng.wf(st, v)
        return v

    def field(self, st, v, f):
        return self.eng.get_field(st, v.t, v.ty.cname, f)

    def meth(self, cname, name):
        c = self.repo.classes.get(cname)
        m = self.repo.find_method(c, name) if c else None
        if m is None:
            raise Unsupported('no function %s.%s in the repository' % (cname, name))
        return m

    def func(self, module, name):
        m = self.repo.modules.get(module)
        r = self.repo.resolve(m, name) if m else None
        if r is None or r[0] != 'func':
            raise Unsupported('no function %s.%s in the repository' % (module, name))
        return r[1]

    # -- running
    def run(self, thunk):
        """-> (normal outcomes [(st,V)], raises [(st, VExc)])"""
        self.eng.raised.append([])
        try:
            outs = thunk()
        finally:
            rs = self.eng.raised.pop()
        return outs, rs

    def call(self, st, cname, mname, self_v, args=(), kw=None):
        m = self.meth(cname, mname)
        a = list(args) if m.is_static else [self_v] + list(args)
        return self.run(lambda: self.eng.call_func(VFunc(m), a, kw or {}, st.copy(), recv=None if m.is_static else self_v, direct=True))

    def callf(self, st, module, name, args, kw=None):
        f = self.func(module, name)
        return self.run(lambda: self.eng.call_func(VFunc(f), list(args), kw or {}, st.copy(), direct=True))

    def new(self, st, cname, args=(), kw=None):
        c = self.cls(cname)
        return self.run(lambda: self.eng.construct(st.copy(), c, list(args), kw or {}))

    # -- obligations
    def facts(self, st):
        from .lib import sum_axioms
        return st.facts() + self.eng.init_axioms

    def sum_facts(self, st, *terms):
        """sums over arrays equal on the summed range are equal (mathematical fact, instantiated for the sums in `terms`)"""
        from .lib import SUM
        found = {}
        stack = list(terms) + st.facts()
        seen = set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().eq(SUM) and not has_var(x):
                found[x.get_id()] = x
            stack.extend(x.children())
        ts = list(found.values())
        out = []
        for i, a in enumerate(ts):
            for b in ts[:i]:
                w = z3.Int('sumw%d_%d' % (a.get_id(), b.get_id()))
                out.append(z3.Implies(a.arg(1) == b.arg(1), z3.Or(a == b, z3.And(w >= 0, w < a.arg(1), z3.Select(a.arg(0), w) != z3.Select(b.arg(0), w)))))
        self.assumed.append('finite sums of elementwise equal sequences are equal')
        return out

    only = None         # a unit shared by two properties keeps the obligations of the one it is run for

    def ob(self, name, st, goal, extra=(), timeout=None, inst=None, keep=True, hint=None):
        if self.only and not self.only(name):
            return True
        facts = self.facts(st) + list(extra)
        if inst is not None:
            facts = instantiate(facts, inst, keep)
        t = time.time()
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        status = None
        if hint:
            # instances at the given terms first; no quantifiers left
            neg = z3.Not(goal)
            r, _ = solver.check(ground_at(facts, hint) + [neg], 4.0)
            if r == 'unsat':
                status, info = 'proved', 'z3-hinted'
                solver.STATS['proved_z3'] += 1
        if status is None:
            status, info = solver.prove(facts, goal, timeout or self.timeout)
        rec = dict(name=name, status=status, backend=str(info) if status == 'proved' else '', s=round(time.time() - t, 2))
        if status != 'proved':
            rec['detail'] = str(info)[:3000] if status == 'sat' else status
            rec['goal'] = str(z3.simplify(goal))[:1500]
        self.obs.append(rec)
        return status == 'proved'

    def lemma(self, name, facts, goal, timeout=None):
        st = self.eng.new_state()
        for f in facts:
            st.assume(f)
        return self.ob(name, st, goal, timeout=timeout)

    def no_raise(self, name, rs, allowed=()):
        """every raising path is infeasible (or of an allowed exception)"""
        k = 0
        for st, e in rs:
            if e.name in allowed:
                continue
            k += 1
            self.ob('%s: no %s' % (name, e.name), st, z3.BoolVal(False))
        if k == 0:
            self.ob('%s: no exception' % name, self.eng.new_state(), z3.BoolVal(True))

    def cover(self, name, st):
        """vacuity guard: the path must not be contradictory"""
        r, s = solver.check(self.facts(st), 1.0, mbqi=False)
        self.covers.append(dict(name=name, ok=r != 'unsat'))
        if r == 'unsat':
            self.obs.append(dict(name='cover ' + name, status='vacuous', backend='', s=0, detail='assumptions are contradictory'))

    def cover_any(self, name, states):
        """vacuity guard: some path must not be contradictory"""
        ok = any(solver.check(self.facts(s), 1.0, mbqi=False)[0] != 'unsat' for s in states)
        self.covers.append(dict(name=name, ok=ok))
        if not ok:
            self.obs.append(dict(name='cover ' + name, status='vacuous', backend='', s=0, detail='all paths are contradictory'))

    def flush(self):
        """prove the preconditions collected at the calls"""
        for o in self.eng.obligations:
            self.ob(o['name'], o['st'], o['goal'])
        self.eng.obligations = []

    def assume_note(self, text):
        self.assumed.append(text)

    def result(self):
        e = self.eng
        obs = self.obs
        return dict(unit=self.name, obligations=obs, covers=self.covers,
                    functions=sorted(e.inlined), contracts=sorted(k for k, c in e.contracts.items() if c.used),
                    assumed=sorted(set(self.assumed) | {'library contract: ' + t for t in e.trusted}),
                    loops=e.loops_log, stats=dict(solver.STATS))


def instantiate(facts, terms, keep):
    """instances of the universally quantified facts at the given index terms (the quantified facts themselves only if keep)"""
    out = []
    for f in facts:
        if not (z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == I):
            out.append(f)
            continue
        body = f.body()
        for t in terms:
            out.append(z3.substitute_vars(body, t))
        if keep in (True, 'all') or (keep == 'flat' and not solver.has_quant(body)):
            out.append(f)
    return out


def ground_at(facts, terms):
    out, todo = [], list(facts)
    while todo:
        f = todo.pop()
        if not solver.has_quant(f):
            out.append(f)
        elif z3.is_and(f):
            todo.extend(f.children())
        elif z3.is_quantifier(f) and f.is_forall() and f.num_vars() <= 2:
            sorts = [f.var_sort(k) for k in range(f.num_vars())]
            cs = [[t for t in terms if t.sort() == so] for so in sorts]
            combos = [[t] for t in cs[0]] if len(cs) == 1 else [[a, b] for a in cs[0] for b in cs[1]]
            for c in combos:
                todo.append(z3.substitute_vars(f.body(), *reversed(c)))
        elif z3.is_implies(f) and z3.is_quantifier(f.arg(1)) and not solver.has_quant(f.arg(0)) and f.arg(1).is_forall() and f.arg(1).num_vars() == 1:
            for t in terms:
                if t.sort() == f.arg(1).var_sort(0):
                    todo.append(z3.Implies(f.arg(0), z3.substitute_vars(f.arg(1).body(), t)))
    return out


def symbols(facts, prefixes):
    """functions over the integers that the library contracts and allocations introduced"""
    found, stack, seen = {}, list(facts), set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if x.num_args() and d.range() == I and d.kind() == z3.Z3_OP_UNINTERPRETED and all(d.domain(k) == I for k in range(d.arity())) and d.name().startswith(tuple(prefixes)):
                found[d.name()] = d
            stack.extend(x.children())
    return list(found.values())


def witnesses(facts, prefixes, terms):
    """applications, to the given terms, of such functions (positions of sorts and draws)"""
    return [d(t) for d in symbols(facts, prefixes) if d.arity() == 1 for t in terms]


def closure(facts, seeds, unary=('new_', 'winner', 'pinv', 'perm'), binary=('choices', 'sample')):
    out = list(seeds)
    un = [d(t) for d in symbols(facts, unary) if d.arity() == 1 for t in seeds[:1]]
    out += un
    for d in symbols(facts, binary):
        if d.arity() == 2:
            out += [d(seeds[0], t) for t in un if not t.decl().name().startswith('new_')]
        if d.arity() == 1:
            out += [d(t) for t in seeds[:1]]
    return out


def constants(facts, prefixes):
    """integer constants with such names"""
    found, stack, seen = {}, list(facts), set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_const(x) and x.sort() == I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(tuple(prefixes)):
            found[x.decl().name()] = x
        elif z3.is_app(x):
            stack.extend(x.children())
    return list(found.values())


def iteration_terms(facts, idx, refs, comps=('len',)):
    """instances for facts about loops over new objects: which iteration wrote a location, what an iteration allocated"""
    its = {x.decl().name().split('!')[1]: x for x in constants(facts, ('i!',))}
    w = []
    for d in symbols(facts, ('wr',)):
        loop = d.name().rsplit('@', 1)[-1]
        if d.arity() == 2 and loop in its and d.name().rsplit('@', 1)[0].endswith(tuple('_' + c for c in comps)):
            w += [d(its[loop], r) for r in refs]
    ix = list(idx) + w
    new = [d(x) for d in symbols(facts, ('new_',)) if d.arity() == 1 for x in ix]
    return ix + list(refs) + new


def has_var(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            continue
        stack.extend(x.children())
    return False


def _child(conn, modname, uname, root):
    import importlib
    import sys
    sys.setrecursionlimit(20000)
    t = time.time()
    try:
        repo = Repo(root)
        u = Unit(repo, uname)
        try:
            mod = importlib.import_module(modname)
            mod.UNITS[uname](u)
            u.flush()
            r = u.result()
            r['status'] = 'ok'
        except Unsupported as ex:
            r = u.result()
            r['status'] = 'unsupported'
            r['message'] = str(ex) + ' | ' + where(ex)
        except Exception as ex:
            r = u.result()
            r['status'] = 'error'
            r['message'] = traceback.format_exc()[-1800:]
        r['wall_s'] = round(time.time() - t, 2)
    except Exception:
        r = dict(unit=uname, status='error', message=traceback.format_exc()[-1800:], obligations=[], functions=[], contracts=[],
                 assumed=[], loops=[], covers=[], stats={}, wall_s=round(time.time() - t, 2))
    conn.send(json.dumps(r, default=str))
    conn.close()


def where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    return ' < '.join('%s:%d' % (f.name, f.lineno) for f in tb[-4:][::-1])


def run_units(modname, names, root=None, jobs=8, limit=420):
    """run proof units in parallel processes"""
    root = root or os.environ.get('PYCV_REPO', '/repo')
    ctx = mp.get_context('fork')
    todo = list(names)
    live, res = [], {}
    while todo or live:
        while todo and len(live) < jobs:
            n = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(b, modname, n, root))
            p.start()
            b.close()
            live.append((n, p, a, time.time()))
        nxt = []
        for n, p, a, t in live:
            if a.poll(0.02):
                try:
                    res[n] = json.loads(a.recv())
                except EOFError:
                    res[n] = dict(unit=n, status='error', message='worker died', obligations=[], functions=[], contracts=[], assumed=[], loops=[], covers=[], stats={}, wall_s=0)
                p.join()
            elif time.time() - t > limit or not p.is_alive():
                msg = 'time limit' if p.is_alive() else 'worker died'
                p.kill()
                p.join()
                res[n] = dict(unit=n, status='timeout', message=msg, obligations=[], functions=[], contracts=[], assumed=[], loops=[], covers=[], stats={}, wall_s=round(time.time() - t, 1))
            else:
                nxt.append((n, p, a, t))
        live = nxt
    return [res[n] for n in names]
