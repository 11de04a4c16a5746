"""Finite instantiation of universally quantified facts (a sound weakening), leaving a quantifier-free query.

After skolemisation every quantifier is a positive universal one; it is replaced by the conjunction of its instances at
the ground terms that occur, somewhere in the query, as the same argument of the same function or array.
"""
import time
import z3


def skolem(fs):
    g = z3.Goal()
    for f in fs:
        g.add(f)
    r = z3.Then(z3.With('simplify', elim_and=False, som=False), 'nnf')(g)
    return list(r[0])


def root(a):
    """key of an array term: its root symbol"""
    d = 0
    while True:
        if z3.is_select(a):
            a, d = a.arg(0), d + 1
        elif z3.is_store(a):
            a = a.arg(0)
        elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            a = a.arg(1)
        else:
            break
    return ('sel', a.decl().name() if z3.is_app(a) else '?', d)


def keys_of(x):
    """(key, argument) pairs of one application"""
    if not z3.is_app(x) or not x.num_args():
        return
    k = x.decl().kind()
    if k == z3.Z3_OP_SELECT:
        yield root(x.arg(0)), x.arg(1)
    elif k == z3.Z3_OP_STORE:
        yield root(x.arg(0)), x.arg(1)
    elif k == z3.Z3_OP_UNINTERPRETED:
        n = x.decl().name()
        for p in range(x.num_args()):
            yield (n, p), x.arg(p)


class Ground:
    def __init__(self, fs, limit=60000, per_key=40):
        self.fs = fs
        self.limit, self.per_key = limit, per_key
        self.terms = {}          # key -> {id: term}
        self.seen = set()
        self.varinfo = {}        # (quantifier id) -> list over de Bruijn indices of key sets
        self.count = 0
        self.inst = {}
        self.nv = {}
        self.ground_cache = {}

    def is_ground(self, t):
        i = t.get_id()
        if i in self.ground_cache:
            return self.ground_cache[i][0]
        if z3.is_var(t):
            r = False
        elif z3.is_quantifier(t):
            r = False
        else:
            r = all(self.is_ground(c) for c in t.children())
        self.ground_cache[i] = (r, t)
        return r

    def collect(self, t):
        """register ground terms"""
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in self.seen:
                continue
            self.seen.add(x.get_id())
            self.keep.append(x)
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            for k, a in keys_of(x):
                if a.sort() == z3.IntSort() and self.is_ground(a):
                    d = self.terms.setdefault(k, {})
                    if a.get_id() not in d and len(d) < self.per_key:
                        d[a.get_id()] = a
                        self.new = True
            stack.extend(x.children())

    def keysets(self, q):
        """for each variable of q: the keys at which it occurs directly"""
        i = q.get_id()
        if i in self.varinfo:
            return self.varinfo[i][0]
        n = q.num_vars()
        res = [set() for _ in range(n)]

        def walk(x, off):
            if z3.is_quantifier(x):
                walk(x.body(), off + x.num_vars())
                return
            for k, a in keys_of(x):
                if z3.is_var(a):
                    v = z3.get_var_index(a) - off
                    if 0 <= v < n:
                        res[v].add(k)
            for c in x.children():
                walk(c, off)
        walk(q.body(), 0)
        self.varinfo[i] = (res, q)
        return res

    def instances(self, q):
        ks = self.keysets(q)
        n = q.num_vars()
        choices = []
        for v in range(n):
            d = {}
            for k in ks[v]:
                d.update(self.terms.get(k, {}))
            if q.var_sort(n - 1 - v) != z3.IntSort():
                d = {}
            choices.append(list(d.values()))
        done = self.inst.setdefault(q.get_id(), (q, {}))[1]
        tot = 1
        for c in choices:
            tot *= len(c)
        if tot > 4000:
            return
        idx = [0] * n
        if tot == 0:
            return
        while True:
            tup = tuple(choices[v][idx[v]].get_id() for v in range(n))
            if tup not in done:
                self.count += 1
                if self.count > self.limit:
                    return
                b = z3.substitute_vars(q.body(), *[choices[v][idx[v]] for v in range(n)])
                done[tup] = b
                self.fresh.append(b)
            p = 0
            while p < n:
                idx[p] += 1
                if idx[p] < len(choices[p]):
                    break
                idx[p] = 0
                p += 1
            if p == n:
                break

    def expand(self, t, memo):
        i = t.get_id()
        if i in memo:
            return memo[i][0]
        if z3.is_quantifier(t):
            self.instances(t)
            bs = [self.expand(b, memo) for b in self.inst[t.get_id()][1].values()]
            r = z3.And(bs) if bs else z3.BoolVal(True)
        elif z3.is_and(t):
            r = z3.And([self.expand(c, memo) for c in t.children()])
        elif z3.is_or(t):
            r = z3.Or([self.expand(c, memo) for c in t.children()])
        else:
            r = t
        memo[i] = (r, t)
        return r

    def run(self, rounds):
        self.keep = []
        self.new = False
        for f in self.fs:
            self.collect(f)
        out = []
        for _ in range(rounds):
            self.fresh = []
            self.new = False
            out = [self.expand(f, {}) for f in self.fs]
            for b in self.fresh:
                self.collect(b)
            if not self.new or self.count > self.limit:
                break
        return [f for f in out if not z3.is_true(f)]


def has_q(t, memo={}):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def ground_check(facts, timeout, rounds=(2, 3, 4), limit=30000):
    """'unsat' if some finite set of instances is contradictory, else 'unknown'"""
    from . import solver
    fs = skolem(facts)
    for r in rounds:
        g = Ground(fs, limit=limit)
        qf = g.run(r)
        qf = [f for f in qf if not has_q(f)]
        res, _ = solver.check(qf, timeout)
        if res == 'unsat':
            return 'unsat', r
        if g.count > limit:
            break
    return 'unknown', None
