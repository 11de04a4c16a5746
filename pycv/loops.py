"""Loop summarisation.

A loop is cut at its head.  Every location the body may modify gets a head
symbol that is a function of the iteration number; candidate invariants are
generated from the body's own effect (frame of every heap component, what each
iteration writes, counters, appended elements, 'best so far' updates, user
hints) and filtered Houdini-style: a candidate is kept only if it is proved on
entry and proved to be preserved by every continuing path of an arbitrary
iteration.  No bound on iterations; nothing unproved is kept.

History facts (sound by construction, not candidates): for every j below the
current iteration, iteration j took one of the continuing paths of the body
and the facts of that path hold of the symbols of iteration j.
"""
import ast
import z3
from . import solver
from .vals import *

AS = z3.ArraySort
UNROLL = 6
CAND_TIMEOUT = 1.5


def exec_for(eng, s, st, fid):
    out = []
    for a, v in eng.ev(s.iter, st, fid):
        q = eng.seq_of(a, v)
        out += for_seq(eng, s, a, fid, q)
    return out


def for_seq(eng, s, st, fid, q):
    n = z3.simplify(eng.seq_len(st, q))
    if z3.is_int_value(n) and n.as_long() <= (40 if getattr(q, 'tup', None) is not None else UNROLL):
        cur, out = [st], []
        for k in range(64):
            nxt = []
            for c in cur:
                m = z3.simplify(eng.seq_len(c, q))
                if not z3.is_int_value(m):
                    raise Unsupported('list grows symbolically while iterated')
                if k >= m.as_long():
                    out += eng.exec_block(s.orelse, c, fid)
                    continue
                c.cs = c.cs + ('it%d' % k,)
                x = q.get(c, z3.IntVal(k))
                for c2 in eng.assign(s.target, x, c, fid):
                    for kind, d, v in eng.exec_block(s.body, c2, fid):
                        d.cs = st.cs
                        if kind in ('next', 'cont'):
                            nxt.append(d)
                        elif kind == 'brk':
                            out.append(('next', d, None))
                        else:
                            out.append((kind, d, v))
            # merge what can be merged
            if len(nxt) > 1:
                mm = eng.merge_outs(st, [(x, VNone) for x in nxt])
                nxt = [x for x, _ in mm]
            cur = nxt
            if not cur:
                return out
        raise Unsupported('unrolling')

    def step(h, i):
        n = eng.seq_len(h, q)
        yes, no = eng.branch(h, i < n)
        res = []
        if no is not None:
            if eng.exit_equality:
                eq, ne = eng.branch(no, i == n)
                no = eq if ne is None else no
            res.append(('exit', no, None))
        if yes is not None:
            x = q.get(yes, i)
            for c in eng.assign(s.target, x, yes, fid):
                res += eng.exec_block(s.body, c, fid)
        return res

    def bound(h, i):
        n = eng.seq_len(h, q)
        return i <= z3.If(n > 0, n, z3.IntVal(0))
    return summarise(eng, s, st, fid, step, bound)


def exec_while(eng, s, st, fid):
    def step(h, i):
        res = []
        eng.raised.append([])
        try:
            evs = eng.ev(s.test, h, fid)
            conds = [(a, eng.truth(a, v)) for a, v in evs]
        finally:
            rs = eng.raised.pop()
        res += [('raise', a, e) for a, e in rs]
        for a, t in conds:
            yes, no = eng.branch(a, t)
            if no is not None:
                eng.narrow(s.test, no, fid, False)
                res.append(('exit', no, None))
            if yes is not None:
                eng.narrow(s.test, yes, fid, True)
                res += eng.exec_block(s.body, yes, fid)
        return res
    return summarise(eng, s, st, fid, step, None)


# ------------------------------------------------------------------ helpers
def val_eq(a, b):
    if a is b:
        return True
    if isinstance(a, VNum) and isinstance(b, VNum):
        return a.t.eq(b.t)
    if isinstance(a, VRef) and isinstance(b, VRef):
        return a.t.eq(b.t)
    if isinstance(a, (VFnSym, VTypV, VAny)) and type(a) is type(b):
        return a.t.eq(b.t)
    if isinstance(a, VStr) and isinstance(b, VStr):
        return (a.s is not None and a.s == b.s) or (a.t is not None and b.t is not None and a.t.eq(b.t))
    if isinstance(a, VTup) and isinstance(b, VTup):
        return len(a.items) == len(b.items) and all(val_eq(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, VX) and isinstance(b, VX):
        return a.inf.eq(b.inf) and a.val.eq(b.val)
    if isinstance(a, VOpt) and isinstance(b, VOpt):
        return a.none.eq(b.none) and val_eq(a.v, b.v)
    return False


class Slot:
    """one modified location: head symbol as a function of the iteration"""

    def __init__(self, kind, key, leaf, sort, init, end, ty=None, ref=None):
        self.kind, self.key, self.leaf, self.sort, self.init, self.end = kind, key, leaf, sort, init, end
        self.ty, self.ref = ty, ref
        self.f = None

    def at(self, t):
        return self.f(t)


class Cand:
    def __init__(self, name, f, goal=None):
        """f: formula over head symbols; goal: optional function(sub, i) giving the formula to prove for the
        end state (explicit witnesses); default: substitution"""
        self.name, self.f, self.goal = name, f, goal


def mentions_any(t, terms):
    ids = {x.get_id() for x in terms}
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if k in ids:
            return True
        stack.extend(x.children())
    return False


def keyed(t, j):
    """j occurs below an uninterpreted function or an array read"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x) and x.num_args():
            if x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and mentions_any(x, [j]):
                return True
            stack.extend(x.children())
    return False


def consts_in(t, out):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            out.add(x.decl().name())
        stack.extend(x.children())
    return out


def modular(e, hs):
    """e = (hs + c) mod M with a literal M -> (c, M)"""
    e = z3.simplify(e)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)):
        d = z3.simplify(e.arg(0) - hs)
        if not mentions_any(d, [hs]):
            return d, e.arg(1)
    return None


class NoLoop(Exception):
    pass


def stated(P, st, i):
    return P(st.copy(), i) if P.__code__.co_argcount - len(P.__defaults__ or ()) > 1 else P(st.copy())


def summarise(eng, s, st0, fid, step, bound):
    return Summary(eng, s, st0, fid, step, bound).run()


class Summary:
    def __init__(self, eng, s, st0, fid, step, bound):
        self.eng, self.s, self.st0, self.fid, self.step, self.bound = eng, s, st0, fid, step, bound
        key = ('loop', st0.cs, getattr(s, 'lineno', 0), getattr(s, 'col_offset', 0))
        k = st0.occ.get(key, 0)
        st0.occ[key] = k + 1
        self.base_cs = st0.cs
        self.cs = st0.cs + ('loop:%s:%s#%d' % (getattr(s, 'lineno', 0), getattr(s, 'col_offset', 0), k),)
        self.id = eng.csid(self.cs)
        old = st0.cs
        st0.cs = self.cs
        self.i = eng.fresh(st0, 'i', I)
        st0.cs = old
        self.mod_locals = {}     # (fid,name) -> T or None (body local)
        self.mod_glob = {}
        self.mod_comps = {}      # name -> set of invariant refs (terms) or None when written at varying refs
        self.mod_alloc = False
        self.cells = {}          # component written at varying references -> loop-invariant references also written
        self.slots = []
        self.drops = set()
        self.closed = {}         # head symbol -> closed form, once proved

    # -- symbols
    def fn(self, name, *sorts):
        f = z3.Function('%s@%d' % (name, self.id), *([I] * len(self.st0.idx)), *sorts)
        if f.name() in self.closed:
            return self.closed[f.name()][1]
        pre = self.st0.idx
        return lambda *a: f(*pre, *a)

    # -- head state
    def head(self, cands, history):
        eng, st0 = self.eng, self.st0
        h = st0.copy()
        h.cs = self.cs
        h.idx = st0.idx + (self.i,)
        h.wlog = []
        h.assume(self.i >= 0)
        self.slots = []
        for (f, n), ty in self.mod_locals.items():
            if ty is None:
                h.frames[f].pop(n, None)
                continue
            v0 = st0.frames[f][n]
            ts0 = eng.to_terms(v0, ty)
            terms = []
            for (leaf, so), t0 in zip(ty.leaves(), ts0):
                sl = Slot('local', (f, n), leaf, so, t0, None, ty)
                sl.f = self.fn('v%d_%s%s' % (0, n, leaf), I, so)
                sl.nleaf = len(terms)
                terms.append(sl.at(self.i))
                self.slots.append(sl)
            v = eng.from_terms(terms, ty)
            h.frames[f][n] = v
        for n, ty in self.mod_glob.items():
            v0 = st0.glob.get(n) if n in st0.glob else self.glob0[n]
            ts0 = eng.to_terms(v0, ty)
            terms = []
            for (leaf, so), t0 in zip(ty.leaves(), ts0):
                sl = Slot('glob', n, leaf, so, t0, None, ty)
                sl.f = self.fn('g_%s%s' % (n, leaf), I, so)
                sl.nleaf = len(terms)
                terms.append(sl.at(self.i))
                self.slots.append(sl)
            h.glob[n] = eng.from_terms(terms, ty)
        if self.mod_alloc:
            sl = Slot('alloc', 'alloc', '', I, st0.alloc, None)
            sl.f = self.fn('alloc', I, I)
            self.slots.append(sl)
            h.alloc = sl.at(self.i)
            h.assume(h.alloc >= st0.alloc)
        for n, refs in self.mod_comps.items():
            K0 = st0.heap.get(n)
            if K0 is None:
                K0 = eng.init_comps[n]
            so = K0.sort()
            if refs is None:
                sl = Slot('comp', n, '', so, K0, None)
                sl.f = self.fn('K_' + n, I, so)
                self.slots.append(sl)
                K = sl.at(self.i)
                for m, r in enumerate(self.cells.get(n, [])):
                    s2 = Slot('cell', n, '', so.range(), z3.Select(K0, r) if not z3.is_store(K0) else eng.read_arr(st0, K0, r), None, ref=r)
                    s2.f = self.fn('C%d_%s' % (m, n), I, so.range())
                    self.slots.append(s2)
                    h.assume(z3.Select(sl.at(self.i), r) == s2.at(self.i))
                    K = z3.Store(K, r, s2.at(self.i))
                h.heap[n] = K
            else:
                K = K0
                for m, r in enumerate(refs):
                    sl = Slot('cell', n, '', so.range(), z3.Select(K0, r) if not z3.is_store(K0) else eng.read_arr(st0, K0, r), None, ref=r)
                    sl.f = self.fn('C%d_%s' % (m, n), I, so.range())
                    self.slots.append(sl)
                    K = z3.Store(K, r, sl.at(self.i))
                h.heap[n] = K
        for sl in self.slots:
            if sl.kind in ('cell',) and sl.key == 'len':
                h.assume(sl.at(self.i) >= 0)
            if sl.kind == 'comp' and sl.key == 'len':
                r = z3.Int('r')
                h.assume(z3.ForAll([r], sl.at(self.i)[r] >= 0, patterns=[sl.at(self.i)[r]]))
            # the first iteration starts from the initial values
        for f in history:
            h.assume(f)
        for c in cands:
            h.assume(c.f)
        self.npc = len(h.pc)
        self.h = h
        return h

    def run_body(self, h):
        eng = self.eng
        no = len(eng.obligations)
        hs = h.copy()
        outs = self.step(hs, self.i)
        # restore context
        res = []
        for kind, a, v in outs:
            res.append((kind, a, v))
        self.nobl = no
        return res

    def end_terms(self, a):
        """end value of each slot on path state a"""
        eng = self.eng
        vals = []
        cache = {}
        for sl in self.slots:
            if sl.kind == 'local':
                f, n = sl.key
                key = ('l', f, n)
                if key not in cache:
                    cache[key] = eng.to_terms(a.frames[f][n], sl.ty)
                vals.append(cache[key][sl.nleaf])
            elif sl.kind == 'glob':
                key = ('g', sl.key)
                if key not in cache:
                    cache[key] = eng.to_terms(a.glob[sl.key], sl.ty)
                vals.append(cache[key][sl.nleaf])
            elif sl.kind == 'alloc':
                vals.append(a.alloc)
            elif sl.kind == 'comp':
                vals.append(a.heap[sl.key])
            else:
                vals.append(eng.read_arr(a, a.heap[sl.key], sl.ref))
        return vals

    def discover(self, outs):
        """update modified sets; True if changed"""
        eng, st0, h = self.eng, self.st0, self.h
        changed = False
        invsyms = None
        for kind, a, v in outs:
            if kind not in ('next', 'cont'):
                continue
            for f, fr in a.frames.items():
                if f not in st0.frames:
                    continue
                hf = h.frames[f]
                for n, x in fr.items():
                    if n.startswith('$') and not n.startswith('$comp'):
                        continue
                    if n in hf and val_eq(hf[n], x):
                        continue
                    if n not in st0.frames[f] or isinstance(st0.frames[f][n], VUndef):
                        if (f, n) not in self.mod_locals:
                            self.mod_locals[(f, n)] = None
                            changed = True
                        continue
                    try:
                        ty = eng.join_any(eng.type_of(st0.frames[f][n]), eng.type_of(x))
                    except Unsupported:
                        raise Unsupported('loop variable %s' % n)
                    old = self.mod_locals.get((f, n))
                    if old is not None:
                        ty = eng.join_any(old, ty)
                    if old is None or old.key() != ty.key() or getattr(old, 'null', 0) != getattr(ty, 'null', 0) or getattr(old, 'exact', 0) != getattr(ty, 'exact', 0):
                        self.mod_locals[(f, n)] = ty
                        changed = True
            for n, x in a.glob.items():
                if n in h.glob and val_eq(h.glob[n], x):
                    continue
                if n not in h.glob:
                    # first touched in the loop: take its pristine value as initial value
                    s2 = st0.copy()
                    cn, an = n[2:].split('.')
                    eng.class_attr(s2, eng.repo.classes[cn], an)
                    if val_eq(s2.glob[n], x):
                        st0.glob[n] = s2.glob[n]
                        changed = True
                        continue
                    st0.glob[n] = s2.glob[n]
                ty = eng.join_any(eng.type_of(st0.glob[n]), eng.type_of(x))
                if self.mod_glob.get(n) is None or self.mod_glob[n].key() != ty.key():
                    self.mod_glob[n] = ty
                    changed = True
            if not a.alloc.eq(h.alloc) and not self.mod_alloc:
                self.mod_alloc = True
                changed = True
            for n, K in a.heap.items():
                Kh = h.heap.get(n)
                if Kh is None:
                    Kh = eng.init_comps[n]
                if K.eq(Kh) or (Kh.get_id() == K.get_id()):
                    continue
                # refs written
                refs = []
                vary = False
                for w in a.wlog:
                    if w[0] != n:
                        continue
                    r = w[1]
                    if len(w) > 3 and w[3]:
                        vary = True
                        continue
                    if self.varies(r):
                        vary = True
                        continue
                    if not any(r.eq(x) for x in refs):
                        refs.append(r)
                if not refs:
                    vary = True        # changed as a whole, by a contract
                cur = self.mod_comps.get(n, [])
                if (n in self.mod_comps and cur is None) or vary:
                    if n not in self.mod_comps or cur is not None:
                        self.mod_comps[n] = None
                        changed = True
                    cs = self.cells.setdefault(n, list(cur or []))
                    for r in refs:
                        if len(cs) < 4 and not any(r.eq(x) for x in cs):
                            cs.append(r)
                            changed = True
                else:
                    new = [r for r in refs if not any(r.eq(x) for x in cur)]
                    if new or n not in self.mod_comps:
                        if len(cur) + len(new) > 6:
                            self.mod_comps[n] = None
                        else:
                            self.mod_comps[n] = list(cur) + new
                        changed = True
        return changed

    def varies(self, r):
        """term depends on the iteration (head symbols and body symbols all carry i)"""
        return mentions_any(r, [self.i])

    # -- candidates
    def candidates(self, outs):
        cs = self.candidates_(outs)
        return [c for c in cs if self.eng.cand_filter is None or getattr(c, 'state', None) or self.eng.cand_filter(c.name)]

    def candidates_(self, outs):
        eng, st0, i, h = self.eng, self.st0, self.i, self.h
        cont = [a for k, a, _ in outs if k in ('next', 'cont')]
        cands = []
        if not cont:
            return []
        ends = [self.end_terms(a) for a in cont]
        j = z3.Int('j@%d' % self.id)
        p = z3.Int('p@%d' % self.id)
        r = z3.Int('r@%d' % self.id)
        K0sub = [(sl.at(i), sl.init) for sl in self.slots if sl.kind in ('comp', 'cell')]
        A0 = st0.alloc
        if self.bound is not None:
            cands.append(Cand('idx<=n', self.bound(h.copy(), i)))
            b0 = self.bound(st0.copy(), i)
            if not z3.simplify(b0).eq(z3.simplify(self.bound(h.copy(), i))):
                cands.append(Cand('idx<=n at entry', b0))
        # invariants the specification states over the program state
        for P in eng.state_invs:
            for nm, f in stated(P, h, i):
                c = Cand('stated: ' + nm, f)
                c.state = (P, nm)
                cands.append(c)
        # the same about the values of the integer locals the loop changes and of the list locals (whatever their names)
        for P in eng.local_invs:
            for f, n in [(f, n) for f, fr in st0.frames.items() for n, v in fr.items() if isinstance(v, VRef) and isinstance(v.ty, TList)
                         or isinstance(v, VNum) and self.mod_locals.get((f, n)) is not None]:
                def Q(st, i, P=P, f=f, n=n):
                    return [('%s (%s)' % (nm, n), g) for nm, g in P(st, i, st.frames[f][n])]
                for nm, g in stated(Q, h, i):
                    c = Cand('stated: ' + nm, g)
                    c.state = (Q, nm)
                    cands.append(c)

        def conds(a):
            return z3.And([t for t, tag in a.pc[self.npc:] if tag == 'b'] or [z3.BoolVal(True)])
        B_ = [conds(a) for a in cont]
        single = len(cont) == 1

        def gen(t):        # i -> j
            return z3.substitute(t, (i, j))
        rng = z3.And(j >= 0, j < i)
        self.cellfacts = []
        # scalars and cells
        for k, sl in enumerate(self.slots):
            hs = sl.at(i)
            es = [e[k] for e in ends]
            if sl.kind == 'alloc' or sl.kind == 'comp':
                continue
            nm = '%s:%s%s' % (sl.kind, sl.key, sl.leaf)
            if z3.is_array(hs):
                self.array_cell(cands, nm, sl, k, cont, ends, B_, j, p, conds)
                continue
            cands.append(Cand(nm + '==init', hs == sl.init))
            cands[-1].closed = (hs.decl(), lambda t, sl=sl: sl.init)
            so = sl.sort
            incs = []
            closed = False
            for e in es:
                d = z3.simplify(e - hs) if so in (I, R) else None
                incs.append(d)
            if so in (I, R) and all(d is not None and not self.varies(d) for d in incs) and all(d.eq(incs[0]) for d in incs):
                ii = i if so == I else z3.ToReal(i)
                cands.append(Cand(nm + '==init+c*i', hs == sl.init + incs[0] * ii))
                cands[-1].closed = (hs.decl(), lambda t, sl=sl, c=incs[0], so=so: z3.simplify(sl.init + c * (t if so == I else z3.ToReal(t))))
                closed = True
            ms = [modular(e, hs) for e in es] if so == I and not closed else [None]
            if ms and ms[0] is not None and all(m is not None and m[0].eq(ms[0][0]) and m[1].eq(ms[0][1]) for m in ms) and not self.varies(ms[0][0]):
                c_, M_ = ms[0]
                cands.append(Cand(nm + '==(init+c*i)%m', hs == (sl.init + c_ * i) % M_))
                cands[-1].closed = (hs.decl(), lambda t, sl=sl, c_=c_, M_=M_: z3.simplify((sl.init + c_ * t) % M_))
            if so in (I, R):
                cands.append(Cand(nm + '>=init', hs >= sl.init))
                cands.append(Cand(nm + '<=init', hs <= sl.init))
                cands.append(Cand(nm + '>=0', hs >= 0))
            # last value
            if single or all(e.eq(es[0]) for e in es):
                prev = z3.substitute(es[0], (i, i - 1))
                cands.append(Cand(nm + '==prev', z3.Implies(i > 0, hs == prev), goal=lambda sub, e=es[0], hs=hs, sl=sl: sub(hs) == e))
            # witness of last update
            upd = [(e, B_[m]) for m, e in enumerate(es) if not e.eq(hs)]
            if upd and so in (I, R, B) and not closed and not (single and self.mono_num(incs)):
                lu = self.fn('lu_%s%s' % (nm, sl.leaf), I, I)

                def wit(idxterm, hv, sl=sl, upd=upd):
                    w = lu(idxterm)
                    return z3.Or([hv == sl.init] + [z3.And(w >= 0, w < idxterm, hv == z3.substitute(e, (i, w)), z3.substitute(b, (i, w))) for e, b in upd])
                hv = hs

                def goal(sub, sl=sl, upd=upd, lu=lu, k=k):
                    e_ = sub(sl.at(i))
                    w = lu(i)
                    return z3.Or([e_ == sl.init] + [z3.And(e_ == e, b) for e, b in upd] +
                                 [z3.And(w >= 0, w < i, e_ == z3.substitute(e, (i, w)), z3.substitute(b, (i, w))) for e, b in upd])
                cands.append(Cand(nm + ' witness', wit(i, hs), goal=goal))
        # two values that are always set together
        sc = [k for k, sl in enumerate(self.slots) if sl.kind in ('local', 'cell', 'glob') and not z3.is_array(sl.at(i))]
        for x_, ka in enumerate(sc):
            for kb in sc[x_ + 1:]:
                sa, sb = self.slots[ka], self.slots[kb]
                if sa.sort == sb.sort and all(e[ka].eq(e[kb]) for e in ends) and any(not e[ka].eq(sa.at(i)) for e in ends):
                    cands.append(Cand('%s==%s' % (sa.key, sb.key), sa.at(i) == sb.at(i)))
        # a variable that goes along with another one: y is a field of x
        loc = [k for k, sl in enumerate(self.slots) if sl.kind == 'local' and not z3.is_array(sl.at(i)) and sl.sort == I]
        for ky in loc:
            for kx in loc:
                if kx == ky:
                    continue
                for m in range(len(cont)):
                    e_ = ends[m][ky]
                    if not e_.eq(self.slots[ky].at(i)) and z3.is_select(e_) and e_.arg(1).eq(ends[m][kx]) and not ends[m][kx].eq(self.slots[kx].at(i)):
                        sy, sx = self.slots[ky], self.slots[kx]
                        cands.append(Cand('%s goes along with %s' % (sy.key, sx.key), sy.at(i) == z3.Select(e_.arg(0), sx.at(i))))
                        if not self.varies(e_.arg(0)):
                            cands[-1].closed = (sy.at(i).decl(), lambda t, A=e_.arg(0), sx=sx: z3.Select(A, sx.at(t)))
                        break
        # conditional updates: nobody so far passes the update test against the current value
        for m, a in enumerate(cont):
            updk = [k for k, sl in enumerate(self.slots) if sl.kind in ('local', 'glob') and not z3.is_array(sl.at(i)) and not ends[m][k].eq(sl.at(i))]
            if not updk or single:
                continue
            C = B_[m]
            heads = [(self.slots[k].at(j), self.slots[k].at(i)) for k in updk]
            allh = [(sl.at(j), sl.at(i)) for sl in self.slots if sl.kind in ('local', 'glob')]
            # other things the test reads in iteration j stay as they are now
            f = z3.substitute(gen(C), *heads)
            cands.append(Cand('nobody passes update %d' % m, z3.ForAll([j], z3.Implies(rng, z3.Not(f)))))
            vs = [(ends[m][k], self.slots[k].init) for k in updk if not z3.is_int_value(ends[m][k])]
            try:
                tests = [t for t, tag in a.pc[self.npc:] if tag == 'b' and mentions_any(t, [self.slots[k].at(i) for k in updk])]
                for t in tests:
                    f1 = z3.substitute(gen(t), *heads)
                    cands.append(Cand('nobody passes update test %d' % m, z3.ForAll([j], z3.Implies(rng, z3.Not(f1)))))
                    f2 = z3.substitute(t, *vs) if vs else t
                    if not f2.eq(t) and not self.varies(z3.substitute(f2, *[(self.slots[k].at(i), self.slots[k].init) for k in range(len(self.slots))])):
                        cands.append(Cand('initial value does not beat the best %d' % m, z3.Not(f2)))
            except z3.Z3Exception:
                pass
        # components written at varying references
        for k, sl in enumerate(self.slots):
            if sl.kind != 'comp':
                continue
            self.comp_cands(cands, sl, k, cont, ends, B_, j, r, K0sub)
        # well-formedness of reference-valued heads
        for h_ in eng.loop_hints:
            for c in h_(self, cont, ends) or []:
                cands.append(c)
        return cands

    def mono_num(self, incs):
        return all(d is not None and z3.is_int_value(d) for d in incs)

    def array_cell(self, cands, nm, sl, k, cont, ends, B_, j, p, conds):
        """an array-valued cell (elements of one list, at a loop-invariant reference)"""
        eng, i, st0 = self.eng, self.i, self.st0
        hs = sl.at(i)
        cands.append(Cand(nm + '==init', hs == sl.init))
        pos_writes = []
        known = True
        for m, a in enumerate(cont):
            e = ends[m][k]
            chain = []
            x = e
            while z3.is_store(x):
                chain.append((x.arg(1), x.arg(2)))
                x = x.arg(0)
            if not x.eq(hs):
                known = False
            chain.reverse()
            pos_writes.append(chain)
        if not known:
            return
        flat = [(m, q, v) for m, ch in enumerate(pos_writes) for q, v in ch]
        if not flat:
            return
        # position frame
        w = [self.fn('wp%d_%s' % (x, nm), I, I, I) for x in range(len(flat))]

        def frame(pv, val, witnesses, now):
            alts = [val == z3.Select(sl.init, pv)]
            for (m, q, v), wf in zip(flat, witnesses):
                alts.append(z3.And(wf >= 0, wf < i, pv == z3.substitute(q, (i, wf)), z3.substitute(B_[m], (i, wf))))
                if now:
                    alts.append(pv == q)
            return z3.Or(alts)
        lazy_frame = len(cands)
        # what was written
        lens = self.len_slots(sl)
        closed = []
        for m, q, v in flat:
            q1 = q
            # replace the head length by its closed form if it has one
            for ls in lens:
                for kk, s2 in enumerate(self.slots):
                    if s2 is ls:
                        es = [e[kk] for e in ends]
                        ds = [z3.simplify(e - ls.at(i)) for e in es]
                        if all(d.eq(ds[0]) for d in ds) and not self.varies(ds[0]):
                            q1 = z3.substitute(q1, (ls.at(i), ls.init + ds[0] * i))
            # closed form of integer counters
            for kk, s2 in enumerate(self.slots):
                if s2.kind == 'local' and s2.sort == I:
                    ds = [z3.simplify(e[kk] - s2.at(i)) for e in ends]
                    if all(d.eq(ds[0]) for d in ds) and z3.is_int_value(ds[0]):
                        q1 = z3.substitute(q1, (s2.at(i), s2.init + ds[0] * i))
            q1 = z3.simplify(q1)
            c = z3.simplify(q1 - i)
            closed.append(c)
            K0sub = [(s2.at(i), s2.init) for s2 in self.slots if s2.kind in ('comp', 'cell')]
            variants = [v]
            v0 = z3.substitute(v, *K0sub) if K0sub else v
            if not v0.eq(v):
                variants.append(v0)
            for vv in variants:
                if not self.varies(c):
                    pc = p if z3.is_int_value(c) and c.as_long() == 0 else p - c
                    body = z3.Implies(z3.And(p >= c, p < c + i, z3.substitute(B_[m], (i, pc))) if len(cont) > 1 else z3.And(p >= c, p < c + i),
                                      z3.Select(hs, p) == z3.substitute(vv, (i, pc)))
                    cands.append(Cand(nm + ' written by position', z3.ForAll([p], body, patterns=[z3.Select(hs, p)])))
                else:
                    qq = z3.substitute(q1, (i, j))
                    body = z3.Implies(z3.And(j >= 0, j < i, z3.substitute(B_[m], (i, j)) if len(cont) > 1 else z3.BoolVal(True)),
                                      z3.Select(hs, qq) == z3.substitute(vv, (i, j)))
                    cands.append(Cand(nm + ' written by iteration', z3.ForAll([j], body)))
                    fd = self.find_fn(vv)
                    if fd is not None:
                        t = z3.substitute(fd, (i, j))
                        cands.append(Cand(nm + ' written by iteration (p)', z3.ForAll([j], body, patterns=[t])))
        if all(not self.varies(c) for c in closed) and all(c.eq(closed[0]) for c in closed):
            c = closed[0]
            cands.insert(lazy_frame, Cand(nm + ' position frame', z3.ForAll([p], z3.Implies(z3.Or(p < c, p >= c + i), z3.Select(hs, p) == z3.Select(sl.init, p)), patterns=[z3.Select(hs, p)])))
            return
        body = frame(p, z3.Select(hs, p), [f(i, p) for f in w], False)

        def goal(sub):
            e = sub(hs)
            return z3.ForAll([p], frame(p, z3.Select(e, p), [f(i, p) for f in w], True))
        cands.insert(lazy_frame, Cand(nm + ' position frame', z3.ForAll([p], body, patterns=[z3.Select(hs, p)]), goal=goal))

    def find_fn(self, t):
        """a subterm f(..., i) usable as a pattern"""
        stack, seen = [t], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(c.eq(self.i) for c in x.children()):
                return x
            stack.extend(x.children())
        return None

    def len_slots(self, sl):
        return [s for s in self.slots if s.kind == 'cell' and s.key == 'len' and s.ref.eq(sl.ref)]

    def targets(self, sl, a):
        """[(ref, binders)] references of comp sl written on path a"""
        res = []
        for w in a.wlog:
            if w[0] != sl.key:
                continue
            b = w[3] if len(w) > 3 else ()
            if not any(w[1].eq(x) for x, _ in res):
                res.append((w[1], b))
        return res

    def comp_cands(self, cands, sl, k, cont, ends, B_, j, r, K0sub):
        eng, i, st0 = self.eng, self.i, self.st0
        hs = sl.at(i)
        A0 = st0.alloc
        tg = []
        for m, a in enumerate(cont):
            for t, b in self.targets(sl, a):
                fresh = eng.holds(a, t >= A0, full=True, timeout=1.0) if not b else self.all_fresh(a, t, b, A0)
                tg.append((m, t, b, fresh))
        old = [x for x in tg if not x[3]]
        self.__dict__.setdefault('frameinfo', {})[sl.key] = old

        def alts(rv, val, now):
            out = [val == z3.Select(sl.init, rv)]
            for x, (m, t, b, _) in enumerate(old):
                if not b and not self.varies(t):
                    out.append(rv == t)
                    continue
                ws = [self.fn('wr%d_%d_%s' % (x, y, sl.key), I, I, I)(i, rv) for y in range(len(b) + 1)]
                sub = [(i, ws[0])] + []
                t2 = z3.substitute(t, (i, ws[0]))
                rngs = [ws[0] >= 0, ws[0] < i]
                for y, (bv, bn) in enumerate(b):
                    bv2 = z3.substitute(bv, (i, ws[0]))
                    bn2 = z3.substitute(bn, (i, ws[0]))
                    t2 = z3.substitute(t2, (bv2, ws[y + 1]))
                    rngs += [ws[y + 1] >= 0, ws[y + 1] < z3.substitute(bn2, (bv2, ws[y + 1]))]
                out.append(z3.And(rngs + [rv == t2]))
                if now:
                    if not b:
                        out.append(rv == t)
                    else:
                        vs, t3, rg = [], t, []
                        for y, (bv, bn) in enumerate(b):
                            e = z3.Int('ex%d_%d@%d' % (x, y, self.id))
                            t3 = z3.substitute(t3, (bv, e))
                            rg += [e >= 0, e < bn]
                            vs.append(e)
                        out.append(z3.Exists(vs, z3.And(rg + [rv == t3])))
            return z3.Or(out)
        body = z3.Implies(z3.And(r < A0), alts(r, z3.Select(hs, r), False))

        def goal(sub):
            return z3.ForAll([r], z3.Implies(z3.And(r < A0), alts(r, z3.Select(sub(hs), r), True)))
        cands.append(Cand('frame of %s' % sl.key, z3.ForAll([r], body, patterns=[z3.Select(hs, r)]), goal=goal))
        cands[-1].slot = sl
        cands[-1].old = old
        # what iteration j wrote
        groups = {}
        for m, t, b, fresh in tg:
            if b or not self.varies(t):
                continue
            val = eng.read_arr(cont[m], ends[m][k], t)
            variants = [val]
            v0 = z3.substitute(val, *K0sub)
            if not v0.eq(val):
                variants.append(v0)
            for vv in variants:
                e = groups.setdefault((t.get_id(), vv.get_id()), (t, vv, []))
                if m not in e[2]:
                    e[2].append(m)
        # paths that leave another path's target alone
        for t, _, _ in list({g[0].get_id(): g for g in groups.values()}.values()):
            for m in range(len(cont)):
                if any(g[0].eq(t) and m in g[2] for g in groups.values()):
                    continue
                try:
                    val = eng.read_arr(cont[m], ends[m][k], t)
                except Unsupported:
                    continue
                if not mentions_any(val, [x.at(i) for x in self.slots]):
                    groups.setdefault((t.get_id(), val.get_id()), (t, val, []))[2].append(m)
        for t, vv, ms in groups.values():
            tj = z3.substitute(t, (i, j))
            gs = [z3.BoolVal(True)] if len(ms) == len(cont) else [z3.substitute(B_[m], (i, j)) for m in ms]
            for g in gs:
                f = z3.Implies(z3.And(j >= 0, j < i, g), z3.Select(hs, tj) == z3.substitute(vv, (i, j)))
                try:
                    q = z3.ForAll([j], f, patterns=[tj] if self.okpat(tj, j) else [])
                except z3.Z3Exception:
                    q = z3.ForAll([j], f)
                cands.append(Cand('%s written by iteration' % sl.key, q))
        # what an inner loop of iteration j wrote
        seen = set()
        for m in range(len(cont)):
            for fact, _ in cont[m].pc:
                if not (z3.is_quantifier(fact) and fact.is_forall() and fact.num_vars() == 1):
                    continue
                v2 = z3.Const('j2@%d' % self.id, fact.var_sort(0))
                bd = z3.substitute_vars(fact.body(), v2)
                if not (z3.is_implies(bd) and z3.is_eq(bd.arg(1)) and z3.is_select(bd.arg(1).arg(0)) and bd.arg(1).arg(0).arg(0).eq(ends[m][k])):
                    continue
                sel, vv = bd.arg(1).arg(0), bd.arg(1).arg(1)
                # at least one sort of the index is a reference here; values of this loop's state do not carry over
                if not mentions_any(sel.arg(1), [v2]) or mentions_any(vv, [x.at(i) for x in self.slots]):
                    continue
                key = (sel.arg(1).get_id(), vv.get_id())
                if key in seen:
                    continue
                seen.add(key)
                g = z3.BoolVal(True) if len(cont) == 1 else z3.substitute(B_[m], (i, j))
                tj = z3.substitute(sel.arg(1), (i, j))
                f = z3.Implies(z3.And(j >= 0, j < i, g, z3.substitute(bd.arg(0), (i, j))), z3.Select(hs, tj) == z3.substitute(vv, (i, j)))
                try:
                    q = z3.ForAll([j, v2], f, patterns=[tj])
                except z3.Z3Exception:
                    q = z3.ForAll([j, v2], f)
                cands.append(Cand('%s written by an inner loop' % sl.key, q))
        if old:
            # not yet reached
            seen = set()
            for m, t, b, fresh in old:
                if b or t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                tj = z3.substitute(t, (i, j))
                if mentions_any(tj, [x.at(j) for x in self.slots]):
                    continue
                rng = z3.And(j >= i)
                if self.bound is not None:
                    pass
                f = z3.Implies(rng, z3.Select(hs, tj) == z3.Select(sl.init, tj))
                try:
                    q = z3.ForAll([j], f, patterns=[tj] if self.okpat(tj, j) else [])
                except z3.Z3Exception:
                    q = z3.ForAll([j], f)
                # holds only for j inside the sequence; the caller's distinctness facts are range-limited
                cands.append(Cand('%s untouched ahead' % sl.key, q))
                if self.bound is not None:
                    lim = self.limit()
                    if lim is not None:
                        f = z3.Implies(z3.And(j >= i, j < lim), z3.Select(hs, tj) == z3.Select(sl.init, tj))
                        try:
                            q = z3.ForAll([j], f, patterns=[tj] if self.okpat(tj, j) else [])
                        except z3.Z3Exception:
                            q = z3.ForAll([j], f)
                        cands.append(Cand('%s untouched ahead (in range)' % sl.key, q))

    def limit(self):
        b = self.bound(self.st0.copy(), self.i)
        # i <= If(n > 0, n, 0)
        try:
            return b.arg(1)
        except Exception:
            return None

    def okpat(self, t, j):
        if not mentions_any(t, [j]):
            return False
        ok = [True]

        def walk(x):
            if z3.is_app(x):
                kd = x.decl().kind()
                if kd not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_ANUM, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_STORE, z3.Z3_OP_MUL):
                    ok[0] = False
                for c in x.children():
                    walk(c)
            elif not z3.is_var(x):
                ok[0] = False
        walk(t)
        return ok[0] and not t.eq(j)

    def all_fresh(self, a, t, b, A0):
        f = t >= A0
        rg = []
        vs = []
        for bv, bn in b:
            e = z3.FreshInt('e')
            f = z3.substitute(f, (bv, e))
            rg += [e >= 0, e < bn]
        return self.eng.holds(a, z3.Implies(z3.And(rg), f), full=True, timeout=1.0)

    # -- history
    def history(self, outs):
        """facts about all earlier iterations"""
        i = self.i
        cont = [a for k, a, _ in outs if k in ('next', 'cont')]
        j = z3.Int('jh@%d' % self.id)
        rng = z3.And(j >= 0, j < i)
        res = []
        if not cont:
            res.append(i == 0)
            return res
        Bs = []
        for a in cont:
            Bs.append(z3.And([t for t, tag in a.pc[self.npc:] if tag == 'b'] or [z3.BoolVal(True)]))
        dis = z3.simplify(z3.Or(Bs))
        single = len(cont) == 1

        done = {}

        def add(f):
            if f.get_id() in done or z3.is_true(z3.simplify(f)):
                return
            done[f.get_id()] = f
            if not mentions_any(f, [i]):
                # true in every iteration, but only known if there was one
                res.append(z3.Implies(i > 0, f))
                return
            g = z3.substitute(f, (i, j))
            if not keyed(g, j):
                # no term to trigger on: keep the latest iteration's instance
                res.append(z3.Implies(i > 0, z3.substitute(f, (i, i - 1))))
                return
            if solver.has_quant(g):
                res.append(z3.ForAll([j], z3.Implies(rng, g)))
            else:
                res.append(self.quant(j, rng, g))
        if single:
            for t, tag in cont[0].pc[self.npc:]:
                if tag == 'w':
                    continue
                add(t)
        else:
            # conjuncts shared by all continuing paths hold outright
            sets = []
            for a in cont:
                sets.append({t.get_id(): t for t, tag in a.pc[self.npc:] if tag == 'b'})
            alls = [{t.get_id() for t, tag in a.pc[self.npc:]} for a in cont]
            common = set(sets[0])
            for s_ in sets[1:]:
                common &= set(s_)
            shared = set.intersection(*alls)
            for t, tag in cont[0].pc[self.npc:]:
                if t.get_id() in shared and (tag != 'w' or t.get_id() in common):
                    add(t)
            rest = [z3.And([t for k, t in s_.items() if k not in common] or [z3.BoolVal(True)]) for s_ in sets]
            add(z3.Or(rest))
            for a, s_ in zip(cont, sets):
                b = z3.And([t for k, t in s_.items() if k not in common] or [z3.BoolVal(True)])
                for t, tag in a.pc[self.npc:]:
                    if tag in ('b', 'w') or t.get_id() in shared:
                        continue
                    add(z3.Implies(b, t))
        if self.mod_alloc:
            ah = [sl for sl in self.slots if sl.kind == 'alloc'][0]
            for m, a in enumerate(cont):
                e = z3.simplify(a.alloc - 1)
                g = z3.substitute(z3.And(a.alloc <= ah.at(i + 0)), (i, j))
                g = z3.substitute(a.alloc, (i, j)) <= ah.at(i)
                res.append(self.quant(j, rng, g if single else z3.Implies(z3.substitute(Bs[m], (i, j)), g)))
            res.append(self.quant(j, z3.And(j >= 0, j <= i), z3.And(ah.at(j) <= ah.at(i), ah.at(j) >= self.st0.alloc)))
        # scalar transition of the previous iteration
        ends = [self.end_terms(a) for a in cont]
        for k, sl in enumerate(self.slots):
            if sl.kind in ('local', 'glob') or (sl.kind == 'cell' and not z3.is_array(sl.at(i))):
                if single:
                    f = z3.Implies(i > 0, sl.at(i) == z3.substitute(ends[0][k], (i, i - 1)))
                    res.append(f)
        for sl in self.slots:
            if not z3.is_array(sl.init):
                res.append(sl.at(z3.IntVal(0)) == sl.init)
        return res

    def quant(self, j, rng, g):
        return z3.ForAll([j], z3.Implies(rng, g))

    def register_frames(self, cands):
        eng = self.eng
        A0 = self.st0.alloc
        for c in cands:
            if getattr(c, 'slot', None) is None:
                continue
            K = c.slot.at(self.i)
            old = c.old
            inv = [t for m, t, b, f in old if not b and not self.varies(t)]
            if len(inv) == len(old):
                def cond(ref, inv=inv):
                    return z3.And([ref < A0] + [ref != t for t in inv])
            else:
                def cond(ref, old=old):
                    if self.varies(ref) and not eng.own:
                        return None
                    return self.untouched(ref, old)
                cond.fresh = True
            eng.headframes[K.get_id()] = (K, c.slot.init, cond)

    def untouched(self, ref, old):
        """no earlier iteration wrote to ref (to be proved for arbitrary, i.e. fresh, iterations)"""
        cs = [ref < self.st0.alloc]
        for x, (m, t, b, _) in enumerate(old):
            if not b and not self.varies(t):
                cs.append(ref != t)
                continue
            w = z3.Int('w%d@%d' % (x, self.id))
            t2, rg = z3.substitute(t, (self.i, w)), [w >= 0, w < self.i]
            for y, (bv, bn) in enumerate(b):
                e = z3.Int('w%d_%d@%d' % (x, y, self.id))
                bv2, bn2 = z3.substitute(bv, (self.i, w)), z3.substitute(bn, (self.i, w))
                t2 = z3.substitute(t2, (bv2, e))
                rg += [e >= 0, e < z3.substitute(bn2, (bv2, e))]
            cs.append(z3.Implies(z3.And(rg), ref != t2))
        return z3.And(cs)

    def houdini(self, cands, hist, quiet):
        """keep the candidates that hold on entry and are preserved together"""
        eng, st0 = self.eng, self.st0
        # 3. entry
        kept = []
        base = st0.facts() + [sl.at(z3.IntVal(0)) == sl.init for sl in self.slots] + eng.init_axioms
        for c in cands:
            if getattr(c, 'entry', False):
                kept.append(c)
                continue
            g = z3.substitute(c.f, (self.i, z3.IntVal(0)))
            if getattr(c, 'state', None):
                g = dict(stated(c.state[0], st0, z3.IntVal(0))).get(c.state[1], z3.BoolVal(False))
            if self.prove(base, g):
                c.entry = True
                kept.append(c)
            else:
                self.drops.add(c.name + ' (entry)')
        cands = kept
        # 4. preservation
        for rnd in range(8):
            h = self.head(cands, hist)
            self.register_frames(cands)
            outs = self.run_body(h)
            if self.discover(outs):
                raise Unsupported('loop effect changed')
            cont = [a for k, a, _ in outs if k in ('next', 'cont')]
            bad = []
            for a in cont:
                ends = self.end_terms(a)
                i1 = self.i + 1
                pairs = [(sl.at(i1), e) for sl, e in zip(self.slots, ends)]

                def sub(t, pairs=pairs):
                    return z3.substitute(z3.substitute(t, (self.i, i1)), *pairs) if pairs else z3.substitute(t, (self.i, i1))
                facts = a.facts() + eng.init_axioms
                for c in cands:
                    if c in bad:
                        continue
                    g = c.goal(lambda t: self.subhead(t, pairs, i1)) if c.goal else sub(c.f)
                    if getattr(c, 'state', None):
                        g = dict(stated(c.state[0], a, i1)).get(c.state[1], z3.BoolVal(False))
                    if not self.prove(facts, g):
                        bad.append(c)
                        self.drops.add(c.name)
            if not bad:
                break
            del eng.obligations[quiet:]
            for c in bad:
                if getattr(c, 'slot', None) is not None:
                    eng.headframes.pop(c.slot.at(self.i).get_id(), None)
            cands = [c for c in cands if c not in bad]
        else:
            raise Unsupported('invariant search did not converge')
        return cands, outs

    # -- main
    def run(self):
        eng, st0 = self.eng, self.st0
        # 1. discovery
        quiet = len(eng.obligations)
        outs = None
        for _ in range(12):
            h = self.head([], [])
            outs = self.run_body(h)
            del eng.obligations[quiet:]
            if not self.discover(outs):
                break
        else:
            raise Unsupported('loop effect does not stabilise')
        # 2. candidates
        outs0, h0, npc0, slots0 = outs, self.h, self.npc, self.slots
        hist = self.history(outs)      # from the run without candidates: sound whatever is dropped later
        if eng.own:
            # frames first; everything else is generated from a run whose reads are resolved through them
            cands = [c for c in self.candidates(outs) if getattr(c, 'slot', None) is not None or c.name.startswith('idx<=n') or getattr(c, 'state', None)]
            cands, outs = self.houdini(cands, hist, quiet)
            cands = [c for c in cands if not c.name.startswith('idx<=n')]
            have = {c.name for c in cands}
            del eng.obligations[quiet:]
            hist = self.history(outs)
            h = self.head(cands, hist)
            outs = self.run_body(h)
            del eng.obligations[quiet:]
            cands = cands + [c for c in self.candidates(outs) if c.name not in have and getattr(c, 'slot', None) is None]
        else:
            cands = self.candidates(outs)
        cands, outs = self.houdini(cands, hist, quiet)
        eng.loops_log.append(dict(line=getattr(self.s, 'lineno', 0), kept=[c.name for c in cands], dropped=sorted(self.drops)))
        # closed forms replace their symbols
        cf = [c for c in cands if getattr(c, 'closed', None) is not None]
        if cf:
            pre = len(st0.idx)
            rep = []
            for c in cf:
                d, fn = c.closed
                if d.name() not in self.closed and d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() == pre + 1:
                    self.closed[d.name()] = (d, lambda *a, fn=fn: fn(a[-1]))
                    rep.append((d, fn(z3.Var(pre, I))))
            cands = [c for c in cands if c not in cf]
            for c in cands:
                c.f = z3.substitute_funs(c.f, *rep)
            hist = [z3.substitute_funs(f, *rep) for f in hist]
            ob0 = eng.obligations[quiet:]
            del eng.obligations[quiet:]
            h = self.head(cands, hist)
            self.register_frames(cands)
            outs2 = self.run_body(h)
            if self.discover(outs2):
                raise Unsupported('loop effect changed')
            outs = outs2
        # facts about earlier iterations once more, now with the invariants at work (reads resolved through the frames)
        hist2 = self.history(outs)
        jj, rr = z3.Int('jf@%d' % self.id), z3.Int('rf@%d' % self.id)
        for c in cands:
            hf = eng.headframes.get(c.slot.at(self.i).get_id()) if getattr(c, 'slot', None) is not None else None
            cf = hf[2](rr) if hf and not getattr(hf[2], 'fresh', False) else None
            if cf is not None:
                K = c.slot.at(jj)
                hist2.append(z3.ForAll([jj, rr], z3.Implies(z3.And(jj >= 0, jj <= self.i, cf), z3.Select(K, rr) == z3.Select(c.slot.init, rr)), patterns=[z3.Select(K, rr)]))
        ob0 = eng.obligations[quiet:]
        del eng.obligations[quiet:]
        h = self.head(cands, hist2)
        outs2 = self.run_body(h)
        if not self.discover(outs2) and len(outs2) == len(outs):
            outs = outs2
        else:
            eng.obligations[quiet:] = ob0
        # 5. outcomes
        res = []
        mods = []
        for k, a, v in outs:
            if k in ('next', 'cont'):
                for w in a.wlog:
                    b = tuple(w[3]) if len(w) > 3 else ()
                    if self.varies(w[1]):
                        ent = (w[0], w[1], None, ((self.i, None),) + b)
                    else:
                        ent = (w[0], w[1], None, b)
                    if not any(ent[0] == x[0] and ent[1].eq(x[1]) for x in mods):
                        mods.append(ent)
        for k, a, v in outs:
            if k in ('next', 'cont'):
                continue
            a.idx = st0.idx
            a.cs = st0.cs
            own = [w for w in a.wlog]
            # number of completed iterations on this exit is i
            a.wlog = list(st0.wlog) + [(n, r, p, tuple((bv, self.i + 0 if bn is None else bn) for bv, bn in b)) for n, r, p, b in self.rebind(mods)] + own
            a.occ = dict(a.occ)
            if k == 'exit':
                for n, ty in self.mod_locals.items():
                    if ty is None and n[1] not in a.frames[n[0]]:
                        a.frames[n[0]][n[1]] = VUndef()
                res += eng.exec_block(self.s.orelse, a, self.fid)
            elif k == 'brk':
                res.append(('next', a, None))
            else:
                res.append((k, a, v))
        return res

    def rebind(self, mods):
        """entries whose reference varies with i: bind i by a fresh variable"""
        out = []
        for n, r, p, b in mods:
            if b and b[0][1] is None:
                bv = z3.Int('b@%d' % self.id)
                f = self.fn('bv', I)()
                r2 = z3.substitute(r, (self.i, f))
                b2 = tuple((z3.substitute(x, (self.i, f)), z3.substitute(y, (self.i, f))) for x, y in b[1:])
                out.append((n, r2, p, ((f, self.i),) + b2))
            else:
                out.append((n, r, p, b))
        return out

    def subhead(self, t, pairs, i1):
        # only the head symbols move to their end values; the iteration number stays
        m = [(sl.at(self.i), e) for sl, (_, e) in zip(self.slots, pairs)]
        return z3.substitute(t, *m) if m else t

    def prove(self, facts, g):
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        fs, tm = facts + [z3.Not(g)], self.eng.cand_timeout
        if not tm:
            return solver.check(fs, CAND_TIMEOUT, mbqi=False)[0] == 'unsat'
        # stated invariants: a few restarts, since one unlucky order of instantiations can take for ever
        for seed, share in ((0, 4), (7, 4), (13, 4), (29, 4), (0, 1)):
            r, _ = solver.check(fs, tm / share, mbqi=False, seed=seed)
            if r == 'unsat':
                return True
            if not solver.resource_out():
                return False
        return False
