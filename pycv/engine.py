"""Symbolic execution of the real Python functions into proof obligations.

Forward execution over the AST; heap components are SMT arrays indexed by
references; loops are cut by inductive invariants found by summarisation plus
Houdini-style filtering (see loops.py), so there is no bound on iterations.
"""
import ast
import z3
from . import solver
from .repo import Func, Class
from .vals import *

AS = z3.ArraySort
MAXDEPTH = 40


class State:
    __slots__ = ('pc', 'heap', 'alloc', 'frames', 'occ', 'cs', 'idx', 'wlog', 'glob', 'handlers')

    def __init__(self):
        self.pc = []          # [(term, tag)]  tag: 'b' branch, 'a' assumption
        self.heap = {}
        self.alloc = None
        self.frames = {}
        self.occ = {}
        self.cs = ()
        self.idx = ()
        self.wlog = []
        self.glob = {}

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.heap = dict(self.heap)
        s.alloc = self.alloc
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.occ = dict(self.occ)
        s.cs = self.cs
        s.idx = self.idx
        s.wlog = list(self.wlog)
        s.glob = dict(self.glob)
        return s

    def assume(self, t, tag='a'):
        if z3.is_true(t):
            return self
        self.pc.append((t, tag))
        return self

    def facts(self):
        return [p[0] for p in self.pc]


class Contract:
    """apply(eng, st, self_v, args(dict name->V)) -> [(st, V)]   (raises go through eng.do_raise)"""

    def __init__(self, name, apply):
        self.name, self.apply = name, apply
        self.used = 0


class Engine:
    def __init__(self, repo):
        self.repo = repo
        self.ftypes = {}
        self.contracts = {}
        self.lib = {}
        self.fn_table = {}
        self.fn_codes = {}
        self.str_codes = {}
        self.init_comps = {}
        self.init_axioms = []
        self.comp_ty = {}
        self.csids = {}
        self.headframes = {}
        self.filter_order = False    # state that a filtering comprehension keeps the order
        self.keep = []
        self.raised = [[]]
        self.fid = 0
        self.depth = 0
        self.A0 = z3.Int('A0')
        self.obligations = []
        self.trusted = set()
        self.inlined = set()
        self.loops_log = []
        self.loop_hints = []
        self.unsupported = []
        self.neq_cache = {}
        self.state_invs = []     # functions state -> [(name, formula)]: loop invariants stated by a specification, kept where proved
        self.local_invs = []     # functions (state, iteration, value of an integer local) -> [(name, formula)]
        self.cand_filter = None
        self.cand_timeout = None
        self.exit_equality = False      # state at the end of a loop that the index equals the length, where the solver shows it
        self.own = []            # ownership facts (universal, about the initial heap) used to tell references apart
        self.gconst = {}
        self.defer = None
        self.tcode = {'None': 0, 'int': 1, 'float': 2, 'bool': 3, 'str': 4, 'list': 5, 'tuple': 6, 'dict': 7,
                      'type': 8, 'set': 9, 'object': 10, 'Number': 11, 'Callable': 12, 'NoneType': 13}
        from . import lib
        lib.install(self)

    # ------------------------------------------------------------ state
    def new_state(self):
        st = State()
        st.alloc = self.A0
        st.assume(self.A0 > 0)
        st.frames[0] = {}
        return st

    def csid(self, cs):
        return self.csids.setdefault(cs, len(self.csids))

    def fresh(self, st, name, sort):
        key = (st.cs, name)
        n = st.occ.get(key, 0)
        st.occ[key] = n + 1
        nm = '%s!%d!%d' % (name, self.csid(st.cs), n)
        if st.idx:
            f = z3.Function(nm, *([I] * len(st.idx)), sort)
            return f(*st.idx)
        return z3.Const(nm, sort)

    def fresh_fn(self, st, name, *sorts):
        """fresh function symbol; returns python callable adding the loop context"""
        key = (st.cs, name)
        n = st.occ.get(key, 0)
        st.occ[key] = n + 1
        nm = '%s!%d!%d' % (name, self.csid(st.cs), n)
        f = z3.Function(nm, *([I] * len(st.idx)), *sorts)
        idx = st.idx
        return lambda *a: f(*idx, *a)

    def fresh_val(self, st, name, ty, wf=True):
        ty = rt(ty)
        v = self.from_terms([self.fresh(st, name + s, so) for s, so in ty.leaves()], ty)
        if wf:
            self.wf(st, v)
        return v

    def wf(self, st, v):
        """heap well-formedness of a value just read or produced"""
        if isinstance(v, VRef):
            lo = 0 if getattr(v.ty, 'null', False) else 1
            st.assume(z3.And(v.t >= lo, v.t < st.alloc), 'w')
            # read from the initial heap: allocated at the start
            t = v.t
            if z3.is_select(t) and not st.alloc.eq(self.A0):
                a, r = t.arg(0), t.arg(1)
                if z3.is_select(a):
                    a, r = a.arg(0), a.arg(1)
                if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name().startswith('H0.'):
                    st.assume(z3.Implies(z3.And(r > 0, r < self.A0), t < self.A0), 'w')
        elif isinstance(v, VTup):
            for i in v.items:
                self.wf(st, i)
        elif isinstance(v, VOpt):
            self.wf(st, v.v)

    def feasible(self, st):
        fs = solver.qf(st.facts())
        r, _ = solver.check(fs, 0.5)
        return r != 'unsat'

    def holds(self, st, t, full=False, timeout=0.4):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        fs = st.facts()
        key = (t.get_id(), tuple(f.get_id() for f in fs), full)
        if key in self.neq_cache:
            return self.neq_cache[key][0]
        q = solver.qf(fs)
        r, _ = solver.check(q + [z3.Not(t)], timeout)
        ok = r == 'unsat'
        if not ok and full:
            r, _ = solver.check(fs + self.init_axioms + [z3.Not(t)], max(timeout, 1.0), mbqi=False)
            ok = r == 'unsat'
        self.neq_cache[key] = (ok, t, fs)
        return ok

    def require(self, st, name, goal):
        """precondition of a contract: an obligation at this call (discarded with the run it belongs to while a loop is still being analysed)"""
        self.obligations.append(dict(name=name, st=st.copy(), goal=goal))

    def apart(self, st, t):
        """disequality of references: also by the declared ownership facts"""
        if self.holds(st, t):
            return True
        if not self.own:
            return False
        fs = st.facts()
        key = (t.get_id(), tuple(f.get_id() for f in fs), 'own')
        if key not in self.neq_cache:
            r, _ = solver.check(solver.qf(fs) + self.own + self.init_axioms + [z3.Not(t)], 0.5, mbqi=False)
            self.neq_cache[key] = (r == 'unsat', t, fs)
        return self.neq_cache[key][0]

    # ------------------------------------------------------------ codes
    def strcode(self, s):
        if s not in self.str_codes:
            self.str_codes[s] = 100000 + len(self.str_codes)
        return self.str_codes[s]

    def fncode(self, v):
        k = None
        if isinstance(v, VBuiltin):
            k = ('b', v.name)
        elif isinstance(v, VFunc) and v.closure is None:
            k = ('f', v.func.qual)
        elif isinstance(v, VBound):
            k = ('m', v.fn.func.qual if isinstance(v.fn, VFunc) else str(v.fn), str(getattr(v.self_v, 't', v.self_v)))
        elif isinstance(v, VFunc):
            k = ('c', id(v.func.node), v.closure)
        if k in self.fn_codes:
            return self.fn_codes[k]
        c = 500000 + len(self.fn_table)
        self.fn_table[c] = v
        self.fn_codes[k] = c
        return c

    def cls_by_code(self, n):
        for c in self.repo.classes.values():
            if c.code == n:
                return c
        return None

    # ------------------------------------------------------------ terms <-> values
    def from_terms(self, ts, ty):
        ty = rt(ty)
        if ty in (TInt, TReal, TBool):
            return VNum(ts[0])
        if ty is TStr:
            return self.mkstr(ts[0])
        if ty is TFn:
            t = z3.simplify(ts[0])
            if z3.is_int_value(t):
                if t.as_long() == 0:
                    return VNone
                if t.as_long() in self.fn_table:
                    return self.fn_table[t.as_long()]
            return VFnSym(ts[0])
        if ty is TTyp:
            t = z3.simplify(ts[0])
            if z3.is_int_value(t):
                n = t.as_long()
                if n == 0:
                    return VNone
                c = self.cls_by_code(n)
                if c:
                    return VClass(c)
                for k, x in self.tcode.items():
                    if x == n:
                        return VBuiltin(k)
            return VTypV(ts[0])
        if ty is TAny:
            return VAny(ts[0])
        if ty is TNone:
            return VNone
        if isinstance(ty, TXReal):
            return VX(ts[0], ts[1])
        if isinstance(ty, (TObj, TList, TDict)):
            return VRef(ts[0], ty)
        if isinstance(ty, TTup):
            out, k = [], 0
            for it in ty.items:
                n = len(rt(it).leaves())
                out.append(self.from_terms(ts[k:k + n], it))
                k += n
            return VTup(out)
        if isinstance(ty, TOpt):
            return VOpt(ts[0], self.from_terms(ts[1:], ty.inner))
        if isinstance(ty, TUnion):
            out, k = [], 1
            for it in ty.items:
                n = len(rt(it).leaves())
                out.append(self.from_terms(ts[k:k + n], it))
                k += n
            return VUnion(ts[0], out)
        raise Unsupported('from_terms %s' % ty)

    def mkstr(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            for k, c in self.str_codes.items():
                if c == t.as_long():
                    return VStr(k)
        return VStr(None, t)

    def default_terms(self, ty):
        out = []
        for _, so in rt(ty).leaves():
            if so == I:
                out.append(z3.IntVal(0))
            elif so == R:
                out.append(z3.RealVal(0))
            else:
                out.append(z3.BoolVal(False))
        return out

    def to_terms(self, v, ty):
        ty = rt(ty)
        if isinstance(ty, TVar):
            ty.ref = self.type_of(v)
            ty = rt(ty)
        if isinstance(v, VOpt) and not isinstance(ty, TOpt):
            return self.to_terms(v.v, ty)
        if ty is TInt:
            if isinstance(v, VNum):
                return [self.as_int(v)]
        elif ty is TReal:
            if isinstance(v, VNum):
                return [self.as_real(v)]
            if isinstance(v, VX):
                return [v.val]
        elif ty is TBool:
            if isinstance(v, VNum):
                return [v.t if v.t.sort() == B else v.t != 0]
        elif isinstance(ty, TXReal):
            if isinstance(v, VX):
                return [v.inf, v.val]
            if isinstance(v, VNum):
                return [z3.BoolVal(False), self.as_real(v)]
        elif ty is TStr:
            if isinstance(v, VStr):
                return [v.t if v.s is None else z3.IntVal(self.strcode(v.s))]
            if v is VNone:
                return [z3.IntVal(0)]
            if isinstance(v, VOpaque):
                return [z3.IntVal(self.strcode('<opaque>'))]
        elif ty is TFn:
            if v is VNone:
                return [z3.IntVal(0)]
            if isinstance(v, VFnSym):
                return [v.t]
            if isinstance(v, VBound) and isinstance(v.self_v, VRef):
                if not isinstance(v.fn, VFunc):
                    raise Unsupported('cannot store %r' % v)
                return [z3.Function('bound_method', I, I, I)(z3.IntVal(self.fncode(VFunc(v.fn.func))), v.self_v.t)]
            if isinstance(v, (VFunc, VBound, VBuiltin)):
                return [z3.IntVal(self.fncode(v))]
        elif ty is TTyp:
            if v is VNone:
                return [z3.IntVal(0)]
            if isinstance(v, VTypV):
                return [v.t]
            if isinstance(v, VClass):
                return [z3.IntVal(v.cls.code)]
            if isinstance(v, VBuiltin) and v.name in self.tcode:
                return [z3.IntVal(self.tcode[v.name])]
        elif ty is TAny:
            return [self.any_code(v)]
        elif ty is TNone:
            return [z3.IntVal(0)]
        elif isinstance(ty, (TObj, TList, TDict)):
            if v is VNone:
                return [z3.IntVal(0)]
            if isinstance(v, VRef):
                self.unify(v.ty, ty)
                return [v.t]
        elif isinstance(ty, TTup):
            if isinstance(v, VTup) and len(v.items) == len(ty.items):
                return [t for i, it in zip(v.items, ty.items) for t in self.to_terms(i, it)]
        elif isinstance(ty, TOpt):
            if v is VNone:
                return [z3.BoolVal(True)] + self.default_terms(ty.inner)
            if isinstance(v, VOpt):
                return [v.none] + self.to_terms(v.v, ty.inner)
            return [z3.BoolVal(False)] + self.to_terms(v, ty.inner)
        elif isinstance(ty, TUnion):
            if isinstance(v, VUnion):
                return [v.tag] + [t for x, it in zip(v.items, ty.items) for t in self.to_terms(x, it)]
            for k, it in enumerate(ty.items):
                if v is VNone and not getattr(rt(it), 'null', False):
                    continue
                try:
                    if v is not VNone and self.type_of(v).key() != rt(it).key() and not (isinstance(v, VRef) and isinstance(rt(it), type(v.ty))):
                        continue
                    mine = self.to_terms(v, it)
                except Unsupported:
                    continue
                return [z3.IntVal(k)] + [t for m, o in enumerate(ty.items) for t in (mine if m == k else self.default_terms(o))]
        raise Unsupported('cannot store %r as %s' % (v, ty))

    def coerce(self, st, v, ty):
        """a list display of tuples stored where a wider element type is declared: the same list, seen at the declared type"""
        ty = rt(ty)
        if not (isinstance(v, VRef) and isinstance(v.ty, TList) and isinstance(ty, TList)):
            return v
        x, y = rt(v.ty.elem), rt(ty.elem)
        if not (isinstance(x, TTup) and isinstance(y, TTup) and x.key() != y.key() and len(x.items) == len(y.items)):
            return v
        n = z3.simplify(self.list_len(st, v))
        if not z3.is_int_value(n) or n.as_long() > 8:
            return v
        items = [self.list_get(st, v, z3.IntVal(k)) for k in range(n.as_long())]
        w = VRef(v.t, TList(y))
        for k, it in enumerate(items):
            self.list_set(st, w, z3.IntVal(k), it)
        return w

    def any_code(self, v):
        if isinstance(v, VAny):
            return v.t
        if v is VNone:
            return z3.IntVal(0)
        if isinstance(v, VStr):
            return self.to_terms(v, TStr)[0]
        if isinstance(v, VRef):
            return v.t
        if isinstance(v, (VFunc, VBound, VBuiltin)):
            return z3.IntVal(self.fncode(v))
        if isinstance(v, VNum) and v.t.sort() == R:
            return z3.Function('any_of_real', R, I)(v.t)
        if isinstance(v, VNum) and v.t.sort() == I:
            return z3.Function('any_of_int', I, I)(v.t)
        if isinstance(v, VNum):
            return z3.Function('any_of_bool', B, I)(v.t)
        raise Unsupported('opaque value of %r' % v)

    def unify(self, a, b):
        if isinstance(a, TList) and isinstance(b, TList):
            x, y = rt(a.elem), rt(b.elem)
            if isinstance(x, TVar):
                if x is not y:
                    x.ref = y
            elif isinstance(y, TVar):
                y.ref = x
            elif x.key() != y.key():
                if isinstance(x, TObj) and isinstance(y, TObj):
                    return
                self.unify(x, y)
                if x.key() != y.key():
                    raise Unsupported('list type mismatch %s / %s' % (a, b))

    def type_of(self, v):
        if isinstance(v, VNum):
            return {I: TInt, R: TReal, B: TBool}[v.t.sort()]
        if isinstance(v, VX):
            return TX
        if isinstance(v, (VStr, VOpaque)):
            return TStr
        if isinstance(v, VRef):
            if isinstance(v.ty, TObj):
                return TObj(v.ty.cname, v.ty.exact, v.ty.null)
            return v.ty
        if isinstance(v, VTup):
            return TTup([self.type_of(i) for i in v.items])
        if isinstance(v, VOpt):
            return TOpt(self.type_of(v.v))
        if isinstance(v, (VFunc, VBound, VFnSym)):
            return TFn
        if isinstance(v, (VClass, VTypV)):
            return TTyp
        if isinstance(v, VBuiltin):
            return TTyp if v.name in self.tcode else TFn
        if isinstance(v, VAny):
            return TAny
        if v is VNone:
            return TNone
        raise Unsupported('type_of %r' % v)

    def as_int(self, v):
        if isinstance(v, VOpt):
            return self.as_int(v.v)
        if not isinstance(v, VNum):
            raise Unsupported('expected an int, got %r' % v)
        if v.t.sort() == B:
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if v.t.sort() == R:
            raise Unsupported('float used as int')
        return v.t

    def as_real(self, v):
        if isinstance(v, VOpt):
            return self.as_real(v.v)
        if not isinstance(v, VNum):
            raise Unsupported('expected a number, got %r' % v)
        if v.t.sort() == R:
            return v.t
        t = self.as_int(v)
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)

    # ------------------------------------------------------------ heap
    def comp(self, st, name, sort, ref_ty=None, nested=False):
        if name in st.heap:
            return st.heap[name]
        if name not in self.init_comps:
            k = z3.Const('H0.' + name, sort)
            self.init_comps[name] = k
            r, p = z3.Int('r'), z3.Int('p')
            if name == 'len':
                self.init_axioms.append(z3.ForAll([r], k[r] >= 0, patterns=[k[r]]))
            if ref_ty is not None:
                lo = 0 if getattr(ref_ty, 'null', False) else 1
                if nested:
                    self.init_axioms.append(z3.ForAll([r, p], z3.Implies(z3.And(r > 0, r < self.A0), z3.And(k[r][p] >= lo, k[r][p] < self.A0)), patterns=[k[r][p]]))
                else:
                    self.init_axioms.append(z3.ForAll([r], z3.Implies(z3.And(r > 0, r < self.A0), z3.And(k[r] >= lo, k[r] < self.A0)), patterns=[k[r]]))
            self.comp_ty[name] = sort
        return self.init_comps[name]

    def read_arr(self, st, K, ref):
        while True:
            if z3.is_store(K):
                s = K.arg(1)
                if s.eq(ref):
                    return K.arg(2)
                if self.apart(st, s != ref):
                    K = K.arg(0)
                    continue
                return self._sel(K, ref)
            hf = self.headframes.get(K.get_id())
            if hf is not None:
                _, K0, cond = hf
                c = cond(ref)
                if c is not None and self.apart(st, c):
                    K = K0
                    continue
            return self._sel(K, ref)

    def _sel(self, K, ref):
        return z3.Select(K, ref)

    def write(self, st, name, K, ref, val, pos=None):
        # drop a covered store to the same ref
        if z3.is_store(K) and K.arg(1).eq(ref):
            K = K.arg(0)
        st.heap[name] = z3.Store(K, ref, val)
        st.wlog.append((name, ref, pos))

    # fields
    def fty(self, cname, field):
        c = self.repo.classes[cname]
        for d in self.repo.mro(c):
            t = self.ftypes.get((d.name, field))
            if t is not None:
                return t
        return None

    def fcomp(self, cname, field, ty):
        fam = self.repo.family(self.repo.classes[cname])
        return 'F:%s.%s:%s' % (fam, field, rt(ty).key())

    def get_field(self, st, ref, cname, field, ty=None):
        ty = ty or self.fty(cname, field)
        base = self.fcomp(cname, field, ty)
        ts = []
        isref = isinstance(rt(ty), (TObj, TList, TDict))
        for s, so in rt(ty).leaves():
            K = self.comp(st, base + s, AS(I, so), rt(ty) if isref else None)
            ts.append(self.read_arr(st, K, ref))
        v = self.from_terms(ts, ty)
        self.wf(st, v)
        return v

    def set_field(self, st, ref, cname, field, v):
        ty = self.fty(cname, field)
        if ty is None or rt(ty) is TNone:
            t2 = self.type_of(v)
            ty = t2
            fam = self.repo.family(self.repo.classes[cname])
            self.ftypes[(fam, field)] = ty
        ty = self.refine_field(cname, field, ty, v)
        v = self.coerce(st, self.materialise(st, v, ty), ty)
        base = self.fcomp(cname, field, ty)
        ts = self.to_terms(v, ty)
        isref = isinstance(rt(ty), (TObj, TList, TDict))
        for (s, so), t in zip(rt(ty).leaves(), ts):
            K = self.comp(st, base + s, AS(I, so), rt(ty) if isref else None)
            self.write(st, base + s, K, ref, t)

    def refine_field(self, cname, field, ty, v):
        return ty

    # classes
    def cls_of(self, st, v):
        """class code term of an object"""
        if v.ty.exact:
            return z3.IntVal(self.repo.classes[v.ty.cname].code)
        K = self.comp(st, 'cls', AS(I, I))
        return self.read_arr(st, K, v.t)

    def isinst(self, st, v, cls):
        """z3 Bool: v is an instance of repo class cls"""
        if isinstance(v, VAny):
            return z3.Function('any_is_' + cls.name, I, B)(v.t)
        if not isinstance(v, VRef) or not isinstance(v.ty, TObj):
            return z3.BoolVal(False)
        c = self.repo.classes[v.ty.cname]
        nn = (v.t != 0) if v.ty.null else z3.BoolVal(True)
        if self.repo.is_sub(c, cls):
            return nn
        if v.ty.exact:
            return z3.BoolVal(False)
        subs = [d for d in self.repo.subclasses(cls) if self.repo.is_sub(d, c) or True]
        if not any(self.repo.is_sub(d, c) for d in subs):
            # unrelated hierarchies (no multiple inheritance across them in the repository)
            return z3.BoolVal(False)
        code = self.cls_of(st, v)
        return z3.And(nn, z3.Or([code == d.code for d in subs]))

    # ------------------------------------------------------------ allocation
    def alloc(self, st, site):
        r = self.fresh(st, 'new_' + site, I)
        st.assume(r >= st.alloc)
        sid = self.csid((st.cs, site, st.occ[(st.cs, 'new_' + site)]))
        siteof = z3.Function('siteof', I, I)
        st.assume(siteof(r) == sid)
        for d, ix in enumerate(st.idx):
            st.assume(z3.Function('idxof%d' % d, I, I)(r) == ix)
        na = self.fresh(st, 'alloc', I)
        st.assume(na == r + 1)
        st.alloc = r + 1
        st.pc.pop()
        return r

    def new_obj(self, st, cls):
        r = self.alloc(st, cls.name)
        K = self.comp(st, 'cls', AS(I, I))
        self.write(st, 'cls', K, r, z3.IntVal(cls.code))
        return VRef(r, TObj(cls.name, exact=True))

    # lists
    def elcomp(self, st, ty, leaf):
        e = rt(ty.elem)
        for s, so in e.leaves():
            if s == leaf:
                isref = isinstance(e, (TObj, TList, TDict))
                nm = 'el:%s%s' % (self.elkey(e), s)
                return nm, self.comp(st, nm, AS(I, AS(I, so)), e if isref else None, nested=True)
        raise Unsupported('leaf')

    def elkey(self, e):
        if isinstance(e, TObj):
            return 'O:' + self.repo.family(self.repo.classes[e.cname])
        return e.key()

    def list_len(self, st, v):
        K = self.comp(st, 'len', AS(I, I))
        n = z3.simplify(self.read_arr(st, K, v.t))
        if not z3.is_int_value(n):
            st.assume(n >= 0)
        return n

    def list_arr(self, st, v, leaf=''):
        nm, K = self.elcomp(st, v.ty, leaf)
        return self.read_arr(st, K, v.t)

    def arr_get(self, st, a, j):
        while z3.is_store(a):
            s = a.arg(1)
            if s.eq(j):
                return a.arg(2)
            if self.holds(st, s != j):
                a = a.arg(0)
                continue
            break
        return z3.Select(a, j)

    def list_get(self, st, v, j, wf=True):
        e = rt(v.ty.elem)
        if isinstance(e, TVar):
            raise Unsupported('read from list of unknown element type')
        ts = [self.arr_get(st, self.list_arr(st, v, s), j) for s, _ in e.leaves()]
        x = self.from_terms(ts, e)
        if wf:
            self.wf(st, x)
        return x

    def materialise(self, st, v, ty):
        if isinstance(v, VSDict):
            from .dicts import materialise
            return materialise(self, st, v, ty)
        return v

    def list_set(self, st, v, j, x):
        x = self.materialise(st, x, v.ty.elem)
        ts = self.to_terms(x, v.ty.elem)
        e = rt(v.ty.elem)
        for (s, so), t in zip(e.leaves(), ts):
            nm, K = self.elcomp(st, v.ty, s)
            a = self.read_arr(st, K, v.t)
            self.write(st, nm, K, v.t, z3.Store(a, j, t), pos=j)

    def set_len(self, st, v, n):
        K = self.comp(st, 'len', AS(I, I))
        self.write(st, 'len', K, v.t, n)

    def new_list(self, st, elem, items=None, site='list'):
        r = self.alloc(st, site)
        v = VRef(r, TList(elem))
        items = items or []
        self.set_len(st, v, z3.IntVal(len(items)))
        for k, x in enumerate(items):
            self.list_set(st, v, z3.IntVal(k), x)
        return v

    def list_append(self, st, v, x):
        n = self.list_len(st, v)
        self.list_set(st, v, n, x)
        self.set_len(st, v, z3.simplify(n + 1))

    def put_arr(self, st, v, leaf, a, pos=None):
        nm, K = self.elcomp(st, v.ty, leaf)
        self.write(st, nm, K, v.t, a, pos)

    def seq_of(self, st, v):
        """virtual sequence of an iterable value (elements read in the state passed to get)"""
        if isinstance(v, VSeq):
            return v
        if isinstance(v, VRef) and isinstance(v.ty, TList):
            return VSeq(None, lambda s, j: self.list_get(s, v, j), v.ty.elem, src=v)
        if isinstance(v, VTup):
            return self.tup_seq(v)
        if isinstance(v, VArr):
            return VSeq(v.n, lambda s, j: VNum(v.get(j)), TReal)
        if isinstance(v, VSDict):
            return self.tup_seq(VTup([k for k in v.items]))
        if isinstance(v, VRef) and isinstance(v.ty, TDict):
            return self.lib['dict_iter'](self, st, v)
        raise Unsupported('iteration over %r' % v)

    def tup_seq(self, v):
        items = v.items

        def get(s, j):
            j = z3.simplify(j)
            if z3.is_int_value(j):
                return items[j.as_long()]
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = self.merge_val(j == k, items[k], r)
                if r is None:
                    raise Unsupported('symbolic index into heterogeneous tuple')
            return r
        q = VSeq(z3.IntVal(len(items)), get, None)
        q.tup = v
        return q

    def seq_len(self, st, q):
        if q.n is not None:
            return q.n
        return self.list_len(st, q.src)

    def snap(self, st, q):
        """freeze a sequence: element function not depending on later heap changes"""
        if q.src is None or q.n is not None:
            return q
        st0 = st.copy()
        n = self.list_len(st, q.src)
        src = q.src

        def get(s, j):
            # read from the heap as it was, add well-formedness to the current state
            s0 = st0.copy()
            s0.pc = s.pc
            return q.get(s0, j) if isinstance(src.ty, TDict) else self.list_get(s0, src, j)
        return VSeq(n, get, q.elem_ty)

    def list_from_seq(self, st, n, get, elem, site='list'):
        """fresh list with elements get(st, p), 0<=p<n (pure element function)"""
        n = z3.simplify(n)
        if z3.is_int_value(n) and n.as_long() <= 6:
            items = [get(st, z3.IntVal(k)) for k in range(max(0, n.as_long()))]
            if items and (elem is None or isinstance(rt(elem), TVar)):
                elem = self.type_of(items[0])
            return self.new_list(st, elem or TVar(), items, site)
        j = z3.Int('j!%d' % self.csid(st.cs))
        pre = len(st.pc)
        x = get(st, j)
        side = st.pc[pre:]
        del st.pc[pre:]
        if elem is None or isinstance(rt(elem), TVar):
            t = self.type_of(x)
            if elem is not None:
                rt(elem).ref = t
            elem = t
        r = self.alloc(st, site)
        v = VRef(r, TList(elem))
        self.set_len(st, v, n)
        ts = self.to_terms(x, elem)
        for t, _ in side:
            self.assume_forall(st, j, z3.And(j >= 0, j < n), t)
        for (s, so), t in zip(rt(elem).leaves(), ts):
            a = self.fresh(st, 'arr', AS(I, so))
            st.assume(self.forall_arr(j, z3.And(j >= 0, j < n), a, j, t))
            rev = self.reverse_ax(st, j, n, a, t)
            if rev is not None:
                st.assume(rev)
            self.put_arr(st, v, s, a)
        return v

    def assume_forall(self, st, j, rng, t):
        if not self.mentions(t, j):
            return
        st.assume(z3.ForAll([j], z3.Implies(rng, t)))

    def mentions(self, t, j):
        jid = j.get_id()
        seen, stack = set(), [t]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i == jid:
                return True
            stack.extend(x.children())
        return False

    def forall_arr(self, j, rng, a, pos, t):
        return z3.ForAll([j], z3.Implies(rng, z3.Select(a, pos) == t), patterns=[z3.Select(a, pos)])

    def reverse_ax(self, st, j, n, a, t):
        """if t is Select(b, j + c) give the instantiation rule triggered by b[q]"""
        if z3.is_select(t) and not self.mentions(t.arg(0), j):
            pos = t.arg(1)
            c = z3.simplify(pos - j)
            if not self.mentions(c, j):
                q = z3.Int('q!%d' % self.csid(st.cs))
                return z3.ForAll([q], z3.Implies(z3.And(q >= c, q < c + n), z3.Select(t.arg(0), q) == z3.Select(a, q - c)),
                                 patterns=[z3.Select(t.arg(0), q)])
        return None

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, VNum) and isinstance(b, VNum):
            if a.t.eq(b.t):
                return a
            if a.t.sort() == b.t.sort():
                return VNum(z3.If(c, a.t, b.t))
            if B in (a.t.sort(), b.t.sort()):
                return None
            return VNum(z3.If(c, self.as_real(a), self.as_real(b)))
        if isinstance(a, VX) or isinstance(b, VX):
            if isinstance(a, (VX, VNum)) and isinstance(b, (VX, VNum)):
                x, y = self.to_terms(a, TX), self.to_terms(b, TX)
                return VX(z3.If(c, x[0], y[0]), z3.If(c, x[1], y[1]))
            return None
        if isinstance(a, VRef) and isinstance(b, VRef):
            ty = self.join_ty(a.ty, b.ty)
            if ty is None:
                return None
            if a.t.eq(b.t):
                return VRef(a.t, ty)
            return VRef(z3.If(c, a.t, b.t), ty)
        if a is VNone and isinstance(b, VRef):
            return VRef(z3.If(c, z3.IntVal(0), b.t), self.nullable(b.ty))
        if b is VNone and isinstance(a, VRef):
            return VRef(z3.If(c, a.t, z3.IntVal(0)), self.nullable(a.ty))
        if isinstance(a, VTup) and isinstance(b, VTup) and len(a.items) == len(b.items):
            its = [self.merge_val(c, x, y) for x, y in zip(a.items, b.items)]
            return None if any(i is None for i in its) else VTup(its)
        if isinstance(a, VStr) and isinstance(b, VStr):
            if a.s is not None and a.s == b.s:
                return a
            return VStr(None, z3.If(c, self.to_terms(a, TStr)[0], self.to_terms(b, TStr)[0]))
        if isinstance(a, VAny) and isinstance(b, VAny):
            return VAny(z3.If(c, a.t, b.t))
        if a is VNone and b is VNone:
            return a
        if (a is VNone or isinstance(a, (VNum, VOpt))) and (b is VNone or isinstance(b, (VNum, VOpt))):
            ia = a.v if isinstance(a, VOpt) else a
            ib = b.v if isinstance(b, VOpt) else b
            if ia is VNone:
                ia = ib
            if ib is VNone:
                ib = ia
            v = self.merge_val(c, ia, ib)
            if v is None:
                return None
            na = z3.BoolVal(True) if a is VNone else (a.none if isinstance(a, VOpt) else z3.BoolVal(False))
            nb = z3.BoolVal(True) if b is VNone else (b.none if isinstance(b, VOpt) else z3.BoolVal(False))
            return VOpt(z3.If(c, na, nb), v)
        if isinstance(a, (VClass, VTypV)) and isinstance(b, (VClass, VTypV)):
            if isinstance(a, VClass) and isinstance(b, VClass) and a.cls is b.cls:
                return a
            return VTypV(z3.If(c, self.to_terms(a, TTyp)[0], self.to_terms(b, TTyp)[0]))
        if isinstance(a, VOpaque) and isinstance(b, VOpaque):
            return a
        if isinstance(a, VFunc) and isinstance(b, VFunc) and a.func is b.func and a.closure == b.closure:
            return a
        if isinstance(a, VBuiltin) and isinstance(b, VBuiltin) and a.name == b.name:
            return a
        if isinstance(a, VFnSym) and isinstance(b, VFnSym):
            return VFnSym(z3.If(c, a.t, b.t))
        return None

    def nullable(self, ty):
        if isinstance(ty, TObj):
            return TObj(ty.cname, ty.exact, True)
        if isinstance(ty, TList):
            return TList(ty.elem, True)
        return TDict(ty.k, ty.v, True)

    def join_ty(self, a, b):
        if isinstance(a, TObj) and isinstance(b, TObj):
            null = a.null or b.null
            if a.cname == b.cname:
                return TObj(a.cname, a.exact and b.exact, null)
            ca, cb = self.repo.classes[a.cname], self.repo.classes[b.cname]
            for d in self.repo.mro(ca):
                if self.repo.is_sub(cb, d):
                    return TObj(d.name, False, null)
            return None
        if isinstance(a, TList) and isinstance(b, TList):
            try:
                self.unify(a, b)
            except Unsupported:
                return None
            return TList(a.elem, a.null or b.null)
        if isinstance(a, TDict) and isinstance(b, TDict) and a.key() == b.key():
            return TDict(a.k, a.v, a.null or b.null)
        return None

    def same_world(self, a, b):
        if a.alloc is not b.alloc and not a.alloc.eq(b.alloc):
            return False
        if len(a.heap) != len(b.heap):
            return False
        for k, v in a.heap.items():
            w = b.heap.get(k)
            if w is None or not (w is v or w.eq(v)):
                return False
        if a.glob.keys() != b.glob.keys():
            return False
        for k, v in a.glob.items():
            w = b.glob[k]
            if v is not w and not (isinstance(v, VNum) and isinstance(w, VNum) and v.t.eq(w.t)):
                return False
        for f, fr in a.frames.items():
            g = b.frames.get(f)
            if g is None:
                continue
            if fr.keys() != g.keys():
                return False
            for k, v in fr.items():
                if v is not g[k]:
                    w = g[k]
                    if not (isinstance(v, VNum) and isinstance(w, VNum) and v.t.eq(w.t)) and not \
                            (isinstance(v, VRef) and isinstance(w, VRef) and v.t.eq(w.t)):
                        return False
        return True

    def merge_outs(self, base, outs, had_raise=False):
        """merge [(st, V)] that differ from `base` only in path condition"""
        if len(outs) <= 1:
            return outs
        n = len(base.pc)
        first = outs[0][0]
        for s, v in outs:
            if s.pc[:n] != base.pc and [x[0].get_id() for x in s.pc[:n]] != [x[0].get_id() for x in base.pc]:
                return outs
            if not self.same_world(first, s):
                return outs
        conds, facts = [], []
        for s, v in outs:
            bs = [t for t, tag in s.pc[n:] if tag == 'b']
            as_ = [t for t, tag in s.pc[n:] if tag != 'b']
            conds.append(z3.And(bs) if len(bs) != 1 else bs[0])
            facts.append(as_)
        val = outs[-1][1]
        for (s, v), c in reversed(list(zip(outs[:-1], conds[:-1]))):
            val = self.merge_val(c, v, val)
            if val is None:
                return outs
        st = first.copy()
        st.pc = list(outs[0][0].pc[:n])
        common = None
        for c, fs in zip(conds, facts):
            for f in fs:
                st.assume(z3.Implies(c, f))
        dis = z3.simplify(z3.Or(conds))
        if not z3.is_true(dis):
            r, _ = solver.check([z3.Not(dis)], 0.3)
            if r != 'unsat':
                st.assume(dis, 'b')
        if isinstance(val, VNum):
            val = VNum(z3.simplify(val.t))
        for s, v in outs:
            for k, c in s.occ.items():
                if c > st.occ.get(k, 0):
                    st.occ[k] = c
        return [(st, val)]

    # ------------------------------------------------------------ control
    def do_raise(self, st, exc):
        self.raised[-1].append((st, exc))

    def branch(self, st, c):
        """-> (st_true or None, st_false or None)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        a, b = st.copy(), st.copy()
        a.assume(c, 'b')
        b.assume(z3.simplify(z3.Not(c)), 'b')
        fa, fb = self.feasible(a), self.feasible(b)
        if fa and not fb:
            a.pc[-1] = (c, 'a')
            return a, None
        if fb and not fa:
            b.pc[-1] = (b.pc[-1][0], 'a')
            return None, b
        return (a if fa else None), (b if fb else None)

    def truth(self, st, v):
        """-> [(st, z3 Bool)]"""
        if isinstance(v, VNum):
            return v.t if v.t.sort() == B else v.t != 0
        if v is VNone:
            return z3.BoolVal(False)
        if isinstance(v, VRef):
            if isinstance(v.ty, TList):
                n = self.list_len(st, v) != 0
                return z3.And(v.t != 0, n) if v.ty.null else n
            if isinstance(v.ty, TObj):
                return (v.t != 0) if v.ty.null else z3.BoolVal(True)
            if isinstance(v.ty, TDict):
                return self.lib['dict_truth'](self, st, v)
        if isinstance(v, VStr):
            if v.s is not None:
                return z3.BoolVal(bool(v.s))
            return z3.And(v.t != 0, v.t != self.strcode(''))
        if isinstance(v, VTup):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, VOpt):
            return z3.And(z3.Not(v.none), self.truth(st, v.v))
        if isinstance(v, (VFunc, VBound, VClass, VBuiltin, VModule)):
            return z3.BoolVal(True)
        if isinstance(v, (VFnSym, VTypV)):
            return v.t != 0
        if isinstance(v, VSDict):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, VX):
            return z3.Or(v.inf, v.val != 0)
        if isinstance(v, VSeq):
            return self.seq_len(st, v) != 0
        raise Unsupported('truth of %r' % v)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fid):
        """-> [(kind, st, val)]"""
        cur = [st]
        outs = []
        for s in stmts:
            nxt = []
            for c in cur:
                for kind, s2, v in self.exec_stmt(s, c, fid):
                    if kind == 'next':
                        nxt.append(s2)
                    else:
                        outs.append((kind, s2, v))
            cur = nxt
            if len(cur) > 300:
                raise Unsupported('too many paths')
        outs.extend(('next', c, None) for c in cur)
        return outs

    def exec_stmt(self, s, st, fid):
        self.raised.append([])
        try:
            m = getattr(self, 'st_' + type(s).__name__, None)
            if m is None:
                raise Unsupported('statement %s' % type(s).__name__)
            outs = m(s, st, fid)
        finally:
            rs = self.raised.pop()
        outs = list(outs) + [('raise', a, e) for a, e in rs]
        return outs

    def st_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Constant):
            return [('next', st, None)]
        return [('next', a, None) for a, v in self.ev(s.value, st, fid)]

    def st_Pass(self, s, st, fid):
        return [('next', st, None)]

    def st_Import(self, s, st, fid):
        for a in s.names:
            st.frames[fid][a.asname or a.name.split('.')[0]] = VModule(a.name if a.asname else a.name.split('.')[0])
        return [('next', st, None)]

    def st_ImportFrom(self, s, st, fid):
        for a in s.names:
            full = (s.module or '') + '.' + a.name
            v = None
            if s.module in self.repo.modules:
                v = self.resolve_global(self.repo.modules[s.module], a.name, st)
            if v is None:
                v = VBuiltin(full) if full in self.lib else None
            if v is None:
                raise Unsupported('import %s' % full)
            st.frames[fid][a.asname or a.name] = v
        return [('next', st, None)]

    def st_Return(self, s, st, fid):
        if s.value is None:
            return [('ret', st, VNone)]
        return [('ret', a, v) for a, v in self.ev(s.value, st, fid)]

    def st_Break(self, s, st, fid):
        return [('brk', st, None)]

    def st_Continue(self, s, st, fid):
        return [('cont', st, None)]

    def st_Raise(self, s, st, fid):
        name = 'Exception'
        e = s.exc
        if e is None:
            return [('raise', st, VExc('reraise'))]
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            v = st.frames[fid].get(e.id)
            name = v.name if isinstance(v, VExc) else e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        return [('raise', st, VExc(name))]

    def st_Assert(self, s, st, fid):
        out = []
        for a, v in self.ev(s.test, st, fid):
            t, f = self.branch(a, self.truth(a, v))
            if t:
                out.append(('next', t, None))
            if f:
                out.append(('raise', f, VExc('AssertionError')))
        return out

    def st_If(self, s, st, fid):
        out = []
        for a, v in self.ev(s.test, st, fid):
            t, f = self.branch(a, self.truth(a, v))
            if t is not None:
                self.narrow(s.test, t, fid, True)
                out += self.exec_block(s.body, t, fid)
            if f is not None:
                self.narrow(s.test, f, fid, False)
                out += self.exec_block(s.orelse, f, fid)
        return self.merge_next(st, out)

    def narrow(self, test, st, fid, pos):
        """static refinement of locals after `x is None` style tests"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, st, fid, not pos)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq))
            if not isinstance(test.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                return
            if not pos:
                isnone = not isnone
            v = st.frames[fid].get(test.left.id)
            if isnone:
                if isinstance(v, (VOpt,)) or (isinstance(v, VRef) and v.ty.null):
                    st.frames[fid][test.left.id] = VNone
            else:
                self.denull(st, fid, test.left.id, v)
        elif isinstance(test, ast.Name) and pos:
            self.denull(st, fid, test.id, st.frames[fid].get(test.id))

    def denull(self, st, fid, name, v):
        if isinstance(v, VOpt):
            st.frames[fid][name] = v.v
        elif isinstance(v, VRef) and getattr(v.ty, 'null', False):
            ty = v.ty
            if isinstance(ty, TObj):
                nt = TObj(ty.cname, ty.exact, False)
            elif isinstance(ty, TList):
                nt = TList(ty.elem, False)
            else:
                nt = TDict(ty.k, ty.v, False)
            st.frames[fid][name] = VRef(v.t, nt)

    def merge_next(self, base, outs):
        nx = [s for k, s, v in outs if k == 'next']
        if len(nx) < 2:
            return outs
        m = self.merge_outs(base, [(s, VNone) for s in nx])
        if len(m) == 1:
            return [o for o in outs if o[0] != 'next'] + [('next', m[0][0], None)]
        return outs

    def st_With(self, s, st, fid):
        cur = [st]
        for it in s.items:
            nxt = []
            for c in cur:
                for a, v in self.ev(it.context_expr, c, fid):
                    if it.optional_vars is not None:
                        nxt += [x for x in self.assign(it.optional_vars, v, a, fid)]
                    else:
                        nxt.append(a)
            cur = nxt
        out = []
        for c in cur:
            out += self.exec_block(s.body, c, fid)
        return out

    def st_Try(self, s, st, fid):
        out = []
        for kind, a, v in self.exec_block(s.body, st, fid):
            if kind == 'raise':
                done = False
                for h in s.handlers:
                    if self.exc_match(h.type, v):
                        if h.name:
                            a.frames[fid][h.name] = v
                        for k2, a2, v2 in self.exec_block(h.body, a, fid):
                            if k2 == 'raise' and isinstance(v2, VExc) and v2.name == 'reraise':
                                v2 = v
                            out.append((k2, a2, v2))
                        done = True
                        break
                if not done:
                    out.append((kind, a, v))
            elif kind == 'next' and s.orelse:
                out += self.exec_block(s.orelse, a, fid)
            else:
                out.append((kind, a, v))
        if s.finalbody:
            res = []
            for kind, a, v in out:
                for k2, a2, v2 in self.exec_block(s.finalbody, a, fid):
                    res.append((kind, a2, v) if k2 == 'next' else (k2, a2, v2))
            out = res
        return out

    EXC_PARENTS = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
                   'ValueError': 'Exception', 'TypeError': 'Exception', 'AttributeError': 'Exception',
                   'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
                   'AssertionError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception',
                   'Exception': 'BaseException'}

    def exc_match(self, t, v):
        if t is None:
            return True
        names = [ast.unparse(x).split('.')[-1] for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
        n = v.name
        while n:
            if n in names:
                return True
            n = self.EXC_PARENTS.get(n)
        return False

    def st_Delete(self, s, st, fid):
        cur = [st]
        for t in s.targets:
            nxt = []
            for c in cur:
                if isinstance(t, ast.Subscript):
                    for a, b in self.ev(t.value, c, fid):
                        for a2, k in self.ev(t.slice, a, fid):
                            nxt += self.lib['del_item'](self, a2, b, k)
                elif isinstance(t, ast.Name):
                    c.frames[fid].pop(t.id, None)
                    nxt.append(c)
                else:
                    raise Unsupported('del')
            cur = nxt
        return [('next', c, None) for c in cur]

    def st_FunctionDef(self, s, st, fid):
        fr = st.frames[fid]
        f = Func(s, fr['$module'], None)
        defaults = self.eval_defaults(s.args, st, fid)
        st.frames[fid][s.name] = VFunc(f, closure=fid, defaults=defaults)
        return [('next', st, None)]

    def st_Assign(self, s, st, fid):
        out = []
        for a, v in self.ev(s.value, st, fid):
            cur = [a]
            for t in s.targets:
                nxt = []
                for c in cur:
                    nxt += self.assign(t, v, c, fid)
                cur = nxt
            out += [('next', c, None) for c in cur]
        return out

    def st_AnnAssign(self, s, st, fid):
        if s.value is None:
            return [('next', st, None)]
        out = []
        for a, v in self.ev(s.value, st, fid):
            out += [('next', c, None) for c in self.assign(s.target, v, a, fid)]
        return out

    def st_AugAssign(self, s, st, fid):
        out = []
        t = s.target
        if isinstance(t, ast.Name):
            for a, l in self.ev(ast.Name(id=t.id, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset), st, fid):
                for b, r in self.ev(s.value, a, fid):
                    if isinstance(s.op, ast.Add) and isinstance(l, VRef) and isinstance(l.ty, TList):
                        for c, _ in self.lib['list.extend'](self, b, l, [r], {}):
                            out.append(('next', c, None))
                        continue
                    for c, v in self.binop(s.op, l, r, b):
                        out += [('next', x, None) for x in self.assign(t, v, c, fid)]
        elif isinstance(t, ast.Attribute):
            for a, o in self.ev(t.value, st, fid):
                for a2, l in self.getattr(a, o, t.attr):
                    for b, r in self.ev(s.value, a2, fid):
                        if isinstance(s.op, ast.Add) and isinstance(l, VRef) and isinstance(l.ty, TList):
                            for c, _ in self.lib['list.extend'](self, b, l, [r], {}):
                                out.append(('next', c, None))
                            continue
                        for c, v in self.binop(s.op, l, r, b):
                            self.setattr(c, o, t.attr, v)
                            out.append(('next', c, None))
        elif isinstance(t, ast.Subscript):
            for a, o in self.ev(t.value, st, fid):
                for a1, k in self.ev(t.slice, a, fid):
                    for a2, l in self.getitem(a1, o, k):
                        for b, r in self.ev(s.value, a2, fid):
                            for c, v in self.binop(s.op, l, r, b):
                                out += [('next', x, None) for x in self.setitem(c, o, k, v)]
        else:
            raise Unsupported('augassign')
        return out

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            st.frames[fid][t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, VRef) and isinstance(v.ty, TList):
                n = len(t.elts)
                ln = self.list_len(st, v)
                ok, bad = self.branch(st, ln == n)
                if bad is not None:
                    self.do_raise(bad, VExc('ValueError'))
                if ok is None:
                    return []
                st = ok
                v = VTup([self.list_get(st, v, z3.IntVal(k)) for k in range(n)])
            if isinstance(v, VSeq):
                v = VTup([v.get(st, z3.IntVal(k)) for k in range(len(t.elts))])
            if isinstance(v, VOpaque):
                self.trusted.add('a string splits into as many parts as are unpacked')
                v = VTup([VOpaque('str') for _ in t.elts])
            if not isinstance(v, VTup) or len(v.items) != len(t.elts):
                raise Unsupported('unpacking %r' % v)
            cur = [st]
            for e, x in zip(t.elts, v.items):
                nxt = []
                for c in cur:
                    nxt += self.assign(e, x, c, fid)
                cur = nxt
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for a, o in self.ev(t.value, st, fid):
                self.setattr(a, o, t.attr, v)
                out.append(a)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for a, o in self.ev(t.value, st, fid):
                if isinstance(t.slice, ast.Slice):
                    for b, (lo, hi, step) in self.ev_slice(t.slice, a, fid):
                        out += self.lib['slice_assign'](self, b, o, lo, hi, v)
                else:
                    for b, k in self.ev(t.slice, a, fid):
                        out += self.setitem(b, o, k, v)
            return out
        raise Unsupported('assign to %s' % type(t).__name__)

    def st_For(self, s, st, fid):
        from . import loops
        return loops.exec_for(self, s, st, fid)

    def st_While(self, s, st, fid):
        from . import loops
        return loops.exec_while(self, s, st, fid)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fid):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, st, fid)

    def ev_list(self, es, st, fid):
        cur = [(st, [])]
        for e in es:
            nxt = []
            for a, vs in cur:
                if isinstance(e, ast.Starred):
                    for b, v in self.ev(e.value, a, fid):
                        if isinstance(v, VTup):
                            nxt.append((b, vs + v.items))
                        else:
                            nxt.append((b, vs + [('*', v)]))
                    continue
                for b, v in self.ev(e, a, fid):
                    nxt.append((b, vs + [v]))
            cur = nxt
        return cur

    def ev_Constant(self, e, st, fid):
        c = e.value
        if c is None:
            return [(st, VNone)]
        if isinstance(c, (bool, int, float)):
            return [(st, VNum(c))]
        if isinstance(c, str):
            return [(st, VStr(c))]
        raise Unsupported('constant %r' % c)

    def ev_JoinedStr(self, e, st, fid):
        # evaluated only for effects-free display text
        vals = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                vals.append(p.value)
            elif isinstance(p, ast.FormattedValue) and p.conversion == -1 and p.format_spec is None:
                try:
                    r = self.ev(p.value, st.copy(), fid)
                    vals.append(r[0][1] if len(r) == 1 else None)
                except Unsupported:
                    vals.append(None)
        h = self.lib.get('fstring')
        if h:
            v = h(self, st, vals)
            if v is not None:
                return [(st, v)]
        return [(st, VOpaque('fstring'))]

    def ev_Name(self, e, st, fid):
        f = fid
        while f is not None:
            fr = st.frames[f]
            if e.id in fr:
                v = fr[e.id]
                if isinstance(v, VUndef):
                    raise Unsupported('possibly undefined local %s' % e.id)
                return [(st, v)]
            f = fr.get('$closure')
        mod = st.frames[fid].get('$module')
        v = self.resolve_global(mod, e.id, st)
        if v is None:
            raise Unsupported('name %s' % e.id)
        return [(st, v)]

    def resolve_global(self, mod, name, st):
        if mod is not None:
            r = self.repo.resolve(mod, name)
            if r is not None:
                if r[0] == 'func':
                    return VFunc(r[1])
                if r[0] == 'class':
                    return VClass(r[1])
                if r[0] == 'module':
                    return VModule(r[1])
                if r[0] == 'ext':
                    if r[1] in self.lib:
                        return VBuiltin(r[1])
                    last = r[1].split('.')[-1]
                    if last in self.tcode:
                        return VBuiltin(last)
                    if r[1].split('.')[0] in ('typing', 'abc'):
                        return VBuiltin(last)
                    return VBuiltin(r[1])
                if r[0] == 'expr':
                    key = (r[2].name, name)
                    if key in self.gconst:
                        return self.gconst[key]
                    if isinstance(r[1], ast.Call) and 'getLogger' in ast.unparse(r[1]):
                        v = VOpaque('logger')
                    else:
                        s2 = self.new_state()
                        s2.frames[0] = {'$module': r[2]}
                        outs = self.ev(r[1], s2, 0)
                        if len(outs) != 1:
                            raise Unsupported('global %s' % name)
                        v = outs[0][1]
                        if isinstance(v, VRef):
                            raise Unsupported('mutable global %s' % name)
                    self.gconst[key] = v
                    return v
        if name in self.lib or name in self.tcode or name in self.EXC_PARENTS:
            return VBuiltin(name)
        return None

    def ev_Tuple(self, e, st, fid):
        return [(a, VTup(vs)) for a, vs in self.ev_list(e.elts, st, fid)]

    def ev_List(self, e, st, fid):
        out = []
        for a, vs in self.ev_list(e.elts, st, fid):
            if any(isinstance(v, VArr) for v in vs):
                out.append((a, VTup(vs)))      # list of arrays: only consumed by array functions
                continue
            self.enter(a, e)
            elem = TVar()
            if vs:
                tys = [self.type_of(v) for v in vs]
                elem = tys[0]
                for t in tys[1:]:
                    elem = self.join_any(elem, t)
            out.append((a, self.new_list(a, elem, vs)))
            self.leave(a)
        return out

    def join_any(self, a, b):
        a, b = rt(a), rt(b)
        if a.key() == b.key():
            if isinstance(a, TObj):
                return TObj(a.cname, a.exact and b.exact, a.null or b.null)
            return a
        if a is TNone:
            a, b = b, a
        if b is TNone:
            if isinstance(a, (TObj, TList, TDict)):
                return self.nullable(a)
            return a if isinstance(a, TOpt) or a in (TStr, TFn, TTyp, TAny) else TOpt(a)
        if {a.key(), b.key()} == {'int', 'real'}:
            return TReal
        if {a.key(), b.key()} <= {'int', 'real', 'xreal'}:
            return TX
        if isinstance(a, TObj) and isinstance(b, TObj):
            j = self.join_ty(a, b)
            if j:
                return j
        if isinstance(a, TList) and isinstance(b, TList):
            j = self.join_ty(a, b)
            if j:
                return j
        if isinstance(a, TOpt) and not isinstance(b, TOpt):
            return TOpt(self.join_any(a.inner, b))
        if isinstance(b, TOpt) and not isinstance(a, TOpt):
            return TOpt(self.join_any(b.inner, a))
        raise Unsupported('mixed types %s %s' % (a, b))

    def ev_Dict(self, e, st, fid):
        out = []
        if any(k is None for k in e.keys):
            raise Unsupported('dict unpacking')
        for a, ks in self.ev_list(e.keys, st, fid):
            for b, vs in self.ev_list(e.values, a, fid):
                d = {}
                for k, v in zip(ks, vs):
                    if not (isinstance(k, VStr) and k.s is not None):
                        raise Unsupported('dict literal with non-constant keys')
                    d[k.s] = v
                out.append((b, VSDict(d)))
        return out

    def ev_Set(self, e, st, fid):
        return [(a, VTup(vs)) for a, vs in self.ev_list(e.elts, st, fid)]

    def ev_Lambda(self, e, st, fid):
        node = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno, col_offset=e.col_offset)],
                               decorator_list=[], lineno=e.lineno, col_offset=e.col_offset)
        cache = self.__dict__.setdefault('lam', {})
        if id(e) not in cache:
            cache[id(e)] = (e, Func(node, st.frames[fid].get('$module'), None))
        return [(st, VFunc(cache[id(e)][1], closure=fid, defaults=self.eval_defaults(e.args, st, fid)))]

    def eval_defaults(self, args, st, fid):
        d = {}
        pos = args.posonlyargs + args.args
        for a, x in zip(pos[len(pos) - len(args.defaults):], args.defaults):
            outs = self.ev(x, st, fid)
            d[a.arg] = outs[0][1]
        for a, x in zip(args.kwonlyargs, args.kw_defaults):
            if x is not None:
                d[a.arg] = self.ev(x, st, fid)[0][1]
        return d

    def ev_NamedExpr(self, e, st, fid):
        out = []
        for a, v in self.ev(e.value, st, fid):
            a.frames[fid][e.target.id] = v
            out.append((a, v))
        return out

    def ev_IfExp(self, e, st, fid):
        out = []
        for a, v in self.ev(e.test, st, fid):
            part = []
            t, f = self.branch(a, self.truth(a, v))
            nr = len(self.raised[-1])
            if t is not None:
                self.narrow(e.test, t, fid, True)
                part += self.ev(e.body, t, fid)
            if f is not None:
                self.narrow(e.test, f, fid, False)
                part += self.ev(e.orelse, f, fid)
            out += self.merge_outs(a, part)
        return out

    def ev_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)

        def rec(k, a):
            res = []
            for b, v in self.ev(e.values[k], a, fid):
                if k == len(e.values) - 1:
                    res.append((b, v))
                    continue
                t, f = self.branch(b, self.truth(b, v))
                stop, go = (f, t) if isand else (t, f)
                part = []
                if stop is not None:
                    self.narrow(e.values[k], stop, fid, not isand)
                    part.append((stop, self.short_val(v, isand)))
                if go is not None:
                    fr = dict(go.frames[fid])
                    self.narrow(e.values[k], go, fid, isand)
                    sub = rec(k + 1, go)
                    for s2, _ in sub:
                        for nm, ov in fr.items():
                            if nm in s2.frames[fid] and s2.frames[fid][nm] is not ov and go.frames[fid].get(nm) is s2.frames[fid][nm]:
                                s2.frames[fid][nm] = ov
                    part += sub
                m = self.merge_outs(b, part)
                if len(m) > 1:
                    # value only used for its truth in most places
                    bp = []
                    ok = True
                    for s2, v2 in part:
                        try:
                            bp.append((s2, VNum(self.truth(s2, v2))))
                        except Unsupported:
                            ok = False
                    if ok:
                        m2 = self.merge_outs(b, bp)
                        if len(m2) == 1:
                            m = m2
                res += m
            return res
        return rec(0, st)

    def short_val(self, v, isand):
        if isinstance(v, VNum) and v.t.sort() == B:
            return VNum(not isand)
        if v is VNone:
            return v
        return v

    def ev_UnaryOp(self, e, st, fid):
        out = []
        for a, v in self.ev(e.operand, st, fid):
            if isinstance(e.op, ast.Not):
                out.append((a, VNum(z3.Not(self.truth(a, v)))))
            elif isinstance(e.op, ast.USub):
                if isinstance(v, VArr):
                    out.append((a, VArr(v.n, lambda j, v=v: -v.get(j))))
                elif isinstance(v, VNum):
                    out.append((a, VNum(z3.simplify(-(self.as_int(v) if v.t.sort() != R else v.t)))))
                else:
                    raise Unsupported('negation')
            elif isinstance(e.op, ast.UAdd):
                out.append((a, v))
            else:
                raise Unsupported('unary op')
        return out

    def ev_BinOp(self, e, st, fid):
        out = []
        for a, l in self.ev(e.left, st, fid):
            for b, r in self.ev(e.right, a, fid):
                self.enter(b, e)
                for c, v in self.binop(e.op, l, r, b):
                    self.leave(c)
                    out.append((c, v))
        return out

    def enter(self, st, node):
        st.cs = st.cs + ('%s:%s' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)),)

    def leave(self, st):
        st.cs = st.cs[:-1]

    def binop(self, op, l, r, st):
        if isinstance(l, VOpt):
            l = l.v
        if isinstance(r, VOpt):
            r = r.v
        if isinstance(l, VArr) or isinstance(r, VArr):
            return self.lib['arr_binop'](self, st, op, l, r)
        if isinstance(l, VNum) and isinstance(r, VNum):
            return self.num_binop(op, l, r, st)
        if isinstance(op, ast.Add) and isinstance(l, VRef) and isinstance(l.ty, TList) and isinstance(r, VRef) and isinstance(r.ty, TList):
            return self.lib['list_concat'](self, st, l, r)
        if isinstance(op, ast.Mult):
            for x, y in ((l, r), (r, l)):
                if isinstance(x, VRef) and isinstance(x.ty, TList) and isinstance(y, VNum):
                    return self.lib['list_repeat'](self, st, x, y)
        if isinstance(op, ast.Add) and isinstance(l, VTup) and isinstance(r, VTup):
            return [(st, VTup(l.items + r.items))]
        if isinstance(op, (ast.Add, ast.Mod)) and (isinstance(l, (VStr, VOpaque)) or isinstance(r, (VStr, VOpaque))):
            if isinstance(l, VStr) and isinstance(r, VStr) and l.s is not None and r.s is not None and isinstance(op, ast.Add):
                return [(st, VStr(l.s + r.s))]
            return [(st, VOpaque('str'))]
        if isinstance(l, VX) or isinstance(r, VX):
            return self.lib['x_binop'](self, st, op, l, r)
        if isinstance(l, VAny) or isinstance(r, VAny):
            f = z3.Function('any_%s' % type(op).__name__, I, I, I)
            return [(st, VAny(f(self.any_code(l), self.any_code(r))))]
        raise Unsupported('binop %s %r %r' % (type(op).__name__, l, r))

    def num_binop(self, op, l, r, st):
        real = l.t.sort() == R or r.t.sort() == R
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            x, y = (self.as_real(l), self.as_real(r)) if real else (self.as_int(l), self.as_int(r))
            t = x + y if isinstance(op, ast.Add) else x - y if isinstance(op, ast.Sub) else x * y
            return [(st, VNum(z3.simplify(t)))]
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            y = self.as_real(r) if (real or isinstance(op, ast.Div)) else self.as_int(r)
            ok, bad = self.branch(st, y != 0)
            if bad is not None:
                self.do_raise(bad, VExc('ZeroDivisionError'))
            if ok is None:
                return []
            if isinstance(op, ast.Div):
                res = VNum(z3.simplify(self.as_real(l) / y))
                if isinstance(l, VNum) and isinstance(r, VNum) and l.t.sort() == I and r.t.sort() == I:
                    res.ratio = (z3.simplify(l.t), z3.simplify(r.t))
                return [(ok, res)]
            if real:
                q = z3.ToInt(self.as_real(l) / y)
                if isinstance(op, ast.FloorDiv):
                    return [(ok, VNum(z3.ToReal(q)))]
                return [(ok, VNum(self.as_real(l) - z3.ToReal(q) * y))]
            x = self.as_int(l)
            ys = z3.simplify(y)
            if isinstance(op, ast.FloorDiv) and not z3.is_int_value(ys) and self.holds(ok, z3.And(y > 0, x >= 0)):
                q = z3.Function('integer_quotient', I, I, I)(z3.simplify(x), ys)
                ok.assume(z3.And(q >= 0, y * q <= x, x < y * (q + 1)))
                return [(ok, VNum(q))]
            if (z3.is_int_value(ys) and ys.as_long() > 0) or self.holds(ok, y > 0):
                return [(ok, VNum(z3.simplify(x / y if isinstance(op, ast.FloorDiv) else x % y)))]
            q = z3.ToInt(z3.ToReal(x) / z3.ToReal(y))
            return [(ok, VNum(q if isinstance(op, ast.FloorDiv) else x - q * y))]
        if isinstance(op, ast.Pow):
            x, y = z3.simplify(l.t), z3.simplify(r.t)
            if z3.is_int_value(x) and z3.is_int_value(y) and y.as_long() >= 0:
                return [(st, VNum(x.as_long() ** y.as_long()))]
            if z3.is_int_value(y) and 0 <= y.as_long() <= 4:
                b = self.as_real(l) if real else self.as_int(l)
                t = z3.RealVal(1) if real else z3.IntVal(1)
                for _ in range(y.as_long()):
                    t = t * b
                return [(st, VNum(t))]
            f = z3.Function('py_pow', R, R, R)
            return [(st, VNum(f(self.as_real(l), self.as_real(r))))]
        raise Unsupported('operator %s' % type(op).__name__)

    def ev_Compare(self, e, st, fid):
        def rec(k, a, l):
            res = []
            for b, r in self.ev(e.comparators[k], a, fid):
                if (isinstance(l, VArr) or isinstance(r, VArr)) and len(e.ops) == 1 and not isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)) \
                        and l is not VNone and r is not VNone:
                    res.append((b, self.lib['arr_compare'](self, b, e.ops[0], l, r)))
                    continue
                self.enter(b, e)
                for c, t in self.compare(e.ops[k], l, r, b):
                    self.leave(c)
                    if k == len(e.ops) - 1:
                        res.append((c, VNum(t)))
                    else:
                        yes, no = self.branch(c, t)
                        part = []
                        if no is not None:
                            part.append((no, VNum(False)))
                        if yes is not None:
                            part += rec(k + 1, yes, r)
                        res += self.merge_outs(c, part)
            return res
        out = []
        for a, l in self.ev(e.left, st, fid):
            out += rec(0, a, l)
        return out

    def compare(self, op, l, r, st):
        """-> [(st, z3 Bool)]"""
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            outs = self.equal(st, l, r, isinstance(op, (ast.Is, ast.IsNot)))
            return [(a, z3.simplify(z3.Not(t) if neg else t)) for a, t in outs]
        if isinstance(op, (ast.In, ast.NotIn)):
            outs = self.lib['contains'](self, st, r, l)
            return [(a, z3.simplify(z3.Not(t) if isinstance(op, ast.NotIn) else t)) for a, t in outs]
        for x in (l, r):
            if x is VNone:
                self.do_raise(st, VExc('TypeError'))
                return []
        res = []
        cur = [st]
        for x in (l, r):
            if isinstance(x, VOpt):
                nxt = []
                for c in cur:
                    bad, ok = self.branch(c, x.none)
                    if bad is not None:
                        self.do_raise(bad, VExc('TypeError'))
                    if ok is not None:
                        nxt.append(ok)
                cur = nxt
        l = l.v if isinstance(l, VOpt) else l
        r = r.v if isinstance(r, VOpt) else r
        for c in cur:
            res.append((c, self.order(type(op).__name__, l, r)))
        return res

    def order(self, op, l, r):
        if isinstance(l, VX) or isinstance(r, VX):
            a, b = self.to_terms(l, TX), self.to_terms(r, TX)
            lt = z3.And(z3.Not(a[0]), z3.Or(b[0], a[1] < b[1]))
            gt = z3.And(z3.Not(b[0]), z3.Or(a[0], b[1] < a[1]))
            return z3.simplify({'Lt': lt, 'Gt': gt, 'LtE': z3.Not(gt), 'GtE': z3.Not(lt)}[op])
        if isinstance(l, VNum) and isinstance(r, VNum):
            if l.t.sort() == R or r.t.sort() == R:
                x, y = self.as_real(l), self.as_real(r)
            else:
                x, y = self.as_int(l), self.as_int(r)
            return z3.simplify({'Lt': x < y, 'Gt': x > y, 'LtE': x <= y, 'GtE': x >= y}[op])
        if isinstance(l, VTup) and isinstance(r, VTup):
            if len(l.items) != len(r.items):
                raise Unsupported('order of tuples of different length')
            strict = 'Lt' if op in ('Lt', 'LtE') else 'Gt'
            res = z3.BoolVal(op in ('LtE', 'GtE'))
            for a, b in reversed(list(zip(l.items, r.items))):
                eq = self.eq_prim(a, b)
                res = z3.Or(self.order(strict, a, b), z3.And(eq, res))
            return z3.simplify(res)
        if isinstance(l, VArr) or isinstance(r, VArr):
            raise Unsupported('array comparison')
        raise Unsupported('ordering of %r and %r' % (l, r))

    def eq_prim(self, a, b):
        if isinstance(a, VNum) and isinstance(b, VNum):
            if a.t.sort() == b.t.sort():
                return a.t == b.t
            if R in (a.t.sort(), b.t.sort()):
                return self.as_real(a) == self.as_real(b)
            return self.as_int(a) == self.as_int(b)
        if isinstance(a, VX) or isinstance(b, VX):
            x, y = self.to_terms(a, TX), self.to_terms(b, TX)
            return z3.Or(z3.And(x[0], y[0]), z3.And(z3.Not(x[0]), z3.Not(y[0]), x[1] == y[1]))
        raise Unsupported('equality of %r and %r' % (a, b))

    def equal(self, st, l, r, ident):
        """-> [(st, Bool)]"""
        if l is VNone or r is VNone:
            o = r if l is VNone else l
            if o is VNone:
                return [(st, z3.BoolVal(True))]
            if isinstance(o, VOpt):
                return [(st, o.none)]
            if isinstance(o, VRef):
                return [(st, (o.t == 0) if getattr(o.ty, 'null', False) else z3.BoolVal(False))]
            if isinstance(o, (VFnSym, VTypV, VAny)):
                return [(st, o.t == 0)]
            if isinstance(o, VStr) and o.s is None:
                return [(st, o.t == 0)]
            return [(st, z3.BoolVal(False))]
        if isinstance(l, VOpt) or isinstance(r, VOpt):
            a = l if isinstance(l, VOpt) else VOpt(z3.BoolVal(False), l)
            b = r if isinstance(r, VOpt) else VOpt(z3.BoolVal(False), r)
            outs = self.equal(st, a.v, b.v, ident)
            return [(s, z3.Or(z3.And(a.none, b.none), z3.And(z3.Not(a.none), z3.Not(b.none), t))) for s, t in outs]
        num = (VNum, VX)
        if isinstance(l, num) and isinstance(r, num):
            return [(st, z3.simplify(self.eq_prim(l, r)))]
        if isinstance(l, VStr) and isinstance(r, VStr):
            if l.s is not None and r.s is not None:
                return [(st, z3.BoolVal(l.s == r.s))]
            return [(st, self.to_terms(l, TStr)[0] == self.to_terms(r, TStr)[0])]
        typ = (VClass, VTypV)
        istyp = lambda x: isinstance(x, typ) or (isinstance(x, VBuiltin) and x.name in self.tcode)
        if istyp(l) and istyp(r):
            return [(st, z3.simplify(self.to_terms(l, TTyp)[0] == self.to_terms(r, TTyp)[0]))]
        fn = (VFunc, VBound, VFnSym, VBuiltin)
        if isinstance(l, fn) and isinstance(r, fn):
            return [(st, z3.simplify(self.to_terms(l, TFn)[0] == self.to_terms(r, TFn)[0]))]
        if isinstance(l, VRef) and isinstance(r, VRef):
            if ident:
                return [(st, z3.simplify(l.t == r.t))]
            if isinstance(l.ty, TObj) and isinstance(r.ty, TObj):
                c = self.repo.classes[l.ty.cname]
                m = self.repo.find_method(c, '__eq__')
                over = any('__eq__' in d.methods for d in self.repo.subclasses(c))
                if m is None and not over:
                    return [(st, z3.simplify(l.t == r.t))]
                outs = []
                for a, v in self.call_method(st, l, '__eq__', [r], {}):
                    outs.append((a, self.truth(a, v)))
                return outs
            if isinstance(l.ty, TList) and isinstance(r.ty, TList):
                return self.lib['list_eq'](self, st, l, r)
            return [(st, z3.BoolVal(False))]
        if isinstance(l, VAny) or isinstance(r, VAny):
            return [(st, self.any_code(l) == self.any_code(r))]
        if isinstance(l, VTup) and isinstance(r, VTup):
            if len(l.items) != len(r.items):
                return [(st, z3.BoolVal(False))]
            t = z3.BoolVal(True)
            for a, b in zip(l.items, r.items):
                o = self.equal(st, a, b, ident)
                t = z3.And(t, o[0][1])
            return [(st, z3.simplify(t))]
        kinds = (VNum, VStr, VRef, VTup, VFunc, VClass)
        if isinstance(l, kinds) and isinstance(r, kinds) and type(l) is not type(r):
            return [(st, z3.BoolVal(False))]
        raise Unsupported('equality of %r and %r' % (l, r))

    # attribute / item access ------------------------------------------
    def ev_Attribute(self, e, st, fid):
        out = []
        for a, o in self.ev(e.value, st, fid):
            self.enter(a, e)
            for b, v in self.getattr(a, o, e.attr):
                self.leave(b)
                out.append((b, v))
        return out

    def getattr(self, st, o, name):
        if isinstance(o, VOpt):
            bad, ok = self.branch(st, o.none)
            if bad is not None:
                self.do_raise(bad, VExc('AttributeError'))
            return self.getattr(ok, o.v, name) if ok is not None else []
        if o is VNone:
            self.do_raise(st, VExc('AttributeError'))
            return []
        if isinstance(o, VRef) and isinstance(o.ty, TObj):
            if o.ty.null:
                bad, ok = self.branch(st, o.t == 0)
                if bad is not None:
                    self.do_raise(bad, VExc('AttributeError'))
                if ok is None:
                    return []
                return self.getattr(ok, VRef(o.t, TObj(o.ty.cname, o.ty.exact)), name)
            c = self.repo.classes[o.ty.cname]
            if name == '__class__':
                return [(st, VClass(c) if o.ty.exact else VTypV(self.cls_of(st, o)))]
            if name == '__dict__':
                return [(st, VBound(o, VBuiltin('__dict__')))]
            m = self.repo.find_method(c, name)
            if m is not None and m.is_property:
                return self.call_func(VFunc(m), [o], {}, st, recv=o)
            ty = self.fty(o.ty.cname, name)
            if ty is not None and not (m is not None and ty is None):
                return self.split_union(st, self.get_field(st, o.t, o.ty.cname, name, ty))
            if m is not None:
                if m.is_static:
                    return [(st, VFunc(m))]
                return [(st, VBound(o, VFunc(m)))]
            if any(d.name + '.' + name in self.contracts for d in self.repo.mro(c)):
                return [(st, VBound(o, VBuiltin('$method.' + name)))]
            ca = self.repo.find_attr(c, name)
            if ca is not None:
                return self.class_attr(st, ca[0], name)
            subs = [d for d in self.repo.subclasses(c) if name in d.methods]
            if subs and not o.ty.exact:
                return [(st, VBound(o, VBuiltin('$method.' + name)))]
            # an attribute only some of the subclasses declare
            own = [d for d in self.repo.subclasses(c) if (d.name, name) in self.ftypes]
            if len(own) == 1 and not o.ty.exact:
                code = self.cls_of(st, o)
                ok, bad = self.branch(st, z3.Or([code == x.code for x in self.repo.subclasses(own[0])]))
                if bad is not None:
                    self.do_raise(bad, VExc('AttributeError'))
                return self.getattr(ok, VRef(o.t, TObj(own[0].name)), name) if ok is not None else []
            raise Unsupported('attribute %s of %s' % (name, o.ty.cname))
        if isinstance(o, VClass):
            if name == '__name__':
                return [(st, VStr(o.cls.name))]
            m = self.repo.find_method(o.cls, name)
            if m is not None:
                return [(st, VFunc(m))]
            for d in self.repo.mro(o.cls):
                if 'G:%s.%s' % (d.name, name) in st.glob:
                    return self.class_attr(st, d, name)
            ca = self.repo.find_attr(o.cls, name)
            if ca is not None:
                return self.class_attr(st, ca[0], name)
            raise Unsupported('class attribute %s.%s' % (o.cls.name, name))
        if isinstance(o, VTypV):
            if name == '__name__':
                return [(st, VStr(None, z3.Function('typename', I, I)(o.t)))]
        if isinstance(o, VModule):
            full = o.name + '.' + name
            if o.name in self.repo.modules:
                v = self.resolve_global(self.repo.modules[o.name], name, st)
                if v is not None:
                    return [(st, v)]
            if full in self.repo.modules:
                return [(st, VModule(full))]
            if full in self.lib:
                h = self.lib[full]
                if isinstance(h, V):
                    return [(st, h)]
                return [(st, VBuiltin(full))]
            return [(st, VModule(full))]
        if isinstance(o, VSuper):
            m = self.repo.find_method(self.repo.classes[o.self_v.ty.cname], name, after=o.cls)
            if m is None:
                return [(st, VBuiltin('super_noop'))]
            return [(st, VFunc(m) if m.is_static else VBound(o.self_v, VFunc(m), cls='super'))]
        if isinstance(o, VRef) and isinstance(o.ty, (TList, TDict)):
            if getattr(o.ty, 'null', False):
                bad, ok = self.branch(st, o.t == 0)
                if bad is not None:
                    self.do_raise(bad, VExc('AttributeError'))
                if ok is None:
                    return []
                st = ok
            kind = 'list' if isinstance(o.ty, TList) else 'dict'
            return [(st, VBound(o, VBuiltin(kind + '.' + name)))]
        if isinstance(o, (VOpaque,)):
            return [(st, VBound(o, VBuiltin('opaque.' + name)))]
        if isinstance(o, (VStr,)):
            return [(st, VBound(o, VBuiltin('str.' + name)))]
        if isinstance(o, VSDict):
            return [(st, VBound(o, VBuiltin('sdict.' + name)))]
        if isinstance(o, VArr):
            if name == 'shape':
                return [(st, VTup([VNum(o.n)]))]
            return [(st, VBound(o, VBuiltin('arr.' + name)))]
        if isinstance(o, VNum):
            if name == 'shape':
                return [(st, VTup([]))]
            return [(st, VBound(o, VBuiltin('num.' + name)))]
        if isinstance(o, VAny):
            h = self.lib.get('any.' + name)
            if h is not None and not callable(h):
                pass
            return [(st, VBound(o, VBuiltin('any.' + name)))]
        if isinstance(o, (VFunc, VFnSym, VBuiltin)):
            if name == '__name__':
                return [(st, VStr(None, z3.Function('fn_name', I, I)(self.to_terms(o, TFn)[0])))] if not isinstance(o, VFunc) \
                    else [(st, VStr(o.func.name))]
            return [(st, VBound(o, VBuiltin('fn.' + name)))]
        if isinstance(o, VBound) and isinstance(o.fn, VBuiltin) and o.fn.name == '__dict__':
            return [(st, VBound(o.self_v, VBuiltin('__dict__.' + name)))]
        if isinstance(o, VBound):
            return [(st, VBound(o, VBuiltin('fn.' + name)))]
        raise Unsupported('attribute %s of %r' % (name, o))

    def split_union(self, st, v):
        if not isinstance(v, VUnion):
            return [(st, v)]
        out, rest = [], st
        for k, x in enumerate(v.items):
            if k == len(v.items) - 1:
                if rest is not None:
                    out.append((rest, x))
                break
            yes, rest = self.branch(rest, v.tag == k)
            if yes is not None:
                out.append((yes, x))
            if rest is None:
                break
        for a, x in out:
            self.wf(a, x)
        return out

    def class_attr(self, st, cls, name):
        key = 'G:%s.%s' % (cls.name, name)
        if key not in st.glob:
            e = cls.attrs[name]
            if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
                v = VNum(z3.Int(key))      # process-wide mutable counter
            else:
                s2 = self.new_state()
                s2.frames[0] = {'$module': cls.module}
                v = self.ev(e, s2, 0)[0][1]
            st.glob[key] = v
        return [(st, st.glob[key])]

    def setattr(self, st, o, name, v):
        if isinstance(o, VOpt):
            o = o.v
        if isinstance(o, VRef) and isinstance(o.ty, TObj):
            self.set_field(st, o.t, o.ty.cname, name, v)
        elif isinstance(o, VClass):
            st.glob['G:%s.%s' % (o.cls.name, name)] = v
        else:
            raise Unsupported('setattr on %r' % o)

    def ev_Subscript(self, e, st, fid):
        out = []
        for a, o in self.ev(e.value, st, fid):
            if isinstance(e.slice, ast.Slice):
                for b, (lo, hi, step) in self.ev_slice(e.slice, a, fid):
                    self.enter(b, e)
                    for c, v in self.lib['slice'](self, b, o, lo, hi, step):
                        self.leave(c)
                        out.append((c, v))
            else:
                for b, k in self.ev(e.slice, a, fid):
                    self.enter(b, e)
                    for c, v in self.getitem(b, o, k):
                        self.leave(c)
                        out.append((c, v))
        return out

    def ev_Slice(self, e, st, fid):
        raise Unsupported('slice expression')

    def ev_slice(self, s, st, fid):
        cur = [(st, [])]
        for x in (s.lower, s.upper, s.step):
            nxt = []
            for a, vs in cur:
                if x is None:
                    nxt.append((a, vs + [None]))
                else:
                    for b, v in self.ev(x, a, fid):
                        nxt.append((b, vs + [None if v is VNone else v]))
            cur = nxt
        return cur

    def norm_index(self, st, k, n):
        """python index -> in-range index; forks, raises IndexError"""
        t = self.as_int(k)
        ts = z3.simplify(t)
        if z3.is_int_value(ts) and ts.as_long() < 0:
            idx = z3.simplify(n + ts)
            ok, bad = self.branch(st, idx >= 0)
            if bad is not None:
                self.do_raise(bad, VExc('IndexError'))
            return [(ok, idx)] if ok is not None else []
        res = []
        if z3.is_int_value(ts) or self.holds(st, ts >= 0):
            cur = [(st, ts)]
        else:
            p, ng = self.branch(st, ts >= 0)
            cur = []
            if p is not None:
                cur.append((p, ts))
            if ng is not None:
                ok, bad = self.branch(ng, ts + n >= 0)
                if bad is not None:
                    self.do_raise(bad, VExc('IndexError'))
                if ok is not None:
                    res.append((ok, z3.simplify(ts + n)))
        for a, i in cur:
            ok, bad = self.branch(a, i < n)
            if bad is not None:
                self.do_raise(bad, VExc('IndexError'))
            if ok is not None:
                res.append((ok, i))
        return res

    def getitem(self, st, o, k):
        if isinstance(o, VOpt):
            o = o.v
        if isinstance(o, VTup):
            if isinstance(k, VNum):
                t = z3.simplify(self.as_int(k))
                if z3.is_int_value(t):
                    i = t.as_long()
                    if -len(o.items) <= i < len(o.items):
                        return [(st, o.items[i])]
                    self.do_raise(st, VExc('IndexError'))
                    return []
                n = z3.IntVal(len(o.items))
                return [(a, self.tup_seq(o).get(a, i)) for a, i in self.norm_index(st, k, n)]
        if isinstance(o, VRef) and isinstance(o.ty, TList):
            if not isinstance(k, VNum):
                raise Unsupported('list index %r' % k)
            if isinstance(rt(o.ty.elem), TVar):
                # certainly empty so far
                self.do_raise(st, VExc('IndexError'))
                return []
            n = self.list_len(st, o)
            return [(a, self.list_get(a, o, i)) for a, i in self.norm_index(st, k, n)]
        if isinstance(o, VSeq):
            n = self.seq_len(st, o)
            return [(a, o.get(a, i)) for a, i in self.norm_index(st, k, n)]
        if isinstance(o, VRef) and isinstance(o.ty, TDict):
            return self.lib['dict_get'](self, st, o, k)
        if isinstance(o, VSDict):
            if isinstance(k, VStr) and k.s is not None:
                if k.s in o.items:
                    return [(st, o.items[k.s])]
                self.do_raise(st, VExc('KeyError'))
                return []
            return self.lib['sdict_get'](self, st, o, k)
        if isinstance(o, VArr):
            return self.lib['arr_getitem'](self, st, o, k)
        if isinstance(o, VAny):
            return self.lib['any_getitem'](self, st, o, k)
        raise Unsupported('item of %r' % o)

    def setitem(self, st, o, k, v):
        if isinstance(o, VRef) and isinstance(o.ty, TList):
            n = self.list_len(st, o)
            out = []
            for a, i in self.norm_index(st, k, n):
                self.list_set(a, o, i, v)
                out.append(a)
            return out
        if isinstance(o, VRef) and isinstance(o.ty, TDict):
            return self.lib['dict_set'](self, st, o, k, v)
        if isinstance(o, VSDict) and isinstance(k, VStr) and k.s is not None:
            # value semantics: rebinding every local that holds this dictionary
            nd = VSDict(dict(o.items, **{k.s: v}))
            self.replace_val(st, o, nd)
            return [st]
        raise Unsupported('item assignment on %r' % o)

    def replace_val(self, st, old, new):
        for fr in st.frames.values():
            for n, v in fr.items():
                if v is old:
                    fr[n] = new

    # comprehensions ----------------------------------------------------
    def ev_ListComp(self, e, st, fid):
        return self.comp_expr(e, st, fid, True)

    def ev_GeneratorExp(self, e, st, fid):
        return self.comp_expr(e, st, fid, False)

    def comp_expr(self, e, st, fid, islist):
        g = e.generators[0]
        out = []
        for a, it in self.ev(g.iter, st, fid):
            q = self.seq_of(a, it)
            n = z3.simplify(self.seq_len(a, q))
            if len(e.generators) == 1 and not (z3.is_int_value(n) and n.as_long() <= 6):
                mark = len(self.raised[-1])
                self.enter(a, e)
                r = self.comp_pure(e, g, a.copy(), fid, q, n, islist)
                if r is not None:
                    self.leave(r[0])
                    out.append(r)
                    continue
                self.leave(a)
                del self.raised[-1][mark:]
            out += self.comp_loop(e, a, fid, it)
        return out

    def comp_pure(self, e, g, st, fid, q, n, islist):
        from .lib import pointwise
        q = self.snap(st, q)

        def over(expr, conv):
            def fn(w, x):
                res = []
                for c in self.assign(g.target, x, w, fid):
                    for d, v in self.ev(expr, c, fid):
                        res.append((d, conv(d, v)))
                return res
            return fn
        for c in g.ifs:
            r = pointwise(self, st, q, over(c, lambda d, v: VNum(self.truth(d, v))))
            if r is None:
                return None
            st, getc = r
            st.cs = st.cs + ('flt',)
            m = self.fresh(st, 'fm', I)
            idx, inv = self.fresh_fn(st, 'fidx', I, I), self.fresh_fn(st, 'finv', I, I)
            st.cs = st.cs[:-1]
            k, k2, j = z3.Int('fk'), z3.Int('fk2'), z3.Int('fj')
            cd = lambda t: getc(st, t).t
            st.assume(z3.And(m >= 0, m <= z3.If(n > 0, n, z3.IntVal(0))))
            # outside their ranges both are -1 (free choice of the fresh symbols; keeps instantiation finite)
            st.assume(z3.ForAll([k], z3.If(z3.And(k >= 0, k < m), z3.And(idx(k) >= 0, idx(k) < n, cd(idx(k)), inv(idx(k)) == k), idx(k) == -1), patterns=[idx(k)]))
            if self.filter_order:
                st.assume(z3.ForAll([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < m), idx(k) < idx(k2)), patterns=[z3.MultiPattern(idx(k), idx(k2))]))
            ax = lambda: z3.If(z3.And(j >= 0, j < n, cd(j)), z3.And(inv(j) >= 0, inv(j) < m, idx(inv(j)) == j), inv(j) == -1)
            st.assume(z3.ForAll([j], ax(), patterns=[inv(j)]))
            src = q.get(st.copy(), j)
            trig = [t for t in (self.to_terms(src, self.type_of(src)) if not isinstance(src, VTup) else []) if z3.is_select(t)]
            if trig:
                st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, cd(j)), z3.And(inv(j) >= 0, inv(j) < m, idx(inv(j)) == j)), patterns=[trig[0]]))
            else:
                st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, cd(j)), z3.And(inv(j) >= 0, inv(j) < m, idx(inv(j)) == j))))

            def get(s, jj, q0=q, idx=idx, getc=getc):
                s.assume(getc(s, idx(jj)).t)
                return q0.get(s, idx(jj))
            q = VSeq(m, get, q.elem_ty)
            n = m
        r = pointwise(self, st, q, over(e.elt, lambda d, v: v))
        if r is None:
            return None
        st, get = r
        if not islist:
            try:
                x = get(st.copy(), z3.IntVal(0))
                ty = self.type_of(x)
            except Unsupported:
                ty = None
            return st, VSeq(n, get, ty)
        return st, self.list_from_seq(st, n, get, None)

    def ev_SetComp(self, e, st, fid):
        raise Unsupported('set comprehension')

    def ev_DictComp(self, e, st, fid):
        return self.lib['dictcomp'](self, e, st, fid)

    def comp_loop(self, e, st, fid, it0):
        """desugar [elt for x in it if c] to a loop appending to a fresh list"""
        self.enter(st, e)
        r = self.new_list(st, TVar())
        nm = '$comp%d_%d' % (e.lineno, e.col_offset)
        self.leave(st)
        st.frames[fid][nm] = r
        itn = '$it' + nm[5:]
        st.frames[fid][itn] = it0
        key = id(e)
        cache = self.__dict__.setdefault('compcache', {})
        if key not in cache:
            body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=nm, ctx=ast.Load()), attr='append', ctx=ast.Load()),
                                            args=[e.elt], keywords=[]))]
            for g in reversed(e.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(test=c, body=body, orelse=[])]
                it = ast.Name(id=itn, ctx=ast.Load()) if g is e.generators[0] else g.iter
                body = [ast.For(target=g.target, iter=it, body=body, orelse=[])]
            for n in body:
                for x in ast.walk(n):
                    if not hasattr(x, 'lineno'):
                        x.lineno, x.col_offset = e.lineno, e.col_offset
            cache[key] = (e, body)
        body = cache[key][1]
        # own scope for the targets
        names = [t.id for g in e.generators for t in ast.walk(g.target) if isinstance(t, ast.Name)]
        saved = {n: st.frames[fid].get(n) for n in names}
        out = []
        for kind, a, v in self.exec_block(body, st, fid):
            fr = a.frames[fid]
            for n in names:
                if saved[n] is None:
                    fr.pop(n, None)
                else:
                    fr[n] = saved[n]
            fr.pop(itn, None)
            if kind == 'next':
                out.append((a, fr.pop(nm)))
            elif kind == 'raise':
                self.do_raise(a, v)
            else:
                raise Unsupported('control flow in comprehension')
        return out

    # calls ---------------------------------------------------------------
    def ev_Call(self, e, st, fid):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fid
            while f is not None and '$self' not in st.frames[f]:
                f = st.frames[f].get('$closure')
            fr = st.frames[f]
            return [(st, VSuper(fr['$self'], fr['$func'].cls))]
        out = []
        for a, f in self.ev(e.func, st, fid):
            for b, args in self.ev_list(e.args, a, fid):
                cur = [(b, {})]
                for k in e.keywords:
                    nxt = []
                    for c, kw in cur:
                        for d, v in self.ev(k.value, c, fid):
                            kw2 = dict(kw)
                            if k.arg is None:
                                if isinstance(v, VSDict):
                                    kw2.update(v.items)
                                else:
                                    kw2['**'] = v
                            else:
                                kw2[k.arg] = v
                            nxt.append((d, kw2))
                    cur = nxt
                for c, kw in cur:
                    self.enter(c, e)
                    for d, v in self.call(c, f, args, kw):
                        self.leave(d)
                        out.append((d, v))
        return out

    def call(self, st, f, args, kw):
        if isinstance(f, VOpt):
            f = f.v
        if isinstance(f, VBound):
            if isinstance(f.fn, VBuiltin) and f.fn.name.startswith('$method.'):
                return self.call_method(st, f.self_v, f.fn.name[8:], args, kw)
            if isinstance(f.fn, VBuiltin):
                return self.call_builtin(st, f.fn.name, [f.self_v] + args, kw, bound=True)
            if f.cls == 'super':
                return self.call_func(f.fn, [f.self_v] + args, kw, st, recv=f.self_v, direct=f.fn.func.qual not in self.contracts)
            if isinstance(f.self_v, VRef) and isinstance(f.self_v.ty, TObj) and f.fn.func.cls is not None:
                return self.call_method(st, f.self_v, f.fn.func.name, args, kw)
            return self.call_func(f.fn, [f.self_v] + args, kw, st, recv=f.self_v)
        if isinstance(f, VFunc):
            return self.call_func(f, args, kw, st, recv=args[0] if (f.func.cls and args and not f.func.is_static) else None)
        if isinstance(f, VClass):
            return self.construct(st, f.cls, args, kw)
        if isinstance(f, VBuiltin):
            return self.call_builtin(st, f.name, args, kw)
        if isinstance(f, VFnSym):
            return self.lib['call_symbolic'](self, st, f, args, kw)
        if isinstance(f, VTypV):
            return self.lib['construct_symbolic'](self, st, f, args, kw)
        if isinstance(f, VRef) and isinstance(f.ty, TObj):
            return self.call_method(st, f, '__call__', args, kw)
        if isinstance(f, VModule):
            if f.name in self.EXC_PARENTS:
                return [(st, VExc(f.name))]
            raise Unsupported('call of %s' % f.name)
        if isinstance(f, VNoneC):
            self.do_raise(st, VExc('TypeError'))
            return []
        raise Unsupported('call of %r' % f)

    def call_builtin(self, st, name, args, kw, bound=False):
        h = self.lib.get(name)
        if h is None:
            base = name.split('.')[0]
            if base == 'opaque':
                return [(st, VOpaque(name))]
            if name in self.EXC_PARENTS:
                return [(st, VExc(name))]
            raise Unsupported('library function %s' % name)
        if '.' in name and not name.split('.')[0] in ('list', 'dict', 'str', 'sdict', 'opaque', 'any', 'fn', 'num', 'arr', '__dict__'):
            self.trusted.add(name)
        if bound:
            return h(self, st, args[0], args[1:], kw)
        return h(self, st, args, kw)

    def construct(self, st, cls, args, kw):
        o = self.new_obj(st, cls)
        key = cls.name + '.__new__'
        if key in self.contracts:
            return self.contracts[key].apply(self, st, o, args, kw)
        m = self.repo.find_method(cls, '__init__')
        if m is None:
            return [(st, o)]
        h = self.lib.get('default_fields')
        if h:
            h(self, st, o, cls)
        return [(a, o) for a, _ in self.call_func(VFunc(m), [o] + args, kw, st, recv=o, direct=True)]

    def call_method(self, st, o, name, args, kw):
        c = self.repo.classes[o.ty.cname]
        for d in self.repo.mro(c):
            k = self.contracts.get(d.name + '.' + name)
            if k is not None:
                k.used += 1
                return k.apply(self, st, o, args, kw)
            if name in d.methods and o.ty.exact:
                break
        m = self.repo.find_method(c, name)
        if not o.ty.exact:
            over = [d for d in self.repo.subclasses(c) if d is not c and name in d.methods]
            if over:
                return self.dispatch(st, o, name, args, kw, c)
        if m is None:
            ty = self.fty(o.ty.cname, name)
            if ty is not None:
                return self.call(st, self.get_field(st, o.t, o.ty.cname, name, ty), args, kw)
            raise Unsupported('method %s.%s' % (o.ty.cname, name))
        if m.is_abstract and not o.ty.exact:
            raise Unsupported('abstract method %s' % m.qual)
        if m.is_static:
            return self.call_func(VFunc(m), args, kw, st, direct=True)
        return self.call_func(VFunc(m), [o] + args, kw, st, recv=o, direct=True)

    def dispatch(self, st, o, name, args, kw, c):
        """case split over the concrete classes of the hierarchy (closed world, stated)"""
        leaves = [d for d in self.repo.subclasses(c)]
        impl = {}
        for d in leaves:
            m = self.repo.find_method(d, name)
            if m is None or m.is_abstract:
                continue
            if any(x.is_abstract for x in self.all_methods(d).values()):
                continue
            impl.setdefault(m.qual, []).append(d)
        if not impl:
            raise Unsupported('dynamic dispatch of %s.%s' % (c.name, name))
        code = self.cls_of(st, o)
        out = []
        self.trusted.add('closed class hierarchy of ' + c.name)
        rest = st
        st.assume(z3.Or([code == d.code for ds in impl.values() for d in ds]))
        base = st.copy()
        for q, ds in impl.items():
            if rest is None:
                break
            yes, rest = self.branch(rest, z3.Or([code == d.code for d in ds]))
            if yes is not None:
                o2 = VRef(o.t, TObj(ds[0].name, exact=True)) if len(ds) == 1 else VRef(o.t, TObj(self.lub(ds).name))
                m = self.repo.find_method(ds[0], name)
                out += self.call_func(VFunc(m), [o2] + args, kw, yes, recv=o2, direct=True)
        return self.merge_outs(base, out)

    def lub(self, ds):
        for d in self.repo.mro(ds[0]):
            if all(self.repo.is_sub(x, d) for x in ds):
                return d

    def all_methods(self, d):
        out = {}
        for c in reversed(self.repo.mro(d)):
            out.update(c.methods)
        return out

    def bind(self, f, args, kw, st):
        node = f.func.node
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        fr = {}
        args = list(args)
        for x in args:
            if isinstance(x, tuple):
                if len(args) == 1 and a.vararg is None and len(params) and isinstance(x[1], (VTup,)):
                    pass
                raise Unsupported('star argument')
        if len(args) > len(params):
            if a.vararg is None:
                return None
            fr[a.vararg.arg] = VTup(args[len(params):])
            args = args[:len(params)]
        elif a.vararg is not None:
            fr[a.vararg.arg] = VTup([])
        for p, v in zip(params, args):
            fr[p] = v
        extra = {}
        for k, v in kw.items():
            if k in fr and k != '**':
                return None
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                fr[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                return None
        if a.kwarg is not None:
            fr[a.kwarg.arg] = extra['**'] if set(extra) == {'**'} else VSDict(extra)
        missing = [p for p in params + [x.arg for x in a.kwonlyargs] if p not in fr]
        if missing:
            d = f.defaults
            if d is None:
                s2 = st
                fid = max(st.frames) if st.frames else 0
                key = ('defaults', id(node))
                if key not in self.gconst:
                    s3 = self.new_state()
                    s3.frames[0] = {'$module': f.func.module}
                    dd = {}
                    pos = a.posonlyargs + a.args
                    pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]
                    for x, y in pairs:
                        try:
                            dd[x.arg] = self.ev(y, s3, 0)[0][1]
                            if isinstance(dd[x.arg], VRef):
                                dd[x.arg] = 'mutable'
                        except Unsupported:
                            dd[x.arg] = 'mutable'
                    self.gconst[key] = dd
                d = self.gconst[key]
            for p in missing:
                if p not in d:
                    return None
                if isinstance(d[p], str) and d[p] == 'mutable':
                    h = self.lib.get('mutable_default')
                    v = h(self, st, f, p) if h else None
                    if v is None:
                        raise Unsupported('mutable default %s' % p)
                    fr[p] = v
                else:
                    fr[p] = d[p]
        return fr

    def call_func(self, f, args, kw, st, recv=None, direct=False):
        if not direct and f.func.cls is None and f.func.qual in self.contracts:
            k = self.contracts[f.func.qual]
            k.used += 1
            return k.apply(self, st, None, args, kw)
        if not direct and f.func.is_static and f.func.qual in self.contracts:
            k = self.contracts[f.func.qual]
            k.used += 1
            return k.apply(self, st, None, args, kw)
        if not direct and f.func.cls is not None and f.func.qual in self.contracts and recv is not None:
            k = self.contracts[f.func.qual]
            k.used += 1
            return k.apply(self, st, recv, args[1:], kw)
        if f.func.is_abstract and direct and f.func.cls is not None and len(f.func.node.body) <= 2 and 'super' not in str(direct):
            pass
        fr = self.bind(f, args, kw, st)
        if fr is None:
            self.do_raise(st, VExc('TypeError'))
            return []
        if self.depth > MAXDEPTH or st.cs.count('call:' + f.func.qual) >= 3:
            raise Unsupported('recursion without a contract: %s' % f.func.qual)
        self.inlined.add(f.func.qual)
        self.fid += 1
        # deterministic frame ids are not needed: frames are never compared across calls
        fid = self.fid
        fr['$module'] = f.func.module
        fr['$closure'] = f.closure
        fr['$func'] = f.func
        if recv is not None and f.func.cls is not None:
            fr['$self'] = recv
        elif f.closure is not None and f.closure in st.frames and '$self' in st.frames[f.closure]:
            fr['$self'] = st.frames[f.closure]['$self']
            if f.func.cls is None:
                fr['$func'] = st.frames[f.closure]['$func']
        base = st
        n0 = len(st.pc)
        st = st.copy()
        st.frames[fid] = fr
        cs = st.cs
        st.cs = cs + ('call:' + f.func.qual,)
        self.depth += 1
        try:
            outs = self.exec_block(f.func.node.body, st, fid)
        finally:
            self.depth -= 1
        res = []
        escaped = self.captured(outs, fid)
        nr = 0
        for kind, a, v in outs:
            a.cs = cs
            if not escaped:
                a.frames.pop(fid, None)
            if kind == 'ret':
                res.append((a, v))
            elif kind == 'next':
                res.append((a, VNone))
            elif kind == 'raise':
                nr += 1
                self.do_raise(a, v)
            else:
                raise Unsupported('break outside loop')
        return self.merge_outs(base, res)

    def captured(self, outs, fid):
        """a closure created in this frame may outlive it"""
        def mentions(v):
            if isinstance(v, VFunc) and v.closure == fid:
                return True
            if isinstance(v, VTup):
                return any(mentions(i) for i in v.items)
            return False
        for c, v in self.fn_table.items():
            if isinstance(v, VFunc) and v.closure == fid:
                return True
        for kind, a, v in outs:
            if v is not None and mentions(v):
                return True
        return False
