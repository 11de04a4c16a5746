"""Symbolic values and static types."""
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """The construct is outside the supported subset."""


# ---------------------------------------------------------------- types
class T:
    def key(self):
        raise NotImplementedError

    def leaves(self):
        return [('', I)]

    def __repr__(self):
        return self.key()

    def __eq__(self, o):
        return isinstance(o, T) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class TBase(T):
    def __init__(self, name, sort):
        self.name, self.sort = name, sort

    def key(self):
        return self.name

    def leaves(self):
        return [('', self.sort)]


TInt = TBase('int', I)
TReal = TBase('real', R)
TBool = TBase('bool', B)
TStr = TBase('str', I)
TFn = TBase('fn', I)
TTyp = TBase('typ', I)
TAny = TBase('any', I)       # opaque python object, compared by identity/equality token
TNone = TBase('none', I)


class TXReal(T):             # real or +infinity
    def key(self):
        return 'xreal'

    def leaves(self):
        return [('inf', B), ('val', R)]


TX = TXReal()


class TObj(T):
    def __init__(self, cname, exact=False, null=False):
        self.cname, self.exact, self.null = cname, exact, null

    def key(self):
        return 'O:' + self.cname


class TList(T):
    def __init__(self, elem, null=False):
        self.elem = elem
        self.null = null

    def key(self):
        return 'L(%s)' % rt(self.elem).key()


class TDict(T):
    def __init__(self, k, v, null=False):
        self.k, self.v, self.null = k, v, null

    def key(self):
        return 'D(%s,%s)' % (rt(self.k).key(), rt(self.v).key())


class TTup(T):
    def __init__(self, items):
        self.items = items

    def key(self):
        return 'T(%s)' % ','.join(rt(i).key() for i in self.items)

    def leaves(self):
        return [('%d%s' % (n, s), so) for n, i in enumerate(self.items) for s, so in rt(i).leaves()]


class TOpt(T):
    """None or a non-reference value"""

    def __init__(self, inner):
        self.inner = inner

    def key(self):
        return 'opt(%s)' % self.inner.key()

    def leaves(self):
        return [('none', B)] + [('v' + s, so) for s, so in self.inner.leaves()]


class TUnion(T):
    def __init__(self, items):
        self.items = items

    def key(self):
        return 'U(%s)' % ','.join(rt(i).key() for i in self.items)

    def leaves(self):
        return [('tag', I)] + [('u%d%s' % (n, s), so) for n, i in enumerate(self.items) for s, so in rt(i).leaves()]


class TVar(T):
    n = 0

    def __init__(self):
        self.ref = None
        TVar.n += 1
        self.id = TVar.n

    def key(self):
        return self.ref.key() if self.ref else '?%d' % self.id

    def leaves(self):
        if self.ref is None:
            raise Unsupported('element type of list unknown')
        return self.ref.leaves()


def rt(t):
    while isinstance(t, TVar) and t.ref is not None:
        t = t.ref
    return t


# ---------------------------------------------------------------- values
class V:
    pass


class VNum(V):
    def __init__(self, t):
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        elif isinstance(t, int):
            t = z3.IntVal(t)
        elif isinstance(t, float):
            t = z3.RealVal(repr(t))
        self.t = t

    def __repr__(self):
        return 'Num(%s)' % self.t


class VX(V):
    """extended real: +inf or value"""

    def __init__(self, inf, val):
        self.inf, self.val = inf, val


class VNoneC(V):
    def __repr__(self):
        return 'None'


VNone = VNoneC()


class VStr(V):
    def __init__(self, s=None, t=None):
        self.s, self.t = s, t

    def __repr__(self):
        return 'Str(%s)' % (self.s if self.s is not None else self.t)


class VRef(V):
    """object, list or dict; term 0 is None when ty.null"""

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def __repr__(self):
        return 'Ref(%s:%s)' % (self.t, self.ty)


class VOpt(V):
    def __init__(self, none, v):
        self.none, self.v = none, v


class VTup(V):
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return 'Tup%s' % self.items


class VFunc(V):
    def __init__(self, func, closure=None, defaults=None):
        self.func, self.closure, self.defaults = func, closure, defaults


class VBound(V):
    def __init__(self, self_v, fn, cls=None):
        self.self_v, self.fn, self.cls = self_v, fn, cls


class VClass(V):
    def __init__(self, cls):
        self.cls = cls

    def __repr__(self):
        return 'Class(%s)' % self.cls.name


class VBuiltin(V):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class VModule(V):
    def __init__(self, name):
        self.name = name


class VTypV(V):
    """a type object given by a term (class code)"""

    def __init__(self, t):
        self.t = t


class VFnSym(V):
    def __init__(self, t):
        self.t = t


class VAny(V):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Any(%s)' % self.t


class VOpaque(V):
    """a value nobody inspects (formatted strings, loggers, ...)"""

    def __init__(self, what=''):
        self.what = what


class VSeq(V):
    """virtual immutable sequence: length term and element function (st, j) -> V"""

    def __init__(self, n, get, elem_ty=None, src=None):
        self.n, self.get, self.elem_ty, self.src = n, get, elem_ty, src


class VSDict(V):
    """dictionary with statically known keys (immutable value; updates rebind in place through `cell`)"""

    def __init__(self, items):
        self.items = items


class VSuper(V):
    def __init__(self, self_v, cls):
        self.self_v, self.cls = self_v, cls


class VExc(V):
    def __init__(self, name, args=()):
        self.name, self.args = name, args


class VUnion(V):
    def __init__(self, tag, items):
        self.tag, self.items = tag, items


class VUndef(V):
    pass


class VArr(V):
    """numpy array of reals: length and element function; elementwise semantics"""

    def __init__(self, n, get):
        self.n, self.get = n, get
