"""Program trees: the parse of a prefix sequence of nodes, as ghost functions of positions.

END(p): first position after the subtree that starts at p.   CH(p, i): where the i-th argument of the node at p starts.
A sequence of n nodes is well formed iff such functions exist with the axioms below and END(0) == n."""
import z3
from pycv.engine import Contract
from pycv.vals import *
from .common import *

NODE = TObj('TreeNode')
FN, TN = 'FunctionNode', 'TerminalNode'


def schema(e):
    def d(c, **kw):
        for k, v in kw.items():
            e.ftypes[(c, k)] = v
    d('TreeNode', node_type=TAny)
    d('FunctionNode', function=TFn, n_args=TInt)
    d('TerminalNode', value=TAny)
    d('Tree', tree=TList(NODE))


class Parse:
    def __init__(self, tag=''):
        self.END, self.CH = z3.Function('end' + tag, I, I), z3.Function('child' + tag, I, I, I)


class Nodes:
    """the nodes of a list in a state"""

    def __init__(self, u, st, lst):
        self.u, self.st, self.lst = u, st.copy(), lst
        self.n = u.eng.list_len(self.st, lst)
        st.assume(self.n >= 0)

    def ref(self, p):
        return elem(self.u, self.st, self.lst, p).t

    def node(self, p, cls):
        return VRef(self.ref(p), TObj(cls, exact=True))

    def isfun(self, p):
        e = self.u.eng
        K = e.comp(self.st, 'cls', AS(I, I))
        return K[self.ref(p)] == e.repo.classes[FN].code

    def isterm(self, p):
        e = self.u.eng
        K = e.comp(self.st, 'cls', AS(I, I))
        return K[self.ref(p)] == e.repo.classes[TN].code

    def f(self, p, cls, name):
        return self.u.eng.get_field(self.st.copy(), self.ref(p), cls, name)

    def nargs(self, p):
        return self.f(p, FN, 'n_args').t

    def function(self, p):
        return self.f(p, FN, 'function').t

    def typ(self, p):
        return self.f(p, 'TreeNode', 'node_type').t


class AbsNodes:
    """nodes as functions of positions: attributes of a node depend on the node only"""
    ISFUN, ISTERM = z3.Function('is_function_node', I, B), z3.Function('is_terminal_node', I, B)
    NARGS, FUNC, TYPE = z3.Function('node_args', I, I), z3.Function('node_function', I, I), z3.Function('node_type_of', I, I)

    def __init__(self, ref, n):
        self.ref, self.n = ref, n

    def isfun(self, p):
        return self.ISFUN(self.ref(p))

    def isterm(self, p):
        return self.ISTERM(self.ref(p))

    def nargs(self, p):
        return self.NARGS(self.ref(p))

    def function(self, p):
        return self.FUNC(self.ref(p))

    def typ(self, p):
        return self.TYPE(self.ref(p))


class AbsArr:
    def __init__(self, tag):
        for g in GH:
            setattr(self, g, AtFn(z3.Function('%s_%s' % (tag, g), I, I)))


class AtFn:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, p):
        return self.f(p)


def parse_axioms(N, P):
    """the nodes of N parse as P says: every position below n starts a complete subtree"""
    p, i = z3.Ints('p i')
    inr = z3.And(p >= 0, p < N.n)
    r = N.ref(p)
    return [z3.ForAll([p], z3.Implies(inr, z3.Or(N.isfun(p), N.isterm(p))), patterns=[r]),
            z3.ForAll([p], z3.Implies(z3.And(inr, N.isfun(p)), z3.And(N.nargs(p) >= 1, P.CH(p, 0) == p + 1, P.CH(p, N.nargs(p)) == P.END(p))), patterns=[r, P.END(p)]),
            z3.ForAll([p], z3.Implies(z3.And(inr, N.isterm(p)), P.END(p) == p + 1), patterns=[r, P.END(p)]),
            z3.ForAll([p], z3.Implies(inr, z3.And(P.END(p) > p, P.END(p) <= N.n)), patterns=[P.END(p)]),
            z3.ForAll([p, i], z3.Implies(z3.And(inr, N.isfun(p), i >= 0, i < N.nargs(p)), z3.And(P.CH(p, i) > p, P.CH(p, i) < N.n, P.CH(p, i + 1) == P.END(P.CH(p, i)))), patterns=[P.CH(p, i)])]


def pos_list(u, st):
    return u.list(st, TInt, 'pos')


# ------------------------------------------------------------------ building trees
# END, PAR, IDX, PREV, DEP of a position of a node list under construction are ghost arrays of the list;
# PAR: position of the function node it is an argument of, IDX: which argument, PREV: start of the argument before it, DEP: depth.
GH = ('end', 'par', 'idx', 'prev', 'dep')
AII, AIA = AS(I, I), AS(I, AS(I, I))
ARGT = z3.Function('argument_type', I, I, I)      # function, position -> type
RETT = z3.Function('return_type', I, I)
ARITY = z3.Function('arity_of', I, I)


def gcomp_(u, s, name):
    return 'el:ghost_' + name, u.eng.comp(s, 'el:ghost_' + name, AIA, None, nested=True)


class Arr:
    """ghost arrays of a list in a state"""

    def __init__(self, u, s, lst):
        s = s.copy()
        for g in GH:
            nm, K = gcomp_(u, s, g)
            setattr(self, g, u.eng.read_arr(s, K, lst.t))

    def copy(self):
        o = object.__new__(Arr)
        o.__dict__ = dict(self.__dict__)
        return o


def put_ghost(u, s, lst, name, arr):
    nm, K = gcomp_(u, s, name)
    u.eng.write(s, nm, K, lst.t, arr)


def cell(u, s, lst, name):
    K = u.eng.comp(s.copy(), 'F:ghost.%s:int' % name, AII)
    return u.eng.read_arr(s, u.eng.comp(s, 'F:ghost.%s:int' % name, AII), lst.t)


def put_cell(u, s, lst, name, t):
    u.eng.write(s, 'F:ghost.%s:int' % name, u.eng.comp(s, 'F:ghost.%s:int' % name, AII), lst.t, t)


def node_ok(N, q):
    """a node is a function node with the arity of its function, or a terminal"""
    f = N.function(q)
    return z3.And(z3.Or(N.isfun(q), N.isterm(q)), z3.Implies(N.isfun(q), z3.And(N.nargs(q) == ARITY(f), N.nargs(q) >= 1)))


def u_type(N, q):
    return N.typ(q)


def local(N, G, q, a, b, open_=None):
    """conditions on one position q of the subtree [a, b): (name, formula, patterns)

    open_ = (k, last): the node at a has got only k of its arguments so far, the last of them at `last`"""
    r = G.par[q]
    f = N.function(r)
    e = G.end[q]
    M = z3.MultiPattern
    arg = q != a
    link = z3.And(G.par[e] == r, G.idx[e] == G.idx[q] + 1, G.prev[e] == q)
    if open_ is None:
        within = e <= G.end[r]
        room = G.idx[q] < N.nargs(r)
        final = z3.Implies(z3.And(arg, G.idx[q] + 1 == N.nargs(r)), e == G.end[r])
        more = z3.Implies(z3.And(arg, G.idx[q] + 1 < N.nargs(r)), z3.And(e < G.end[r], link))
    else:
        k, last = open_
        within = z3.Implies(r != a, e <= G.end[r])
        room = z3.And(G.idx[q] < N.nargs(r), z3.Implies(r == a, G.idx[q] < k))
        final = z3.Implies(arg, z3.And(z3.Implies(z3.And(r != a, G.idx[q] + 1 == N.nargs(r)), e == G.end[r]), z3.Implies(z3.And(r == a, G.idx[q] + 1 == k), z3.And(e == b, q == last))))
        more = z3.Implies(arg, z3.And(z3.Implies(z3.And(r != a, G.idx[q] + 1 < N.nargs(r)), z3.And(e < G.end[r], link)), z3.Implies(z3.And(r == a, G.idx[q] + 1 < k), z3.And(e < b, link))))
    return [('node', node_ok(N, q), [N.ref(q)]),
            ('extent', z3.And(e > q, e <= b), [e]),
            ('terminal', z3.Implies(N.isterm(q), e == q + 1), [e]),
            ('has an argument', z3.Implies(N.isfun(q), e > q + 1), [N.ref(q), e]),
            ('first argument', z3.Implies(z3.And(arg, N.isfun(q - 1)), z3.And(r == q - 1, G.idx[q] == 0)), [z3.MultiPattern(N.ref(q), N.ref(q - 1)), r]),
            ('is an argument', z3.Implies(arg, z3.And(r >= a, r < q, N.isfun(r), G.idx[q] >= 0, room)), [r]),
            ('lies within its function', z3.Implies(arg, within), [M(e, r)]),
            ('has the type of its position', z3.Implies(arg, u_type(N, q) == ARGT(f, G.idx[q])), [M(N.ref(q), r)]),
            ('is one deeper than its function', z3.Implies(arg, G.dep[q] == G.dep[r] + 1), [M(G.dep[q], r)]),
            ('last argument', final, [M(e, r, G.idx[q])]),
            ('next argument', more, [M(e, r, G.idx[q])]),
            ('argument before', z3.Implies(z3.And(arg, G.idx[q] > 0), z3.And(G.prev[q] > r, G.prev[q] < q, G.end[G.prev[q]] == q, G.par[G.prev[q]] == r, G.idx[G.prev[q]] == G.idx[q] - 1)), [G.prev[q]]),
            ('arguments follow their function', z3.Implies(z3.And(arg, G.idx[q] == 0), q == r + 1), [M(r, G.idx[q])])]
