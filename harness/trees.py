"""independent generators and checkers for program trees (shared by the GP harnesses)"""
from .common import *
import eckity.base.untyped_functions as U
import eckity.base.typed_functions as T
from eckity.genetic_encodings.gp import Tree, FunctionNode, TerminalNode


def k0(x):
    return x


def neg1(x):
    return -x


def sub2(x, y):
    return x - 2 * y


def pick3(x, y, z):
    return x + 10 * y - 100 * z


def lin4(a, b, c, d):
    return a - b + 3 * c - 7 * d


def ti_f(x: float) -> int:
    return int(x)


def tf_i(x: int) -> float:
    return x / 2.0


def tb_ff(x: float, y: float) -> bool:
    return x < y


def tf_bff(t: bool, x: float, y: float) -> float:
    return x if t else y


def ti_ib(x: int, t: bool) -> int:
    return x + 1 if t else x - 1


def tf_ff(x: float, y: float) -> float:
    return x - 3 * y


def tb_b(x: bool) -> bool:
    return not x


# (functions, terminals, root type, erc range)
UNTYPED = ([neg1, sub2, pick3], ['x', 'y', 'z', 1, 2.5], None, None)
UNTYPED_ERC = ([sub2, lin4], ['x', 'y'], None, (-1.0, 1.0))
UNARY = ([neg1, k0], ['x'], None, None)
BIG = ([neg1, sub2, pick3, lin4, k0], ['x', 'y', 'z', 'w', 0, -1, 3], None, (1, 5))
TYPED = ([ti_f, tf_i, tb_ff, tf_bff, ti_ib, tf_ff, tb_b], {'x': float, 'y': float, 'n': int, 'm': int, 'p': bool, 1.5: float}, float, None)
TYPED_ERC = ([ti_f, tf_i, tb_ff, tf_bff, ti_ib, tf_ff, tb_b], {'x': float, 'n': int, 'p': bool}, int, (0.0, 2.0))
TYPED1 = ([tf_ff], {'x': float, 'y': float}, float, None)
TYPED2 = ([tb_ff, tf_bff, tb_b, tf_ff], {'x': float, 'p': bool, 'q': bool}, bool, None)
TYPEDI = ([ti_ib, tb_b], {'n': int, 'p': bool}, int, (0, 9))
ALL = dict(UNTYPED=UNTYPED, UNTYPED_ERC=UNTYPED_ERC, UNARY=UNARY, BIG=BIG, TYPED=TYPED, TYPED_ERC=TYPED_ERC, TYPED1=TYPED1, TYPED2=TYPED2, TYPEDI=TYPEDI)

SIG = {}
for _f in (k0, neg1, sub2, pick3, lin4, ti_f, tf_i, tb_ff, tf_bff, ti_ib, tf_ff, tb_b):
    _n = _f.__code__.co_argcount
    _an = _f.__annotations__
    SIG[_f] = ([_an.get(a) for a in _f.__code__.co_varnames[:_n]], _an.get('return'))


def erc_type(conf):
    return type(conf[3][0]) if conf[3] else None


def gen(rng, conf, depth, t, full=False, p=0.3):
    """random nested expression: (function, [args]) or ('T', value, type)"""
    fs, ts, root, erc = conf
    cand = [f for f in fs if SIG[f][1] == t]
    terms = list(ts) if isinstance(ts, list) else [x for x, ty in ts.items() if ty == t]
    if erc and (t is None or t is erc_type(conf)) and (not terms or rng.random() < .4):
        terms = [rng.uniform(*erc) if isinstance(erc[0], float) else rng.randint(*erc)]
    if depth <= 0 or not cand or (not full and terms and rng.random() < p):
        return ('T', rng.choice(terms), t)
    f = rng.choice(cand)
    return (f, [gen(rng, conf, depth - 1, a, full, p) for a in SIG[f][0]])


def flat(e, out=None):
    out = [] if out is None else out
    if e[0] == 'T':
        out.append(TerminalNode(e[1], node_type=e[2]))
    else:
        out.append(FunctionNode(e[0]))
        for a in e[1]:
            flat(a, out)
    return out


def rand_tree(rng, conf, depth=3, fitness=None, update_parents=False, full=False, p=0.3):
    typed = conf[2] is not None
    while True:
        e = gen(rng, conf, depth, conf[2], full, p)
        if not typed or e[0] != 'T':
            break
        depth = max(depth, 1)
        p = p / 2
    fitness = fitness or GPFitness(1.0, higher_is_better=False, cache=True)
    return Tree(fitness=fitness, function_set=list(conf[0]), terminal_set=dict(conf[1]) if typed else list(conf[1]), tree=flat(e),
                root_type=conf[2], erc_range=conf[3], update_parents=update_parents)


def parse(nodes, i=0):
    """-> (nested expression, next position); raises Broken when a subtree is missing"""
    need(i < len(nodes), 'malformed tree: an argument subtree is missing')
    n = nodes[i]
    if isinstance(n, FunctionNode):
        args, j = [], i + 1
        for _ in SIG[n.function][0]:
            a, j = parse(nodes, j)
            args.append(a)
        return (n.function, args, n), j
    need(isinstance(n, TerminalNode), 'malformed tree: node %r', n)
    return ('T', n.value, n.node_type, n), i + 1


def expr(tree):
    nodes = tree.tree
    need(len(nodes) > 0, 'empty tree')
    e, j = parse(nodes)
    need(j == len(nodes), 'malformed tree: %d nodes left over', len(nodes) - j)
    return e


def etype(e):
    return SIG[e[0]][1] if e[0] != 'T' else e[2]


def well_formed(tree, conf, numbers_ok=None):
    """well-formed, well-typed, functions from the set, terminals declared or constants"""
    fs, ts, root, erc = conf
    e = expr(tree)
    if root is not None:
        need(etype(e) is root, 'root type %r instead of %r', etype(e), root)
    names = list(ts)

    def go(e):
        if e[0] == 'T':
            v = e[1]
            const = isinstance(v, (int, float)) and not isinstance(v, bool)
            need((numbers_ok and const) or any(v is x or (type(v) is type(x) and v == x) for x in names) or (const and erc), 'terminal %r is not declared', v)
            if root is not None and isinstance(v, str):
                need(ts[v] is e[2], 'terminal %r has type %r, declared %r', v, e[2], ts[v])
            return
        need(e[0] in fs, 'function %r is not in the function set', e[0])
        need(e[2].node_type is SIG[e[0]][1], 'function node type')
        for a, t in zip(e[1], SIG[e[0]][0]):
            if root is not None:
                need(etype(a) is t, 'argument of type %r where %r is required', etype(a), t)
            go(a)
    go(e)
    return e


def leaves(e, d=0):
    if e[0] == 'T':
        return [d]
    return [x for a in e[1] for x in leaves(a, d + 1)] or [d]


def depth(e):
    return max(leaves(e))


def size(e):
    return 1 if e[0] == 'T' else 1 + sum(size(a) for a in e[1])


def value(e, env):
    if e[0] == 'T':
        return env[e[1]] if isinstance(e[1], str) and e[1] in env else e[1]
    return e[0](*[value(a, env) for a in e[1]])
