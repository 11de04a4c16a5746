"""C10 GP operators"""
from .common import *
from .trees import *
from eckity.genetic_operators import SubtreeCrossover, SubtreeMutation, ERCMutation

DOC = 'random well-formed trees of 9 function/terminal configurations through long operator sequences, checked by an independent parser'


def ops_case(conf, n, depth, steps, which, full, s):
    rng = random.Random(s)
    c = ALL[conf]
    pop = [rand_tree(rng, c, depth=rng.randint(0, depth), full=full, p=rng.choice([0.1, 0.3, 0.6])) for _ in range(n)]
    for t in pop:
        well_formed(t, c)
    mut = SubtreeMutation(init_depth=rng.choice([(1, 2), (2, 4), (0, 2), (1, 1)]), attempts=rng.choice([1, 3]))
    xo = {k: SubtreeCrossover(arity=k, attempts=rng.choice([1, 4])) for k in (2, 3)}
    erc = ERCMutation(mu=rng.choice([0, 2]), sigma=rng.choice([1, 10]))
    numbers = False
    for k in range(steps):
        w = which if which != 'mix' else rng.choice(['xo', 'xo3', 'mut', 'erc'])
        if w in ('xo', 'xo3'):
            a = 2 if w == 'xo' or n < 3 else 3
            g = rng.sample(pop, a)
            before = [genome(t) for t in g]
            r = xo[a].apply_operator(g)
        elif w == 'mut':
            g = [rng.choice(pop)]
            before = [genome(t) for t in g]
            r = mut.apply_operator(g)
        else:
            g = [rng.choice(pop)]
            before = [genome(t) for t in g]
            r = erc.apply_operator(g)
            numbers = True
        need(len(r) == len(g) and all(x is y for x, y in zip(r, g)), 'other individuals returned')
        for t in g:
            well_formed(t, c, numbers_ok=numbers)
        if w == 'erc':
            for t, b in zip(g, before):
                now = genome(t)
                need(len(now) == len(b), 'constant mutation changed the size')
                d = [i for i in range(len(b)) if now[i] != b[i]]
                need(len(d) <= 1, 'constant mutation changed %d nodes', len(d))
                for i in d:
                    need(b[i][0] == 'T' and now[i][0] == 'T' and isinstance(b[i][1], (int, float)) and now[i][2] is b[i][2], 'constant mutation changed %r', b[i])
        if w in ('xo', 'xo3'):
            tot = lambda gs: sorted((x[0], getattr(x[1], '__name__', repr(x[1]))) for z in gs for x in z)
            need(tot(before) == tot([genome(t) for t in g]), 'crossover lost or invented nodes')
        for t in pop:
            if not any(t is x for x in g):
                well_formed(t, c, numbers_ok=numbers)
        pop = [t if t.size() < 400 else rand_tree(rng, c, depth=2) for t in pop]


def replace(conf, depth, s):
    """every subtree of a tree replaced by a subtree of the same type"""
    rng = random.Random(s)
    c = ALL[conf]
    base = rand_tree(rng, c, depth=depth)
    for i in range(12):
        t = base.clone()
        sub = t.random_subtree(None)
        if sub is None:
            return
        e, j = parse(list(sub))
        need(j == len(sub), 'subtree of node %d is not a complete subtree', i)
        new = flat(gen(rng, c, 2, sub[0].node_type))
        if c[2] is not None and len(sub) == t.size() and not hasattr(new[0], 'function'):
            continue
        size0 = t.size()
        t.replace_subtree(old_subtree=sub, new_subtree=new)
        well_formed(t, c)
        need(t.size() == size0 - len(sub) + len(new), 'size after replacing a subtree')


def random_sub(conf, depth, s):
    rng = random.Random(s)
    c = ALL[conf]
    t = rand_tree(rng, c, depth=depth)
    g = genome(t)
    types = [None] if c[2] is None else [None, float, int, bool]
    for _ in range(10):
        ty = rng.choice(types)
        sub = t.random_subtree(ty)
        need(genome(t) == g, 'choosing a subtree changed the tree')
        if sub is not None:
            e, j = parse(list(sub))
            need(j == len(sub), 'incomplete subtree')
            if ty is not None:
                need(etype(e) is ty, 'subtree of type %r asked for, got %r', ty, etype(e))


def missing(s):
    """no partner of the required type, no constant: the trees stay well formed"""
    rng = random.Random(s)
    c = TYPED1
    for _ in range(10):
        t = Tree(fitness=GPFitness(1.0), function_set=[tf_ff], terminal_set={'x': float, 'y': float}, root_type=float, tree=flat((tf_ff, [('T', 'x', float), ('T', 'y', float)])))
        u = rand_tree(rng, TYPED2, 3)
        b = genome(t), genome(u)
        r = SubtreeCrossover(attempts=3).apply_operator([t, u])
        well_formed(u, (TYPED2[0] + [tf_ff], dict(TYPED2[1], y=float), bool, None))
        g = genome(t)
        ERCMutation().apply_operator([t])
    t = rand_tree(rng, UNARY, 3)
    g = genome(t)
    need(ERCMutation().apply_operator([t])[0] is t and genome(t) == g, 'constant mutation without constants changed the tree')


def run(h):
    r = h.rng
    for conf in ALL:
        for which in ('mix', 'xo', 'mut', 'erc', 'xo3'):
            for _ in range(h.scale(3)):
                h.run(ops_case, conf=conf, n=r.choice([2, 3, 5]), depth=r.choice([1, 3, 4]), steps=h.scale(80, 200), which=which, full=r.random() < .3)
        for d in (0, 1, 2, 4):
            for _ in range(h.scale(4)):
                h.run(replace, conf=conf, depth=d)
                h.run(random_sub, conf=conf, depth=d)
    for _ in range(h.scale(5)):
        h.run(missing)
