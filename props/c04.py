"""C04: selection."""
import z3
from pycv.engine import Contract
from pycv.vals import *
from pycv.unit import witnesses, closure, symbols
from .common import *

IND = TObj('Individual')


def world(u, cname):
    st = u.state()
    sel = u.obj(st, cname, 'sel', exact=True)
    src = u.list(st, IND, 'source')
    dst = u.list(st, IND, 'dest')
    st.assume(src.t != dst.t)
    fitness_contracts(u)
    clone_contract(u)
    r = z3.Int('r')
    for n in ('selected_by', 'applied_operators'):
        t = u.eng.get_field(st.copy(), r, 'Individual', n).t
        st.assume(z3.ForAll([r], z3.Implies(z3.And(r > 0, r < st.alloc), z3.And(t != src.t, t != dst.t)), patterns=[t]))
    hib = z3.Bool('hib')
    all_evaluated(u, st, src, hib)
    return st, sel, src, dst, hib


def f(u, s, t, n):
    return u.eng.get_field(s.copy(), t, 'Individual', n)


def copies(u, name, st, s, sel, src, dst, ret, count):
    """dst is the old dst followed by `count` new individuals, each an independent copy of a source individual"""
    e = u.eng
    n, d = e.list_len(st.copy(), src), e.list_len(st.copy(), dst)
    j, k, x = z3.Ints('j k x')
    N = lambda q: elem(u, s, dst, d + q).t
    O = lambda q: f(u, s, N(q), 'ghost_origin').t
    ins = lambda q: z3.And(q >= 0, q < count)
    u.ob(name + ': gives back the destination', s, ret.t == dst.t)
    u.ob(name + ': fills the destination up', s, e.list_len(s.copy(), dst) == d + count)
    u.ob(name + ': what was in the destination stays', s, z3.Implies(z3.And(j >= 0, j < d), elem(u, s, dst, j).t == elem(u, st, dst, j).t))
    hint = closure(s.facts(), [j, d + j, N(j), O(j), st.alloc, src.t, dst.t])
    hintk = closure(s.facts(), [k, d + k, N(k), O(k)])
    u.ob(name + ': the selected are new objects', s, z3.Implies(ins(j), N(j) >= st.alloc), hint=hint)
    u.ob(name + ': the selected are distinct objects', s, z3.Implies(z3.And(ins(j), ins(k), j != k), N(j) != N(k)), hint=hint + hintk)
    ws = [t for t in hint if z3.is_app(t) and t.decl().name().startswith(('choices', 'sample', 'perm', 'drawn'))]
    src_of = z3.Or([z3.And(w >= 0, w < n, O(j) == elem(u, st, src, w).t) for w in ws]) if ws else z3.Exists([x], z3.And(x >= 0, x < n, O(j) == elem(u, st, src, x).t))
    u.ob(name + ': each is a copy of a source individual', s, z3.Implies(ins(j), src_of), hint=hint)
    u.ob(name + ': same genome', s, z3.Implies(ins(j), f(u, s, N(j), 'ghost_genome').t == f(u, st, O(j), 'ghost_genome').t), hint=hint)
    u.ob(name + ': records where it was cloned from', s, z3.Implies(ins(j), f(u, s, N(j), 'cloned_from').t == f(u, st, O(j), 'id').t), hint=hint)
    sb, sb0 = f(u, s, N(j), 'selected_by'), f(u, st, O(j), 'selected_by')
    l0 = e.list_len(st.copy(), sb0)
    hint = hint + [sb.t, sb0.t]
    u.ob(name + ': one more selection is recorded', s, z3.Implies(ins(j), e.list_len(s.copy(), sb) == l0 + 1), hint=hint)
    u.ob(name + ': earlier selections are kept', s, z3.Implies(z3.And(ins(j), x >= 0, x < l0), elem(u, s, sb, x).t == elem(u, st, sb0, x).t), hint=hint + [x])
    u.ob(name + ': records who selected it', s, z3.Implies(ins(j), z3.And(elem(u, s, sb, l0).t == e.strcode(sel.ty.cname))), hint=hint + [l0])
    frame(u, name, st, s, allow=lambda c, r: r == dst.t if c == 'len' or c.startswith('el:O:Individual') else r == sel.t if 'selected_individuals' in c else z3.BoolVal(False))


def elitism(u):
    st, sel, src, dst, hib = world(u, 'ElitismSelection')
    e = u.eng
    st.assume(u.field(st, sel, 'higher_is_better').t == hib)
    m, n = u.field(st, sel, 'num_elites').t, e.list_len(st, src)
    st.assume(m >= 0)
    d = e.list_len(st, dst)
    outs, rs = u.call(st, 'ElitismSelection', 'select', sel, [src, dst])
    u.cover('elitism', st)
    u.no_raise('elitism', rs)
    cnt = z3.If(m < n, m, n)
    j, k, q = z3.Ints('j k q')
    for s, r in outs:
        copies(u, 'elitism', st, s, sel, src, dst, r, cnt)
        O = lambda x: f(u, s, elem(u, s, dst, d + x).t, 'ghost_origin').t
        v = lambda t: view(u, st, VRef(t, IND))
        S = elem(u, st, src, q).t
        ws = witnesses(s.facts(), ('pinv',), [q])
        inside = z3.Or([z3.And(k >= 0, k < cnt, O(k) == S) for k in ws]) if ws else z3.Exists([k], z3.And(k >= 0, k < cnt, O(k) == S))
        u.ob('elitism: nobody outside is strictly better than one inside', s, z3.Implies(z3.And(q >= 0, q < n, j >= 0, j < cnt), z3.Or(inside, z3.Not(better(v(S), v(O(j)))))),
             hint=[j, q, d + j, O(j), elem(u, s, dst, d + j).t] + ws + [d + w for w in ws] + [elem(u, s, dst, d + w).t for w in ws] + witnesses(s.facts(), ('perm',), [j] + ws))
    u.ob('elitism: returns', st, z3.BoolVal(bool(outs)))


TS = 'TournamentSelection'


def winner(u):
    st, sel, src, dst, hib = world(u, TS)
    e = u.eng
    n = e.list_len(st, src)
    st.assume(n >= 1)
    outs, rs = u.call(st, TS, '_pick_tournament_winner', sel, [src])
    u.cover('winner', st)
    u.no_raise('winner', rs)
    j, x = z3.Ints('j x')
    for s, r in outs:
        o = f(u, s, r.t, 'ghost_origin').t
        v = lambda t: view(u, st, VRef(t, IND))
        u.ob('winner: a copy, an object of its own', s, r.t >= st.alloc)
        u.ob('winner: of a participant', s, z3.Exists([x], z3.And(x >= 0, x < n, o == elem(u, st, src, x).t)))
        u.ob('winner: no participant is strictly better', s, z3.Implies(z3.And(j >= 0, j < n), z3.Not(better(v(elem(u, st, src, j).t), v(o)))))
        u.ob('winner: same genome', s, f(u, s, r.t, 'ghost_genome').t == f(u, st, o, 'ghost_genome').t)
        u.ob('winner: records where it was cloned from', s, f(u, s, r.t, 'cloned_from').t == f(u, st, o, 'id').t)
        sb, sb0 = f(u, s, r.t, 'selected_by'), f(u, st, o, 'selected_by')
        l0 = e.list_len(st.copy(), sb0)
        u.ob('winner: one more selection is recorded', s, e.list_len(s.copy(), sb) == l0 + 1)
        u.ob('winner: earlier selections are kept', s, z3.Implies(z3.And(x >= 0, x < l0), elem(u, s, sb, x).t == elem(u, st, sb0, x).t))
        u.ob('winner: records who selected it', s, elem(u, s, sb, l0).t == e.strcode(TS))
        frame(u, 'winner', st, s)
    u.ob('winner: returns', st, z3.BoolVal(bool(outs)))


def tournament(replace):
    def unit(u):
        st, sel, src, dst, hib = world(u, TS)
        e = u.eng
        e.set_field(st, sel.t, TS, 'replace', VNum(z3.BoolVal(replace)))
        n, d, k = e.list_len(st, src), e.list_len(st, dst), u.field(st, sel, 'tournament_size').t
        st.assume(z3.And(d <= n, n >= 1, k >= 1, e.get_field(st, sel.t, 'Operator', 'arity').t == 1))
        if not replace:
            st.assume(k <= n)
        cl = e.contracts['Individual.clone'].apply

        def pick(en, s, o, a, kw):
            t = (list(a) + list(kw.values()))[0]
            p, x = z3.Ints('p x')
            m = en.list_len(s, t)
            en.require(s, 'tournament: groups have the configured size', m == k)
            en.require(s, 'tournament: groups are drawn from the source', z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < k), z3.Exists([x], z3.And(x >= 0, x < n, elem(u, s, t, p).t == elem(u, st, src, x).t)))))
            if not replace:
                q = z3.Int('q')
                en.require(s, 'tournament: groups without repetition', z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < k, src_distinct), elem(u, s, t, p).t != elem(u, s, t, q).t)))
            w = en.fresh(s, 'winner', I)
            s.assume(z3.And(w >= 0, w < m))
            (s, c), = cl(en, s, en.list_get(s, t, w), [], {})
            en.list_append(s, en.get_field(s, c.t, 'Individual', 'selected_by'), VStr(TS))
            return [(s, c)]
        POS = z3.Function('position', I, I)
        y = z3.Int('y')
        src_distinct = z3.ForAll([y], z3.Implies(z3.And(y >= 0, y < n), POS(elem(u, st, src, y).t) == y))
        e.contracts[TS + '._pick_tournament_winner'] = Contract(TS + '._pick_tournament_winner', pick)
        outs, rs = u.call(st, TS, 'select', sel, [src, dst])
        u.cover('tournament', st)
        u.no_raise('tournament', rs)
        for s, r in outs:
            copies(u, 'tournament', st, s, sel, src, dst, r, n - d)
        u.ob('tournament: returns', st, z3.BoolVal(bool(outs)))
    return unit


UNITS = {'elitism': elitism, 'winner': winner, 'tournament with repetition': tournament(True), 'tournament without repetition': tournament(False)}
