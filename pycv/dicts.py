"""Dictionaries in the heap: insertion ordered, as in Python.

components per dictionary reference d:
  len[d]        number of keys
  dk:<K>[d][p]  key at position p
  dp:<K>[d][k]  position of key k, negative when absent
  dv:<K>:<V>[d][k]  value stored under k
Keys are values with a single integer code (numbers, strings, classes, functions, references).
"""
import ast
import z3
from .vals import *
from .lib import LIB, lib, lit

AS = z3.ArraySort


def kname(ty):
    return rt(ty.k).key()


def kcode(eng, ty, k):
    ts = eng.to_terms(k, ty.k)
    if len(ts) != 1 or ts[0].sort() != I:
        raise Unsupported('dictionary key %r' % k)
    return ts[0]


def comps(eng, st, ty):
    nk, np = 'dk:' + kname(ty), 'dp:' + kname(ty)
    new = nk not in eng.init_comps
    L = eng.comp(st, 'len', AS(I, I))
    k = rt(ty.k)
    DK = eng.comp(st, nk, AS(I, AS(I, I)), k if isinstance(k, (TObj, TList, TDict)) else None, nested=True)
    DP = eng.comp(st, np, AS(I, AS(I, I)))
    if new:
        r, p = z3.Int('r'), z3.Int('p')
        k0, p0, l0 = eng.init_comps[nk], eng.init_comps[np], eng.init_comps['len']
        old = z3.And(r > 0, r < eng.A0)
        eng.init_axioms.append(z3.ForAll([r, p], z3.Implies(z3.And(old, p >= 0, p < l0[r]), p0[r][k0[r][p]] == p), patterns=[k0[r][p]]))
        eng.init_axioms.append(z3.ForAll([r, p], z3.Implies(old, z3.And(p0[r][p] < l0[r], p0[r][p] >= -1, z3.Implies(p0[r][p] >= 0, k0[r][p0[r][p]] == p))),
                                         patterns=[p0[r][p]]))
        eng.trusted.add('dict (insertion ordered; not resized while iterated)')
    return (nk, DK), (np, DP)


def vcomp(eng, st, ty, leaf):
    v = rt(ty.v)
    for s, so in v.leaves():
        if s == leaf:
            nm = 'dv:%s:%s%s' % (kname(ty), eng.elkey(v), s)
            return nm, eng.comp(st, nm, AS(I, AS(I, so)), v if isinstance(v, (TObj, TList, TDict)) else None, nested=True)
    raise Unsupported('leaf')


def position(eng, st, d, kc):
    _, (np, DP) = comps(eng, st, d.ty)
    return eng.arr_get(st, eng.read_arr(st, DP, d.t), kc)


def value(eng, st, d, kc):
    v = rt(d.ty.v)
    ts = []
    for s, so in v.leaves():
        nm, K = vcomp(eng, st, d.ty, s)
        ts.append(eng.arr_get(st, eng.read_arr(st, K, d.t), kc))
    x = eng.from_terms(ts, d.ty.v)
    eng.wf(st, x)
    return x


def key_at(eng, st, d, p):
    (nk, DK), _ = comps(eng, st, d.ty)
    x = eng.from_terms([eng.arr_get(st, eng.read_arr(st, DK, d.t), p)], d.ty.k)
    eng.wf(st, x)
    return x


def put(eng, st, d, k, v):
    """-> [st]"""
    kc = kcode(eng, d.ty, k)
    v = eng.materialise(st, v, d.ty.v)
    ts = eng.to_terms(v, d.ty.v)
    for (s, so), t in zip(rt(d.ty.v).leaves(), ts):
        nm, K = vcomp(eng, st, d.ty, s)
        eng.write(st, nm, K, d.t, z3.Store(eng.read_arr(st, K, d.t), kc, t), pos=kc)
    p = position(eng, st, d, kc)
    has, new = eng.branch(st, p >= 0)
    out = []
    if has is not None:
        out.append(has)
    if new is not None:
        n = eng.list_len(new, d)
        (nk, DK), (np, DP) = comps(eng, new, d.ty)
        eng.write(new, nk, DK, d.t, z3.Store(eng.read_arr(new, DK, d.t), n, kc), pos=n)
        eng.write(new, np, DP, d.t, z3.Store(eng.read_arr(new, DP, d.t), kc, n), pos=kc)
        eng.set_len(new, d, z3.simplify(n + 1))
        out.append(new)
    return out


def new_dict(eng, st, k, v, items=()):
    r = eng.alloc(st, 'dict')
    d = VRef(r, TDict(k, v))
    eng.set_len(st, d, z3.IntVal(0))
    (nk, DK), (np, DP) = comps(eng, st, d.ty)
    eng.write(st, np, DP, r, z3.K(I, z3.IntVal(-1)))
    for a, b in items:
        st, = put(eng, st, d, a, b)
    return st, d


def materialise(eng, st, v, ty):
    """static dictionary value -> heap dictionary (in place on st)"""
    t = rt(ty)
    if isinstance(v, VSDict) and isinstance(t, TDict):
        r = eng.alloc(st, 'dict')
        d = VRef(r, TDict(t.k, t.v))
        (nk, DK), (np, DP) = comps(eng, st, d.ty)
        keys, pos, vals = DK[r], z3.K(I, z3.IntVal(-1)), {}
        keys = eng.fresh(st, 'dkeys', AS(I, I))
        leaves = rt(t.v).leaves()
        arrs = [eng.fresh(st, 'dvals', AS(I, so)) for _, so in leaves]
        for n, (k, x) in enumerate(v.items.items()):
            kc = kcode(eng, d.ty, k if isinstance(k, V) else VStr(k))
            x = materialise(eng, st, x, t.v)
            keys = z3.Store(keys, n, kc)
            pos = z3.Store(pos, kc, n)
            arrs = [z3.Store(a, kc, tt) for a, tt in zip(arrs, eng.to_terms(x, t.v))]
        (nk, DK), (np, DP) = comps(eng, st, d.ty)
        eng.set_len(st, d, z3.IntVal(len(v.items)))
        eng.write(st, nk, DK, r, keys)
        eng.write(st, np, DP, r, pos)
        for (s, so), a in zip(leaves, arrs):
            nm, K = vcomp(eng, st, d.ty, s)
            eng.write(st, nm, K, r, a)
        return d
    return v


@lib('dict_iter')
def dict_iter(eng, st, d):
    comps(eng, st, d.ty)
    return VSeq(None, lambda s, j: key_at(eng, s, d, j), d.ty.k, src=d)


@lib('dict_truth')
def dict_truth(eng, st, d):
    n = eng.list_len(st, d) != 0
    return z3.And(d.t != 0, n) if d.ty.null else n


@lib('dict_has')
def dict_has(eng, st, d, k):
    return [(st, position(eng, st, d, kcode(eng, d.ty, k)) >= 0)]


@lib('dict_get')
def dict_get(eng, st, d, k):
    kc = kcode(eng, d.ty, k)
    ok, bad = eng.branch(st, position(eng, st, d, kc) >= 0)
    if bad is not None:
        eng.do_raise(bad, VExc('KeyError'))
    return [(ok, value(eng, ok, d, kc))] if ok is not None else []


@lib('dict_set')
def dict_set(eng, st, d, k, v):
    return put(eng, st, d, k, v)


@lib('del_item')
def del_item(eng, st, d, k):
    if not (isinstance(d, VRef) and isinstance(d.ty, TDict)):
        raise Unsupported('del item of %r' % d)
    kc = kcode(eng, d.ty, k)
    q = position(eng, st, d, kc)
    ok, bad = eng.branch(st, q >= 0)
    if bad is not None:
        eng.do_raise(bad, VExc('KeyError'))
    if ok is None:
        return []
    st = ok
    n = eng.list_len(st, d)
    (nk, DK), (np, DP) = comps(eng, st, d.ty)
    K0, P0 = eng.read_arr(st, DK, d.t), eng.read_arr(st, DP, d.t)
    st.assume(z3.And(q < n, z3.Select(K0, q) == kc))
    K1, P1 = eng.fresh(st, 'delk', AS(I, I)), eng.fresh(st, 'delp', AS(I, I))
    p = z3.Int('p')
    st.assume(z3.ForAll([p], K1[p] == z3.If(p < q, z3.Select(K0, p), z3.Select(K0, p + 1)), patterns=[K1[p]]))
    st.assume(z3.ForAll([p], P1[p] == z3.If(p == kc, -1, z3.If(z3.Select(P0, p) > q, z3.Select(P0, p) - 1, z3.Select(P0, p))), patterns=[P1[p]]))
    eng.write(st, nk, DK, d.t, K1)
    eng.write(st, np, DP, d.t, P1)
    eng.set_len(st, d, z3.simplify(n - 1))
    return [st]


@lib('dict.items')
def d_items(eng, st, d, args, kw):
    comps(eng, st, d.ty)

    def get(s, j):
        k = key_at(eng, s, d, j)
        return VTup([k, value(eng, s, d, kcode(eng, d.ty, k))])
    return [(st, VSeq(None, get, TTup([d.ty.k, d.ty.v]), src=d))]


@lib('dict.values')
def d_values(eng, st, d, args, kw):
    comps(eng, st, d.ty)
    return [(st, VSeq(None, lambda s, j: value(eng, s, d, kcode(eng, d.ty, key_at(eng, s, d, j))), d.ty.v, src=d))]


@lib('dict.keys')
def d_keys(eng, st, d, args, kw):
    return [(st, dict_iter(eng, st, d))]


@lib('dict.get')
def d_get(eng, st, d, args, kw):
    kc = kcode(eng, d.ty, args[0])
    ok, bad = eng.branch(st, position(eng, st, d, kc) >= 0)
    out = []
    if ok is not None:
        out.append((ok, value(eng, ok, d, kc)))
    if bad is not None:
        out.append((bad, args[1] if len(args) > 1 else VNone))
    return out


@lib('dict.pop')
def d_pop(eng, st, d, args, kw):
    out = []
    for a, v in dict_get(eng, st, d, args[0]):
        out += [(b, v) for b in del_item(eng, a, d, args[0])]
    return out


def dictcomp_seq(eng, e, g, st, fid, q):
    """{key: value for x in sequence}, key and value without effects"""
    from .lib import pointwise

    def fn(w, x):
        res = []
        for c in eng.assign(g.target, x, w, fid):
            for c2, kv in eng.ev(e.key, c, fid):
                res += [(c3, VTup([kv, vv])) for c3, vv in eng.ev(e.value, c2, fid)]
        return res
    n = eng.seq_len(st, q)
    r = pointwise(eng, st, q, fn)
    if r is None:
        raise Unsupported('dictionary comprehension with effects')
    st, get = r
    kl = eng.list_from_seq(st, n, lambda s, j: get(s, j).items[0], None, 'dckeys')
    vl = eng.list_from_seq(st, n, lambda s, j: get(s, j).items[1], None, 'dcvals')
    d = VRef(eng.alloc(st, 'dict'), TDict(rt(kl.ty.elem), rt(vl.ty.elem)))
    (nk, DK), (np, DP) = comps(eng, st, d.ty)
    keys, pos, src = eng.fresh(st, 'dkeys', AS(I, I)), eng.fresh(st, 'dpos', AS(I, I)), eng.fresh(st, 'dsrc', AS(I, I))
    m = eng.fresh(st, 'dlen', I)
    j, c = z3.Ints('dj dc')
    kk = kcode(eng, d.ty, eng.list_get(st.copy(), kl, j))
    inr = z3.And(j >= 0, j < n)
    st.assume(z3.And(m >= 0, m <= z3.If(n > 0, n, z3.IntVal(0)), z3.Implies(n > 0, m > 0)))
    st.assume(z3.ForAll([j], z3.Implies(inr, z3.And(pos[kk] >= 0, src[kk] >= j)), patterns=[kk]))
    st.assume(z3.ForAll([c], z3.And(pos[c] >= -1, pos[c] < m, z3.Implies(pos[c] >= 0, z3.And(keys[pos[c]] == c, src[c] >= 0, src[c] < n, z3.substitute(kk, (j, src[c])) == c))), patterns=[pos[c]]))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), pos[keys[j]] == j), patterns=[keys[j]]))
    eng.set_len(st, d, m)
    eng.write(st, nk, DK, d.t, keys)
    eng.write(st, np, DP, d.t, pos)
    vs = eng.to_terms(eng.list_get(st.copy(), vl, j), rt(d.ty.v))
    for (leaf, so), t in zip(rt(d.ty.v).leaves(), vs):
        nm, K = vcomp(eng, st, d.ty, leaf)
        arr = eng.fresh(st, 'dvals', AS(I, so))
        eng.write(st, nm, K, d.t, arr)
        st.assume(z3.ForAll([c], z3.Implies(pos[c] >= 0, arr[c] == z3.substitute(t, (j, src[c]))), patterns=[arr[c]]))
    return st, d


@lib('dictcomp')
def dictcomp(eng, e, st, fid):
    if len(e.generators) != 1 or e.generators[0].ifs:
        raise Unsupported('dictionary comprehension')
    g = e.generators[0]
    out = []
    for a, it in eng.ev(g.iter, st, fid):
        q = eng.seq_of(a, it)
        n = lit(eng.seq_len(a, q))
        if n is None or n > 16:
            out.append(dictcomp_seq(eng, e, g, a, fid, q))
            continue
        cur = [(a, {})]
        for k in range(n):
            nxt = []
            for b, d in cur:
                saved = dict(b.frames[fid])
                for c in eng.assign(g.target, q.get(b, z3.IntVal(k)), b, fid):
                    for c2, kv in eng.ev(e.key, c, fid):
                        if not (isinstance(kv, VStr) and kv.s is not None):
                            raise Unsupported('dictionary comprehension with unknown keys')
                        for c3, vv in eng.ev(e.value, c2, fid):
                            c3.frames[fid] = dict(saved)
                            nxt.append((c3, dict(d, **{kv.s: vv})))
            cur = nxt
        out += [(b, VSDict(d)) for b, d in cur]
    return out


@lib('call_symbolic')
def call_symbolic(eng, st, f, args, kw):
    k = eng.contracts.get('callback')
    if k is None:
        raise Unsupported('call of an unknown function')
    k.used += 1
    return k.apply(eng, st, f, args, kw)
