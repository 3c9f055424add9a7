"""The bitset API (bitset.c, bitset.h): property C16."""
from common import *
from words import *
from bitops import *

MB = 1 << 22      # words
P16 = ['C16']
def bs(E, st, name, ro=True, wro=None):
    n = z3.BitVec(name + '_n', 32); cap = z3.BitVec(name + '_cap', 32)
    E.fact(And(ule(n, cap), ule(cap, MB)))
    w = u64buf(E, st, name + '.array', cap, ro=ro if wro is None else wro)
    p = E.newblk(st, name, 24, 'struct', ro=ro); d = {}
    fset(E, d, 'bitset_s', 'array', w); fset(E, d, 'bitset_s', 'arraysize', z3.ZeroExt(32, n)); fset(E, d, 'bitset_s', 'capacity', z3.ZeroExt(32, cap))
    st.mem[p.b] = d
    return p
def bf(E, st, p, f): return E.get(st, p, 'bitset_s', f)
def bn(E, st, p): return W(trunc(bf(E, st, p, 'arraysize'), 64, 32), 32)
def bA(E, st, p): return view(E, st, bf(E, st, p, 'array'))
def xt(A, n): return lambda t: z3.If(z3.ULT(t, n), A(t), ZERO)
def _pre(*ix):
    def pre(c):
        for i in ix:
            p = c.a[i]; n = bf(c.E, c.st, p, 'arraysize')
            yield 'wf', And(ule(n, MB, 64), ule(n, bf(c.E, c.st, p, 'capacity'), 64), room(c.E, c.st, bf(c.E, c.st, p, 'array'), trunc(n, 64, 32), 8))
    return pre
def wfb(c, p):
    """well-formed bitset_t after the call: size within the allocated array"""
    E, st = c.E, c.st; n = bf(E, st, p, 'arraysize'); cap = bf(E, st, p, 'capacity')
    return And(ule(n, cap, 64), ule(cap, 1 << 40, 64), room(E, st, bf(E, st, p, 'array'), cap, 8, 64))
s1 = [S('', lambda E, st: [bs(E, st, 'A')])]
s1w = [S('', lambda E, st: [bs(E, st, 'A', False)])]
s2 = [S('', lambda E, st: [bs(E, st, 'A'), bs(E, st, 'B')])]
s2w = [S('', lambda E, st: [bs(E, st, 'A', False), bs(E, st, 'B')])]
def k32(V, n='k'): return W(trunc(V.at(n), 64, 32), 32)
def kok(V, n, name='k'): return ule(V.at(name), z3.ZeroExt(32, W(n, 32)), 64)
def mx(a, b): return z3.If(z3.ULT(a, b), b, a)
def mn(a, b): return z3.If(z3.ULT(a, b), a, b)
cells = lambda c: [(c.a[0],) + E_(c, f) for f in ('array', 'arraysize', 'capacity')] + [bf(c.E, c.st if getattr(c, 'old', None) is None else c.old, c.a[0], 'array')]
def E_(c, f): return c.E.off('bitset_s', f)

# ---- growing: loops of bitset_resize / bitset_grow wherever they are inlined
def _grow_inv(V):
    nc, na = W(V.newcapacity, 64), W(V.newarraysize, 64)
    return [('doubling', And(ult(0, nc, 64), ult(nc, na * 2, 64), ule(na, 1 << 40, 64)))]
import common
common.INLINE = getattr(common, 'INLINE', {})
common.INLINE['bitset_resize'] = [LoopSpec(_grow_inv)]
common.INLINE['bitset_grow'] = [LoopSpec(lambda V: [('power', And(ule(W(V.newcapacity, 64), W(V.newarraysize, 64) * 2, 64), ult(0, V.newcapacity, 64), ule(V.newarraysize, V.newcapacity, 64), ule(V.newarraysize, 1 << 40, 64)))])]
def _clzfact(c): return []

def _rs_setup(E, st):
    na = z3.BitVec('newarraysize', 64); E.fact(ule(na, MB, 64))
    return [bs(E, st, 'A', False), na, z3.Bool('pad')]
def _rs_post(pad):
    def post(c):
        E = c.E; p, na = c.a[:2]; A, O = bA(E, c.old, p), bA(E, c.st, p); n = bn(E, c.old, p); m = W(trunc(na, 64, 32), 32)
        yield 'result', B(c.ret) if not isinstance(c.ret, int) else z3.BoolVal(bool(c.ret))
        yield 'size', eqv(bf(E, c.st, p, 'arraysize'), na, 64)
        yield 'well-formed', wfb(c, p)
        yield 'kept', allb(O, 0, mn(n, m), lambda t: O(t) == A(t))
        z = allb(O, n, m, lambda t: O(t) == 0)
        yield 'zero padding', z if pad else Implies(c.a[2], z)
    return post
contract('bitset_resize', props=P16, setups=[S('', _rs_setup)], pre=_pre(0), post=_rs_post(False), modifies=cells, inline_always=True, loops=[LoopSpec(_grow_inv)])
def _gr_setup(E, st):
    p = bs(E, st, 'A', False); na = z3.BitVec('newarraysize', 64); E.fact(And(ult(0, na, 64), ule(na, MB, 64), ule(bf(E, st, p, 'arraysize'), na, 64)))
    return [p, na]
contract('bitset_grow', props=P16, setups=[S('', _gr_setup)], pre=_pre(0), post=_rs_post(True), modifies=cells, inline_always=True, loops=common.INLINE['bitset_grow'])

# ---- single bits
def _i(E): i = z3.BitVec('i', 64); E.fact(ult(i, 64 * MB, 64)); return i
def bit64(A, n, i):
    """bit i of the set, as a Bool"""
    w = z3.LShR(W(i, 64), 6); t = z3.Extract(31, 0, w)
    return And(z3.ULT(w, z3.ZeroExt(32, n)), z3.Extract(0, 0, z3.LShR(A(t), W(i, 64) & 63)) == 1)
contract('bitset_get', props=P16, setups=[S('', lambda E, st: [bs(E, st, 'A'), z3.BitVec('i', 64)])], pre=_pre(0),
         post=lambda c: [('value', Iff(c.ret, bit64(bA(c.E, c.old, c.a[0]), bn(c.E, c.old, c.a[0]), c.a[1])))])
def _set_post(val):
    def post(c):
        E = c.E; p, i = c.a[:2]; A, O = bA(E, c.old, p), bA(E, c.st, p); n, m = bn(E, c.old, p), bn(E, c.st, p)
        w = z3.LShR(W(i, 64), 6); x = xt(A, n); mk = ONE << (W(i, 64) & 63); v = val(c)
        yield 'well-formed', wfb(c, p)
        yield 'size', m == mx(n, z3.Extract(31, 0, w) + 1)
        yield 'words', allb(O, 0, m, lambda t: O(t) == z3.If(z3.ZeroExt(32, t) == w, (x(t) & ~mk) | z3.If(v, mk, ZERO), x(t)))
    return post
contract('bitset_set', props=P16, setups=[S('', lambda E, st: [bs(E, st, 'A', False), _i(E)])], pre=_pre(0), post=_set_post(lambda c: z3.BoolVal(True)), modifies=cells)
contract('bitset_set_to_value', props=P16, setups=[S('', lambda E, st: [bs(E, st, 'A', False), _i(E), z3.Bool('flag')])], pre=_pre(0), post=_set_post(lambda c: B(c.a[2])), modifies=cells)

# ---- counting
def _cnt(f, lim, which, props=P16):
    """sum of popcount(f(a, b)) over all words; lim: number of words counted"""
    def xs(E, st, a): return [xt(bA(E, st, p), bn(E, st, p)) for p in a], [bn(E, st, p) for p in a]
    def ghost(c):
        x, n = xs(c.E, c.old, c.a)
        D = D_of(c.E, lambda t: f(*[g(t) for g in x])); c.E.fact(PS_unfold(D, 0)); return {'D': D}
    def post(c):
        x, n = xs(c.E, c.old, c.a); D = c.E.gx['D'] if c.top else D_of(c.E, lambda t: f(*[g(t) for g in x]))
        c.D = D
        yield 'count', W(c.ret, 64) == PS(D, lim(*n))
    def inv(hi, lo=None, step=1, var='answer'):
        def g(V):
            x, n = xs(V.E, V.old, V.a); k = k32(V)
            r = [('range', And(kok(V, hi(*n)), ule(lo(*n), k) if lo else True)), ('sum', W(V.at(var), 64) == PS(V.E.gx['D'], k))]
            return r
        return g
    def h(step):
        def g(V):
            k = k32(V); D = V.E.gx['D']; E = V.E; r = []
            As = [bA(E, V.old, p) for p in V.a]; ns = [bn(E, V.old, p) for p in V.a]
            for j in range(step):
                t = simpz(k + j); r.append(PS_unfold(D, t))
                for m in range(1 << len(ns)):
                    r.append(Implies(And(*[ult(t, ns[q]) if m >> q & 1 else Not(ult(t, ns[q])) for q in range(len(ns))]), D(t) == simpz(f(*[As[q](t) if m >> q & 1 else ZERO for q in range(len(ns))]))))
            return [And(*r)]
        return g
    return ghost, post, inv, h
def _mkcount(name, f, lim, loops, setups, n):
    ghost, post, inv, h = _cnt(f, lim, n)
    contract(name, props=P16, setups=setups, pre=_pre(*range(n)), post=post, ghost=ghost, loops=[LoopSpec(inv(hi, lo, st, var), hints=h(st)) for (hi, lo, st, var) in loops])
idn = lambda n: n
_mkcount('bitset_count', lambda a: a, idn, [(idn, None, 8, 'card'), (idn, None, 4, 'card'), (idn, None, 1, 'card')], s1, 1)
_mkcount('bitset_union_count', lambda a, b: a | b, mx, [(mn, None, 4, 'answer'), (mn, None, 1, 'answer'), (mx, mn, 4, 'answer'), (mx, mn, 1, 'answer'), (mx, mn, 4, 'answer'), (mx, mn, 1, 'answer')], s2, 2)
_mkcount('bitset_intersection_count', lambda a, b: a & b, mn, [(mn, None, 1, 'answer')], s2, 2)
_mkcount('bitset_difference_count', lambda a, b: a & ~b, lambda a, b: a, [(mn, None, 1, 'answer'), (lambda a, b: a, mn, 1, 'answer')], s2, 2)
_mkcount('bitset_symmetric_difference_count', lambda a, b: a ^ b, mx, [(mn, None, 1, 'answer'), (mx, mn, 1, 'answer'), (mx, mn, 1, 'answer')], s2, 2)

# ---- in-place operations
def _inpl(f, size):
    def post(c):
        E = c.E; a, b = c.a; na, nb = bn(E, c.old, a), bn(E, c.old, b)
        A, Bw, O = xt(bA(E, c.old, a), na), xt(bA(E, c.old, b), nb), bA(E, c.st, a)
        yield 'size', bn(E, c.st, a) == size(na, nb)
        yield 'well-formed', wfb(c, a)
        yield 'words', allb(O, 0, size(na, nb), lambda t: O(t) == f(A(t), Bw(t)))
        if c.ret is not None: yield 'result', B(c.ret) if not isinstance(c.ret, int) else z3.BoolVal(bool(c.ret))
    def inv(hi, lo=None):
        def g(V):
            E = V.E; a, b = V.a; na, nb = bn(E, V.old, a), bn(E, V.old, b); k = k32(V)
            A, Bw, O = bA(E, V.old, a), xt(bA(E, V.old, b), nb), bA(E, V.st, a)
            return [('range', And(kok(V, hi(na, nb)), ule(lo(na, nb), k) if lo else True)), ('done', allb(O, 0, k, lambda t: O(t) == f(A(t), Bw(t)))), ('rest', allb(O, k, na, lambda t: O(t) == A(t)))]
        return g
    return post, inv
first = lambda a, b: a
for nm, f, size, lp in (('bitset_inplace_union', lambda a, b: a | b, mx, [(mn, None)]), ('bitset_inplace_intersection', lambda a, b: a & b, first, [(mn, None), (first, mn)]),
                        ('bitset_inplace_difference', lambda a, b: a & ~b, first, [(mn, None)]), ('bitset_inplace_symmetric_difference', lambda a, b: a ^ b, mx, [(mn, None)])):
    post, inv = _inpl(f, size)
    contract(nm, props=P16, setups=s2w, pre=_pre(0, 1), post=post, modifies=cells, loops=[LoopSpec(inv(*x)) for x in lp])

# ---- predicates
def _pred(name, n, bad, lim, res_if_none, setups, var='k'):
    """returns res_if_none iff no word t < lim satisfies bad(t)"""
    def xs(E, st, a): return [xt(bA(E, st, p), bn(E, st, p)) for p in a], [bn(E, st, p) for p in a], bA(E, st, a[0])
    def post(c):
        x, ns, A = xs(c.E, c.old, c.a); L = lim(*ns)
        none = B(c.ret) if res_if_none else Not(B(c.ret))
        yield 'none', Implies(none, allb(A, 0, L, lambda t: Not(bad(*[g(t) for g in x]))))
        yield 'some', Implies(Not(none), exists1([A], lambda t: And(ult(t, L), bad(*[g(t) for g in x]))))
    def inv(V):
        x, ns, A = xs(V.E, V.old, V.a); k = k32(V, var)
        return [('range', kok(V, lim(*ns), var)), ('so far', allb(A, 0, k, lambda t: Not(bad(*[g(t) for g in x]))))]
    contract(name, props=P16, setups=setups, pre=_pre(*range(n)), post=post, loops=[LoopSpec(inv)])
_pred('bitset_empty', 1, lambda a: a != 0, idn, True, s1)
_pred('bitsets_disjoint', 2, lambda a, b: a & b != 0, mn, True, s2)
_pred('bitsets_intersect', 2, lambda a, b: a & b != 0, mn, False, s2)
def _any_pre(c):
    for x in _pre(0)(c): yield x
def _any_post(c):
    E = c.E; A = bA(E, c.old, c.a[0]); n = bn(E, c.old, c.a[0]); s = W(c.a[1], 64)
    inn = lambda t: And(ule(s, z3.ZeroExt(32, t), 64), ult(t, n))
    yield 'none', Implies(Not(c.ret), forall1([A], lambda t: Implies(inn(t), A(t) == 0)))
    yield 'some', Implies(c.ret, exists1([A], lambda t: And(inn(t), A(t) != 0)))
def _any_inv(V):
    E = V.E; A = bA(E, V.old, V.a[0]); n = bn(E, V.old, V.a[0]); s = W(V.a[1], 64); k = k32(V)
    return [('range', And(kok(V, n), ule(s, V.k, 64))), ('so far', forall1([A], lambda t: Implies(And(ule(s, z3.ZeroExt(32, t), 64), ult(t, k)), A(t) == 0)))]
contract('any_bits_set', props=P16, setups=[S('', lambda E, st: [bs(E, st, 'A'), z3.BitVec('loc', 64)])], pre=_any_pre, post=_any_post, loops=[LoopSpec(_any_inv)])
def _ca_post(c):
    E = c.E; a, b = c.a; na, nb = bn(E, c.old, a), bn(E, c.old, b); A, Bv = xt(bA(E, c.old, a), na), bA(E, c.old, b)
    yield 'subset', Implies(c.ret, allb(Bv, 0, nb, lambda t: Bv(t) & ~A(t) == 0))
    yield 'not subset', Implies(Not(c.ret), exists1([Bv], lambda t: And(ult(t, nb), Bv(t) & ~A(t) != 0)))
def _ca_inv(V):
    E = V.E; a, b = V.a; na, nb = bn(E, V.old, a), bn(E, V.old, b); A, Bv = xt(bA(E, V.old, a), na), bA(E, V.old, b); k = k32(V)
    return [('range', kok(V, mn(na, nb))), ('so far', allb(Bv, 0, k, lambda t: Bv(t) & ~A(t) == 0))]
contract('bitset_contains_all', props=P16, setups=s2, pre=_pre(0, 1), post=_ca_post, loops=[LoopSpec(_ca_inv)])

# ---- minimum, maximum, next set bit
def _min_post(c):
    E = c.E; A = bA(E, c.old, c.a[0]); n = bn(E, c.old, c.a[0]); r = W(c.ret, 64); m1 = z3.BitVecVal(2**64 - 1, 64)
    yield 'empty', Implies(r == m1, allb(A, 0, n, lambda t: A(t) == 0))
    t1 = z3.Extract(31, 0, z3.LShR(r, 6))
    yield 'set', Implies(r != m1, bit64(A, n, r))
    yield 'first', Implies(r != m1, And(allb(A, 0, t1, lambda t: A(t) == 0), A(t1) & ((ONE << (r & 63)) - 1) == 0))
def _min_inv(V):
    E = V.E; A = bA(E, V.old, V.a[0]); n = bn(E, V.old, V.a[0]); k = k32(V)
    return [('range', kok(V, n)), ('so far', allb(A, 0, k, lambda t: A(t) == 0))]
contract('bitset_minimum', props=P16, setups=s1, pre=_pre(0), post=_min_post, loops=[LoopSpec(_min_inv)])
def _max_post(c):
    E = c.E; A = bA(E, c.old, c.a[0]); n = bn(E, c.old, c.a[0]); r = W(c.ret, 64)
    t1 = z3.Extract(31, 0, z3.LShR(r, 6))
    yield 'last', Or(And(bit64(A, n, r), allb(A, t1 + 1, n, lambda t: A(t) == 0), z3.LShR(A(t1), r & 63) == 1), And(r == 0, allb(A, 0, n, lambda t: A(t) == 0)))
def _max_inv(V):
    E = V.E; A = bA(E, V.old, V.a[0]); n = bn(E, V.old, V.a[0]); k = k32(V)
    return [('range', kok(V, n)), ('so far', allb(A, k, n, lambda t: A(t) == 0))]
contract('bitset_maximum', props=P16, setups=s1, pre=_pre(0), post=_max_post, loops=[LoopSpec(_max_inv)])
def _nsb_setup(E, st):
    q = E.newblk(st, 'i', 8, 'arr', 8, ro=False)
    return [bs(E, st, 'A'), q]
def t3(x): return z3.Extract(31, 0, W(x, 64))
def _nsb_post(c):
    E = c.E; A = bA(E, c.old, c.a[0]); n = bn(E, c.old, c.a[0]); i0 = view(E, c.old, c.a[1])(0); i1 = view(E, c.st, c.a[1])(0)
    lim = z3.ZeroExt(32, n) * 64
    yield 'found', Implies(c.ret, And(ule(i0, i1, 64), bit64(A, n, i1)))
    yield 'next', Implies(c.ret, forall1([A], lambda t: Implies(ult(t, n), A(t) & RM(t, t3(i0), t3(i1)) == 0)))
    yield 'none', Implies(Not(c.ret), And(i1 == i0, Implies(ult(i0, lim, 64), forall1([A], lambda t: Implies(ult(t, n), A(t) & RM(t, t3(i0), t3(lim)) == 0)))))
def _nsb_inv(V):
    E = V.E; A = bA(E, V.old, V.a[0]); n = bn(E, V.old, V.a[0]); i0 = view(E, V.old, V.a[1])(0); i1 = view(E, V.st, V.a[1])(0); x = k32(V, 'x')
    return [('range', And(kok(V, n, 'x'), ult(z3.LShR(i0, 6), V.x, 64), i1 == i0, ult(i0, z3.ZeroExt(32, n) * 64, 64))), ('so far', forall1([A], lambda t: Implies(ult(t, x), A(t) & RM(t, t3(i0), x * 64) == 0)))]
contract('bitset_next_set_bit', props=P16, setups=[S('', _nsb_setup)], pre=_pre(0), post=_nsb_post, modifies=lambda c: [c.a[1]], loops=[LoopSpec(_nsb_inv)])

# ---- whole-array
def _fill(v):
    def post(c):
        E = c.E; O = bA(E, c.st, c.a[0]); n = bn(E, c.old, c.a[0])
        yield 'words', allb(O, 0, n, lambda t: O(t) == v)
    return post
contract('bitset_clear', props=P16, setups=s1w, pre=_pre(0), post=_fill(ZERO), modifies=lambda c: [bf(c.E, c.st, c.a[0], 'array')])
contract('bitset_fill', props=P16, setups=s1w, pre=_pre(0), post=_fill(FULL), modifies=lambda c: [bf(c.E, c.st, c.a[0], 'array')])
def _copy_post(c):
    E = c.E; p = c.a[0]; q = c.ret; A, O = bA(E, c.old, p), bA(E, c.st, q); n = bn(E, c.old, p)
    yield 'size', eqv(bf(E, c.st, q, 'arraysize'), bf(E, c.old, p, 'arraysize'), 64)
    yield 'well-formed', wfb(c, q)
    yield 'fresh', z3.BoolVal(bf(E, c.st, q, 'array').b != bf(E, c.old, p, 'array').b and q.b != p.b)
    yield 'words', allb(O, 0, n, lambda t: O(t) == A(t))
contract('bitset_copy', props=P16, setups=s1, pre=_pre(0), post=_copy_post)
def _cr_post(c):
    E = c.E; q = c.ret; O = bA(E, c.st, q); n = trunc(c.a[0], 64, 32) if c.a else 0
    yield 'size', eqv(bf(E, c.st, q, 'arraysize'), c.a[0] if c.a else 0, 64)
    if c.a:
        yield 'well-formed', wfb(c, q)
        yield 'words', allb(O, 0, n, lambda t: O(t) == 0)
contract('bitset_create_with_capacity', props=P16, setups=[S('', lambda E, st: [(lambda s: (E.fact(ule(s, 64 * MB, 64)), s)[1])(z3.BitVec('size', 64))])], pre=lambda c: [],
         post=lambda c: [('size', eqv(bf(c.E, c.st, c.ret, 'arraysize'), z3.LShR(W(c.a[0], 64) + 63, 6), 64)), ('well-formed', wfb(c, c.ret)),
                         ('words', allb(bA(c.E, c.st, c.ret), 0, bn(c.E, c.st, c.ret), lambda t: bA(c.E, c.st, c.ret)(t) == 0))])
contract('bitset_create', props=P16, setups=[S('', lambda E, st: [])], pre=lambda c: [], post=lambda c: [('empty', And(eqv(bf(c.E, c.st, c.ret, 'arraysize'), 0, 64), eqv(bf(c.E, c.st, c.ret, 'capacity'), 0, 64)))])

# ---- shifts
def _sh(E, V):
    s = W(V.a[1], 64); ew = z3.Extract(31, 0, z3.LShR(s, 6)); iw = s & 63
    n = bn(E, V.old, V.a[0]); A = bA(E, V.old, V.a[0]); O = bA(E, V.st, V.a[0])
    return s, ew, iw, n, A, O
def _shl(A, n, ew, iw):
    """word t of the set shifted left"""
    def f(t):
        hi = z3.If(And(ule(ew, t), ult(t - ew, n)), A(t - ew), ZERO); lo = z3.If(And(ult(ew, t), ule(t - ew, n)), A(t - ew - 1), ZERO)
        return z3.If(iw == 0, hi, (hi << iw) | z3.LShR(lo, 64 - iw))
    return f
def _shl_post(c):
    s, ew, iw, n, A, O = _sh(c.E, c); f = _shl(A, n, ew, iw); m = bn(c.E, c.st, c.a[0])
    yield 'size', m == z3.If(n == 0, W(0, 32), n + ew + z3.If(iw == 0, W(0, 32), W(1, 32)))
    yield 'well-formed', wfb(c, c.a[0])
    yield 'words', allb(O, 0, m, lambda t: O(t) == f(t))
def _shl_inv(aligned):
    def inv(V):
        s, ew, iw, n, A, O = _sh(V.E, V); f = _shl(A, n, ew, iw); i = k32(V, 'i'); m = bn(V.E, V.st, V.a[0])
        return [('range', And(ule(V.i, 1 << 40, 64), ule(z3.ZeroExt(32, ew) + (0 if aligned else 1), V.i, 64), ule(V.i, z3.ZeroExt(32, n + ew), 64), ult(0, n), iw == 0 if aligned else iw != 0, m == n + ew + (0 if aligned else 1))),
                ('done', allb(O, i, m, lambda t: O(t) == f(t))), ('rest', allb(O, 0, mn(i, n), lambda t: O(t) == A(t))), ('well-formed', wfb(V, V.a[0]))]
    return inv
def _shl_inv0(V):
    s, ew, iw, n, A, O = _sh(V.E, V); f = _shl(A, n, ew, iw); i = k32(V, 'i'); m = bn(V.E, V.st, V.a[0])
    return [('range', And(kok(V, ew, 'i'), ult(0, n), m == n + ew + z3.If(iw == 0, W(0, 32), W(1, 32)))),
            ('done', allb(O, 0, i, lambda t: O(t) == 0)), ('rest', allb(O, ew, m, lambda t: O(t) == f(t))), ('well-formed', wfb(V, V.a[0]))]
def _shw(E, st): s = z3.BitVec('s', 64); E.fact(ult(s, 64 * MB, 64)); return [bs(E, st, 'A', False), s]
contract('bitset_shift_left', props=P16, setups=[S('', _shw)], pre=_pre(0), post=_shl_post, modifies=cells, loops=[LoopSpec(_shl_inv(False)), LoopSpec(_shl_inv(True)), LoopSpec(_shl_inv0)])
def _shr(A, n, ew, iw):
    def f(t):
        x = lambda k: z3.If(ult(k, n), A(k), ZERO)
        return z3.If(iw == 0, x(t + ew), z3.LShR(x(t + ew), iw) | (x(t + ew + 1) << (64 - iw)))
    return f
def _shr_post(c):
    s, ew, iw, n, A, O = _sh(c.E, c); f = _shr(A, n, ew, iw); m = bn(c.E, c.st, c.a[0])
    yield 'size', m == z3.If(ule(n, ew), W(0, 32), n - ew)
    yield 'well-formed', wfb(c, c.a[0])
    yield 'words', allb(O, 0, m, lambda t: O(t) == f(t))
def _shr_inv(aligned):
    def inv(V):
        s, ew, iw, n, A, O = _sh(V.E, V); f = _shr(A, n, ew, iw); i = k32(V, 'i')
        return [('range', And(kok(V, n - ew - (0 if aligned else 1), 'i'), ult(ew, n), iw == 0 if aligned else iw != 0)),
                ('done', allb(O, 0, i, lambda t: O(t) == f(t))), ('rest', allb(O, i, n, lambda t: O(t) == A(t)))]
    return inv
contract('bitset_shift_right', props=P16, setups=[S('', _shw)], pre=_pre(0), post=_shr_post, modifies=cells, loops=[LoopSpec(_shr_inv(False)), LoopSpec(_shr_inv(True))])
def _trim_post(c):
    E = c.E; p = c.a[0]; A = bA(E, c.old, p); n = bn(E, c.old, p); m = bn(E, c.st, p)
    yield 'well-formed', Or(m == 0, wfb(c, p))
    yield 'result', B(c.ret) if not isinstance(c.ret, int) else z3.BoolVal(bool(c.ret))
    yield 'trailing zeros dropped', And(ule(m, n), allb(A, m, n, lambda t: A(t) == 0))
    q = bf(E, c.st, p, 'array')
    if isinstance(q, Ptr) and q.b is None: yield 'empty', m == 0
    else:
        O = bA(E, c.st, p)
        yield 'kept', allb(O, 0, m, lambda t: O(t) == A(t))
def _trim_inv(V):
    E = V.E; A = bA(E, V.old, V.a[0]); n = bn(E, V.old, V.a[0]); k = k32(V, 'newsize')
    return [('range', kok(V, n, 'newsize')), ('so far', allb(A, k, n, lambda t: A(t) == 0))]
contract('bitset_trim', props=P16, setups=s1w, pre=_pre(0), post=_trim_post, modifies=cells, loops=[LoopSpec(_trim_inv)])
