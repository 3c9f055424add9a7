"""Array containers (sorted 16-bit lists)."""
from common import *
from bitset_c import rd32, _init32, P0
from words import D_of, DEF, fset
import common
MAXCAP = 65536
def asc(E, st, name, ro=True, null=False, aro=None, full=False):
    """an array container; null: capacity 0 without a buffer"""
    p = E.newblk(st, name, 16, 'struct', ro=ro); d = {}
    if null: cap, card, a = 0, 0, Ptr(None)
    else:
        cap = z3.BitVec(name + '_cap', 32); card = z3.BitVec(name + '_card', 32)
        E.fact(And(sle(1, cap), sle(cap, MAXCAP), sle(0, card), sle(card, cap), sle(card, 65536)))
        a = u16buf(E, st, name + '.array', cap, ro=ro if aro is None else aro)
    fset(E, d, 'array_container_s', 'cardinality', card); fset(E, d, 'array_container_s', 'capacity', cap); fset(E, d, 'array_container_s', 'array', a)
    st.mem[p.b] = d
    return p
def acard(E, st, p): return E.get(st, p, 'array_container_s', 'cardinality')
def acap(E, st, p): return E.get(st, p, 'array_container_s', 'capacity')
def aarr(E, st, p): return E.get(st, p, 'array_container_s', 'array')
def aview(E, st, p):
    w = aarr(E, st, p)
    if isinstance(w, Ptr) and w.b is not None and st.blk[w.b].kind == 'raw': E.settle(st, st.blk[w.b], 2)
    return view(E, st, w)
def isnull(E, st, p): w = aarr(E, st, p); return isinstance(w, Ptr) and w.b is None
def alay(E, st, p):
    n, c = W(acard(E, st, p), 32), W(acap(E, st, p), 32)
    return And(sle(0, n), sle(n, 65536), sle(n, c), room(E, st, aarr(E, st, p), c, 2))
def asorted(E, st, p): return z3.BoolVal(True) if isnull(E, st, p) else sorted_(aview(E, st, p), acard(E, st, p))
def amem(E, st, p, x): return z3.BoolVal(False) if isnull(E, st, p) else mem(aview(E, st, p), acard(E, st, p), x)
def aok(E, st, p, tag=''):
    return [('layout' + tag, alay(E, st, p)), ('sorted' + tag, asorted(E, st, p))]
def apre(*ix, more=None):
    def pre(c):
        for i in ix:
            for l, f in aok(c.E, c.st, c.a[i], ' %d' % i): yield l, f
        if more:
            for l, f in more(c): yield l, f
    return pre
def acells(E, p): return [(p,) + E.off('array_container_s', f) for f in ('cardinality', 'capacity', 'array')]
def amods(i=0, arr=True):
    def m(c):
        r = [(c.a[i],) + c.E.off('array_container_s', f) for f in ('cardinality', 'capacity', 'array')]
        w = aarr(c.E, c.old or c.st, c.a[i])
        if arr and w.b is not None: r.append(Ptr(w.b))
        return r
    return m
def one(*more, ro=True, null=True):
    r = [S('', lambda E, st: [asc(E, st, 'A', ro=ro)] + [m(E, st) for m in more])]
    if null: r.append(S('empty', lambda E, st: [asc(E, st, 'A', ro=ro, null=True)] + [m(E, st) for m in more]))
    return r
def v16(n): return lambda E, st: z3.BitVec(n, 16)
def v32(n): return lambda E, st: z3.BitVec(n, 32)
def V0(c, i=0): return aview(c.E, c.old, c.a[i]), W(acard(c.E, c.old, c.a[i]), 32)
ALL = lambda A, lo, hi, f, **k: allb(A, lo, hi, f, **k)

# ---- queries
def _ac_post(c):
    yield 'value', Iff(c.ret, amem(c.E, c.old, c.a[0], W(c.a[1], 16)))
def _ac_inv1(V):
    A = aview(V.E, V.old, V.a[0]); n = acard(V.E, V.old, V.a[0]); lo, hi = V.low, V.high; x = W(V.a[1], 16)
    return [('range', And(sle(0, lo), sle(lo, W(hi, 32) + 1), slt(hi, n), sle(mask(-1, 32), hi))), ('below', allb(A, 0, lo, lambda t: ult(A(t), x, 16))), ('above', allb(A, simpz(W(hi, 32) + 1), n, lambda t: z3.UGT(A(t), x)))]
def _ac_inv2(V):
    A = aview(V.E, V.old, V.a[0]); n = acard(V.E, V.old, V.a[0]); i, hi = V.i, V.high; x = W(V.a[1], 16)
    return [('range', And(sle(0, i), sle(i, W(hi, 32) + 1), slt(hi, n), sle(mask(-1, 32), hi))), ('below', allb(A, 0, i, lambda t: ult(A(t), x, 16))), ('above', allb(A, simpz(W(hi, 32) + 1), n, lambda t: z3.UGT(A(t), x)))]
contract('array_container_contains', props=['C03', 'C05', 'C14', 'C01', 'C07'], setups=one(v16('pos'), null=False), pre=apre(0), post=_ac_post, loops=[LoopSpec(_ac_inv1), LoopSpec(_ac_inv2)])
def split_at(A, n, k, x):
    """k = number of values < x"""
    return And(ule(k, n), allb(A, 0, k, lambda t: ult(A(t), x, 16)), allb(A, k, n, lambda t: z3.UGE(A(t), x)))
def split_le(A, n, k, x): return And(ule(k, n), allb(A, 0, k, lambda t: ule(A(t), x, 16)), allb(A, k, n, lambda t: z3.UGT(A(t), x)))
contract('array_container_rank', props=['C03'], setups=one(v16('xx'), null=False), pre=apre(0), post=lambda c: [('rank', split_le(*V0(c), W(c.ret, 32), W(c.a[1], 16)))])
def _gi_post(c):
    A, n = V0(c); r = W(c.ret, 32); x = W(c.a[1], 16)
    yield 'found', Implies(r != mask(-1, 32), And(ult(r, n), A(r) == x))
    yield 'absent', Implies(r == mask(-1, 32), allb(A, 0, n, lambda t: A(t) != x))
contract('array_container_get_index', props=['C03'], setups=one(v16('xx'), null=False), pre=apre(0), post=_gi_post)
def _ie_post(c):
    A, n = V0(c); r = W(c.ret, 32); x = W(c.a[1], 16)
    yield 'found', Implies(r != mask(-1, 32), And(ult(r, n), split_at(A, n, r, x)))
    yield 'none', Implies(r == mask(-1, 32), allb(A, 0, n, lambda t: ult(A(t), x, 16)))
contract('array_container_index_equalorlarger', props=['C03', 'C11'], setups=one(v16('xx'), null=False), pre=apre(0), post=_ie_post)
def _minmax(i):
    def post(c):
        A, n = V0(c); yield 'value', And(Implies(n != 0, W(c.ret, 16) == A(0 if i == 0 else n - 1)), Implies(n == 0, W(c.ret, 16) == 0))
    return post
contract('array_container_minimum', props=['C03', 'C11'], setups=one(null=False), pre=apre(0), post=_minmax(0))
contract('array_container_maximum', props=['C03', 'C11'], setups=one(null=False), pre=apre(0), post=_minmax(1))
def _sel_post(c):
    E = c.E; A, n = V0(c); s0, s1 = rd32(c.old, c.a[1]), rd32(c.st, c.a[1]); k = W(c.a[2], 32) - s0; e = rd32(c.st, c.a[3])
    yield 'found iff rank below cardinality', Iff(c.ret, ult(k, n))
    yield 'skipped', Implies(Not(c.ret), s1 == s0 + n)
    yield 'element', Implies(c.ret, e == z3.ZeroExt(16, A(k)))
def _nowrap(c):
    s0 = rd32(c.st, c.a[1])
    yield 'order', And(ule(s0, c.a[2]), ule(s0, 0xffffffff - 65536))
def _sel_setup(E, st):
    r = [asc(E, st, 'A'), _init32(E, st, 'start_rank'), z3.BitVec('rank', 32), _init32(E, st, 'element')]
    return r
contract('array_container_select', props=['C03'], setups=[S('', _sel_setup)], pre=apre(0, more=_nowrap), post=_sel_post, modifies=lambda c: [c.a[1], c.a[3]])
def _cr_post(c):
    """the answer is 'the values first..last-1 form one block of the list'; that this is membership of every value of the range is lemma block"""
    A, n = V0(c); s, e = W(c.a[1], 32), W(c.a[2], 32); x = z3.ZeroExt(16, X16)
    yield 'empty range', Implies(ule(e, s), c.ret)
    if not c.top: yield 'all present', Implies(And(c.ret, ule(s, x), ult(x, e)), mem(A, n, X16)); return
    yield '*block', Implies(ult(s, e), Iff(c.ret, _whole(c)))
    p = c.E.gx['ps']; k = simpz(p + (x - s))
    c.E.fact(gap(A, n, p, k)); c.E.fact(gap(A, n, k, simpz(p + (e - s) - 1)))
    yield 'all present', Implies(And(c.ret, ule(s, x), ult(x, e)), And(ult(k, n), A(k) == X16))
def _whole(c):
    """the range occupies a block of the list"""
    A, n = V0(c); s, e = W(c.a[1], 32), W(c.a[2], 32); p = c.E.gx['ps']
    return And(ule(p + (e - s), n), ult(p, n), A(p) == z3.Extract(15, 0, s), A(p + (e - s) - 1) == z3.Extract(15, 0, e - 1))
def _cr_gh(c):
    A, n = V0(c); s = z3.Extract(15, 0, W(c.a[1], 32))
    return {'ps': rank(c.E, A, n, s, 'ps')}

# sorted lists of consecutive integers: lemma  A sorted, A(p)=s, A(p+m-1)=s+m-1  =>  A(p+d)=s+d (0<=d<m)   (discrete pigeonhole, by induction; proved in lemmas.py: sorted_gap)
def gap(A, n, p, q):
    """sorted: A(q) - A(p) >= q - p"""
    return Implies(And(ule(p, q), ult(q, n)), And(z3.UGE(A(q), A(p)), z3.UGE(z3.ZeroExt(16, A(q)) - z3.ZeroExt(16, A(p)), q - p)))

contract('array_container_contains_range', props=['C03', 'C07'], setups=one(v32('first'), v32('last'), null=False), pre=apre(0, more=lambda c: [('range', And(ule(c.a[1], 65535), ule(c.a[2], 65536)))]), post=_cr_post, ghost=_cr_gh)

# ---- memory equality (bytes; at a call site over elements of the blocks' width)
def _me_setup(E, st):
    n = z3.BitVec('n', 32); E.fact(ule(n, 1 << 20)); n64 = z3.ZeroExt(32, n)
    return [E.newblk(st, 'A', n64, 'arr', 1, ro=True), E.newblk(st, 'B', n64, 'arr', 1, ro=True), n64]
def _me_setup0(E, st): return [Ptr(None), Ptr(None), 0]
def _melt(c):
    E = c.E; b = c.old.blk[c.a[0].b] if c.old else c.st.blk[c.a[0].b]
    return b.ew
def _me_pre(c):
    if isc(c.a[2]) and c.a[2] == 0: return
    n = W(c.a[2], 64); ew = _melt(c)
    yield 'size', And(ule(n, 1 << 20, 64), z3.URem(n, z3.BitVecVal(ew, 64)) == 0 if ew > 1 else True)
    for k in (0, 1): yield 'room %d' % k, room(c.E, c.st, c.a[k], simpz(z3.UDiv(n, z3.BitVecVal(ew, 64))) if ew > 1 else n, ew, 64)
def _me_post(c):
    if isc(c.a[2]) and c.a[2] == 0: yield 'empty', B(c.ret); return
    E = c.E; ew = _melt(c); n = z3.Extract(31, 0, W(c.a[2], 64))
    if ew > 1: n = simpz(z3.LShR(n, {2: 1, 4: 2, 8: 3}[ew]))
    A, Bb = view(E, c.old, c.a[0]), view(E, c.old, c.a[1])
    yield 'equal', Implies(c.ret, allb(A, 0, n, lambda t: A(t) == Bb(t)))
    yield 'different', Implies(Not(c.ret), exists1([A], lambda t: And(ult(t, n), A(t) != Bb(t))))
def _me_inv(V):
    E = V.E; A, Bb = view(E, V.old, V.a[0]), view(E, V.old, V.a[1]); i, j = W(V.ix('ptr1'), 32), W(V.ix('ptr2'), 32); n = z3.Extract(31, 0, W(V.a[2], 64))
    return [('range', And(ule(i, n), i == j)), ('so far', allb(A, 0, i, lambda t: A(t) == Bb(t)))]
def _me_loop(m):
    def inv(V): return _me_inv(V) + ([('aligned', And(W(V.ix('ptr1'), 32) & (m - 1) == 0))] if m > 1 else [])
    return LoopSpec(inv)
ME = ['C07', 'C17', 'C10', 'C14']
contract('_avx2_memequals', props=ME, setups=[S('', _me_setup)], pre=_me_pre, post=_me_post, loops=[_me_loop(32), _me_loop(8), _me_loop(1)])
contract('_avx512_memequals', props=ME, setups=[S('', _me_setup)], pre=_me_pre, post=_me_post, loops=[_me_loop(64), _me_loop(32), _me_loop(8), _me_loop(1)])
contract('memequals', props=ME, setups=[S('', _me_setup), S('empty', _me_setup0)], pre=_me_pre, post=_me_post)

# ---- equality, inclusion
TWO = [S('', lambda E, st: [asc(E, st, 'A'), asc(E, st, 'B')]), S('same', lambda E, st: [asc(E, st, 'A')] * 2)]
def _eq_post(c):
    E = c.E; A, n = V0(c, 0); Bb, m = V0(c, 1)
    yield 'equal', Implies(c.ret, And(n == m, allb(A, 0, n, lambda t: A(t) == Bb(t))))
    yield 'different', Implies(Not(c.ret), Or(n != m, exists1([A], lambda t: And(ult(t, n), A(t) != Bb(t)))))
contract('array_container_equals', props=['C07', 'C17'], setups=TWO, pre=apre(0, 1), post=_eq_post)
RKF = z3.Function('rk', z3.BitVecSort(32), z3.BitVecSort(32))
def all_in(c):
    """every element of the first list is in the second (rk: where)"""
    A, n = V0(c, 0); Bb, m = V0(c, 1)
    return forall1([A], lambda t: Implies(ult(t, n), And(ult(RKF(t), m), Bb(RKF(t)) == A(t))))
def _sub_gh(c):
    A, n = V0(c, 0); Bb, m = V0(c, 1)
    c.E.fact(Implies(all_in(c), ule(n, m)))     # lemma inj
    return {'pB': rank(c.E, Bb, m, X16, 'pB'), 'pA': rank(c.E, A, n, X16, 'pA')}
def _sub_post(c):
    A, n = V0(c, 0); Bb, m = V0(c, 1)
    yield 'subset', Implies(And(c.ret, mem(A, n, X16)), mem(Bb, m, X16))
    yield 'not subset', Implies(And(c.top, Not(c.ret)), Not(all_in(c)))
def _sub_inv(V):
    E = V.E; A, n = V0(V2C(V), 0); Bb, m = V0(V2C(V), 1); i, j = W(V.i1, 32), W(V.i2, 32); pA, pB = E.gx['pA'], E.gx['pB']
    return [('range', And(ule(i, n), ule(j, m))), ('order', And(Implies(And(j != 0, ult(i, n)), ult(Bb(j - 1), A(i), 16)))), ('x', Implies(And(inR(A, n, pA, X16), ult(pA, i)), And(inR(Bb, m, pB, X16), ult(pB, j))))]
class _VC: pass
def V2C(V):
    c = _VC(); c.E, c.st, c.old, c.a = V.E, V.st, V.old, V.a; return c
contract('array_container_is_subset', props=['C07'], setups=TWO, pre=apre(0, 1), post=_sub_post, ghost=_sub_gh, loops=[LoopSpec(_sub_inv)])

# ---- validity
def _val_setup(null):
    def f(E, st):
        p = E.newblk(st, 'A', 16, 'struct', ro=True); d = {}
        cap = z3.BitVec('A_cap', 32); card = z3.BitVec('A_card', 32)
        m = z3.BitVec('alloc', 32); E.fact(And(sle(1, m), sle(m, MAXCAP)))
        E.fact(Or(sle(cap, 0), sle(card, 0), sle(cap, m)))     # the buffer really has that capacity
        a = Ptr(None) if null else u16buf(E, st, 'A.array', m)
        fset(E, d, 'array_container_s', 'cardinality', card); fset(E, d, 'array_container_s', 'capacity', cap); fset(E, d, 'array_container_s', 'array', a)
        st.mem[p.b] = d
        return [p, E.newblk(st, 'reason', 8, 'struct', ro=False)]
    return S('null' if null else '', f)
def _val_post(c):
    E = c.E; n, cap = W(acard(E, c.old, c.a[0]), 32), W(acap(E, c.old, c.a[0]), 32); null = isnull(E, c.old, c.a[0])
    ok = And(sle(1, n), sle(n, 4096), sle(n, cap))
    if null: yield 'invalid', Not(c.ret); return
    A = aview(E, c.old, c.a[0])
    yield 'valid: size', Implies(c.ret, ok)
    yield 'valid: sorted', Implies(c.ret, sorted_(A, n))
    yield 'invalid', Implies(And(Not(c.ret), ok), exists1([A], lambda t: And(ult(0, t), ult(t, n), z3.UGE(A(t - 1), A(t)))))
def _val_inv(V):
    A = aview(V.E, V.old, V.a[0]); n = W(acard(V.E, V.old, V.a[0]), 32); i = W(V.i, 32)
    return [('range', And(ule(1, i), ule(i, n))), ('prev', W(V.prev, 16) == A(i - 1)), ('sorted', sorted_(A, i))]
contract('array_container_validate', props=['C08', 'C10'], setups=[_val_setup(False), _val_setup(True)], pre=P0, post=_val_post, modifies=lambda c: [c.a[1]], loops=[LoopSpec(_val_inv)])

# ---- number of runs
def runstart(A, t): return Or(t == 0, z3.ZeroExt(16, A(t)) != z3.ZeroExt(16, A(t - 1)) + 1)
def _nr_gh(c):
    E = c.E; A, n = V0(c)
    D = D_of(E, lambda t: z3.If(runstart(A, t), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)), n=n)
    E.fact(PS_unfold(D, 0)); E.fact(POP(z3.BitVecVal(0, 64)) == 0); E.fact(POP(z3.BitVecVal(1, 64)) == 1); return {'D': D}
def _nr_post(c):
    if c.top: yield 'runs', eqv(c.ret, z3.Extract(31, 0, PS(c.E.gx['D'], W(acard(c.E, c.old, c.a[0]), 32))), 32)
    n = W(acard(c.E, c.old, c.a[0]), 32); yield 'bound', And(ule(c.ret, n), Iff(W(c.ret, 32) == 0, n == 0))
def _nr_inv(V):
    E = V.E; A, n = V0(V2C(V)); D = E.gx['D']; p = W(V.ix('p'), 32)
    return [('range', ule(p, n)), ('prev', W(V.prev, 32) == z3.If(p == 0, z3.BitVecVal(mask(-2, 32), 32), z3.ZeroExt(16, A(p - 1)))), ('sum', eqv(V.nr_runs, z3.Extract(31, 0, PS(D, p)), 32)), ('bound', And(ule(V.nr_runs, p), Iff(W(V.nr_runs, 32) == 0, p == 0)))]
def _nr_h(V):
    E = V.E; D = E.gx['D']; p = W(V.ix('p'), 32)
    return [PS_unfold(D, p), D(p) == DEF[D.f.name()](p), POP(D(p)) == D(p), PS_bound(D, p)]
contract('array_container_number_of_runs', props=['C08', 'C09'], setups=one(null=False), pre=apre(0), post=_nr_post, ghost=_nr_gh, sums=True, loops=[LoopSpec(_nr_inv, hints=_nr_h)])

# ---- shapes of updated lists; what follows from them for members and order is proved once and for all in LEMMAS below
def insert_form(A, n, p, v, O): return allb(O, 0, n + 1, lambda t: O(t) == z3.If(ult(t, p), A(t), z3.If(t == p, v, A(t - 1))))
def insert_concl(A, n, v, O, x): return And(sorted_(O, n + 1), Iff(mem(O, n + 1, x), Or(mem(A, n, x), x == v)))
def delete_form(A, n, p, q, O): return allb(O, 0, n - q, lambda t: O(t) == z3.If(ult(t, p), A(t), A(t + q)))
def delete1_concl(A, n, v, O, x): return And(sorted_(O, n - 1), Iff(mem(O, n - 1, x), And(mem(A, n, x), x != v)))
def fill_form(A, n, l, g, mn, mx, O, d=None):
    """d: how far the values above the range move"""
    u = simpz(l + (mx - mn + 1)); d = simpz(u - (n - g)) if d is None else d
    return And(allb(O, 0, l, lambda t: O(t) == A(t)), allb(O, l, u, lambda t: z3.ZeroExt(16, O(t)) == mn + (t - l)), allb(O, u, simpz(u + g), lambda t: O(t) == A(t - d)))
def fill_concl(A, n, l, g, mn, mx, O, x):
    x32 = z3.ZeroExt(16, x); k = l + (mx - mn + 1) + g
    return And(sorted_(O, k), Iff(mem(O, k, x), Or(mem(A, n, x), And(ule(mn, x32), ule(x32, mx)))))
def _lem_vars():
    A, O = Arr(16, 32, name='lemA'), Arr(16, 32, name='lemO'); n = z3.BitVec('n', 32)
    return View(A, 0), View(O, 0), n
def rk_facts(A, n, x, p): return And(ule(p, n), forall1([A], lambda t: Implies(ult(t, n), ult(t, p) == ult(A(t), x, 16)), extra=[p]))
def _lem_insert():
    A, O, n = _lem_vars(); v = z3.BitVec('v', 16); p, px = z3.BitVecs('p px', 32)
    return [ult(n, 65536), sorted_(A, n), rk_facts(A, n, v, p), Not(And(ult(p, n), A(p) == v)), rk_facts(A, n, X16, px), insert_form(A, n, p, v, O), O(px) == O(px), O(px + 1) == O(px + 1), O(p) == O(p)], insert_concl(A, n, v, O, X16)
def _lem_delete1():
    A, O, n = _lem_vars(); v = z3.BitVec('v', 16); p, px = z3.BitVecs('p px', 32)
    return [ule(n, 65536), sorted_(A, n), rk_facts(A, n, v, p), ult(p, n), A(p) == v, rk_facts(A, n, X16, px), delete_form(A, n, p, 1, O), O(px) == O(px), O(px - 1) == O(px - 1)], delete1_concl(A, n, v, O, X16)
def _lem_delete():
    A, O, n = _lem_vars(); p, q = z3.BitVecs('p q', 32)
    return [ule(n, 65536), ule(p, n), ule(q, n), ule(p + q, n), sorted_(A, n), delete_form(A, n, p, q, O)], sorted_(O, n - q)
def _lem_fill(members=False):
    """stated over the end u of the range in the new list, the end e of the replaced part in the old one and the shift d = u - e"""
    A, O, n = _lem_vars(); l, u, e, d, k, mn, mx, px = z3.BitVecs('l u e d k mn mx px', 32); z = lambda t: z3.ZeroExt(16, t)
    H = [ule(n, 65536), ule(mn, mx), ule(mx, 65535), ule(l, e), ule(e, n), ule(l, u), ule(u, k), ule(k, 1 << 17), u == e + d, k == n + d, u - l == mx - mn + 1, forall1([A], lambda t: And(Implies(ult(t, l), ult(z(A(t)), mn)), Implies(And(ule(l, t), ult(t, e)), And(ule(mn, z(A(t))), ule(z(A(t)), mx))), Implies(And(ule(e, t), ult(t, n)), z3.UGT(z(A(t)), mx)))),
         allb(O, 0, l, lambda t: O(t) == A(t)), allb(O, l, u, lambda t: z3.ZeroExt(16, O(t)) == mn + (t - l)), allb(O, u, k, lambda t: And(O(t) == A(t - d), ule(e, t - d), ult(t - d, n)))]
    if not members: return H + [sorted_(A, n)], sorted_(O, k)
    x32 = z3.ZeroExt(16, X16); q = z3.BitVec('q', 32)
    if members == 'out': return H + [ult(q, n), A(q) == X16] + [O(i) == O(i) for i in (q, q + d, l + (x32 - mn))], mem(O, k, X16)
    if members == 'in': return H + [ult(q, k), O(q) == X16], Or(mem(A, n, X16), And(ule(mn, x32), ule(x32, mx)))
    return H + [ule(mn, x32), ule(x32, mx), O(l + (x32 - mn)) == O(l + (x32 - mn))], mem(O, k, X16)
def _lem_gap():
    """induction step over q"""
    A, O, n = _lem_vars(); p, q = z3.BitVecs('p q', 32)
    return [ule(n, 65536), sorted_(A, n), ule(p, q), ult(q + 1, n), ult(q, q + 1), z3.UGE(z3.ZeroExt(16, A(q)) - z3.ZeroExt(16, A(p)), q - p), z3.UGE(A(q), A(p)), A(q + 1) == A(q + 1)], And(z3.UGE(z3.ZeroExt(16, A(q + 1)) - z3.ZeroExt(16, A(p)), q + 1 - p), z3.UGE(A(q + 1), A(p)))
def _lem_block():
    """every value of [s,e) present  =>  one block: induction over the value y; i, j: where y and y+1 are"""
    A, O, n = _lem_vars(); p, s, y, i, j = z3.BitVecs('p s y i j', 32); z = lambda t: z3.ZeroExt(16, t)
    return [ule(n, 65536), sorted_(A, n), ule(s, y), ult(y, 65535), ult(p, n), z(A(p)) == s, ult(i, n), z(A(i)) == y, ult(j, n), z(A(j)) == y + 1, i - p == y - s, ule(p, i), A(i + 1) == A(i + 1)], j - p == y + 1 - s
def _lem_inj():
    """induction step: the places of A's elements in B are at least their indices; r, r1: places of A(t), A(t+1)"""
    A, O, n = _lem_vars(); m, t, r, r1 = z3.BitVecs('m t r r1', 32)
    return [ule(n, 65536), ule(m, 65536), sorted_(A, n), sorted_(O, m), ult(t, t + 1), ult(t + 1, n), ule(t, r), ult(r, m), ult(r1, m), O(r) == A(t), O(r1) == A(t + 1)], ule(t + 1, r1)
SEQ_LEMMAS = {'gap': _lem_gap, 'block': _lem_block, 'inj': _lem_inj, 'insert': _lem_insert, 'delete1': _lem_delete1, 'delete': _lem_delete, 'fill': _lem_fill, 'fill members': lambda: _lem_fill('out'), 'fill values': lambda: _lem_fill('in'), 'fill range': lambda: _lem_fill('range')}
def check_seq(names=None):
    import time
    n = 0; bad = []; t = time.time()
    for nm, f in SEQ_LEMMAS.items():
        if names and nm not in names: continue
        hyp, concl = f(); E = Engine(None, {}); E.dry = False; E.reset(); E.deadline = time.time() + 100
        extra = [h for h in hyp if z3.is_true(z3.simplify(B(norm(h))))]
        for h in hyp:
            if kind(h) == z3.Z3_OP_EQ and z3.eq(h.arg(0), h.arg(1)): E.collect(h)
            else: E.fact(h)
        for g in (concl.children() if kind(concl) == z3.Z3_OP_AND else [concl]):
            sink = []; n += 1
            ge = expand(B(g), False, sink)
            if not E.prove([ge], sink)[0] and not E.prove_hard(ge, sink)[0]: bad.append(nm)
    return n, bad, time.time() - t

# ---- point updates
def sorted_rk(c, x, name): A, n = V0(c); return rank(c.E, A, n, x, name)
def _upd_gh(c):
    if isnull(c.E, c.old, c.a[0]): return {}
    return {'px': sorted_rk(c, X16, 'px'), 'pv': sorted_rk(c, W(c.a[1], 16), 'pv')}
def _same(c):
    E = c.E
    if isnull(E, c.old, c.a[0]): return eqv(acard(E, c.st, c.a[0]), 0, 32)
    A, n = V0(c); O = aview(E, c.st, c.a[0])
    return And(W(acard(E, c.st, c.a[0]), 32) == n, allb(A, 0, n, lambda t: O(t) == A(t)))
def _ins(c, added):
    """the content after inserting v, when added holds"""
    E = c.E; v = W(c.a[1], 16); n = W(acard(E, c.old, c.a[0]), 32)
    k = W(acard(E, c.st, c.a[0]), 32); O = None if isnull(E, c.st, c.a[0]) else aview(E, c.st, c.a[0])
    yield '*count', Implies(added, k == n + 1)
    if isnull(E, c.st, c.a[0]): yield 'not added', Not(added); return
    if isnull(E, c.old, c.a[0]):
        yield '*content', Implies(added, O(0) == v)
        yield 'members', Implies(added, Iff(mem(O, k, X16), X16 == v)); return
    A = aview(E, c.old, c.a[0])
    if c.top: yield '*content', Implies(added, insert_form(A, n, E.gx['pv'], v, O))
    yield ('lemma insert' if c.top else 'insert'), Implies(added, insert_concl(A, n, v, O, X16))
def _add_pre(more=None):
    def pre(c):
        yield from aok(c.E, c.st, c.a[0])
        yield 'not full', slt(acard(c.E, c.st, c.a[0]), 65536)
        if more: yield from more(c)
    return pre
def ok_after(c, i=0):
    for l, f in aok(c.E, c.st, c.a[i]): yield l + ' afterwards', f
    yield 'capacity afterwards', sle(acap(c.E, c.st, c.a[i]), MAXCAP)
def _ta_post(c):
    E = c.E; r = W(c.ret, 32); v = W(c.a[1], 16); was = amem(E, c.old, c.a[0], v); n = W(acard(E, c.old, c.a[0]), 32)
    yield 'result', Or(r == 1, r == 0, r == mask(-1, 32))
    yield 'present', Implies(r == 0, was)
    yield 'not present', Implies(r != 0, Not(was))
    yield 'too large', And(Implies(r == mask(-1, 32), sle(c.a[2], n)), Implies(r == 1, slt(n, c.a[2])))
    yield 'unchanged', Implies(r != 1, _same(c))
    yield from _ins(c, r == 1)
    yield from ok_after(c)
def _set0(*more): return one(*more, ro=False)
def _setn(c_): pass
def addsetups(*more):
    def f(null):
        def g(E, st):
            p = asc(E, st, 'A', ro=False, null=null)
            E.fact(slt(acard(E, st, p), 65536)); return [p] + [m(E, st) for m in more]
        return S('empty' if null else '', g)
    return [f(False), f(True)]
contract('array_container_try_add', props=['C05', 'C14', 'C08'], setups=addsetups(v16('v'), v32('maxc')), pre=_add_pre(), post=_ta_post, ghost=_upd_gh, modifies=amods(), inline_always=True)
def _addb_post(c):
    E = c.E; v = W(c.a[1], 16); was = amem(E, c.old, c.a[0], v)
    yield 'changed', Iff(c.ret, Not(was))
    yield 'unchanged', Implies(Not(c.ret), _same(c))
    yield from _ins(c, c.ret)
    yield from ok_after(c)
contract('array_container_add', props=['C05', 'C14'], setups=addsetups(v16('v')), pre=_add_pre(), post=_addb_post, ghost=_upd_gh, modifies=amods(), inline_always=True)
def _app_pre(c):
    E = c.E
    if not isnull(E, c.st, c.a[0]):
        A, n = aview(E, c.st, c.a[0]), W(acard(E, c.st, c.a[0]), 32)
        yield 'larger than the last', Implies(n != 0, ult(A(n - 1), c.a[1], 16))
def _app_setups():
    def f(null):
        def g(E, st):
            p = asc(E, st, 'A', ro=False, null=null); v = z3.BitVec('v', 16); c = _VC(); c.E, c.st, c.a = E, st, [p, v]
            E.fact(slt(acard(E, st, p), 65536))
            for l, x in _app_pre(c): E.fact(x)
            return [p, v]
        return S('empty' if null else '', g)
    return [f(False), f(True)]
def _app_post(c):
    yield from _ins(c, z3.BoolVal(True)); yield from ok_after(c)
contract('array_container_append', props=['C05', 'C01'], setups=_app_setups(), pre=_add_pre(_app_pre), post=_app_post, ghost=_upd_gh, modifies=amods(), inline_always=True)
def _rm_post(c):
    E = c.E; v = W(c.a[1], 16); was = amem(E, c.old, c.a[0], v); n = W(acard(E, c.old, c.a[0]), 32); O, k = aview(E, c.st, c.a[0]), W(acard(E, c.st, c.a[0]), 32)
    yield 'changed', Iff(c.ret, was)
    yield 'unchanged', Implies(Not(c.ret), _same(c))
    yield '*count', Implies(c.ret, k == n - 1)
    A = aview(E, c.old, c.a[0])
    if c.top: yield '*content', Implies(c.ret, delete_form(A, n, E.gx['pv'], 1, O)); yield 'position', Implies(c.ret, inR(A, n, E.gx['pv'], v))
    yield ('lemma delete1' if c.top else 'delete1'), Implies(c.ret, delete1_concl(A, n, v, O, X16))
    yield from ok_after(c)
contract('array_container_remove', props=['C05', 'C14'], setups=one(v16('v'), ro=False, null=False), pre=apre(0), post=_rm_post, ghost=_upd_gh, modifies=amods())

# ---- ranges
def _rr_pre(c):
    n = W(acard(c.E, c.st, c.a[0]), 32); yield 'range', And(ule(c.a[1], n), ule(c.a[2], n), ule(W(c.a[1], 32) + W(c.a[2], 32), n))
def _rr_setup(E, st):
    p = asc(E, st, 'A', ro=False); a, b = z3.BitVec('pos', 32), z3.BitVec('count', 32); c = _VC(); c.E, c.st, c.a = E, st, [p, a, b]
    for l, f in _rr_pre(c): E.fact(f)
    return [p, a, b]
def _rr_post(c):
    E = c.E; A, n = V0(c); O, k = aview(E, c.st, c.a[0]), W(acard(E, c.st, c.a[0]), 32); p, q = W(c.a[1], 32), W(c.a[2], 32)
    yield 'count', k == n - q
    yield 'before', allb(A, 0, p, lambda t: O(t) == A(t))
    yield 'after', allb(O, p, k, lambda t: O(t) == A(t + q))
    yield ('lemma delete' if c.top else 'sorted'), sorted_(O, k)
    yield from ok_after(c)
contract('array_container_remove_range', props=['C06', 'C14'], setups=[S('', _rr_setup)], pre=apre(0, more=_rr_pre), post=_rr_post, modifies=amods())
def _ar_pre(c):
    E = c.E; mn, mx, l, g = [W(x, 32) for x in c.a[1:5]]
    n = W(acard(E, c.st, c.a[0]), 32)
    yield 'range', And(ule(mn, mx), ule(mx, 65535), ule(l, n), ule(g, n), ule(l + g, n))
    if isnull(E, c.st, c.a[0]): return
    A = aview(E, c.st, c.a[0])
    yield 'less', And(allb(A, 0, l, lambda t: ult(z3.ZeroExt(16, A(t)), mn)), allb(A, l, n, lambda t: z3.UGE(z3.ZeroExt(16, A(t)), mn)))
    yield 'greater', And(allb(A, 0, n - g, lambda t: ule(z3.ZeroExt(16, A(t)), mx)), allb(A, n - g, n, lambda t: z3.UGT(z3.ZeroExt(16, A(t)), mx)))
    # no more values than fit below min and above max (they are distinct): lemma sorted_gap
    yield 'room for them', And(ule(l, mn), ule(g, 65535 - mx))
def _ar_setup(null):
    def f(E, st):
        p = asc(E, st, 'A', ro=False, null=null); c = _VC(); c.E, c.st = E, st; c.a = [p] + [z3.BitVec(x, 32) for x in ('min', 'max', 'nless', 'ngreater')]
        for l, x in _ar_pre(c): E.fact(x)
        return c.a
    return S('empty' if null else '', f)
def _ar_post(c):
    E = c.E; mn, mx, l, g = [W(x, 32) for x in c.a[1:5]]; O, k = aview(E, c.st, c.a[0]), W(acard(E, c.st, c.a[0]), 32); x = z3.ZeroExt(16, X16)
    yield 'count', k == l + (mx - mn + 1) + g
    if isnull(E, c.old, c.a[0]):
        if c.top: yield '*content', allb(O, 0, mx - mn + 1, lambda t: z3.ZeroExt(16, O(t)) == mn + t)
        yield 'members', Iff(mem(O, k, X16, extra=[x - mn]), And(ule(mn, x), ule(x, mx)))
    else:
        A, n = V0(c)
        if c.top: yield '*content', fill_form(A, n, l, g, mn, mx, O)
        yield ('lemma fill' if c.top else 'fill'), fill_concl(A, n, l, g, mn, mx, O, X16)
    yield from ok_after(c)
def _ar_gh(c):
    if isnull(c.E, c.old, c.a[0]): return {}
    return {'px': sorted_rk(c, X16, 'px')}
def _ar_inv(V):
    E = V.E; mn, mx, l, g = [W(x, 32) for x in V.a[1:5]]; O = aview(E, V.st, V.a[0]); i = W(V.i, 32); nul = isnull(E, V.old, V.a[0]); u = l + (mx - mn + 1)
    r = [('range', And(ule(i, mx - mn + 1))), ('filled', allb(O, l, l + i, lambda t: z3.ZeroExt(16, O(t)) == mn + (t - l)))]
    if not nul:
        A, n = V0(V2C(V))
        r += [('before', allb(O, 0, l, lambda t: O(t) == A(t))), ('after', allb(O, u, u + g, lambda t: O(t) == A(t - u + (n - g))))]
    return r
contract('array_container_add_range_nvals', props=['C06', 'C14'], setups=[_ar_setup(False), _ar_setup(True)], pre=apre(0, more=_ar_pre), post=_ar_post, ghost=_ar_gh, modifies=amods(), loops=[LoopSpec(_ar_inv)])
contract('count_less', props=['C06', 'C07', 'C13'], setups=[lambda E, st: _cl(E, st)], pre=lambda c: [('room', room(c.E, c.st, c.a[0], c.a[1], 2)), ('length', And(sle(0, c.a[1]), sle(c.a[1], 65536))), ('sorted', sorted_(view(c.E, c.st, c.a[0]), c.a[1]))] if c.a[0].b is not None else [('length', eqv(c.a[1], 0, 32))],
         post=lambda c: [('count', split_at(view(c.E, c.old, c.a[0]), W(c.a[1], 32), W(c.ret, 32), W(c.a[2], 16)) if c.a[0].b is not None else eqv(c.ret, 0, 32))])
contract('count_greater', props=['C06'], setups=[lambda E, st: _cl(E, st)], pre=REG['count_less'].pre,
         post=lambda c: [('count', And(ule(c.ret, c.a[1]), split_le(view(c.E, c.old, c.a[0]), W(c.a[1], 32), W(c.a[1], 32) - W(c.ret, 32), W(c.a[2], 16))) if c.a[0].b is not None else eqv(c.ret, 0, 32))])
def _cl(E, st):
    n = z3.BitVec('n', 32); E.fact(And(sle(0, n), sle(n, 65536)))
    return [u16buf(E, st, 'arr', n), n, z3.BitVec('key', 16)]

# ---- construction, copies
def fresh_ok(c, q, card):
    yield 'layout', alay(c.E, c.st, q)
    yield 'cardinality', eqv(acard(c.E, c.st, q), card, 32)
def _cg_post(c):
    yield from fresh_ok(c, c.ret, 0); yield 'capacity', eqv(acap(c.E, c.st, c.ret), c.a[0], 32)
NEW = ['C01', 'C02', 'C06', 'C12', 'C13']
contract('array_container_create_given_capacity', props=NEW, setups=[S('', lambda E, st: [_capv(E)]), S('zero', lambda E, st: [0])], pre=lambda c: [('size', And(sle(0, c.a[0]), sle(c.a[0], MAXCAP)))], post=_cg_post, inline_always=True)
def _capv(E): v = z3.BitVec('size', 32); E.fact(And(sle(1, v), sle(v, MAXCAP))); return v
contract('array_container_create', props=NEW, setups=[S('', lambda E, st: [])], pre=P0, post=lambda c: fresh_ok(c, c.ret, 0), inline_always=True)
def _crr(E, st): a, b = z3.BitVec('mn', 32), z3.BitVec('mx', 32); E.fact(And(ule(a, b), ule(b, 65536))); return [a, b]
def _crr_post(c):
    E = c.E; a, b = W(c.a[0], 32), W(c.a[1], 32); q = c.ret
    yield from fresh_ok(c, q, b - a)
    O = aview(E, c.st, q); yield 'content', allb(O, 0, b - a, lambda t: z3.ZeroExt(16, O(t)) == a + t)
    yield 'sorted', asorted(E, c.st, q)
    x = z3.ZeroExt(16, X16); yield 'members', Iff(mem(O, b - a, X16, extra=[x - a]), And(ule(a, x), ult(x, b)))
def _crr_inv(V):
    E = V.E; a, b = W(V.a[0], 32), W(V.a[1], 32); k = W(V.k, 32); q = V.answer; O = aview(E, V.st, q)
    return [('range', And(ule(a, k), ule(k, b))), ('card', eqv(acard(E, V.st, q), k - a, 32)), ('content', allb(O, 0, k - a, lambda t: z3.ZeroExt(16, O(t)) == a + t))]
def _crr_h(c): return []
contract('array_container_create_range', props=['C06', 'C05', 'C14'], setups=[S('', _crr)], pre=lambda c: [('range', And(ule(c.a[0], c.a[1]), ule(c.a[1], 65536)))], post=_crr_post, loops=[LoopSpec(_crr_inv)], inline_always=True)
def same_content(c, p, q, tag=''):
    E = c.E
    n = W(acard(E, c.old, p), 32); yield 'cardinality' + tag, eqv(acard(E, c.st, q), n, 32)
    if isnull(E, c.old, p): return
    A, O = aview(E, c.old, p), aview(E, c.st, q)
    yield 'content' + tag, allb(A, 0, n, lambda t: O(t) == A(t))
    yield 'independent' + tag, z3.BoolVal(aarr(E, c.st, q).b != aarr(E, c.old, p).b)
def _cl_post(c):
    yield 'layout', alay(c.E, c.st, c.ret); yield from same_content(c, c.a[0], c.ret); yield 'capacity', eqv(acap(c.E, c.st, c.ret), acap(c.E, c.old, c.a[0]), 32)
contract('array_container_clone', props=NEW, setups=one(null=True), pre=apre(0), post=_cl_post, inline_always=True)
def _cp_post(c):
    yield from ok_after(c, 1); yield from same_content(c, c.a[0], c.a[1])
contract('array_container_copy', props=NEW, setups=[S('%s%s' % (n1 and 'empty ' or '', n2 and 'into empty' or ''), (lambda n1, n2: lambda E, st: [asc(E, st, 'A', null=n1), asc(E, st, 'O', ro=False, null=n2)])(n1, n2)) for n1 in (0, 1) for n2 in (0, 1)], pre=apre(0, 1), post=_cp_post, modifies=amods(1), inline_always=True)
def _grow_setup(null, pres):
    def f(E, st):
        p = asc(E, st, 'A', ro=False, null=null); mn = z3.BitVec('min', 32); E.fact(And(sle(1, mn), sle(mn, MAXCAP), slt(acap(E, st, p), mn)))
        return [p, mn, 1 if pres else 0]
    return S('%s%s' % ('preserve' if pres else '', ' empty' if null else ''), f)
def _grow_post(c):
    E = c.E; yield 'layout', alay(E, c.st, c.a[0]); yield 'capacity', And(sle(c.a[1], acap(E, c.st, c.a[0])), sle(acap(E, c.st, c.a[0]), MAXCAP))
    yield 'cardinality', eqv(acard(E, c.st, c.a[0]), acard(E, c.old, c.a[0]), 32)
    if c.a[2] == 1 and not isnull(E, c.old, c.a[0]):
        A, n = V0(c); O = aview(E, c.st, c.a[0]); yield 'content', allb(A, 0, n, lambda t: O(t) == A(t))
def _grow_call(E, st, a, i):
    """use of the contract: a new buffer of the new capacity, holding the old values when they are to be preserved"""
    p, mn, pres = a
    c = Ctx(E, st, st, a); con = REG['array_container_grow']
    for lab, g in con.pre(c): E.oblig(st, g, 'precondition of array_container_grow: ' + lab)
    E.flush()
    cap = fbv('cap', 32); E.fact(And(sle(mn, cap), sle(acap(E, st, p), cap), sle(cap, MAXCAP)))
    w = aarr(E, st, p); pres = isc(pres) and pres == 1 or pres is True or (z3.is_expr(pres) and z3.is_true(z3.simplify(B(pres))))
    q = E.newblk(st, 'grown:%s:%s' % ('/'.join(st.frames[-1].path), i.res or id(i)), simpz(z3.ZeroExt(32, cap) * 2), 'arr', 2, fresh=True)
    if pres and w.b is not None and isinstance(st.mem[w.b], Arr): st.mem[q.b] = st.mem[w.b]
    if w.b is not None: st.dead.add(w.b)
    d = dict(st.mem[p.b]); fset(E, d, 'array_container_s', 'capacity', cap); fset(E, d, 'array_container_s', 'array', q); st.mem[p.b] = d
    return None
contract('array_container_grow', callspec=_grow_call, props=['C05', 'C01', 'C02'], setups=[_grow_setup(a, b) for a in (0, 1) for b in (0, 1)], pre=lambda c: [('layout', alay(c.E, c.st, c.a[0])), ('min', And(sle(1, c.a[1]), sle(c.a[1], MAXCAP), slt(acap(c.E, c.st, c.a[0]), c.a[1])))], post=_grow_post, modifies=amods())
def _shr_post(c):
    E = c.E; n, cap = W(acard(E, c.old, c.a[0]), 32), W(acap(E, c.old, c.a[0]), 32)
    yield 'saved', W(c.ret, 32) == cap - n
    yield 'capacity', W(acap(E, c.st, c.a[0]), 32) == n
    yield 'layout', alay(E, c.st, c.a[0])
    yield 'cardinality', W(acard(E, c.st, c.a[0]), 32) == n
    if isnull(E, c.st, c.a[0]): yield 'nothing lost', n == 0; return
    A, O = aview(E, c.old, c.a[0]), aview(E, c.st, c.a[0]); yield 'content', allb(A, 0, n, lambda t: O(t) == A(t))
contract('array_container_shrink_to_fit', props=['C08', 'C04', 'C02'], setups=one(ro=False), pre=apre(0), post=_shr_post, modifies=amods(), inline_always=True)
def _wr_post(c):
    E = c.E; A, n = V0(c); O = view(E, c.st, c.a[1])
    yield 'size', W(c.ret, 32) == n * 2
    yield 'bytes', allb(A, 0, n, lambda t: O(t) == A(t))
def _wr_setup(E, st):
    p = asc(E, st, 'A'); return [p, u16buf(E, st, 'buf', acard(E, st, p), ro=False)]
contract('array_container_write', props=['C09', 'C15'], setups=[S('', _wr_setup)], pre=apre(0, more=lambda c: [('room', room(c.E, c.st, c.a[1], acard(c.E, c.st, c.a[0]), 2))]), post=_wr_post, modifies=lambda c: [c.a[1]])
def _rd_setup(null):
    def f(E, st):
        n = z3.BitVec('card', 32); E.fact(And(sle(0, n), sle(n, 65536)))
        return [n, asc(E, st, 'A', ro=False, null=null), u16buf(E, st, 'buf', n)]
    return S('into empty' if null else '', f)
def _rd_post(c):
    E = c.E; n = W(c.a[0], 32); Bf = view(E, c.old, c.a[2])
    yield 'layout', alay(E, c.st, c.a[1]); yield 'cardinality', eqv(acard(E, c.st, c.a[1]), n, 32); yield 'size', W(c.ret, 32) == n * 2
    if isnull(E, c.st, c.a[1]): yield 'nothing to read', n == 0; return
    O = aview(E, c.st, c.a[1]); yield 'content', allb(O, 0, n, lambda t: O(t) == Bf(t))
contract('array_container_read', props=['C09', 'C10', 'C15'], setups=[_rd_setup(0), _rd_setup(1)], pre=lambda c: [('layout', alay(c.E, c.st, c.a[1])), ('size', And(sle(0, c.a[0]), sle(c.a[0], 65536))), ('room', room(c.E, c.st, c.a[2], c.a[0], 2))], post=_rd_post, modifies=amods(1), inline_always=True)

# ---- extraction
def _tu_setup(E, st):
    p = asc(E, st, 'A'); n = acard(E, st, p)
    return [E.newblk(st, 'vout', simpz(z3.ZeroExt(32, W(n, 32)) * 4), 'arr', 4, ro=False), p, z3.BitVec('base', 32)]
def _tu_post(c):
    E = c.E; A, n = V0(c, 1); O = view(E, c.st, c.a[0]); yield 'count', W(c.ret, 32) == n
    yield 'values', allb(O, 0, n, lambda t: O(t) == W(c.a[2], 32) + z3.ZeroExt(16, A(t)))
def _tu_inv(V):
    E = V.E; A, n = V0(V2C(V), 1); O = view(E, V.st, V.a[0]); i = z3.Extract(31, 0, W(V.i, 64))
    return [('range', And(ule(V.i, z3.ZeroExt(32, n), 64), W(V.outpos, 32) == i)), ('values', allb(O, 0, i, lambda t: O(t) == W(V.a[2], 32) + z3.ZeroExt(16, A(t))))]
def _tv_setup(E, st):
    n = z3.BitVec('n', 32); E.fact(ule(n, 65536))
    return [E.newblk(st, 'vout', simpz(z3.ZeroExt(32, n) * 4), 'arr', 4, ro=False), u16buf(E, st, 'array', n), z3.ZeroExt(32, n), z3.BitVec('base', 32)]
def _tv_pre(c):
    n = c.a[2]; yield 'length', ule(n, 65536, 64)
    yield 'room', And(room(c.E, c.st, c.a[0], n, 4, 64), room(c.E, c.st, c.a[1], n, 2, 64))
def _tv_post(c):
    E = c.E; n = z3.Extract(31, 0, W(c.a[2], 64)); A, O = view(E, c.old, c.a[1]), view(E, c.st, c.a[0]); yield 'count', W(c.ret, 32) == n
    yield 'values', allb(O, 0, n, lambda t: O(t) == W(c.a[3], 32) + z3.ZeroExt(16, A(t)))
def _tv_inv(V):
    E = V.E; n = z3.Extract(31, 0, W(V.a[2], 64)); A, O = view(E, V.old, V.a[1]), view(E, V.st, V.a[0]); i = z3.Extract(31, 0, W(V.i, 64))
    return [('range', And(ule(V.i, V.a[2], 64), W(V.outpos, 32) == i)), ('values', allb(O, 0, i, lambda t: O(t) == W(V.a[3], 32) + z3.ZeroExt(16, A(t))))]
TUP = ['C03', 'C17', 'C11', 'C08']
for f in ('array_container_to_uint32_array_vector16', 'avx512_array_container_to_uint32_array'):
    contract(f, props=TUP, setups=[S('', _tv_setup)], pre=_tv_pre, post=_tv_post, modifies=lambda c: [c.a[0]], loops=[LoopSpec(_tv_inv)] * 2)
contract('array_container_to_uint32_array', props=TUP, setups=[S('', _tu_setup)], pre=lambda c: aok(c.E, c.st, c.a[1]) + [('room', room(c.E, c.st, c.a[0], acard(c.E, c.st, c.a[1]), 4))], post=_tu_post, modifies=lambda c: [c.a[0]], loops=[LoopSpec(_tu_inv)])

# ---- set operations
from kernels import SETOP
def _op_setups(*al):
    def mk(onull, alias):
        def f(E, st):
            A = asc(E, st, 'A', ro=alias != 'A'); Bc = A if alias == 'same' else asc(E, st, 'B')
            O = A if alias == 'A' else asc(E, st, 'O', ro=False, null=onull)
            return [A, Bc, O]
        return S({None: 'into empty' if onull else '', 'A': 'in place', 'same': 'A twice'}[alias], f)
    return [mk(0, None), mk(1, None)] + [mk(1, x) for x in al]
def _op_pre(lim=None, distinct=True, need=lambda a, b: Or(a != 0, b != 0)):
    def pre(c):
        E = c.E
        for i in (0, 1):
            for l, f in aok(E, c.st, c.a[i], ' %d' % i): yield l, f
        if len(c.a) > 2: yield 'layout of out', alay(E, c.st, c.a[2])
        if len(c.a) > 2 and isnull(E, c.st, c.a[2]): yield 'a buffer is allocated', need(*_cards(c))
        if lim: yield 'size', lim(c)
        if distinct and len(c.a) > 2: yield 'distinct', z3.BoolVal(c.a[2].b not in (c.a[0].b, c.a[1].b))
    return pre
def _cards(c): return W(acard(c.E, c.st, c.a[0]), 32), W(acard(c.E, c.st, c.a[1]), 32)
def _limsum(c): a, b = _cards(c); return ule(a + b, 65536)
def _op_post(op, o=2):
    def post(c):
        E = c.E; A, n = V0(c, 0); Bv, m = V0(c, 1); q = c.a[o]; k = W(acard(E, c.st, q), 32)
        yield from ok_after(c, o)
        yield 'count', {'or': And(ule(n, k), ule(m, k), ule(k, n + m)), 'and': And(ule(k, n), ule(k, m)), 'andnot': ule(k, n), 'xor': ule(k, n + m)}[op]
        yield 'set', Iff(amem(E, c.st, q, X16), SETOP[op](mem(A, n, X16), mem(Bv, m, X16)))
    return post
def _op_gh(c):
    A, n = V0(c, 0); Bv, m = V0(c, 1); return {'pA': rank(c.E, A, n, X16, 'pA'), 'pB': rank(c.E, Bv, m, X16, 'pB')}
SOPS = ['C01', 'C17']
contract('array_container_union', props=SOPS + ['C04'], setups=_op_setups(), pre=_op_pre(_limsum), post=_op_post('or'), ghost=_op_gh, modifies=amods(2))
contract('array_container_xor', props=SOPS, setups=_op_setups(), pre=_op_pre(_limsum), post=_op_post('xor'), ghost=_op_gh, modifies=amods(2))
contract('array_container_andnot', props=SOPS + ['C02'], setups=_op_setups('A'), pre=_op_pre(None, False, lambda a, b: a != 0), post=_op_post('andnot'), ghost=_op_gh, modifies=amods(2))
def _and_lim(c):
    E = c.E; a, b = _cards(c); cap = W(acap(E, c.st, c.a[2]), 32); mn = z3.If(a < b, a, b)
    return And(sle(a, 32768), sle(b, 32768), Or(cap < mn, sle(mn + 8, cap)))     # the vector kernel writes whole registers
contract('array_container_intersection', props=SOPS, setups=_op_setups(), pre=_op_pre(_and_lim, True, lambda a, b: And(a != 0, b != 0)), post=_op_post('and'), ghost=_op_gh, modifies=amods(2))
contract('array_container_intersection_inplace', props=['C02', 'C17'], setups=[S('', lambda E, st: [asc(E, st, 'A', ro=False), asc(E, st, 'B')])], pre=_op_pre(lambda c: z3.BoolVal(c.a[0].b != c.a[1].b)), post=_op_post('and', 0), ghost=_op_gh, modifies=amods(0))
def _is_post(c):
    A, n = V0(c, 0); Bv, m = V0(c, 1)
    yield 'no: nothing in common', Implies(And(mem(A, n, X16), mem(Bv, m, X16)), c.ret)
    from kernels import disjoint
    yield 'yes: a common value', Implies(c.ret, Not(disjoint(A, n, Bv, m)))
contract('array_container_intersect', props=['C03', 'C07'], setups=[S('', lambda E, st: [asc(E, st, 'A'), asc(E, st, 'B')])], pre=_op_pre(), post=_is_post, ghost=_op_gh)
