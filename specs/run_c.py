"""Run containers (sorted lists of disjoint, non-adjacent runs: 16-bit start, 16-bit length-1)."""
from common import *
from bitset_c import rd32, _init32, P0
from sym import Forks
from words import D_of, DEF, fset
import common
RCAP = 131072; RMAX = 32768; RMIN = 98304
def z16(x): return z3.ZeroExt(16, x)
X32 = z16(X16)
def START(r): return z16(z3.Extract(15, 0, r))
def LEN(r): return z16(z3.Extract(31, 16, r))
def END(r): return START(r) + LEN(r)
def rsc(E, st, name, ro=True, null=False, aro=None, mn=0):
    p = E.newblk(st, name, 16, 'struct', ro=ro); d = {}
    if null: cap, n, a = 0, 0, Ptr(None)
    else:
        cap = z3.BitVec(name + '_cap', 32); n = z3.BitVec(name + '_n', 32)
        E.fact(And(sle(1, cap), sle(cap, RCAP), sle(mn, n), sle(n, cap), sle(n, RMAX)))
        a = E.newblk(st, name + '.runs', simpz(z3.ZeroExt(32, cap) * 4), 'arr', 4, ro=ro if aro is None else aro)
    fset(E, d, 'run_container_s', 'n_runs', n); fset(E, d, 'run_container_s', 'capacity', cap); fset(E, d, 'run_container_s', 'runs', a)
    st.mem[p.b] = d
    return p
def rn(E, st, p): return E.get(st, p, 'run_container_s', 'n_runs')
def rcap(E, st, p): return E.get(st, p, 'run_container_s', 'capacity')
def rruns(E, st, p): return E.get(st, p, 'run_container_s', 'runs')
def rnull(E, st, p): w = rruns(E, st, p); return isinstance(w, Ptr) and w.b is None
def rview(E, st, p):
    w = rruns(E, st, p)
    if isinstance(w, Ptr) and w.b is not None and st.blk[w.b].kind == 'raw': E.settle(st, st.blk[w.b], 4)
    return view(E, st, w)
def rlay(E, st, p):
    n, c = W(rn(E, st, p), 32), W(rcap(E, st, p), 32)
    return And(sle(0, n), sle(n, RMAX), sle(n, c), sle(c, RCAP), room(E, st, rruns(E, st, p), c, 4))
def fits(R, n): return allb(R, 0, n, lambda t: ule(END(R(t)), 65535))
def apart(R, n):
    n = W(n, 32)
    return forall2([R], lambda s, t: Implies(And(z3.ULT(s, t), z3.ULT(t, n)), ult(END(R(s)) + 1, START(R(t)))))
def rsorted(R, n): return And(fits(R, n), apart(R, n))
def rok(E, st, p, tag=''):
    yield 'layout' + tag, rlay(E, st, p)
    if not rnull(E, st, p):
        R, n = rview(E, st, p), rn(E, st, p)
        yield 'fits' + tag, fits(R, n)
        yield 'apart' + tag, apart(R, n)
def inrun(r, x): return And(ule(START(r), x), ule(x, END(r)))
def rmem(R, n, x, extra=()):
    """x: 32-bit"""
    n = W(n, 32)
    return exists1([R], lambda t: And(z3.ULT(t, n), inrun(R(t), x)), extra=extra)
def rhas(E, st, p, x): return z3.BoolVal(False) if rnull(E, st, p) else rmem(rview(E, st, p), rn(E, st, p), x)
def akey(E, R):
    """identifies the content of a list (a name, or the very object)"""
    a = R.a
    if isinstance(a.f, z3.FuncDeclRef) and not a.ops: return a.f.name()
    E.csmemo[id(a)] = a; return id(a)
def rrank(E, R, n, x, name='rk'):
    """ghost: number of runs starting at or before x (exists because the starts ascend)"""
    n = W(n, 32); key = ('rank', akey(E, R), str(R.i0), str(simpz(n)), str(simpz(x)))
    if key in E.csmemo: p = E.csmemo[key]
    else: p = E.csmemo[key] = z16(fbv(name, 16))       # n <= 32768
    E.fact(And(z3.ULE(p, n), forall1([R], lambda t: Implies(z3.ULT(t, n), (z3.ULT(t, p)) == ule(START(R(t)), x)), extra=[p, simpz(p - 1)])))
    return p
def rin(R, n, p, x): return And(p != 0, ule(p, W(n, 32)), ule(x, END(R(p - 1))), ule(START(R(p - 1)), x))
def rpre(*ix, more=None):
    def pre(c):
        for i in ix:
            for l, f in rok(c.E, c.st, c.a[i], ' %d' % i): yield l, f
        if more: yield from more(c)
    return pre
def rcells(E, p): return [(p,) + E.off('run_container_s', f) for f in ('n_runs', 'capacity', 'runs')]
def rmods(i=0, arr=True):
    def m(c):
        r = rcells(c.E, c.a[i]); w = rruns(c.E, c.old or c.st, c.a[i])
        if arr and w.b is not None: r.append(Ptr(w.b))
        return r
    return m
def one(*more, ro=True, null=True, mn=0):
    r = [S('', lambda E, st: [rsc(E, st, 'R', ro=ro, mn=mn)] + [m(E, st) for m in more])]
    if null: r.append(S('empty', lambda E, st: [rsc(E, st, 'R', ro=ro, null=True)] + [m(E, st) for m in more]))
    return r
def v16(n): return lambda E, st: z3.BitVec(n, 16)
def v32(n): return lambda E, st: z3.BitVec(n, 32)
def V0(c, i=0): return rview(c.E, c.old, c.a[i]), W(rn(c.E, c.old, c.a[i]), 32)
class _VC: pass
def V2C(V):
    c = _VC(); c.E, c.st, c.old, c.a = V.E, V.st, V.old, V.a; return c

# ---- searches over a list of runs
def _bs_setup(E, st):
    n = z3.BitVec('n', 32); E.fact(And(sle(0, n), sle(n, RMAX)))
    return [E.newblk(st, 'R', simpz(z3.ZeroExt(32, n) * 4), 'arr', 4, ro=True), n, z3.BitVec('key', 16)]
def _bs_pre(c):
    if c.a[0].b is None: yield 'length', eqv(c.a[1], 0, 32); return
    yield 'length', And(sle(0, c.a[1]), sle(c.a[1], RMAX)); yield 'room', room(c.E, c.st, c.a[0], c.a[1], 4)
    R = view(c.E, c.st, c.a[0]); yield 'fits', fits(R, c.a[1]); yield 'apart', apart(R, c.a[1])
def BV(c): return view(c.E, c.old, c.a[0]), W(c.a[1], 32), z16(W(c.a[2], 16))
def neg1(r): return mask(-1, 32) - r       # -(r+1)
def _ibs_post(c):
    if c.a[0].b is None: yield 'empty', eqv(c.ret, mask(-1, 32), 32); return
    R, n, x = BV(c); r = W(c.ret, 32); k = neg1(r)
    yield 'found', Implies(sle(0, r), And(ult(r, n), START(R(r)) == x))
    yield '*absent', Implies(slt(r, 0), And(ule(k, n), allb(R, 0, k, lambda t: ult(START(R(t)), x)), allb(R, k, n, lambda t: z3.UGT(START(R(t)), x))))
    p = rrank(c.E, R, n, x, 'p'); c.E.collect(R(simpz(p - 1)))
    yield 'rank', z3.If(And(p != 0, START(R(p - 1)) == x), r == p - 1, r == mask(-1, 32) - p)
def _ibs_call(E, st, a, i):
    """use of the contract: the two outcomes apart, the answer in terms of the number of runs starting at or before the key"""
    con = REG['interleavedBinarySearch']; c = Ctx(E, st, st, a, con=con)
    for lab, g in con.pre(c): E.oblig(st, g, 'precondition of interleavedBinarySearch: ' + lab)
    E.flush()
    if a[0].b is None: return mask(-1, 32)
    c.old = st; R, n, x = BV(c); p = rrank(E, R, n, x, 'p'); f = And(p != 0, START(R(simpz(p - 1))) == x)
    return Forks([(f, simpz(p - 1)), (Not(f), simpz(mask(-1, 32) - p))])
def _bs_inv(lo, hi):
    """lo, hi: what holds of the runs before low and after high"""
    def inv(V):
        c = V2C(V); R, n, x = BV(c); a, b = W(V.low, 32), W(V.high, 32)
        return [('range', And(sle(0, a), sle(a, b + 1), slt(b, n), sle(mask(-1, 32), b))), ('below', allb(R, 0, a, lambda t: lo(R(t), x))), ('above', allb(R, b + 1, n, lambda t: hi(R(t), x)))]
    return LoopSpec(inv)
BS = ['C03', 'C05', 'C06', 'C11', 'C14']
contract('interleavedBinarySearch', callspec=_ibs_call, props=BS, setups=[S('', _bs_setup)], pre=_bs_pre, post=_ibs_post, loops=[_bs_inv(lambda r, x: ult(START(r), x), lambda r, x: z3.UGT(START(r), x))])
def _fr_post(c):
    if c.a[0].b is None: yield 'empty', eqv(c.ret, mask(-1, 32), 32); return
    R, n, x = BV(c); r = W(c.ret, 32); k = neg1(r)
    yield 'found', Implies(sle(0, r), And(ult(r, n), inrun(R(r), x)))
    yield 'absent', Implies(slt(r, 0), And(ule(k, n), allb(R, 0, k, lambda t: ult(END(R(t)), x)), allb(R, k, n, lambda t: z3.UGT(START(R(t)), x))))
contract('rle16_find_run', props=['C06'], setups=[S('', _bs_setup)], pre=_bs_pre, post=_fr_post, loops=[_bs_inv(lambda r, x: ult(END(r), x), lambda r, x: z3.UGT(START(r), x))])
def _less_post(c):
    if c.a[0].b is None: yield 'empty', eqv(c.ret, 0, 32); return
    R, n, x = BV(c); r = W(c.ret, 32)
    yield 'count', And(ule(r, n), allb(R, 0, r, lambda t: ult(END(R(t)) + 1, x)), allb(R, r, n, lambda t: z3.UGE(END(R(t)) + 1, x)))
contract('rle16_count_less', props=['C06'], setups=[S('', _bs_setup)], pre=_bs_pre, post=_less_post, loops=[_bs_inv(lambda r, x: ult(END(r) + 1, x), lambda r, x: z3.UGT(START(r), x))])
def _gr_post(c):
    if c.a[0].b is None: yield 'empty', eqv(c.ret, 0, 32); return
    R, n, x = BV(c); r = W(c.ret, 32)
    yield 'count', And(ule(r, n), allb(R, n - r, n, lambda t: z3.UGT(START(R(t)), x + 1)), allb(R, 0, n - r, lambda t: ule(START(R(t)), x + 1)))
contract('rle16_count_greater', props=['C06'], setups=[S('', _bs_setup)], pre=_bs_pre, post=_gr_post, loops=[_bs_inv(lambda r, x: ult(END(r), x), lambda r, x: z3.UGT(START(r), x + 1))])

# ---- queries
def _c_post(c): yield 'value', Iff(c.ret, rhas(c.E, c.old, c.a[0], z16(W(c.a[1], 16))))
contract('run_container_contains', props=['C03', 'C05', 'C14', 'C01', 'C07'], setups=one(v16('pos')), pre=rpre(0), post=_c_post)
def _ie_post(c):
    if rnull(c.E, c.old, c.a[0]): yield 'none', W(c.ret, 32) == mask(-1, 32); return
    R, n = V0(c); r = W(c.ret, 32); x = z16(W(c.a[1], 16))
    yield 'found', Implies(r != mask(-1, 32), And(ult(r, n), ule(x, END(R(r))), allb(R, 0, r, lambda t: ult(END(R(t)), x))))
    yield 'none', Implies(r == mask(-1, 32), allb(R, 0, n, lambda t: ult(END(R(t)), x)))
contract('run_container_index_equalorlarger', props=['C03', 'C11', 'C13'], setups=one(v16('x')), pre=rpre(0), post=_ie_post)
def _minmax(i):
    def post(c):
        if rnull(c.E, c.old, c.a[0]): yield 'empty', W(c.ret, 16) == 0; return
        R, n = V0(c); yield 'value', And(Implies(n == 0, W(c.ret, 16) == 0), Implies(n != 0, z16(W(c.ret, 16)) == (END(R(n - 1)) if i else START(R(0)))))
    return post
contract('run_container_minimum', props=['C03', 'C11'], setups=one(), pre=rpre(0), post=_minmax(0))
contract('run_container_maximum', props=['C03', 'C11'], setups=one(), pre=rpre(0), post=_minmax(1))
def _full_post(c):
    R, n = V0(c); yield 'value', Iff(c.ret, And(n == 1, START(R(0)) == 0, END(R(0)) == 65535))
contract('run_container_is_full', props=['C01', 'C08', 'C02'], setups=one(null=False), pre=rpre(0, more=lambda c: [('buffer', z3.BoolVal(not rnull(c.E, c.st, c.a[0])))]), post=_full_post)

# ---- sizes: CS(t) = number of values in the first t runs (definition by recursion over the runs)
def CS_of(E, R, n, mono=False):
    """R sorted"""
    key = ('CS', akey(E, R), str(R.i0))
    if key not in E.csmemo: E.csmemo[key] = z3.Function('CS!%d' % len(E.csmemo), z3.BitVecSort(32), z3.BitVecSort(32))
    C = E.csmemo[key]; n = W(n, 32)
    E.fact(C(z3.BitVecVal(0, 32)) == 0)
    # definition, and lemma CS: the first t+1 runs, being disjoint, hold at least t+1 values and no more than the last of them reaches
    E.fact(allb(R, 0, n, lambda t: And(C(simpz(t + 1)) == C(t) + LEN(R(t)) + 1, ule(t + 1, C(simpz(t + 1))), ule(C(simpz(t + 1)), END(R(t)) + 1))))
    if mono: E.fact(forall2([R], lambda s, t: Implies(And(ult(s, t), ult(t, n)), ult(C(simpz(s + 1)), C(simpz(t + 1))))))      # lemma CS mono
    return C
def _rlem_vars():
    R, O = Arr(32, 32, name='lemR'), Arr(32, 32, name='lemRO'); n = z3.BitVec('n', 32)
    return View(R, 0), View(O, 0), n
def _lem_cs():
    R, O, n = _rlem_vars(); C = z3.Function('CS', z3.BitVecSort(32), z3.BitVecSort(32)); t = z3.BitVec('t', 32); ok = lambda t: And(ule(t + 1, C(t + 1)), ule(C(t + 1), END(R(t)) + 1)); df = lambda t: C(t + 1) == C(t) + LEN(R(t)) + 1
    return [ule(n, RMAX), fits(R, n), apart(R, n), C(z3.BitVecVal(0, 32)) == 0, ult(t + 1, t + 2), ult(t, t + 1), ult(t + 1, n), df(t + 1), ok(t), C(1) == C(0) + LEN(R(0)) + 1], And(ok(t + 1), ok(z3.BitVecVal(0, 32)))
def _lem_csm():
    R, O, n = _rlem_vars(); C = z3.Function('CS', z3.BitVecSort(32), z3.BitVecSort(32)); a, t = z3.BitVecs('a t', 32); up = lambda t: And(C(t + 1) == C(t) + LEN(R(t)) + 1, ule(C(t + 1), END(R(t)) + 1))
    return [ule(n, RMAX), fits(R, n), ult(t + 1, t + 2), ult(t, t + 1), ult(t + 1, n), up(t), up(t + 1), Or(a == t, And(ult(a, t), ult(C(a + 1), C(t + 1))))], ult(C(a + 1), C(t + 2))
import array_c
array_c.SEQ_LEMMAS['CS mono'] = _lem_csm
array_c.SEQ_LEMMAS['CS'] = _lem_cs
def CS0(c, i=0, mono=False): R, n = V0(c, i); return CS_of(c.E, R, n, mono)
def _card_post(c):
    if rnull(c.E, c.old, c.a[0]): yield 'empty', eqv(c.ret, 0, 32); return
    R, n = V0(c); C = CS0(c); yield 'value', eqv(c.ret, C(n), 32)
    c.E.collect(R(n - 1)); yield 'bound', And(sle(n, c.ret), sle(c.ret, 65536), Iff(W(c.ret, 32) == 0, n == 0))
def _card_gh(c):
    if rnull(c.E, c.old, c.a[0]): return {}
    R, n = V0(c); c.E.collect(R(n - 1)); return {'C': CS0(c)}
def _cards_inv(V):
    c = V2C(V); R, n = V0(c); C = V.E.gx['C']; k = W(V.k, 32)
    return [('range', ule(k, n)), ('sum', eqv(V.sum, n + C(k) - k, 32))]
def _cardv_inv(V):
    c = V2C(V); R, n = V0(c); C = V.E.gx['C']; k = W(V.k, 32)
    L = [z3.Extract(h, h - 31, W(x, 64)) for x in V.total for h in (31, 63)]; s = L[0]
    for x in L[1:]: s = s + x
    return [('range', ule(k, n)), ('sum', simpz(s) == C(k) - k)]
QC = ['C03', 'C08']
contract('_scalar_run_container_cardinality', props=QC, setups=one(null=False), pre=rpre(0), post=_card_post, ghost=_card_gh, loops=[LoopSpec(_cards_inv, hints=lambda V: _at(V, W(V.k, 32) - 1))])
def _at(V, *ix):
    """points of interest for the quantified facts"""
    R, n = V0(V2C(V))
    for i in ix: V.E.collect(R(i))
    return []
_cardt = LoopSpec(_cards_inv, hints=lambda V: _at(V, W(V.k, 32) - 1))
for _nm in ('_avx2_run_container_cardinality', '_avx512_run_container_cardinality'):
    contract(_nm, props=QC, setups=one(null=False), pre=rpre(0), post=_card_post, ghost=_card_gh, loops=[LoopSpec(_cardv_inv, hints=lambda V: _at(V, W(V.k, 32) - 1)), _cardt])
contract('run_container_cardinality', props=QC + ['C01', 'C14'], setups=one(null=False), pre=rpre(0), post=_card_post, ghost=_card_gh)
# ---- rank, select, index
def cnt_le(E, R, n, p, x):
    """number of values <= x, p: number of runs starting at or before x"""
    C = CS_of(E, R, n); q = simpz(p - 1)
    return z3.If(p == 0, z3.BitVecVal(0, 32), C(q) + z3.If(ule(x, END(R(q))), x - START(R(q)) + 1, LEN(R(q)) + 1))
def _rank_gh(c):
    R, n = V0(c); C = CS0(c); return {'C': C, 'p': rrank(c.E, R, n, z16(W(c.a[1], 16)), 'p')}
def _rank_post(c):
    R, n = V0(c); x = z16(W(c.a[1], 16)); p = c.E.gx['p'] if c.top else rrank(c.E, R, n, x, 'p')
    yield 'value', eqv(c.ret, cnt_le(c.E, R, n, p, x), 32)
def _rank_inv(V):
    E = V.E; c = V2C(V); R, n = V0(c); C = E.gx['C']; i = W(V.i, 32); x = z16(W(V.a[1], 16))
    return [('range', ule(i, n)), ('sum', eqv(V.sum, C(i), 32)), ('before', allb(R, 0, i, lambda t: ult(END(R(t)), x)))]
_rank_h = lambda V: _at(V, W(V.i, 32) - 1, W(V.i, 32), V.E.gx['p'] - 1, V.E.gx['p'])
contract('run_container_rank', props=['C03'], setups=one(v16('x'), null=False), pre=rpre(0), post=_rank_post, ghost=_rank_gh, loops=[LoopSpec(_rank_inv, hints=_rank_h)])
def _gi_post(c):
    R, n = V0(c); x = z16(W(c.a[1], 16)); p = c.E.gx['p'] if c.top else rrank(c.E, R, n, x, 'p'); C = CS0(c)
    yield 'found', Implies(rin(R, n, p, x), eqv(c.ret, C(p - 1) + x - START(R(p - 1)), 32))
    yield 'absent', Implies(Not(rin(R, n, p, x)), eqv(c.ret, mask(-1, 32), 32))
contract('run_container_get_index', props=['C03'], setups=one(v16('x'), null=False), pre=rpre(0), post=_gi_post, ghost=_rank_gh, loops=[LoopSpec(_rank_inv, hints=_rank_h)])
def _sel_post(c):
    E = c.E; R, n = V0(c); C = CS0(c); s0, s1 = rd32(c.old, c.a[1]), rd32(c.st, c.a[1]); k = W(c.a[2], 32) - s0; e = rd32(c.st, c.a[3])
    yield 'found iff rank below cardinality', Iff(c.ret, ult(k, C(n)))
    yield 'skipped', Implies(Not(c.ret), s1 == s0 + C(n))
    yield 'element', Implies(c.ret, exists1([R], lambda t: And(ult(t, n), ule(C(t), k), ult(k - C(t), LEN(R(t)) + 1), e == START(R(t)) + (k - C(t)))))
def _nowrap(c):
    s0 = rd32(c.st, c.a[1])
    yield 'order', And(ule(s0, c.a[2]), ule(s0, 0xffffffff - 65536 * 2))
def _sel_inv(V):
    E = V.E; c = V2C(V); R, n = V0(c); C = E.gx['C']; i = W(V.i, 32); s0, s1 = rd32(V.old, V.a[1]), rd32(V.st, V.a[1])
    return [('range', ule(i, n)), ('start', s1 == s0 + C(i)), ('so far', z3.ULE(s1, W(V.a[2], 32))), ('monotone', Implies(i != 0, And(ule(i, C(i)), ule(C(i), 65536))))]
def _sel_setup(E, st): return [rsc(E, st, 'R'), _init32(E, st, 'start_rank'), z3.BitVec('rank', 32), _init32(E, st, 'element')]
contract('run_container_select', props=['C03'], setups=[S('', _sel_setup)], pre=rpre(0, more=_nowrap), post=_sel_post, ghost=lambda c: (CS0(c, mono=True), _card_gh(c))[1], modifies=lambda c: [c.a[1], c.a[3]], loops=[LoopSpec(_sel_inv, hints=lambda V: _at(V, W(V.i, 32) - 1, W(V.i, 32)))])

# ---- comparison
TWO = [S('', lambda E, st: [rsc(E, st, 'R'), rsc(E, st, 'Q')]), S('same', lambda E, st: [rsc(E, st, 'R')] * 2)]
def _eq_post(c):
    R, n = V0(c, 0); Q, m = V0(c, 1)
    yield 'equal', Implies(c.ret, And(n == m, allb(R, 0, n, lambda t: R(t) == Q(t))))
    yield 'different', Implies(Not(c.ret), Or(n != m, exists1([R], lambda t: And(ult(t, n), R(t) != Q(t)))))
contract('run_container_equals', props=['C07', 'C17'], setups=TWO, pre=rpre(0, 1), post=_eq_post)
RKF = z3.Function('rkr', z3.BitVecSort(32), z3.BitVecSort(32))
def all_in(c):
    """every run of the first lies within one of the second (rkr: which)"""
    R, n = V0(c, 0); Q, m = V0(c, 1)
    return forall1([R], lambda t: Implies(ult(t, n), And(ult(RKF(t), m), ule(START(Q(RKF(t))), START(R(t))), ule(END(R(t)), END(Q(RKF(t)))))))
def _sub_gh(c):
    R, n = V0(c, 0); Q, m = V0(c, 1)
    return {'pR': rrank(c.E, R, n, X32, 'pR'), 'pQ': rrank(c.E, Q, m, X32, 'pQ')}
def _sub_post(c):
    R, n = V0(c, 0); Q, m = V0(c, 1)
    yield 'subset', Implies(And(c.ret, rmem(R, n, X32)), rmem(Q, m, X32, extra=[c.E.gx['pQ'] - 1] if c.top else ()))
    yield 'not subset', Implies(And(c.top, Not(c.ret)), Not(all_in(c)))
def _sub_inv(V):
    E = V.E; c = V2C(V); R, n = V0(c, 0); Q, m = V0(c, 1); i, j = W(V.i1, 32), W(V.i2, 32); pR, pQ = E.gx['pR'], E.gx['pQ']
    V.E.collect(R(i)); V.E.collect(Q(j - 1))
    return [('range', And(ule(i, n), ule(j, m))), ('order', Implies(And(j != 0, ult(i, n)), ult(END(Q(j - 1)), END(R(i))))), ('x', Implies(And(rin(R, n, pR, X32), ule(pR, i)), rin(Q, m, pQ, X32)))]
contract('run_container_is_subset', props=['C07'], setups=TWO, pre=rpre(0, 1), post=_sub_post, ghost=_sub_gh, loops=[LoopSpec(_sub_inv)])
def _crange_pre(c): yield 'range', And(ult(c.a[1], c.a[2]), ule(c.a[2], 65536))
def _crange_setup(E, st):
    s, e = z3.BitVec('start', 32), z3.BitVec('end', 32); E.fact(And(ult(s, e), ule(e, 65536))); return [rsc(E, st, 'R'), s, e]
def _crange_gh(c): R, n = V0(c); p = rrank(c.E, R, n, W(c.a[1], 32), 'p'); c.E.collect(R(p - 1)); c.E.collect(R(p)); return {'p': p}
def _crange_post(c):
    R, n = V0(c); s, e = W(c.a[1], 32), W(c.a[2], 32); p = c.E.gx['p'] if c.top else rrank(c.E, R, n, s, 'p')
    if c.top: yield '*value', Iff(c.ret, And(rin(R, n, p, s), ule(e - 1, END(R(p - 1)))))
    yield 'all present', Implies(And(c.ret, ule(s, X32), ult(X32, e)), rmem(R, n, X32, extra=[p - 1]))
    # when some value is missing one of the first value and the one after the run holding it is missing
    y = END(R(p - 1)) + 1
    yield 'some missing', Implies(Not(c.ret), Or(Not(rmem(R, n, s)), And(ule(s, y), ult(y, e), Not(rmem(R, n, y)))))
def _crange_inv(V):
    E = V.E; c = V2C(V); R, n = V0(c); i = W(V.i, 32); p = E.gx['p']; s, e = W(V.a[1], 32), W(V.a[2], 32); k = W(V.count, 32); ix = p - 1
    E.collect(R(i - 1)); E.collect(R(i))
    return [('range', And(ule(ix, i), ule(i, n), rin(R, n, p, s))), ('first', Implies(i == ix, k == 0)), ('second', Implies(i == p, And(k == END(R(ix)) - s, ult(END(R(ix)), e)))),
            ('later', Implies(z3.UGT(i, p), And(ule(k + s + 2, END(R(i - 1))), ult(END(R(ix)), e - 1), ult(END(R(i - 1)), e), ule(k, 65536))))]
contract('run_container_contains_range', props=['C03', 'C07'], setups=[S('', _crange_setup)], pre=rpre(0, more=_crange_pre), post=_crange_post, ghost=_crange_gh, loops=[LoopSpec(_crange_inv)])

# ---- validity
def _val_setup(null):
    def f(E, st):
        p = E.newblk(st, 'R', 16, 'struct', ro=True); d = {}
        cap = z3.BitVec('R_cap', 32); n = z3.BitVec('R_n', 32); m = z3.BitVec('alloc', 32); E.fact(And(sle(1, m), sle(m, RCAP)))
        E.fact(Or(sle(cap, 0), sle(n, 0), sle(cap, m)))
        a = Ptr(None) if null else E.newblk(st, 'R.runs', simpz(z3.ZeroExt(32, m) * 4), 'arr', 4, ro=True)
        fset(E, d, 'run_container_s', 'n_runs', n); fset(E, d, 'run_container_s', 'capacity', cap); fset(E, d, 'run_container_s', 'runs', a)
        st.mem[p.b] = d
        return [p, E.newblk(st, 'reason', 8, 'struct', ro=False)]
    return S('null' if null else '', f)
def _val_post(c):
    E = c.E; n, cap = W(rn(E, c.old, c.a[0]), 32), W(rcap(E, c.old, c.a[0]), 32)
    if rnull(E, c.old, c.a[0]): yield 'invalid', Not(c.ret); return
    R = rview(E, c.old, c.a[0]); ok = And(sle(1, n), sle(n, cap))
    yield 'valid: size', Implies(c.ret, ok)
    yield 'valid: fits', Implies(c.ret, fits(R, n))
    yield 'valid: apart', Implies(c.ret, apart(R, n))
    yield 'invalid', Implies(And(Not(c.ret), ok), exists1([R], lambda t: And(ult(t, n), Or(z3.UGT(END(R(t)), 65535), And(ult(0, t), z3.UGE(END(R(t - 1)) + 1, START(R(t))))))))
def _val_inv(V):
    c = V2C(V); R, n = V0(c); i = W(V.i, 32)
    return [('range', And(ule(0, i), ule(i, n), sle(1, n))), ('last', W(V.last_end, 32) == z3.If(i == 0, z3.BitVecVal(0, 32), END(R(i - 1)) + 1)), ('fits', fits(R, i)), ('apart', apart(R, i))]
contract('run_container_validate', props=['C08', 'C10'], setups=[_val_setup(False), _val_setup(True)], pre=P0, post=_val_post, modifies=lambda c: [c.a[1]], loops=[LoopSpec(_val_inv)])

# ---- construction, copies
def fresh_ok(c, q, n):
    yield 'layout', rlay(c.E, c.st, q); yield 'runs', eqv(rn(c.E, c.st, q), n, 32)
def _cg_post(c):
    yield from fresh_ok(c, c.ret, 0); yield 'capacity', eqv(rcap(c.E, c.st, c.ret), c.a[0], 32)
NEW = ['C01', 'C02', 'C06', 'C12', 'C13']
def _capv(E): v = z3.BitVec('size', 32); E.fact(And(sle(1, v), sle(v, RCAP))); return v
contract('run_container_create_given_capacity', props=NEW, setups=[S('', lambda E, st: [_capv(E)]), S('zero', lambda E, st: [0])], pre=lambda c: [('size', And(sle(0, c.a[0]), sle(c.a[0], RCAP)))], post=_cg_post, inline_always=True)
contract('run_container_create', props=NEW, setups=[S('', lambda E, st: [])], pre=P0, post=lambda c: fresh_ok(c, c.ret, 0), inline_always=True)
def _crr(E, st): a, b = z3.BitVec('start', 32), z3.BitVec('stop', 32); E.fact(And(ult(a, b), ule(b, 65536))); return [a, b]
def _crr_post(c):
    E = c.E; a, b = W(c.a[0], 32), W(c.a[1], 32)
    yield from fresh_ok(c, c.ret, 1)
    O = rview(E, c.st, c.ret); yield 'content', And(START(O(0)) == a, END(O(0)) == b - 1)
    yield 'members', Iff(rmem(O, 1, X32, extra=[0]), And(ule(a, X32), ult(X32, b)))
    yield from rok(E, c.st, c.ret)
contract('run_container_create_range', props=['C06', 'C05', 'C14'], setups=[S('', _crr)], pre=lambda c: [('range', And(ult(c.a[0], c.a[1]), ule(c.a[1], 65536)))], post=_crr_post, inline_always=True)
def same_runs(c, p, q, tag=''):
    E = c.E; n = W(rn(E, c.old, p), 32); yield 'runs' + tag, eqv(rn(E, c.st, q), n, 32)
    if rnull(E, c.old, p): return
    R, O = rview(E, c.old, p), rview(E, c.st, q)
    yield 'content' + tag, allb(R, 0, n, lambda t: O(t) == R(t))
    yield 'independent' + tag, z3.BoolVal(rruns(E, c.st, q).b != rruns(E, c.old, p).b)
def _cl_post(c):
    yield 'layout', rlay(c.E, c.st, c.ret); yield from same_runs(c, c.a[0], c.ret); yield 'capacity', eqv(rcap(c.E, c.st, c.ret), rcap(c.E, c.old, c.a[0]), 32)
contract('run_container_clone', props=NEW, setups=one(), pre=rpre(0), post=_cl_post, inline_always=True)
def ok_after(c, i=0):
    for l, f in rok(c.E, c.st, c.a[i]): yield l + ' afterwards', f
def _cp_post(c):
    yield from ok_after(c, 1); yield from same_runs(c, c.a[0], c.a[1])
contract('run_container_copy', props=NEW, setups=[S('%s%s' % (n1 and 'empty ' or '', n2 and 'into empty' or ''), (lambda n1, n2: lambda E, st: [rsc(E, st, 'R', null=n1), rsc(E, st, 'O', ro=False, null=n2)])(n1, n2)) for n1 in (0, 1) for n2 in (0, 1)],
         pre=lambda c: list(rok(c.E, c.st, c.a[0], ' 0')) + [('layout 1', rlay(c.E, c.st, c.a[1]))], post=_cp_post, modifies=rmods(1), inline_always=True)
def _grow_setup(null, pres):
    def f(E, st):
        p = rsc(E, st, 'R', ro=False, null=null); mn = z3.BitVec('min', 32); E.fact(And(sle(1, mn), sle(mn, RMIN), slt(rcap(E, st, p), mn)))
        return [p, mn, 1 if pres else 0]
    return S('%s%s' % ('preserve' if pres else '', ' empty' if null else ''), f)
def _grow_post(c):
    E = c.E; yield 'layout', rlay(E, c.st, c.a[0]); yield 'capacity', sle(c.a[1], rcap(E, c.st, c.a[0]))
    yield 'runs', eqv(rn(E, c.st, c.a[0]), rn(E, c.old, c.a[0]), 32)
    if c.a[2] == 1 and not rnull(E, c.old, c.a[0]):
        R, n = V0(c); O = rview(E, c.st, c.a[0]); yield 'content', allb(R, 0, n, lambda t: O(t) == R(t))
def _grow_call(E, st, a, i):
    """use of the contract: a new buffer of the new capacity, holding the old runs when they are to be preserved"""
    p, mn, pres = a
    c = Ctx(E, st, st, a); con = REG['run_container_grow']
    for lab, g in con.pre(c): E.oblig(st, g, 'precondition of run_container_grow: ' + lab)
    E.flush()
    cap = fbv('cap', 32); E.fact(And(sle(mn, cap), sle(rcap(E, st, p), cap), sle(cap, RCAP)))
    w = rruns(E, st, p); pres = isc(pres) and pres == 1 or pres is True or (z3.is_expr(pres) and z3.is_true(z3.simplify(B(pres))))
    q = E.newblk(st, 'grown:%s:%s' % ('/'.join(st.frames[-1].path), i.res or id(i)), simpz(z3.ZeroExt(32, cap) * 4), 'arr', 4, fresh=True)
    if pres and w.b is not None and isinstance(st.mem[w.b], Arr): st.mem[q.b] = st.mem[w.b]
    if w.b is not None: st.dead.add(w.b)
    d = dict(st.mem[p.b]); fset(E, d, 'run_container_s', 'capacity', cap); fset(E, d, 'run_container_s', 'runs', q); st.mem[p.b] = d
    return None
contract('run_container_grow', callspec=_grow_call, props=['C05', 'C01', 'C02', 'C10'], setups=[_grow_setup(a, b) for a in (0, 1) for b in (0, 1)], pre=lambda c: [('layout', rlay(c.E, c.st, c.a[0])), ('min', And(sle(1, c.a[1]), sle(c.a[1], RMIN), slt(rcap(c.E, c.st, c.a[0]), c.a[1])))], post=_grow_post, modifies=rmods())
def _shr_post(c):
    E = c.E; n, cap = W(rn(E, c.old, c.a[0]), 32), W(rcap(E, c.old, c.a[0]), 32)
    yield 'saved', W(c.ret, 32) == cap - n; yield 'capacity', W(rcap(E, c.st, c.a[0]), 32) == n; yield 'layout', rlay(E, c.st, c.a[0]); yield 'runs', W(rn(E, c.st, c.a[0]), 32) == n
    if rnull(E, c.st, c.a[0]): yield 'nothing lost', n == 0; return
    R, O = rview(E, c.old, c.a[0]), rview(E, c.st, c.a[0]); yield 'content', allb(R, 0, n, lambda t: O(t) == R(t))
contract('run_container_shrink_to_fit', props=['C08', 'C04', 'C02'], setups=one(ro=False, mn=1), pre=rpre(0), post=_shr_post, modifies=rmods(), inline_always=True)

# ---- point updates
def rsame(c, i=0):
    E = c.E
    if rnull(E, c.old, c.a[i]): return eqv(rn(E, c.st, c.a[i]), 0, 32)
    R, n = V0(c, i); O = rview(E, c.st, c.a[i])
    return And(W(rn(E, c.st, c.a[i]), 32) == n, allb(R, 0, n, lambda t: O(t) == R(t)))
def _upd_gh(c):
    if rnull(c.E, c.old, c.a[0]): return {}
    R, n = V0(c); v = z16(W(c.a[1], 16)); px, pv = rrank(c.E, R, n, X32, 'px'), rrank(c.E, R, n, v, 'pv')
    for i in (px, px - 1, pv, pv - 1): c.E.collect(R(simpz(i)))
    c.E.fact(gaps(R, n)); c.E.collect(R(simpz(n - 1)))
    return {'px': px, 'pv': pv}
def _had(c, x, p='pv'):
    if rnull(c.E, c.old, c.a[0]): return z3.BoolVal(False)
    R, n = V0(c); return rin(R, n, c.E.gx[p], x) if c.top else rmem(R, n, x)
def _around(c):
    if not c.top or rnull(c.E, c.old, c.a[0]): return [0]
    px, pv = c.E.gx['px'], c.E.gx['pv']; return [px, px - 1, px - 2, pv - 1, pv]
def gaps(R, n):
    """lemma: sorted disjoint non-adjacent runs are at least two values apart each"""
    return And(forall2([R], lambda s, t: Implies(And(ult(s, t), ult(t, n)), And(z3.UGE(START(R(t)), END(R(s)) + 2 * (t - s))))), allb(R, 0, n, lambda t: z3.UGE(START(R(t)), 2 * t)))
def _lem_gaps():
    R, O, n = _rlem_vars(); a, t = z3.BitVecs('a t', 32)
    return [ule(n, RMAX + 1), fits(R, n), apart(R, n), ult(t + 1, t + 2), ult(t, t + 1), ult(t + 1, n), z3.UGE(START(R(t)), 2 * t), Or(a == t, And(ult(a, t), z3.UGE(START(R(t)), END(R(a)) + 2 * (t - a))))], And(z3.UGE(START(R(t + 1)), END(R(a)) + 2 * (t + 1 - a)), z3.UGE(START(R(t + 1)), 2 * (t + 1)))
array_c.SEQ_LEMMAS['run gaps'] = _lem_gaps
def rel(n, *pairs): return And(*pairs)
class Edit:
    """runs [a,b) of a list R of n runs are replaced by the runs new (pairs first, last)"""
    def __init__(s, R, n, a, b, new, u=None, d=None, k=None):
        s.R, s.n, s.a, s.b, s.new = R, W(n, 32), W(a, 32), W(b, 32), [(W(x, 32), W(y, 32)) for x, y in new]; s.m = len(s.new)
        s.u = simpz(s.a + s.m) if u is None else u; s.d = simpz(s.b - s.u) if d is None else d; s.k = simpz(s.n - s.d) if k is None else k
    def form(s, O, k):
        """the new list O (k runs), piece by piece"""
        R, a, b, m = s.R, s.a, s.b, s.m
        yield 'count', W(k, 32) == s.k
        yield 'runs before', allb(O, 0, a, lambda t: O(t) == R(t))
        for j, (x, y) in enumerate(s.new): yield 'new run %d' % j, And(START(O(a + j)) == x, END(O(a + j)) == y)
        yield 'runs after', allb(O, s.u, s.k, lambda t: And(O(t) == R(simpz(t + s.d)), ule(b, simpz(t + s.d)), ult(simpz(t + s.d), s.n)))
    def ok(s):
        """the new runs fit where they are put"""
        R, a, b, n = s.R, s.a, s.b, s.n; r = [ule(a, b), ule(b, n)]; prev = None
        for x, y in s.new:
            r += [ule(x, y), ule(y, 65535), Or(a == 0, ult(END(R(a - 1)) + 1, x)) if prev is None else ult(prev + 1, x)]; prev = y
        if prev is not None: r.append(Or(b == n, ult(prev + 1, START(R(b)))))
        return And(*r)
    def kept(s, px): return Or(ult(px - 1, s.a), z3.UGE(px - 1, s.b))
    def what(s, X, px): return Or(And(rin(s.R, s.n, px, X), s.kept(px)), *[And(ule(x, X), ule(X, y)) for x, y in s.new])
    def pieces(s, O, X, px):
        """lemma splice: X is in the new list iff what(X) holds, and the new list is sorted; cut by where the indices lie: (formula, points)"""
        R, n, a, b, m, k, u = s.R, s.n, s.a, s.b, s.m, s.k, s.u; hit = lambda i: And(ult(i, k), inrun(O(simpz(i)), X)); t = z3.BitVec('t', 32); w = s.what(X, px)
        q, d = px - 1, s.d; nw = [a + j for j in range(m)]; i = z3.BitVec('i', 32); lt = lambda i, t: ult(END(O(i)) + 1, START(O(t)))
        yield Implies(And(rin(R, n, px, X), ult(q, a)), hit(q)), [q], [q]
        yield Implies(And(rin(R, n, px, X), z3.UGE(q, b)), And(ule(u, q - d), hit(q - d))), [q], [q - d]
        for j, (x, y) in enumerate(s.new): yield Implies(And(ule(x, X), ule(X, y)), hit(a + j)), [], [a + j]
        yield Implies(And(ult(t, a), inrun(O(t), X)), w), [t, q], [t]
        for j in range(m): yield Implies(inrun(O(a + j), X), w), [], [a + j]
        yield Implies(And(ule(u, t), ult(t, k), inrun(O(t), X)), w), [t + d, q], [t]
        yield Implies(ult(t, a), ule(END(O(t)), 65535)), [t], [t]; yield Implies(And(ule(u, t), ult(t, k)), ule(END(O(t)), 65535)), [t + d], [t]
        for j in range(m): yield ule(END(O(a + j)), 65535), [], [a + j]
        yield Implies(And(ult(i, t), ult(t, a)), lt(i, t)), [i, t], [i, t]
        yield Implies(And(ult(i, a), ule(u, t), ult(t, k)), lt(i, t)), [i, t + d], [i, t]
        yield Implies(And(ule(u, i), ult(i, t), ult(t, k)), lt(i, t)), [i + d, t + d], [i, t]
        for j in range(m):
            yield Implies(ult(i, a), lt(i, a + j)), [i, a - 1], [i, a + j]
            yield Implies(And(ule(u, t), ult(t, k)), lt(a + j, t)), [b, t + d], [a + j, t]
            if j: yield lt(a + j - 1, a + j), [], [a + j - 1, a + j]
def _lem_splice(m, w):
    def f():
        R, O, n = _rlem_vars(); a, b, u, d, k, px = z3.BitVecs('a b u d k px', 32); ed = Edit(R, n, a, b, [(z3.BitVec('s%d' % j, 32), z3.BitVec('e%d' % j, 32)) for j in range(m)], u, d, k)
        H = [ule(n, RMAX), u == a + m, b == u + d, n == k + d, ule(k, RMAX + 1), ule(u, k), fits(R, n), apart(R, n), ed.ok(), ule(px, n), forall1([R], lambda t: Implies(ult(t, n), ult(t, px) == ule(START(R(t)), X32)))] + [g for l, g in ed.form(O, ed.k)]
        ps = list(ed.pieces(O, X32, px)); assert len(ps) == 9 + 5 * m + (m == 2); g, ri, oi = ps[w]
        return H + [R(i) == R(i) for i in ri] + [O(i) == O(i) for i in oi], g
    return f
for _m in (0, 1, 2):
    for _w in range(9 + 5 * _m + (_m == 2)): array_c.SEQ_LEMMAS['splice %d.%02d' % (_m, _w)] = _lem_splice(_m, _w)
def edits(c, cases, changed, px, target):
    """cases: (label, condition, Edit): the list after the operation, X being in it iff target; by lemma splice its content and order then follow"""
    E = c.E; O, k = rview(E, c.st, c.a[0]), rn(E, c.st, c.a[0])
    yield '*cases', Implies(changed, Or(*[cond for l, cond, ed in cases]))
    for l, cond, ed in cases:
        cond = And(changed, cond)
        for i in (ed.a, ed.a - 1, ed.b): E.collect(ed.R(simpz(i)))
        yield '*%s: place' % l, Implies(cond, ed.ok())
        for l2, g in ed.form(O, k): yield '*%s: %s' % (l, l2), Implies(cond, g)
        yield '*%s: members' % l, Implies(cond, Iff(target, ed.what(X32, px)))
    yield '*size', Implies(changed, ule(k, RMAX + 1))
    yield 'lemma splice: size', Implies(changed, And(sle(0, k), sle(k, RMAX)))      # and lemma run gaps of the new list
def _upd_setup(null):
    def g(E, st):
        p = rsc(E, st, 'R', ro=False, null=null)
        return [p, z3.BitVec('pos', 16)]
    return S('empty' if null else '', g)
def _add_post(c):
    E = c.E; v = z16(W(c.a[1], 16)); was = _had(c, v)
    yield 'changed', Iff(c.ret, Not(was))
    yield 'unchanged', Implies(Not(c.ret), rsame(c))
    O, k = rview(E, c.st, c.a[0]), W(rn(E, c.st, c.a[0]), 32)
    if c.top:
        for i in _around(c): E.collect(O(simpz(W(i, 32))))
    h = _had(c, X32, 'px'); lem = 'lemma splice: ' if c.top and not rnull(E, c.old, c.a[0]) else ''
    if c.top and not rnull(E, c.old, c.a[0]):
        R, n = V0(c); px, p = E.gx['px'], E.gx['pv']; q = simpz(p - 1); pre, nxt = And(p != 0, END(R(q)) + 1 == v), And(p != n, START(R(p)) == v + 1)
        yield from edits(c, [('fuse', And(pre, nxt), Edit(R, n, q, p + 1, [(START(R(q)), END(R(p)))])), ('extend previous', And(pre, Not(nxt)), Edit(R, n, q, p, [(START(R(q)), v)])),
                             ('extend next', And(Not(pre), nxt), Edit(R, n, p, p + 1, [(v, END(R(p)))])), ('insert', And(Not(pre), Not(nxt)), Edit(R, n, p, p, [(v, v)]))], Not(was), px, Or(_had(c, X32, 'px'), X32 == v))
    yield lem + 'nothing lost', Implies(And(c.ret, Or(h, X32 == v)), rmem(O, k, X32, extra=_around(c)))
    yield lem + 'nothing else', Implies(And(c.ret, rmem(O, k, X32)), Or(h, X32 == v))
    for l, f in ok_after(c): yield (lem if 'layout' not in l else '') + l, (Implies(c.ret, f) if lem and 'layout' not in l else f)
contract('run_container_add', props=['C05', 'C14'], setups=[_upd_setup(False), _upd_setup(True)], pre=rpre(0), post=_add_post, ghost=_upd_gh, modifies=rmods(), inline_always=True)
def _rm_post(c):
    E = c.E; v = z16(W(c.a[1], 16)); was = _had(c, v)
    yield 'changed', Iff(c.ret, was)
    yield 'unchanged', Implies(Not(c.ret), rsame(c))
    if rnull(E, c.st, c.a[0]): yield 'nothing to remove', Not(c.ret); return
    O, k = rview(E, c.st, c.a[0]), W(rn(E, c.st, c.a[0]), 32)
    if c.top:
        for i in _around(c): E.collect(O(simpz(W(i, 32))))
    h = _had(c, X32, 'px'); lem = 'lemma splice: ' if c.top and not rnull(E, c.old, c.a[0]) else ''
    if c.top and not rnull(E, c.old, c.a[0]):
        R, n = V0(c); px, p = E.gx['px'], E.gx['pv']; q = simpz(p - 1); s, e = START(R(q)), END(R(q)); first, last = s == v, e == v
        yield from edits(c, [('single', And(first, last), Edit(R, n, q, p, [])), ('first', And(first, Not(last)), Edit(R, n, q, p, [(v + 1, e)])), ('last', And(Not(first), last), Edit(R, n, q, p, [(s, v - 1)])),
                             ('split', And(Not(first), Not(last)), Edit(R, n, q, p, [(s, v - 1), (v + 1, e)]))], was, px, And(_had(c, X32, 'px'), X32 != v))
    yield lem + 'nothing lost', Implies(And(c.ret, h, X32 != v), rmem(O, k, X32, extra=_around(c)))
    yield lem + 'nothing else', Implies(And(c.ret, rmem(O, k, X32)), And(h, X32 != v))
    for l, f in ok_after(c): yield (lem if 'layout' not in l else '') + l, (Implies(c.ret, f) if lem and 'layout' not in l else f)
contract('run_container_remove', props=['C05', 'C14'], setups=[_upd_setup(False), _upd_setup(True)], pre=rpre(0), post=_rm_post, ghost=_upd_gh, modifies=rmods(), inline_always=True)
