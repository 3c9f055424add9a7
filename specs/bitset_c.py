"""Bitset containers: construction, single bits, queries, predicates, copies."""
from common import *
from words import *
from words import _pre as _prew, _ghost3, _inv_sc, _h_sc
from bitops import *
from lemmas import *
import common
UNK = mask(-1, 32)
S1 = [S('', lambda E, st: [bsc(E, st, 'A')])]
S1w = [S('', lambda E, st: [bsc(E, st, 'A', ro=False)])]
S2 = [S('', lambda E, st: [bsc(E, st, 'A'), bsc(E, st, 'B')]), S('same', lambda E, st: [bsc(E, st, 'A')] * 2)]
def barr(E, st, p):
    """word content as an array value starting at element 0"""
    return E.arr(st, bwords(E, st, p))
def cardok(E, st, p, unk=True):
    c = W(bcard(E, st, p), 32); e = c == PS32(barr(E, st, p), NW)
    return Or(c == UNK, e) if unk else e
def cpre(*ix, card=None):
    """containers are laid out; card: None ignore, True exact, 'unk' exact or unknown"""
    def pre(c):
        for i in ix:
            yield 'container %d' % i, wellf(c.E, c.st, c.a[i])
            if card: yield 'cardinality %d' % i, cardok(c.E, c.st, c.a[i], card == 'unk')
    return pre
def sset(*mk):
    """setups with the cardinality invariant assumed"""
    return mk
P0 = lambda c: []
def bfacts(E, A): return And(PS_bound(A, NW), PS_unfold(A, 0))
def bmods(c): return [bwords(c.E, c.st if c.ret is None and not c.old else c.old, c.a[0]), cardcell(c.E, c.a[0])]

# ---- construction
def _new_post(v):
    def post(c):
        E = c.E; q = c.ret; O = bview(E, c.st, q)
        yield 'layout', wellf(E, c.st, q)
        yield 'cardinality', eqv(bcard(E, c.st, q), 0, 32)
        yield 'words', allb(O, 0, NW, lambda t: O(t) == v)
    return post
BASIC = ['C01', 'C02', 'C05', 'C06', 'C12']
contract('bitset_container_create', props=BASIC, setups=[S('', lambda E, st: [])], pre=P0, post=_new_post(ZERO), inline_always=True)
contract('bitset_container_clear', props=BASIC, setups=S1w, pre=cpre(0), post=lambda c: [('cardinality', eqv(bcard(c.E, c.st, c.a[0]), 0, 32)), ('words', allb(bview(c.E, c.st, c.a[0]), 0, NW, lambda t: bview(c.E, c.st, c.a[0])(t) == ZERO))], modifies=bmods, inline_always=True)
contract('bitset_container_set_all', props=BASIC, setups=S1w, pre=cpre(0), post=lambda c: [('cardinality', eqv(bcard(c.E, c.st, c.a[0]), 65536, 32)), ('words', allb(bview(c.E, c.st, c.a[0]), 0, NW, lambda t: bview(c.E, c.st, c.a[0])(t) == FULL))], modifies=bmods, inline_always=True)
def _cp_post(dst):
    def post(c):
        E = c.E; p = c.a[0]; q = dst(c); A, O = bview(E, c.old, p), bview(E, c.st, q)
        yield 'layout', wellf(E, c.st, q)
        yield 'cardinality', eqv(bcard(E, c.st, q), bcard(E, c.old, p), 32)
        yield 'words', allb(O, 0, NW, lambda t: O(t) == A(t))
        yield 'independent', z3.BoolVal(bwords(E, c.st, q).b != bwords(E, c.old, p).b)
    return post
contract('bitset_container_copy', props=BASIC + ['C13'], setups=[S('', lambda E, st: [bsc(E, st, 'A'), bsc(E, st, 'O', ro=False)])], pre=cpre(0, 1), post=_cp_post(lambda c: c.a[1]),
         modifies=lambda c: [bwords(c.E, c.st if not c.old else c.old, c.a[1]), cardcell(c.E, c.a[1])], inline_always=True)
contract('bitset_container_clone', props=BASIC + ['C13'], setups=S1, pre=cpre(0), post=_cp_post(lambda c: c.ret), inline_always=True)

# ---- single bits
def _bp(E): return z3.BitVec('pos', 16)
def _one(E, st): return [bsc(E, st, 'A', ro=False), _bp(E)]
def _bit_post(val):
    def post(c):
        E = c.E; p, x = c.a; A, O = bview(E, c.old, p), bview(E, c.st, p); Aa = barr(E, c.old, p)
        x32 = z3.ZeroExt(16, W(x, 16)); w = z3.LShR(x32, 6); i = z3.ZeroExt(32, x32 & 63); m = ONE << i
        nw = (A(w) | m) if val else (A(w) & ~m)
        yield 'words', allb(O, 0, NW, lambda t: O(t) == z3.If(t == w, nw, A(t)))
        was = bit(A, x32)
        d = z3.If(was, z3.BitVecVal(0 if val else -1, 32), z3.BitVecVal(1 if val else 0, 32))
        yield 'cardinality', W(bcard(E, c.st, p), 32) == W(bcard(E, c.old, p), 32) + d
        if c.ret is not None: yield 'changed', Iff(c.ret, Not(was) if val else was)
        yield 'count kept exact', Implies(W(bcard(E, c.old, p), 32) == PS32(Aa, NW), W(bcard(E, c.st, p), 32) == PS32(barr(E, c.st, p), NW))
    return post
def _bit_hint(c):
    E = c.E; A = bview(E, c.old, c.a[0]); x32 = z3.ZeroExt(16, W(c.a[1], 16)); w = z3.LShR(x32, 6)
    return [POP_setbit(A(w), z3.ZeroExt(32, x32 & 63))]
PT = ['C05', 'C14']
contract('bitset_container_set', props=PT + ['C01', 'C02'], setups=[S('', _one)], pre=cpre(0), post=_bit_post(True), hints=_bit_hint, modifies=bmods)
contract('bitset_container_add', props=PT, setups=[S('', _one)], pre=cpre(0), post=_bit_post(True), hints=_bit_hint, modifies=bmods)
contract('bitset_container_remove', props=PT, setups=[S('', _one)], pre=cpre(0), post=_bit_post(False), hints=_bit_hint, modifies=bmods)
contract('bitset_container_get', props=PT + ['C03', 'C01', 'C07'], setups=[S('', lambda E, st: [bsc(E, st, 'A'), _bp(E)])], pre=cpre(0),
         post=lambda c: [('value', Iff(c.ret, bit(bview(c.E, c.old, c.a[0]), W(c.a[1], 16))))])
def _gr_post(c):
    A = bview(c.E, c.old, c.a[0]); s, e = W(c.a[1], 32), W(c.a[2], 32)
    yield 'all', Implies(c.ret, allb(A, 0, NW, lambda t: RM(t, s, e) & ~A(t) == 0))
    yield 'not all', Implies(Not(c.ret), exists1([A], lambda t: And(ult(t, NW), RM(t, s, e) & ~A(t) != 0), extra=[z3.LShR(s, 6), z3.LShR(e, 6)]))
def _gr_pre(c):
    yield 'container', wellf(c.E, c.st, c.a[0])
    yield 'range', And(ult(c.a[1], c.a[2]), ule(c.a[2], 65536))
def _gr_inv(V):
    E = V.E; A = bview(E, V.old, V.a[0]); s, e = W(V.a[1], 32), W(V.a[2], 32); i = W(V.i, 32)
    return [('range', And(ult(z3.LShR(s, 6), i), ule(i, z3.LShR(e, 6)), ult(z3.LShR(s, 6), z3.LShR(e, 6)))), ('so far', allb(A, 0, i, lambda t: RM(t, s, e) & ~A(t) == 0, extra=[z3.LShR(s, 6)])),
            ('ends', And(RM(z3.LShR(s, 6), s, e) & ~A(z3.LShR(s, 6)) == 0, Implies(ult(z3.LShR(e, 6), NW), RM(z3.LShR(e, 6), s, e) & ~A(z3.LShR(e, 6)) == 0)))]
def _gr_setup(E, st):
    s, e = z3.BitVec('s', 32), z3.BitVec('e', 32); E.fact(And(ult(s, e), ule(e, 65536)))
    return [bsc(E, st, 'A'), s, e]
contract('bitset_container_get_range', props=['C03', 'C07'], setups=[S('', _gr_setup)], pre=_gr_pre, post=_gr_post, loops=[LoopSpec(_gr_inv)])

# ---- cardinality
def _kc(isa): return [S('', lambda E, st: [E.newblk(st, 'a', NW * 8, 'arr', 8, ro=True), NW // VW[isa]])]
def _kc_pre(isa):
    def pre(c): yield 'size', eqv(c.a[1], NW // VW[isa], 64); yield 'room', room(c.E, c.st, c.a[0], NW, 8)
    return pre
def _kc_gh(c):
    E = c.E; D = D_of(E, view(E, c.old, c.a[0])); E.fact(PS_unfold(D, 0)); E.fact(POP_zero()); return {'D': D}
def _kc_post(c):
    D = c.E.gx['D'] if c.top else c.E.arr(c.old, c.a[0])
    yield 'count', And(W(c.ret, 64) == PS(D, NW), ule(PS(D, NW), 65536, 64))
from words import _kinv512, _kh512, _kinv2, _kh2
contract('avx512_vpopcount', props=[], setups=_kc('avx512'), pre=_kc_pre('avx512'), post=_kc_post, ghost=_kc_gh, loops=[LoopSpec(_kinv512('or', False, 4), hints=_kh512(4)), LoopSpec(_kinv512('or', False, 1), hints=_kh512(1))])
contract('avx2_harley_seal_popcount256', props=[], setups=_kc('avx2'), pre=_kc_pre('avx2'), post=_kc_post, ghost=_kc_gh, loops=[LoopSpec(_kinv2('or', False, True), hints=_kh2(16)), LoopSpec(_kinv2('or', False, False), hints=_kh2(1))])
def _cc_gh(c):
    E = c.E; D = D_of(E, bview(E, c.old, c.a[0])); E.fact(PS_unfold(D, 0)); return {'D': D}
def _cc_post(c):
    D = c.E.gx['D'] if c.top and 'D' in c.E.gx else barr(c.E, c.old, c.a[0])
    yield 'count', And(eqv(c.ret, PS32(D, NW), 32), ule(PS(D, NW), 65536, 64))
def _cc_inv(V):
    i = W(V.i, 32)
    return [('range', And(ule(i, NW), i & 3 == 0)), ('sum', eqv(V.sum, PS32(V.E.gx['D'], i), 32)), ('bound', ule(V.sum, i * 64))]
contract('_scalar_bitset_container_compute_cardinality', props=[], setups=S1, pre=cpre(0), post=_cc_post, ghost=_cc_gh, loops=[LoopSpec(_cc_inv, hints=lambda V: [ps_steps(V.E, V.E.gx['D'], W(V.i, 32), 4)])])
contract('bitset_container_compute_cardinality', props=['C03', 'C08', 'C17', 'C04', 'C01', 'C06'], setups=S1, pre=cpre(0), post=_cc_post)
def _setr_post(c):
    E = c.E; A, O = bview(E, c.old, c.a[0]), bview(E, c.st, c.a[0]); s, e = W(c.a[1], 32), W(c.a[2], 32)
    yield 'words', allb(O, 0, NW, lambda t: O(t) == A(t) | RM(t, s, e))
    yield 'cardinality', eqv(bcard(E, c.st, c.a[0]), PS32(barr(E, c.st, c.a[0]), NW), 32)
def _setr_setup(E, st):
    s, e = z3.BitVec('s', 32), z3.BitVec('e', 32); E.fact(And(ule(s, e), ule(e, 65536)))
    return [bsc(E, st, 'A', ro=False), s, e]
contract('bitset_container_set_range', props=['C06', 'C08'], setups=[S('', _setr_setup)], pre=lambda c: [('container', wellf(c.E, c.st, c.a[0])), ('range', And(ule(c.a[1], c.a[2]), ule(c.a[2], 65536)))], post=_setr_post, modifies=bmods)

# ---- predicates
def _int_post(c):
    E = c.E; A, Bw = bview(E, c.old, c.a[0]), bview(E, c.old, c.a[1])
    yield 'disjoint', Implies(Not(c.ret), allb(A, 0, NW, lambda t: A(t) & Bw(t) == 0))
    yield 'common', Implies(c.ret, exists1([A], lambda t: And(ult(t, NW), A(t) & Bw(t) != 0)))
def _wi(V, n='i'): return W(trunc(V.at(n), 64, 32), 32) if (z3.is_bv(V.at(n)) and V.at(n).size() == 64) else W(V.at(n), 32)
def _int_inv(V):
    E = V.E; A, Bw = bview(E, V.old, V.a[0]), bview(E, V.old, V.a[1]); i = W(V.i, 32)
    return [('range', ule(i, NW)), ('so far', allb(A, 0, i, lambda t: A(t) & Bw(t) == 0))]
contract('bitset_container_intersect', props=['C03', 'C07', 'C17'], setups=S2, pre=cpre(0, 1), post=_int_post, loops=[LoopSpec(_int_inv)])
def _emp_post(c):
    E = c.E; A = bview(E, c.old, c.a[0])
    yield 'empty', Implies(c.ret, allb(A, 0, NW, lambda t: A(t) == 0))
    yield 'nonempty', Implies(Not(c.ret), exists1([A], lambda t: And(ult(t, NW), A(t) != 0)))
def _emp_inv(V):
    E = V.E; A = bview(E, V.old, V.a[0]); i = W(V.i, 32)
    return [('range', ule(i, NW)), ('so far', allb(A, 0, i, lambda t: A(t) == 0))]
def _emp_gh(c):
    E = c.E; A = barr(E, c.old, c.a[0]); E.fact(zero_sum(E, A, NW)); E.fact(bfacts(E, A)); E.fact(cardok(E, c.old, c.a[0])); return {}
contract('bitset_container_empty', props=['C03', 'C02', 'C01'], setups=S1, pre=cpre(0, card='unk'), post=_emp_post, ghost=_emp_gh, sums=True, loops=[LoopSpec(_emp_inv)])
def _eq_post(c):
    E = c.E; A, Bw = bview(E, c.old, c.a[0]), bview(E, c.old, c.a[1])
    yield 'equal', Implies(c.ret, allb(A, 0, NW, lambda t: A(t) == Bw(t)))
    yield 'different', Implies(Not(c.ret), exists1([A], lambda t: And(ult(t, NW), A(t) != Bw(t))))
def _eq_gh(c):
    E = c.E; A, Bw = barr(E, c.old, c.a[0]), barr(E, c.old, c.a[1])
    for f in (sumext(E, A, Bw), full_sum(E, A, NW), full_sum(E, Bw, NW), bfacts(E, A), bfacts(E, Bw), cardok(E, c.old, c.a[0]), cardok(E, c.old, c.a[1])): E.fact(f)
    return {}
def _eqv_inv(wd):
    def inv(V):
        E = V.E; A, Bw = bview(E, V.old, V.a[0]), bview(E, V.old, V.a[1]); i = simpz(_wi(V) * wd)
        return [('range', ule(V.i, NW // wd, 64)), ('so far', allb(A, 0, i, lambda t: A(t) == Bw(t)))]
    return inv
for isa in ('avx2', 'avx512'):
    contract('_%s_bitset_container_equals' % isa, props=[], setups=S2, pre=cpre(0, 1), post=_eq_post, loops=[LoopSpec(_eqv_inv(VW[isa]))])
contract('bitset_container_equals', props=['C07', 'C17'], setups=S2, pre=cpre(0, 1, card='unk'), post=_eq_post, ghost=_eq_gh, sums=True)
def _sub_post(c):
    E = c.E; A, Bw = bview(E, c.old, c.a[0]), bview(E, c.old, c.a[1])
    yield 'subset', Implies(c.ret, allb(A, 0, NW, lambda t: A(t) & ~Bw(t) == 0))
    yield 'not subset', Implies(Not(c.ret), exists1([A], lambda t: And(ult(t, NW), A(t) & ~Bw(t) != 0)))
def _sub_inv(V):
    E = V.E; A, Bw = bview(E, V.old, V.a[0]), bview(E, V.old, V.a[1]); i = W(V.i, 32)
    return [('range', ule(i, NW)), ('so far', allb(A, 0, i, lambda t: A(t) & ~Bw(t) == 0))]
def _sub_gh(c):
    """a larger sum has a word with a bit that the other lacks (POP monotone under inclusion; induction)"""
    E = c.E; A, Bw = barr(E, c.old, c.a[0]), barr(E, c.old, c.a[1])
    for f in (sub_sum(E, A, Bw, NW), bfacts(E, A), bfacts(E, Bw), cardok(E, c.old, c.a[0]), cardok(E, c.old, c.a[1])): E.fact(f)
    return {}
contract('bitset_container_is_subset', props=['C07'], setups=S2, pre=cpre(0, 1, card='unk'), post=_sub_post, ghost=_sub_gh, sums=True, loops=[LoopSpec(_sub_inv)])
def _val_post(c):
    E = c.E; p = c.a[0]
    yield 'valid', Implies(c.ret, And(eqv(bcard(E, c.old, p), PS32(barr(E, c.old, p), NW), 32), z3.UGT(PS32(barr(E, c.old, p), NW), 4096)))
    yield 'invalid', Implies(Not(c.ret), Or(W(bcard(E, c.old, p), 32) != PS32(barr(E, c.old, p), NW), ule(PS32(barr(E, c.old, p), NW), 4096)))
contract('bitset_container_validate', props=['C08', 'C10'], setups=[S('', lambda E, st: [bsc(E, st, 'A'), E.newblk(st, 'reason', 8, 'struct', ro=False)])], pre=cpre(0), post=_val_post, modifies=lambda c: [c.a[1]])

# ---- minimum, maximum, rank, index
def _mn_post(c):
    E = c.E; A = bview(E, c.old, c.a[0]); r = z3.ZeroExt(16, W(c.ret, 16)); w = z3.LShR(r, 6)
    ne = exists1([A], lambda t: And(ult(t, NW), A(t) != 0))
    yield 'member', Or(bit(A, r), allb(A, 0, NW, lambda t: A(t) == 0))
    yield 'first', Or(And(allb(A, 0, w, lambda t: A(t) == 0), A(w) & lowmask(r) == 0), allb(A, 0, NW, lambda t: A(t) == 0))
contract('bitset_container_minimum', props=['C03', 'C11'], setups=S1, pre=cpre(0), post=_mn_post, loops=[LoopSpec(_emp_inv)])
def _mx_post(c):
    E = c.E; A = bview(E, c.old, c.a[0]); r = z3.ZeroExt(16, W(c.ret, 16)); w = z3.LShR(r, 6)
    only0 = allb(A, 1, NW, lambda t: A(t) == 0)      # excluded for a container of more than 64 values
    yield 'member', Or(bit(A, r), only0)
    yield 'last', Or(And(allb(A, w + 1, NW, lambda t: A(t) == 0), z3.LShR(A(w), z3.ZeroExt(32, r & 63)) == 1), only0)
def _mx_inv(V):
    E = V.E; A = bview(E, V.old, V.a[0]); i = W(V.i, 32)
    return [('range', And(ult(i, NW))), ('so far', allb(A, i + 1, NW, lambda t: A(t) == 0))]
contract('bitset_container_maximum', props=['C03', 'C11'], setups=S1, pre=cpre(0), post=_mx_post, loops=[LoopSpec(_mx_inv)])
def RK(A, arr, x32):
    """number of values <= x"""
    w = z3.LShR(x32, 6); m = ~(((FULL << z3.ZeroExt(32, x32 & 63))) << 1)
    return PS(arr, w) + POP(A(w) & m)
def _rk_post(idx):
    def post(c):
        E = c.E; A = bview(E, c.old, c.a[0]); x = z3.ZeroExt(16, W(c.a[1], 16)); k = z3.Extract(31, 0, RK(A, barr(E, c.old, c.a[0]), x))
        if idx: yield 'index', W(c.ret, 32) == z3.If(bit(A, x), k - 1, z3.BitVecVal(UNK, 32))
        else: yield 'rank', W(c.ret, 32) == k
    return post
def _rk_inv(V):
    E = V.E; A = barr(E, V.old, V.a[0]); i = W(V.i, 32); x = z3.ZeroExt(16, W(V.a[1], 16))
    return [('range', ule(i, z3.LShR(x, 6))), ('sum', eqv(V.sum, z3.Extract(31, 0, PS(A, i)), 32)), ('bound', ule(V.sum, i * 64))]
def _rk_h(V):
    A = barr(V.E, V.old, V.a[0]); i = W(V.i, 32)
    return [PS_unfold(A, i)]
def _rk_gh(c):
    E = c.E; E.fact(PS_unfold(barr(E, c.old, c.a[0]), 0)); return {}
RKS = [S('', lambda E, st: [bsc(E, st, 'A'), z3.BitVec('xx', 16)])]
contract('bitset_container_rank', props=['C03'], setups=RKS, pre=cpre(0), post=_rk_post(False), ghost=_rk_gh, loops=[LoopSpec(_rk_inv, hints=_rk_h)])
contract('bitset_container_get_index', props=['C03'], setups=RKS, pre=cpre(0), post=_rk_post(True), ghost=_rk_gh, loops=[LoopSpec(_rk_inv, hints=_rk_h)])
def _ie_post(c):
    E = c.E; A = bview(E, c.old, c.a[0]); x = z3.ZeroExt(16, W(c.a[1], 16)); r = W(c.ret, 32)
    yield 'none', Implies(r == UNK, forall1([A], lambda t: Implies(ult(t, NW), A(t) & RM(t, x, z3.BitVecVal(65536, 32)) == 0)))
    yield 'found', Implies(r != UNK, And(ule(x, r), ult(r, 65536), bit(A, r)))
    yield 'first', Implies(r != UNK, forall1([A], lambda t: Implies(ult(t, NW), A(t) & RM(t, x, r) == 0)))
def _ie_inv(V):
    E = V.E; A = bview(E, V.old, V.a[0]); x = z3.ZeroExt(16, W(V.a[1], 16)); k = W(V.k, 32); w = W(V.word, 64)
    return [('range', And(ule(z3.LShR(x, 6), k), ult(k, NW))), ('word', w == A(k) & RM(k, x, z3.BitVecVal(65536, 32))), ('so far', allb(A, 0, k, lambda t: A(t) & RM(t, x, k * 64) == 0))]
contract('bitset_container_index_equalorlarger', props=['C03', 'C11'], setups=RKS, pre=cpre(0), post=_ie_post, loops=[LoopSpec(_ie_inv)])

# ---- number of runs
def _nr_gh(c):
    E = c.E; A = bview(E, c.old, c.a[0])
    D = D_of(E, lambda t: A(t) & ~(z3.LShR(A(t), 1) | (z3.If(ult(t, NW - 1), A(t + 1), ZERO) << 63)))
    E.fact(PS_unfold(D, 0)); E.fact(PS_unfold(D, NW - 1)); E.fact(D(NW - 1) == simpz(DEF[D.f.name()](W(NW - 1, 32)))); E.fact(run_ends(A(NW - 1), ZERO)); E.fact(PS_bound(D, NW))
    return {'D': D}
def _nr_post(c):
    D = c.E.gx['D'] if c.top else None
    if D is None: return
    yield 'runs', eqv(c.ret, PS32(D, NW), 32)
def _nr_inv(V):
    E = V.E; A = bview(E, V.old, V.a[0]); i = W(V.i, 32); D = E.gx['D']
    return [('range', ule(i, NW - 1)), ('word', W(V.next_word, 64) == A(i)), ('sum', W(V.num_runs, 32) == PS32(D, i)), ('bound', ule(V.num_runs, i * 64))]
def _nr_h(V):
    E = V.E; A = bview(E, V.old, V.a[0]); i = W(V.i, 32); D = E.gx['D']
    return [PS_unfold(D, i), PS_bound(D, i), Implies(ult(i, NW - 1), D(i) == A(i) & ~(z3.LShR(A(i), 1) | (A(i + 1) << 63))), run_ends(A(i), A(simpz(i + 1)))]
contract('bitset_container_number_of_runs', props=['C08', 'C10'], setups=S1, pre=cpre(0), post=_nr_post, ghost=_nr_gh, sums=True, loops=[LoopSpec(_nr_inv, hints=_nr_h)])

# ---- select
def lowest(w): return w & (0 - w)
def below(w): return lowest(w) - 1            # bits below the lowest set bit; all of them when w is 0
def _sel_setup(E, st):
    return [bsc(E, st, 'A'), E.newblk(st, 'start_rank', 4, 'struct', ro=False), z3.BitVec('rank', 32), E.newblk(st, 'element', 4, 'struct', ro=False)]
def _mem32(E, st, p):
    from ir import INT
    return W(E.load(st, p, INT(32)), 32)
def rd32(st, p): return W(st.mem[p.b][0][1], 32)
def _sel_pre(c):
    yield 'container', wellf(c.E, c.st, c.a[0])
    yield 'cardinality', And(W(bcard(c.E, c.st, c.a[0]), 32) == PS32(barr(c.E, c.st, c.a[0]), NW))
    yield 'order', ule(rd32(c.st, c.a[1]), c.a[2])
def _init32(E, st, name):
    p = E.newblk(st, name, 4, 'struct', ro=False); st.mem[p.b] = {0: (4, z3.BitVec(name + '_0', 32))}; return p
def _sel_setup(E, st):
    return [bsc(E, st, 'A'), _init32(E, st, 'start_rank'), z3.BitVec('rank', 32), _init32(E, st, 'element')]
def _sel_post(c):
    E = c.E; arr = barr(E, c.old, c.a[0]); A = bview(E, c.old, c.a[0]); s0, s1 = rd32(c.old, c.a[1]), rd32(c.st, c.a[1]); k = W(c.a[2], 32) - s0; e = rd32(c.st, c.a[3]); n = PS32(arr, NW)
    yield 'found iff rank below cardinality', Iff(c.ret, ult(k, n))
    yield 'skipped', Implies(Not(c.ret), s1 == s0 + n)
    w = z3.LShR(e, 6)
    yield 'member', Implies(c.ret, And(ult(e, 65536), bit(A, e)))
    yield 'rank of the element', Implies(c.ret, z3.Extract(31, 0, PS(arr, w) + POP(A(w) & lowmask(e))) == k)
def _sel_gh(c):
    E = c.E; A = barr(E, c.old, c.a[0]); E.fact(PS_unfold(A, 0)); E.fact(POP_zero()); E.fact(PS_bound(A, NW)); return {}
def _sel_inv1(V):
    E = V.E; A = barr(E, V.old, V.a[0]); s0, s1 = rd32(V.old, V.a[1]), rd32(V.st, V.a[1]); i = W(V.i, 32); k = W(V.a[2], 32) - s0
    return [('range', ule(i, NW)), ('sum', s1 - s0 == z3.Extract(31, 0, PS(A, i))), ('order', ule(PS(A, i), z3.ZeroExt(32, k), 64))]
def _sel_h1(V):
    E = V.E; A = barr(E, V.old, V.a[0]); i = W(V.i, 32)
    return [PS_unfold(A, i), PS_bound(A, i), PS_bound(A, simpz(i + 1)), POP_nz(A.read(i))]
def _sel_inv2(V):
    E = V.E; A = barr(E, V.old, V.a[0]); s0, s1 = rd32(V.old, V.a[1]), rd32(V.st, V.a[1]); i = W(V.i, 32); k = W(V.a[2], 32) - s0; w = W(V.w, 64); a = A.read(i)
    return [('range', ult(i, NW)), ('rest of the word', w == a & ~below(w)), ('sum', s1 - s0 == z3.Extract(31, 0, PS(A, i) + POP(a & below(w)))), ('order', ule(PS(A, i) + POP(a & below(w)), z3.ZeroExt(32, k), 64)),
            ('bound', And(ule(PS(A, i), 65536, 64), ule(POP(a & below(w)), 64, 64)))]
def _sel_h2(V):
    E = V.E; A = barr(E, V.old, V.a[0]); i = W(V.i, 32); w = W(V.w, 64); a = A.read(i)
    y = a & below(w); w2 = w & (w - 1)
    return _sel_h1(V) + [POP_orlow(y, w), POP_nz(a & below(w2))]
contract('bitset_container_select', props=['C03'], setups=[S('', _sel_setup)], pre=_sel_pre, post=_sel_post, ghost=_sel_gh, sums=True, modifies=lambda c: [c.a[1], c.a[3]], loops=[LoopSpec(_sel_inv1, hints=_sel_h1), LoopSpec(_sel_inv2, hints=_sel_h2)])

# ---- values of a bitset as a sorted list
def _ex_setup(ew, two=False):
    def f(E, st):
        n = z3.BitVec('length', 32); E.fact(ule(n, NW))
        a = u64buf(E, st, 'words', n); r = [a]
        if two: r.append(u64buf(E, st, 'words2', n))
        m = z3.BitVec('room', 32); E.fact(ule(m, 65536))
        o = E.newblk(st, 'out', simpz(z3.ZeroExt(32, m) * ew), 'arr', ew, ro=False)
        E.gx['room'] = m
        return r + [z3.ZeroExt(32, n), o, z3.BitVec('base', 16 if ew == 2 else 32)]
    return f
def _exA(E, st, a, two):
    A = E.arr(st, a[0])
    return A if not two else None
def _ex(ew, two):
    k = 2 if two else 1
    def D_(c):
        E = c.E; v = [view(E, c.old, c.a[j]) for j in range(k)]
        return (lambda t: v[0](t)) if not two else (lambda t: v[0](t) & v[1](t))
    def ghost(c):
        E = c.E; D = D_of(E, D_(c)); n = W(trunc(c.a[k], 64, 32), 32)
        x = z3.ZeroExt(16, X16); w = z3.LShR(x, 6)
        for f in (PS_unfold(D, 0), PS_unfold(D, w), POP_zero(), PS_bound(D, n), PS_bound(D, w), ule(PS(D, n), z3.ZeroExt(32, E.gx['room']), 64), D(w) == DEF[D.f.name()](w), POP_split(D(w), z3.ZeroExt(32, x & 63)), POP_nz(D(w) & ~lowmask(x)), POP_nz(D(w) & lowmask(x)), PS_mono(D, w + 1, n)): E.fact(f)
        return {'D': D}
    def pre(c):
        E = c.E; n = c.a[k]
        yield 'length', ule(n, NW, 64)
        for j in range(k): yield 'room', room(E, c.st, c.a[j], n, 8, 64)
        if not c.top:
            if two: raise Unsupported('intersection extraction at a call site')
            yield 'room out', And(*[Or(room(E, c.st, c.a[k + 1], z3.Extract(31, 0, PS(E.arr(c.st, c.a[0]), W(trunc(n, 64, 32), 32))), ew))])
    def bitD(D, x): return z3.Extract(0, 0, z3.LShR(D(z3.LShR(x, 6)), z3.ZeroExt(32, x & 63))) == 1
    def val(o, base):       # value without the base, as 32 bits
        return z3.ZeroExt(16, o - W(base, 16)) if ew == 2 else o - W(base, 32)
    def post(c):
        E = c.E; n = W(trunc(c.a[k], 64, 32), 32); O = view(E, c.st, c.a[k + 1]); base = c.a[k + 2]; r = W(c.ret, 64); r32 = z3.Extract(31, 0, r)
        D = E.gx['D'] if c.top else E.arr(c.old, c.a[0]); x = z3.ZeroExt(16, X16)
        yield 'count', And(r == PS(D, n), ule(r, 65536, 64))
        yield 'values', allb(O, 0, r32, lambda t: And(ult(val(O(t), base), n * 64), bitD(D, val(O(t), base))))
        yield 'sorted', forall2([O], lambda s, t: Implies(And(ult(s, t), ult(t, r32)), ult(val(O(s), base), val(O(t), base))))
        yield 'complete', Implies(And(ult(x, n * 64), bitD(D, x)), exists1([O], lambda t: And(ult(t, r32), val(O(t), base) == x)))
    def rkx(D):
        x = z3.ZeroExt(16, X16); w = z3.LShR(x, 6)
        return x, w, z3.Extract(31, 0, PS(D, w) + POP(D(w) & lowmask(x)))
    def done(D, x, i, w):    # x precedes the position of the scan (word i, remaining bits w)
        wx = z3.LShR(x, 6)
        return Or(ult(wx, i), And(wx == i, z3.Extract(0, 0, z3.LShR(w, z3.ZeroExt(32, x & 63))) == 0))
    def inv(inner):
        def g(V):
            E = V.E; D = E.gx['D']; n = W(trunc(V.a[k], 64, 32), 32); O = view(E, V.st, V.a[k + 1]); base = V.a[k + 2]
            i = W(trunc(V.i, 64, 32), 32); op = W(V.outpos, 32); w = W(V.w, 64) if inner else FULL; x, wx, rk = rkx(D)
            cur = PS(D, i) + (POP(D(i) & below(w)) if inner else 0)
            dn = (lambda y: done(D, y, i, w)) if inner else (lambda y: ult(z3.LShR(y, 6), i))
            nb = 16 if ew == 2 else 32
            r = [('range', And(ule(V.i, z3.ZeroExt(32, n), 64), ult(i, n) if inner else True, W(V.base, nb) == W(V.a[k + 2], nb) + (z3.Extract(nb - 1, 0, i) * 64))),
                 ('count', z3.ZeroExt(32, op) == cur), ('bound', ule(op, 65536)),
                 ('values', allb(O, 0, op, lambda t: And(bitD(D, val(O(t), base)), ult(val(O(t), base), n * 64), dn(val(O(t), base))))),
                 ('sorted', forall2([O], lambda s, t: Implies(And(ult(s, t), ult(t, op)), ult(val(O(s), base), val(O(t), base))))),
                 ('x', Implies(And(bitD(D, x), ult(x, n * 64), dn(x)), And(ult(rk, op), val(O(rk), base) == x)))]
            if inner: r.insert(1, ('rest of the word', w == D(i) & ~below(w)))
            return r
        return g
    def hint(inner):
        def h(V):
            E = V.E; D = E.gx['D']; i = W(trunc(V.i, 64, 32), 32); n = W(trunc(V.a[k], 64, 32), 32)
            r = [PS_unfold(D, i), PS_bound(D, i), PS_bound(D, simpz(i + 1)), D(i) == DEF[D.f.name()](i), POP_nz(D(i)), PS_mono(D, simpz(i + 1), n)]
            if inner:
                w = W(V.w, 64); y = D(i) & below(w); w2 = w & (w - 1)
                r += [POP_orlow(y, w), POP_nz(D(i) & below(w2)), POP_nz(y), POP_orlow(D(i) & below(w2), w2) if False else z3.BoolVal(True)]
                r += [POP_mono(D(i) & below(w2), D(i))]
            return r
        return h
    return dict(setups=[S('', _ex_setup(ew, two))], pre=pre, post=post, ghost=ghost, sums=True, modifies=lambda c: [c.a[k + 1]], loops=[LoopSpec(inv(False), hints=hint(False)), LoopSpec(inv(True), hints=hint(True))])
EXP = ['C03', 'C08', 'C11', 'C17']
contract('bitset_extract_setbits', props=EXP, **_ex(4, False))
contract('bitset_extract_setbits_uint16', props=EXP + ['C01', 'C02'], **_ex(2, False))
contract('bitset_extract_intersection_setbits_uint16', props=['C01', 'C02'], **_ex(2, True))
