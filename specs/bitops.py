"""Bit ranges over word arrays (bitset_util.h) and queries on bitset containers."""
from common import *
from words import *

FULL = z3.BitVecVal(2**64 - 1, 64); ZERO = z3.BitVecVal(0, 64); ONE = z3.BitVecVal(1, 64)
def lowmask(k):    # bits < k of a word, k in 0..63 (32-bit term)
    return ~(FULL << z3.ZeroExt(32, k & 63))
def RM(t, s, e):
    """word t of the mask of bits [s,e)"""
    ts, te = z3.LShR(s, 6), z3.LShR(e, 6)
    hi = z3.If(z3.ULT(t, te), FULL, z3.If(t == te, lowmask(e), ZERO))
    lo = z3.If(z3.ULT(t, ts), FULL, z3.If(t == ts, lowmask(s), ZERO))
    return hi & ~lo
def bit(A, x):
    """bit x of word array A as a Bool (x: 16- or 32-bit)"""
    x = z3.ZeroExt(16, x) if x.size() == 16 else x
    return z3.Extract(0, 0, z3.LShR(A(z3.LShR(x, 6)), z3.ZeroExt(32, x & 63))) == 1
MAXW = 1 << 24
def _wsetup(ro=False, extra=()):
    def f(E, st):
        n = z3.BitVec('nwords', 32); E.fact(And(ult(0, n), ule(n, MAXW)))
        E.gx['n'] = n
        return [u64buf(E, st, 'words', n, ro=ro), z3.BitVec('start', 32), z3.BitVec('end', 32)]
    return f
def _nw(c):
    """number of words: ghost when verifying, block size at call sites"""
    p = c.a[0]
    if c.top: return c.E.gx['n']
    b = c.st.blk[p.b]
    sz = W(c.E.size64(b), 64)
    return simpz(z3.Extract(31, 0, z3.LShR(sz - W(p.o.bv(), 64), 3)))
def _rpre(c, e):
    n = _nw(c); p, s, _ = c.a
    yield 'room', room(c.E, c.st, p, n, 8)
    yield 'size', And(ult(0, n), ule(n, MAXW))
    yield 'range', And(ule(s, e), ule(e, simpz(W(n, 32) * 64)))
def pre_se(c): return _rpre(c, W(c.a[2], 32))
def pre_len(c):
    s, l = W(c.a[1], 32), W(c.a[2], 32)
    yield 'len', And(ult(l, 64 * MAXW), ult(s, 64 * MAXW))
    for x in _rpre(c, simpz(s + l + 1)): yield x
def se_se(a): return W(a[1], 32), W(a[2], 32)
def se_len(a): return W(a[1], 32), simpz(W(a[1], 32) + W(a[2], 32) + 1)
WOP = {'set': lambda a, m: a | m, 'reset': lambda a, m: a & ~m, 'flip': lambda a, m: a ^ m}
def _wpost(op, se):
    def post(c):
        n = _nw(c); A, O = view(c.E, c.old, c.a[0]), view(c.E, c.st, c.a[0]); s, e = se(c.a)
        yield 'words', allb(O, 0, n, lambda t: O(t) == WOP[op](A(t), RM(t, s, e)))
    return post
def _wview(V): 
    E = V.E; A, O = view(E, V.old, V.a[0]), view(E, V.st, V.a[0])
    return E, A, O
def _winv(op, se, kind='plain'):
    def inv(V):
        E, A, O = _wview(V); n = E.gx['n']; s, e = se(V.a); i = W(V.i, 32)
        fw, ew = z3.LShR(s, 6), z3.LShR(e - 1, 6)
        r = []
        if kind == 'plain':
            r += [('range', And(ult(fw, i), ule(i, ew))), ('done', allb(O, 0, i, lambda t: O(t) == WOP[op](A(t), RM(t, s, e)))), ('rest', allb(O, i, n, lambda t: O(t) == A(t)))]
        elif kind == 'two':
            r += [('range', And(ult(fw, i), ule(i, ew + 1), ult(fw, ew))), ('temp', W(V.temp, 64) == A(ew)),
                  ('done', allb(O, 0, i, lambda t: Or(t == ew, O(t) == WOP[op](A(t), RM(t, s, e))))),
                  ('rest', allb(O, i, n, lambda t: Or(t == ew, O(t) == A(t))))]
        else:
            r += [('range', And(ule(fw, i), ule(i, ew))), ('done', allb(O, 0, i, lambda t: O(t) == WOP[op](A(t), RM(t, s, e)))),
                  ('here', O(i) == z3.If(i == fw, A(i) ^ lowmask(s), A(i))), ('rest', allb(O, i + 1, n, lambda t: O(t) == A(t)))]
        return r
    return inv
wm = lambda c: [c.a[0]]
contract('bitset_set_range', props=['C06', 'C01', 'C08'], setups=[S('', _wsetup())], pre=pre_se, post=_wpost('set', se_se), modifies=wm, loops=[LoopSpec(_winv('set', se_se))])
contract('bitset_reset_range', props=['C06', 'C01', 'C02'], setups=[S('', _wsetup())], pre=pre_se, post=_wpost('reset', se_se), modifies=wm, loops=[LoopSpec(_winv('reset', se_se))])
contract('bitset_flip_range', props=['C06', 'C13', 'C01'], setups=[S('', _wsetup())], pre=pre_se, post=_wpost('flip', se_se), modifies=wm, loops=[LoopSpec(_winv('flip', se_se, 'flip'))])
contract('bitset_set_lenrange', props=['C06', 'C01', 'C02', 'C08'], setups=[S('', _wsetup())], pre=pre_len, post=_wpost('set', se_len), modifies=wm, loops=[LoopSpec(_winv('set', se_len, 'two'))])

def _maskD(c):
    E = c.E; A = view(E, c.old, c.a[0]); s, e = se_len(c.a)
    D = D_of(E, lambda t: A(t) & RM(t, s, e), name='R')
    return D, z3.LShR(s, 6), z3.LShR(e - 1, 6)
def _lrc_ghost(c):
    D, fw, ew = _maskD(c); E = c.E; E.fact(PS_unfold(D, fw)); E.fact(PS_unfold(D, ew))
    E.fact(D(fw) == DEF[D.f.name()](fw)); E.fact(D(ew) == DEF[D.f.name()](ew))
    return {'R': D}
def _lrc_post(c):
    D, fw, ew = (c.E.gx['R'],) + tuple(z3.LShR(x, 6) for x in (se_len(c.a)[0], se_len(c.a)[1] - 1)) if c.top else _maskD(c)
    c.D = D
    yield 'count', eqv(c.ret, z3.Extract(31, 0, PS(D, simpz(ew + 1)) - PS(D, fw)), 32)
def _lrc_inv(V):
    E, A, O = _wview(V); D = E.gx['R']; s, e = se_len(V.a); fw, ew = z3.LShR(s, 6), z3.LShR(e - 1, 6); i = W(V.i, 32)
    return [('range', And(ult(fw, i), ule(i, ew))), ('sum', eqv(V.answer, z3.Extract(31, 0, PS(D, i) - PS(D, fw)), 32)), ('bound', And(sle(0, V.answer), sle(V.answer, (i - fw) * 64)))]
def _lrc_h(V):
    D = V.E.gx['R']; i = W(V.i, 32)
    return [And(PS_unfold(D, i), D(i) == DEF[D.f.name()](i), z3.ULE(POP(V.E.arr(V.old, V.a[0])(i)), 64))]
def _popb(c): return []
contract('bitset_lenrange_cardinality', props=['C03', 'C06'], setups=[S('', _wsetup(True))], pre=pre_len, post=_lrc_post, ghost=_lrc_ghost, loops=[LoopSpec(_lrc_inv, hints=_lrc_h)])

def _lre_post(c):
    n = _nw(c); A = view(c.E, c.old, c.a[0]); s, e = se_len(c.a)
    yield 'empty', Implies(c.ret, allb(A, 0, n, lambda t: A(t) & RM(t, s, e) == 0))
    yield 'nonempty', Implies(Not(c.ret), exists1([A], lambda t: And(ult(t, n), A(t) & RM(t, s, e) != 0), extra=[z3.LShR(s, 6), z3.LShR(e - 1, 6)]))
def _lre_inv(V):
    E, A, O = _wview(V); s, e = se_len(V.a); fw, ew = z3.LShR(s, 6), z3.LShR(e - 1, 6); i = W(V.i, 32)
    return [('range', And(ult(fw, i), ule(i, ew))), ('clear', allb(A, 0, i, lambda t: A(t) & RM(t, s, e) == 0, extra=[fw, ew]))]
contract('bitset_lenrange_empty', props=['C03', 'C07'], setups=[S('', _wsetup(True))], pre=pre_len, post=_lre_post, loops=[LoopSpec(_lre_inv)])
