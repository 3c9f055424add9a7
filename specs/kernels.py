from common import *

# ---------------------------------------------------------------- binary search
def _bs_setup(E, st):
    n = z3.BitVec('n', 32)
    E.fact(And(sle(0, n), sle(n, 65536)))
    p = u16buf(E, st, 'arr', n)
    return [p, n, z3.BitVec('key', 16)]
def _bs_pre(c):
    p, n, key = c.a
    yield 'length', And(sle(0, n), sle(n, 65536))
    yield 'room', Or(eqv(n, 0, 32), room(c.E, c.st, p, n, 2))
    if not (isc(n) and n == 0): yield 'sorted', sorted_(view(c.E, c.st, p), n)
def _bs_post(c):
    p, n, key = c.a; r = c.ret
    if isinstance(p, Ptr) and p.b is None: yield 'empty', eqv(r, mask(-1, 32), 32); return
    A = view(c.E, c.old, p)
    r = W(r, 32); pos = ~r
    yield 'found', Implies(r >= 0, And(slt(r, n), A(r) == key))
    yield 'missing', Implies(r < 0, And(ule(pos, n), allb(A, 0, pos, lambda t: z3.ULT(A(t), key)), allb(A, pos, n, lambda t: z3.UGT(A(t), key))))
def _bs_inv(V):
    p, n, key = V.a; A = view(V.E, V.old, p)
    lo, hi = V.low, V.high
    return [('range', And(sle(0, lo), sle(lo, simpz(W(hi, 32) + 1)), slt(hi, n), sle(mask(-1, 32), hi))),
            ('below', allb(A, 0, lo, lambda t: z3.ULT(A(t), key))), ('above', allb(A, simpz(W(hi, 32) + 1), n, lambda t: z3.UGT(A(t), key)))]
contract('binarySearch', props=['C03','C05','C07'], setups=[_bs_setup], pre=_bs_pre, post=_bs_post, loops=[LoopSpec(_bs_inv)])

# ---------------------------------------------------------------- sorted intersections
def two(E, st, alias=None, cap=None, ex=0):
    la = z3.ZeroExt(32, z3.BitVec('lenA', 32)); lb = z3.ZeroExt(32, z3.BitVec('lenB', 32))
    E.fact(And(ule(la, 65536, 64), ule(lb, 65536, 64)))
    A = u16buf(E, st, 'A', la, w=64, ro=alias != 'A'); Bp = u16buf(E, st, 'B', lb, w=64)
    return A, la, Bp, lb
def _int_setup(alias):
    def f(E, st):
        A, la, Bp, lb = two(E, st, alias)
        if alias == 'A': o = A
        else:
            o = u16buf(E, st, 'out', W(ite(ult(la, lb, 64), la, lb, 64), 64), ro=False, w=64)
        return [A, la, Bp, lb, o]
    return S('out==A' if alias else 'distinct', f)
def t32(n): return W(trunc(n, 64, 32), 32)
def _int_pre(c):
    A, la, Bp, lb, o = c.a; E, st = c.E, c.st
    yield 'length', And(ule(la, 65536, 64), ule(lb, 65536, 64))
    yield 'roomA', room(E, st, A, la, 2, 64); yield 'roomB', room(E, st, Bp, lb, 2, 64)
    yield 'room out', Or(room(E, st, o, la, 2, 64), room(E, st, o, lb, 2, 64))
    yield 'sorted A', sorted_(view(E, st, A), t32(la)); yield 'sorted B', sorted_(view(E, st, Bp), t32(lb))
    if o.b == Bp.b: raise Unsupported('out aliases B')
def _int_post(c):
    A, la, Bp, lb, o = c.a; E = c.E
    VA, VB, VO = view(E, c.old, A), view(E, c.old, Bp), view(E, c.st, o)
    r = W(c.ret, 32)
    yield 'count', And(ule(r, t32(la)), ule(r, t32(lb)))
    yield 'sorted', sorted_(VO, r)
    yield 'sound', Implies(mem(VO, r, X16), And(mem(VA, t32(la), X16), mem(VB, t32(lb), X16)))
    yield 'complete', Implies(And(mem(VA, t32(la), X16), mem(VB, t32(lb), X16)), mem(VO, r, X16))
def gh2(c):
    """ghost ranks of x in the two inputs"""
    E = c.E; A, la, Bp, lb = c.a[:4]
    VA, VB = view(E, c.old, A), view(E, c.old, Bp)
    return {'ranks': (VA, VB, t32(la), t32(lb), rank(E, VA, t32(la), X16, 'pA'), rank(E, VB, t32(lb), X16, 'pB'))}
def _int_inv(V):
    E = V.E
    VA, VB, la, lb, pA, pB = E.gx['ranks']
    o = V.a[4]
    i, j, k = V.ix('A'), V.ix('B'), V.ix('out')
    VO = view(E, V.st, o)
    A0 = view(E, V.st, V.a[0])
    x = X16
    return [('idx', And(ule(i, la), ule(j, lb), ule(k, i), ule(k, j), ult(i, la), ult(j, lb))),
            ('rest of A unchanged', allb(A0, i, la, lambda t: A0(t) == VA(t))),
            ('order', And(Implies(k != 0, And(z3.ULT(VO(k - 1), VA(i)), z3.ULT(VO(k - 1), VB(j)))),
                          Implies(j != 0, z3.ULT(VB(j - 1), VA(i))), Implies(i != 0, z3.ULT(VA(i - 1), VB(j))))),
            ('sorted', sorted_(VO, k)),
            ('set', Iff(mem(VO, k, x), And(inR(VA, la, pA, x), inR(VB, lb, pB, x), ult(pA, i), ult(pB, j))))]
contract('intersect_uint16', props=['C01','C02','C17'], setups=[_int_setup(None), _int_setup('A')], pre=_int_pre, post=_int_post, modifies=lambda c: [c.a[4]], ghost=gh2,
         loops=[LoopSpec(_int_inv)]*3)

# ---------------------------------------------------------------- union, difference, symmetric difference of sorted lists
def _lens(E, w):
    a, b = z3.BitVec('lenA', 32), z3.BitVec('lenB', 32); E.fact(And(ule(a, 65536), ule(b, 65536)))
    return (z3.ZeroExt(32, a), z3.ZeroExt(32, b)) if w == 64 else (a, b)
def n64(n): return n if z3.is_expr(n) and n.size() == 64 else zext(n, 32, 64)
def n32(n): return W(n, 32) if isc(n) or n.size() == 32 else t32(n)
def _merge_setup(w, room_of, alias=None):
    def f(E, st):
        la, lb = _lens(E, w)
        if alias == 'tail':       # the first list sits at the end of the output block, lenB or more elements in
            g = z3.BitVec('gap', 32); E.fact(And(ule(g, 1 << 20), ule(n32(lb), g)))
            o = E.newblk(st, 'out', simpz((z3.ZeroExt(32, g) + W(n64(la), 64)) * 2), 'arr', 2, ro=False)
            A = o.plus(Off.of(z3.ZeroExt(32, g), 2))
        elif alias == 'tailB':
            g = z3.BitVec('gap', 32); E.fact(And(ule(g, 1 << 20), ule(n32(la), g)))
            o = E.newblk(st, 'out', simpz((z3.ZeroExt(32, g) + W(n64(lb), 64)) * 2), 'arr', 2, ro=False)
            return [u16buf(E, st, 'A', n64(la), w=64), la, o.plus(Off.of(z3.ZeroExt(32, g), 2)), lb, o]
        else:
            A = u16buf(E, st, 'A', n64(la), w=64, ro=alias != 'A')
            o = A if alias == 'A' else u16buf(E, st, 'out', simpz(W(room_of(n64(la), n64(lb)), 64)), w=64, ro=False)
        Bp = u16buf(E, st, 'B', n64(lb), w=64)
        return [A, la, Bp, lb, o]
    return S({None: '', 'A': 'out==A', 'tail': 'A at the end of out', 'tailB': 'B at the end of out'}[alias], f)
def same(p, q): return p.b == q.b
def _mg_pre(room_of, alias_ok):
    def pre(c):
        A, la, Bp, lb, o = c.a; E, st = c.E, c.st
        yield 'length', And(ule(n32(la), 65536), ule(n32(lb), 65536), ule(n64(la), 65536, 64), ule(n64(lb), 65536, 64))
        yield 'roomA', room(E, st, A, n64(la), 2, 64); yield 'roomB', room(E, st, Bp, n64(lb), 2, 64)
        yield 'room out', room(E, st, o, simpz(W(room_of(W(n64(la), 64), W(n64(lb), 64)), 64)), 2, 64)
        yield 'sorted A', sorted_(view(E, st, A), n32(la)); yield 'sorted B', sorted_(view(E, st, Bp), n32(lb))
        if same(o, Bp):
            if alias_ok == 'tail': yield 'B lies behind out', And(ule(n64(la), 1 << 20, 64), ule(o.o.bv(), Bp.o.bv(), 64), ule(W(n64(la), 64) * 2, W(Bp.o.bv(), 64) - W(o.o.bv(), 64), 64))
            else: yield 'out is not B', z3.BoolVal(False)
        if same(o, A):
            if alias_ok == 'A': yield 'out is A', W(A.o.bv(), 64) == W(o.o.bv(), 64)
            elif alias_ok == 'tail': yield 'A lies behind out', And(ule(n64(lb), 1 << 20, 64), ule(o.o.bv(), A.o.bv(), 64), ule(W(n64(lb), 64) * 2, W(A.o.bv(), 64) - W(o.o.bv(), 64), 64))
            else: yield 'out is not A', z3.BoolVal(False)
    return pre
SETOP = {'or': lambda a, b: Or(a, b), 'and': lambda a, b: And(a, b), 'andnot': lambda a, b: And(a, Not(b)), 'xor': lambda a, b: Or(And(a, Not(b)), And(b, Not(a)))}
def in_out(c, op):
    A, la, Bp, lb, o = c.a; E = c.E; k = n32(c.ret); x = X16
    VA, VB, VO = view(E, c.old, A), view(E, c.old, Bp), view(E, c.st, o)
    a, b = mem(VA, n32(la), x), mem(VB, n32(lb), x)
    yield 'sorted', sorted_(VO, k)
    if c.top and 'ranks' in E.gx:
        VA_, VB_, la_, lb_, pA, pB = E.gx['ranks']; w = SETOP[op](inR(VA, la_, pA, x), inR(VB, lb_, pB, x))
        for i in (k - (la_ - pA), k - (lb_ - pB)): E.collect(VO(simpz(i)))
        yield '*first list', Iff(a, inR(VA, la_, pA, x)); yield '*second list', Iff(b, inR(VB, lb_, pB, x))
        yield '*nothing else', Implies(mem(VO, k, x), w)
        yield '*nothing lost', Implies(w, mem(VO, k, x))
    yield 'set', Iff(mem(VO, k, x), SETOP[op](a, b))
def _mg_post(op):
    def post(c):
        A, la, Bp, lb, o = c.a; k = n32(c.ret); la, lb = n32(la), n32(lb)
        yield 'count', {'or': And(ule(k, la + lb), ule(la, k), ule(lb, k)), 'andnot': ule(k, la), 'xor': ule(k, la + lb)}[op]
        if not isc(c.ret) and c.ret.size() == 64: yield 'count (high half)', ule(c.ret, 1 << 17, 64)
        yield from in_out(c, op)
    return post
def mg_inv(op, i, j, k, strict=True, vals=None):
    """i, j, k: names of the positions; strict: both positions are inside their lists"""
    def inv(V):
        E = V.E; VA, VB, la, lb, pA, pB = E.gx['ranks']; o = V.a[4]
        I, J, K = n32(V.at(i)), n32(V.at(j)), n32(V.at(k)); x = X16
        VO = view(E, V.st, o); A0 = view(E, V.st, V.a[0])
        r = [('range', And(*[ule(V.at(q), 1 << 18, 64) for q in (i, j, k) if z3.is_expr(V.at(q)) and V.at(q).size() == 64]))]
        r += [('idx', And(ult(I, la) if strict else ule(I, la), ult(J, lb) if strict else ule(J, lb), ule(K, I) if op == 'andnot' else And(ule(K, I + J), ule(I, K), ule(J, K)) if op == 'or' else ule(K, I + J)))]
        if same(V.a[0], o): r.append(('rest of A unchanged', forall1([A0, VA], lambda t: Implies(And(ule(I, t), ult(t, la)), A0(t) == VA(t)))))
        if same(V.a[2], o):
            B0 = view(E, V.st, V.a[2]); r.append(('rest of B unchanged', forall1([B0, VB], lambda t: Implies(And(ule(J, t), ult(t, lb)), B0(t) == VB(t)))))
        nx = [Implies(ult(I, la), ult(VO(K - 1), VA(I), 16))] + ([Implies(ult(J, lb), ult(VO(K - 1), VB(J), 16))] if op != 'andnot' else [])
        r.append(('order', And(Implies(K != 0, And(*nx)), Implies(And(J != 0, ult(I, la)), ult(VB(J - 1), VA(I), 16)), Implies(And(I != 0, ult(J, lb)), ult(VA(I - 1), VB(J), 16)))))
        r.append(('sorted', sorted_(VO, K)))
        a, b = And(inR(VA, la, pA, x), ult(pA, I)), And(inR(VB, lb, pB, x), ult(pB, J))
        if op == 'andnot': b = inR(VB, lb, pB, x)
        r.append(('set', Iff(mem(VO, K, x), SETOP[op](a, b))))
        if vals: r.append(('current values', And(W(V.at(vals[0]), 16) == VA(I), W(V.at(vals[1]), 16) == VB(J))))
        return r
    return inv
SUM = lambda a, b: W(a, 64) + W(b, 64)
MG = ['C01', 'C02', 'C17']
def gh5(c):
    E = c.E; A, la, Bp, lb = c.a[:4]; VA, VB = view(E, c.old, A), view(E, c.old, Bp)
    return {'ranks': (VA, VB, n32(la), n32(lb), rank(E, VA, n32(la), X16, 'pA'), rank(E, VB, n32(lb), X16, 'pB'))}
contract('union_uint16', props=MG + ['C04'], setups=[_merge_setup(64, SUM), _merge_setup(64, SUM, 'tail'), _merge_setup(64, SUM, 'tailB')], pre=_mg_pre(SUM, 'tail'), post=_mg_post('or'), modifies=lambda c: [c.a[4]], ghost=gh5, loops=[LoopSpec(mg_inv('or', 'idx_1', 'idx_2', 'pos', vals=('val_1', 'val_2')))])
contract('difference_uint16', props=MG, setups=[_merge_setup(32, lambda a, b: a), _merge_setup(32, lambda a, b: a, 'A')], pre=_mg_pre(lambda a, b: a, 'A'), post=_mg_post('andnot'), modifies=lambda c: [c.a[4]], ghost=gh5, loops=[LoopSpec(mg_inv('andnot', 'k1', 'k2', 'out_card', vals=('s1', 's2')))])
contract('xor_uint16', props=MG, setups=[_merge_setup(32, SUM)], pre=_mg_pre(SUM, None), post=_mg_post('xor'), modifies=lambda c: [c.a[4]], ghost=gh5, loops=[LoopSpec(mg_inv('xor', 'pos1', 'pos2', 'pos_out', strict=False))])

# ---------------------------------------------------------------- galloping and paired searches
def _au_setup(E, st):
    n = z3.BitVec('length', 32); pos = z3.BitVec('pos', 32); E.fact(And(sle(0, n), sle(n, 65536), sle(mask(-1, 32), pos), slt(pos, n)))
    return [u16buf(E, st, 'array', n), pos, n, z3.BitVec('min', 16)]
def _au_pre(c):
    yield 'range', And(sle(0, c.a[2]), sle(c.a[2], 65536), sle(mask(-1, 32), c.a[1]), slt(c.a[1], c.a[2]))
    yield 'room', room(c.E, c.st, c.a[0], c.a[2], 2); yield 'sorted', sorted_(view(c.E, c.st, c.a[0]), c.a[2])
def _au_post(c):
    A = view(c.E, c.old, c.a[0]); n = W(c.a[2], 32); p = W(c.a[1], 32); r = W(c.ret, 32); x = W(c.a[3], 16)
    yield 'range', And(slt(p, r), sle(r, n))
    yield 'skipped', allb(A, p + 1, r, lambda t: ult(A(t), x, 16))
    yield 'reached', Implies(slt(r, n), z3.UGE(A(r), x))
def _au_inv1(V):
    A = view(V.E, V.old, V.a[0]); n = W(V.a[2], 32); lo, sp = W(V.lower, 32), W(V.spansize, 32); h = z3.LShR(sp, 1); x = W(V.a[3], 16)
    return [('range', And(sle(0, lo), slt(lo, n), sle(1, sp), sle(sp, 1 << 17), lo == W(V.a[1], 32) + 1)), ('gallop', Or(And(sp == 1, ult(A(lo), x, 16)), And(sle(2, sp), sp == h * 2, slt(lo + h, n), ult(A(lo + h), x, 16))))]
def _au_inv2(V):
    A = view(V.E, V.old, V.a[0]); n = W(V.a[2], 32); lo, up = W(V.lower, 32), W(V.upper, 32); x = W(V.a[3], 16)
    return [('range', And(slt(W(V.a[1], 32), lo), sle(0, lo), slt(lo, up), slt(up, n))), ('low', ult(A(lo), x, 16)), ('high', z3.UGT(A(up), x))]
contract('advanceUntil', props=['C01', 'C02', 'C07'], setups=[_au_setup], pre=_au_pre, post=_au_post, loops=[LoopSpec(_au_inv1), LoopSpec(_au_inv2)])
def out32(E, st, name): return E.newblk(st, name, 4, 'struct', ro=False)
def rdi(st, p):
    d = st.mem[p.b]
    return d[0][1] if p.o.const() and p.o.c == 0 and 0 in d else None
def _bsn(k):
    def setup(E, st):
        n = z3.BitVec('n', 32); E.fact(And(sle(0, n), sle(n, 65536)))
        r = [u16buf(E, st, 'array', n), n] + [z3.BitVec('target%d' % (i + 1), 16) for i in range(k)]
        for i in range(k):
            p = out32(E, st, 'index%d' % (i + 1)); st.mem[p.b] = {0: (4, z3.BitVec('old%d' % i, 32))}; r.append(p)
        return r
    def pre(c):
        yield 'length', And(sle(0, c.a[1]), sle(c.a[1], 65536)); yield 'room', room(c.E, c.st, c.a[0], c.a[1], 2); yield 'sorted', sorted_(view(c.E, c.st, c.a[0]), c.a[1])
    def post(c):
        A = view(c.E, c.old, c.a[0]); n = W(c.a[1], 32)
        for i in range(k):
            r = W(rdi(c.st, c.a[2 + k + i]), 32); x = W(c.a[2 + i], 16)
            yield 'rank %d' % (i + 1), Implies(n != 0, And(ule(r, n), allb(A, 0, r, lambda t: ult(A(t), x, 16)), allb(A, r, n, lambda t: z3.UGE(A(t), x))))
    def inv(V):
        A = view(V.E, V.old, V.a[0]); n0 = W(V.a[1], 32); n = W(V.n, 32); b0 = V.E.eidx(V.a[0]); r = [('range', And(sle(1, n), sle(n, n0)))]
        for i in range(k):
            b = W(V.ix('base%d' % (i + 1)), 32) - W(b0, 32); x = W(V.a[2 + i], 16)
            r.append(('base %d' % (i + 1), And(ule(b + n, n0), ule(b, n0), Or(b == 0, ult(A(b), x, 16)), Implies(ult(b + n, n0), z3.UGE(A(b + n), x)))))
        return r
    contract('binarySearch%d' % k, props=['C01', 'C02'], setups=[setup], pre=pre, post=post, modifies=lambda c: [(c.a[2 + k + i], 0, 4) for i in range(k)], loops=[LoopSpec(inv)])
_bsn(2); _bsn(4)

# ---------------------------------------------------------------- intersection with a much shorter list
def _sk_setup(alias):
    def f(E, st):
        A, la, Bp, lb = two(E, st, alias)
        if alias == 'B': Bp = u16buf(E, st, 'B', lb, w=64, ro=False)
        o = A if alias == 'A' else Bp if alias == 'B' else u16buf(E, st, 'out', W(ite(ult(la, lb, 64), la, lb, 64), 64), ro=False, w=64)
        return [A, la, Bp, lb, o]
    return S({None: '', 'A': 'out==small', 'B': 'out==large'}[alias], f, ['C02'] if alias else ['C01'])
def _sk_pre(c):
    A, la, Bp, lb, o = c.a; E, st = c.E, c.st
    yield 'length', And(ule(la, 65536, 64), ule(lb, 65536, 64))
    yield 'roomA', room(E, st, A, la, 2, 64); yield 'roomB', room(E, st, Bp, lb, 2, 64)
    yield 'room out', Or(room(E, st, o, la, 2, 64), room(E, st, o, lb, 2, 64))
    yield 'sorted A', sorted_(view(E, st, A), t32(la)); yield 'sorted B', sorted_(view(E, st, Bp), t32(lb))
    for p in (A, Bp):
        if same(o, p): yield 'aliased exactly', W(p.o.bv(), 64) == W(o.o.bv(), 64)
def _sk_inv(V):
    E = V.E; VA, VB, la, lb, pA, pB = E.gx['ranks']; o = V.a[4]; x = X16
    I, J, K = n32(V.at('idx_s')), n32(V.at('idx_l')), n32(V.at('pos'))
    VO = view(E, V.st, o); A0, B0 = view(E, V.st, V.a[0]), view(E, V.st, V.a[2])
    r = [('range', And(*[ule(V.at(q), 1 << 18, 64) for q in ('idx_s', 'idx_l', 'pos') if z3.is_expr(V.at(q))])), ('idx', And(ule(I, la), ule(J, lb), ule(K, I), ule(K, J + 1), ule(K, lb)))]
    if same(o, V.a[0]): r.append(('rest of small unchanged', forall1([A0, VA], lambda t: Implies(And(ule(I, t), ult(t, la)), A0(t) == VA(t)))))
    if same(o, V.a[2]): r.append(('rest of large unchanged', forall1([B0, VB], lambda t: Implies(And(ule(J, t), ult(t, lb)), B0(t) == VB(t)))))
    r.append(('order', And(Implies(And(J != 0, I != 0), And(ult(VB(J - 1), VA(I - 1), 16))), Implies(And(I != 0, ult(J, lb)), ule(VA(I - 1), VB(J), 16)), Implies(I == 0, And(J == 0, K == 0)))))
    r.append(('last', Implies(K != 0, And(I != 0, ule(VO(K - 1), VA(I - 1), 16)))))
    r.append(('dense', Implies(K == J + 1, And(ult(J, lb), VB(J) == VA(I - 1)))))
    r.append(('sorted', sorted_(VO, K)))
    r.append(('set', Iff(mem(VO, K, x), And(inR(VA, la, pA, x), ult(pA, I), inR(VB, lb, pB, x)))))
    return r
contract('intersect_skewed_uint16', props=['C01', 'C02'], setups=[_sk_setup(None), _sk_setup('A'), _sk_setup('B')], pre=_sk_pre, post=_int_post, modifies=lambda c: [c.a[4]], ghost=gh2, loops=[LoopSpec(_sk_inv)], budget=900)
def _ne_setup(E, st): A, la, Bp, lb = two(E, st); return [A, la, Bp, lb]
def _ne_pre(c):
    A, la, Bp, lb = c.a; E, st = c.E, c.st
    yield 'length', And(ule(la, 65536, 64), ule(lb, 65536, 64))
    yield 'roomA', room(E, st, A, la, 2, 64); yield 'roomB', room(E, st, Bp, lb, 2, 64)
    yield 'sorted A', sorted_(view(E, st, A), t32(la)); yield 'sorted B', sorted_(view(E, st, Bp), t32(lb))
def _ne_post(c):
    """x: any value; a true answer comes with the common value"""
    A, la, Bp, lb = c.a; E = c.E; VA, VB = view(E, c.old, A), view(E, c.old, Bp)
    yield 'no: nothing in common', Implies(And(mem(VA, t32(la), X16), mem(VB, t32(lb), X16)), c.ret)
    yield 'yes: a common value', Implies(c.ret, Not(disjoint(VA, t32(la), VB, t32(lb))))
def disjoint(VA, la, VB, lb): return forall2([VA, VB], lambda s, t: Implies(And(ult(s, la), ult(t, lb)), VA(s) != VB(t)))
def _ne_inv(i, j, ptr, vals=None):
    def inv(V):
        E = V.E; VA, VB, la, lb, pA, pB = E.gx['ranks']; x = X16
        I, J = (W(V.ix(i), 32), W(V.ix(j), 32)) if ptr else (n32(V.at(i)), n32(V.at(j)))
        r = [] if ptr else [('range', And(*[ule(V.at(q), 1 << 17, 64) for q in (i, j) if z3.is_expr(V.at(q))]))]
        r.append(('idx', And(ult(I, la), ult(J, lb))))
        r.append(('order', And(Implies(J != 0, ult(VB(J - 1), VA(I), 16)), Implies(I != 0, ult(VA(I - 1), VB(J), 16)))))
        r.append(('nothing so far', Not(And(inR(VA, la, pA, x), inR(VB, lb, pB, x), Or(ult(pA, I), ult(pB, J))))))
        if vals: r.append(('current values', And(W(V.at(vals[0]), 16) == VA(I), W(V.at(vals[1]), 16) == VB(J))))
        return r
    return LoopSpec(inv)
contract('intersect_uint16_nonempty', props=['C01', 'C07', 'C17'], setups=[_ne_setup], pre=_ne_pre, post=_ne_post, ghost=gh2, loops=[_ne_inv('A', 'B', True)] * 3)
contract('intersect_skewed_uint16_nonempty', props=['C01', 'C07', 'C17'], setups=[_ne_setup], pre=lambda c: list(_ne_pre(c)) + [('large not empty', W(c.a[3], 64) != 0)], post=_ne_post, ghost=gh2, loops=[_ne_inv('idx_s', 'idx_l', False, ('val_s', 'val_l'))])

# ---------------------------------------------------------------- vector kernels built on string-compare instructions: assumed, never counted as proved; exercised by the bounded stand-ins
def _vk_post(op):
    def post(c):
        k = n32(c.ret); la, lb = n32(c.a[1]), n32(c.a[3])
        yield 'count', {'or': And(ule(k, la + lb), ule(la, k), ule(lb, k)), 'andnot': ule(k, la), 'xor': ule(k, la + lb), 'and': And(ule(k, la), ule(k, lb))}[op]
        if not isc(c.ret) and c.ret.size() == 64: yield 'count (high half)', ule(c.ret, 1 << 17, 64)
        yield from in_out(c, op)
    return post
MIN8 = lambda a, b: simpz(z3.If(z3.ULT(W(a, 64), W(b, 64)), W(a, 64), W(b, 64)) + 8)
contract('union_vector16', props=[], setups=[], pre=_mg_pre(SUM, 'tail'), post=_vk_post('or'), modifies=lambda c: [c.a[4]], trusted=True)
contract('xor_vector16', props=[], setups=[], pre=_mg_pre(SUM, None), post=_vk_post('xor'), modifies=lambda c: [c.a[4]], trusted=True)
contract('difference_vector16', props=[], setups=[], pre=_mg_pre(lambda a, b: a, None), post=_vk_post('andnot'), modifies=lambda c: [c.a[4]], trusted=True)
contract('intersect_vector16', props=[], setups=[], pre=_mg_pre(MIN8, None), post=_vk_post('and'), modifies=lambda c: [c.a[4]], trusted=True)
class _A5:
    """a two-list call seen as one with an output argument: the first list"""
    def __init__(s, c): s.E, s.st, s.old, s.a, s.ret, s.top = c.E, c.st, c.old, list(c.a) + [c.a[0]], c.ret, c.top
contract('intersect_vector16_inplace', props=[], setups=[], pre=lambda c: _mg_pre(lambda a, b: a, 'A')(_A5(c)), post=lambda c: _vk_post('and')(_A5(c)), modifies=lambda c: [c.a[0]], trusted=True)
def _fu_setup(alias):
    g = _merge_setup(64, SUM, alias); return S(g.label, lambda E, st: g(E, st))
contract('fast_union_uint16', props=MG, setups=[_fu_setup(None), _fu_setup('tail')], pre=_mg_pre(SUM, 'tail'), post=_mg_post('or'), modifies=lambda c: [c.a[4]], ghost=gh5)
