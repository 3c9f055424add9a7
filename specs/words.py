"""Bitset containers: word-wise operations, every instruction-set variant (scalar, AVX2, AVX-512)."""
from common import *

NW = 1024
def fset(E, p_mem, struct, field, v):
    o, sz = E.off(struct, field); p_mem[o] = (sz, v)
def bsc(E, st, name, ro=True, card=None, words=None, wro=None):
    """a bitset container: struct + 1024 words"""
    w = words or E.newblk(st, name + '.words', NW * 8, 'arr', 8, ro=ro if wro is None else wro)
    p = E.newblk(st, name, 16, 'struct', ro=ro)
    d = {}
    fset(E, d, 'bitset_container_s', 'cardinality', fbv(name + '_card', 32) if card is None else card)
    fset(E, d, 'bitset_container_s', 'words', w)
    st.mem[p.b] = d
    return p
def bwords(E, st, p): return E.get(st, p, 'bitset_container_s', 'words')
def bcard(E, st, p): return E.get(st, p, 'bitset_container_s', 'cardinality')
def bview(E, st, p):
    w = bwords(E, st, p)
    if isinstance(w, Ptr) and w.b is not None and st.blk[w.b].kind == 'raw': E.settle(st, st.blk[w.b], 8)
    return view(E, st, w)
def cardcell(E, p): o, sz = E.off('bitset_container_s', 'cardinality'); return (p, o, sz)
OPS = {'or': lambda a, b: a | b, 'and': lambda a, b: a & b, 'xor': lambda a, b: a ^ b, 'andnot': lambda a, b: a & ~b}
OPS['union'] = OPS['or']; OPS['intersection'] = OPS['and']

DEF = {}
def D_of(c_E, f, n=NW, name='D'):
    """ghost sequence D[t] = f(t), t < n"""
    D = Arr(64, 32, name=name)
    c_E.fact(forall1([D], lambda t: D(t) == f(t)))
    DEF[D.f.name()] = f
    return D
def ps_steps(E, D, i, k, f=None):
    """definition of the prefix sum at i..i+k, with the bounds of population counts"""
    r = []
    for j in range(k):
        ij = simpz(W(i, 32) + j); w = D(ij)
        r += [PS_unfold(D, ij), z3.ULE(POP(w), 64)]
        r.append(w == DEF[D.f.name()](ij))
    r += [PS_bound(D, simpz(W(i, 32))), PS_bound(D, simpz(W(i, 32) + k)), PS_bound(D, NW)]
    return And(*r)
def PS32(D, n): return z3.Extract(31, 0, PS(D, n))
def opf(op, A, Bw): return lambda t: OPS[op](A(t), Bw(t))

# --- struct-level functions: (src1, src2, dst) and (src1, src2)
def _setup3(alias):
    def f(E, st):
        a = bsc(E, st, 'A', ro=alias not in ('A', 'AB')); b = a if alias == 'AB' else bsc(E, st, 'B', ro=alias != 'B')
        o = a if alias in ('A', 'AB') else b if alias == 'B' else bsc(E, st, 'O', ro=False)
        return [a, b, o]
    return S({None: 'distinct', 'A': 'dst==src1', 'B': 'dst==src2', 'AB': 'all same'}[alias], f)
def _setup2(E, st): return [bsc(E, st, 'A'), bsc(E, st, 'B')]
def wellf(E, st, p):
    w = bwords(E, st, p)
    return room(E, st, w, NW, 8)
def _pre(k):
    def pre(c):
        for i in range(k): yield 'container %d' % i, wellf(c.E, c.st, c.a[i])
    return pre
def _post3(op, card):
    def post(c):
        E = c.E; a, b, o = c.a
        A, Bw, O = bview(E, c.old, a), bview(E, c.old, b), bview(E, c.st, o)
        yield 'words', allb(O, 0, NW, lambda t: O(t) == OPS[op](A(t), Bw(t)))
        if card:
            D = E.gx.get('D') if c.top else None
            D = D or E.arr(c.st, bwords(E, c.st, o))
            yield 'cardinality', And(eqv(bcard(E, c.st, o), PS32(D, NW), 32), eqv(c.ret, PS32(D, NW), 32), ule(PS(D, NW), 65536, 64))
        else:
            yield 'cardinality unknown', And(eqv(bcard(E, c.st, o), mask(-1, 32), 32), eqv(c.ret, mask(-1, 32), 32))
    return post
def _ghost3(op):
    def g(c):
        E = c.E; a, b = c.a[:2]
        D = D_of(E, opf(op, bview(E, c.old, a), bview(E, c.old, b)))
        E.fact(PS_unfold(D, 0))
        return {'D': D}
    return g
def _post2(op):
    def post(c):
        E = c.E; a, b = c.a
        D = E.gx.get('D') if c.top else None
        if D is None: D = D_of(E, opf(op, bview(E, c.old, a), bview(E, c.old, b)))
        c.D = D
        yield 'cardinality', And(eqv(c.ret, PS32(D, NW), 32), ule(PS(D, NW), 65536, 64))
        if not c.top and 'D' in E.gx: yield 'same sequence', sumext(E, D, E.gx['D'])
    return post
def mods3(c): return [bwords(c.E, c.old if c.ret is not None else c.st, c.a[2]), cardcell(c.E, c.a[2])]

def _inv_sc(op, nocard=False, just=False):
    def inv(V):
        E = V.E; i = trunc(V.i, 64, 32)
        r = [('range', And(ule(V.i, NW, 64), eqv(W(V.i, 64) & (0 if nocard else 1), 0, 64)))]
        if not just:
            a, b, o = V.a
            A, Bw, O, O0 = bview(E, V.old, a), bview(E, V.old, b), bview(E, V.st, o), bview(E, V.old, o)
            r += [('done', allb(O, 0, i, lambda t: O(t) == OPS[op](A(t), Bw(t)))), ('rest', allb(O, i, NW, lambda t: O(t) == O0(t)))]
        if not nocard: r += [('sum', eqv(V.sum, PS32(E.gx['D'], i), 32)), ('sum bound', ule(V.sum, W(i, 32) * 64))]
        return r
    return inv
def _h_sc(V): return [ps_steps(V.E, V.E.gx['D'], trunc(V.i, 64, 32), 2)]
ALL3 = [_setup3(None), _setup3('A'), _setup3('B'), _setup3('AB')]
def mk(name, **k):
    c = contract(name, **k)
    return c
# vector kernels on word arrays
VW = {'avx512': 8, 'avx2': 4}
def _ksetup(isa, store, alias=None):
    def f(E, st):
        a = E.newblk(st, 'a', NW * 8, 'arr', 8, ro=alias != 'A'); b = E.newblk(st, 'b', NW * 8, 'arr', 8, ro=alias != 'B')
        o = {'A': a, 'B': b}.get(alias) if alias else E.newblk(st, 'o', NW * 8, 'arr', 8)
        return [a, b] + ([o] if store else []) + [NW // VW[isa]]
    return S(alias or 'distinct', f)
def _kpre(isa):
    def pre(c):
        n = c.a[-1]
        yield 'size', eqv(n, NW // VW[isa], 64)
        for p in c.a[:-1]: yield 'room', room(c.E, c.st, p, NW, 8)
    return pre
def kf(op, a, b):     # the kernels are called with the operands swapped: op(data1, data2) = data2 op data1 for andnot
    return (lambda t: b(t) & ~a(t)) if op == 'andnot' else (lambda t: OPS[op](a(t), b(t)))
def _kghost(op):
    def g(c):
        E = c.E; D = D_of(E, kf(op, view(E, c.old, c.a[0]), view(E, c.old, c.a[1])))
        E.fact(PS_unfold(D, 0)); return {'D': D}
    return g
def _kpost(op, store):
    def post(c):
        E = c.E; f = kf(op, view(E, c.old, c.a[0]), view(E, c.old, c.a[1]))
        ver = c.top
        if store:
            O = view(E, c.st, c.a[2])
            yield 'words', allb(O, 0, NW, lambda t: O(t) == f(t))
            D = E.gx['D'] if ver else E.arr(c.st, c.a[2])
        else: D = E.gx['D'] if ver else D_of(E, f)
        r = W(c.ret, 64)
        yield 'count', And(r == PS(D, NW), ule(PS(D, NW), 65536, 64))
        if not ver and not store and 'D' in E.gx:   # same sequence as the caller's ghost: the sums agree
            yield 'same sequence', sumext(E, D, E.gx['D'])
    return post
def sumext(E, D1, D2):
    """extensionality of sums: equal sequences have equal sums (witness form)"""
    w = fbv('ext', 32)
    return Or(PS(D1, NW) == PS(D2, NW), And(z3.ULT(w, NW), D1(w) != D2(w)))
def _kinv512(op, store, step):
    def inv(V):
        E = V.E; i8 = simpz(W(trunc(V.i, 64, 32), 32) * 8); D = E.gx['D']
        lanes = [W(x, 64) for x in V.total]
        s = lanes[0]
        for x in lanes[1:]: s = s + x
        r = [('range', And(ule(V.i, NW // 8, 64), eqv(W(V.i, 64) & (step - 1), 0, 64))),
             ('sum', s == PS(D, i8))]
        if store:
            f = kf(op, view(E, V.old, V.a[0]), view(E, V.old, V.a[1])); O, O0 = view(E, V.st, V.a[2]), view(E, V.old, V.a[2])
            r += [('done', allb(O, 0, i8, lambda t: O(t) == f(t))), ('rest', allb(O, i8, NW, lambda t: O(t) == O0(t)))]
        return r
    return inv
def _kh512(k):
    return lambda V: [ps_steps(V.E, V.E.gx['D'], simpz(W(trunc(V.i, 64, 32), 32) * 8), 8 * k)]

PB = ['C01', 'C02', 'C17']
for op in ('or', 'union', 'and', 'intersection', 'xor', 'andnot'):
    pr = PB if op not in ('union', 'intersection') else ['C17']
    mk('_scalar_bitset_container_' + op, props=[], setups=ALL3, pre=_pre(3), post=_post3(op, True), modifies=mods3, ghost=_ghost3(op), loops=[LoopSpec(_inv_sc(op), hints=_h_sc)])
    mk('_scalar_bitset_container_%s_nocard' % op, props=[], setups=ALL3, pre=_pre(3), post=_post3(op, False), modifies=mods3, loops=[LoopSpec(_inv_sc(op, nocard=True))])
    mk('_scalar_bitset_container_%s_justcard' % op, props=[], setups=[_setup2], pre=_pre(2), post=_post2(op), ghost=_ghost3(op), loops=[LoopSpec(_inv_sc(op, just=True), hints=_h_sc)])
    mk('avx512_harley_seal_popcount512andstore_' + op, props=[], setups=[_ksetup('avx512', True), _ksetup('avx512', True, 'A'), _ksetup('avx512', True, 'B')], pre=_kpre('avx512'), post=_kpost(op, True), modifies=lambda c: [c.a[2]], ghost=_kghost(op),
       loops=[LoopSpec(_kinv512(op, True, 4), hints=_kh512(4)), LoopSpec(_kinv512(op, True, 1), hints=_kh512(1))])
    mk('avx512_harley_seal_popcount512_' + op, props=[], setups=[_ksetup('avx512', False)], pre=_kpre('avx512'), post=_kpost(op, False), ghost=_kghost(op),
       loops=[LoopSpec(_kinv512(op, False, 4), hints=_kh512(4)), LoopSpec(_kinv512(op, False, 1), hints=_kh512(1))])

# --- AVX2: carry-save adders and the nibble-table population count
def bits(x, lo=0, hi=64):
    r = None
    for i in range(lo, hi):
        b = z3.ZeroExt(63, z3.Extract(i, i, x)); r = b if r is None else r + b
    return r
def popdef(x): return POP(x) == bits(x)     # definition of the population count
def v4(E, st, p): A = view(E, st, p); return [A(k) for k in range(4)]
def vblk(E, st, name, ro=True): return E.newblk(st, name, 32, 'arr', 8, ro=ro)
def _pc_post(c):
    v = v4(c.E, c.old, c.a[0])
    for k in range(4): yield 'lane %d' % k, W(c.ret[k], 64) == POP(v[k])
def _pc_lemmas(c):
    v = v4(c.E, c.old, c.a[0])
    for k in range(4):
        todo = [c.ret[k]]; parts = []
        while todo:
            x = todo.pop()
            if kind(x) == z3.Z3_OP_BADD: todo.extend(reversed(x.children()))
            else: parts.append(x)
        for j, p in enumerate(parts): yield 'byte', p == bits(v[k], 8 * j, 8 * j + 8)
def pcret(c): return [fbv('pc', 64) for _ in range(4)]
contract('popcount256', props=[], setups=[S('v', lambda E, st: [vblk(E, st, 'v')])], pre=lambda c: [('room', room(c.E, c.st, c.a[0], 4, 8))], post=_pc_post, mk_ret=pcret,
         hints=lambda c: [popdef(x) for x in v4(c.E, c.old, c.a[0])], lemmas=_pc_lemmas)
def _csa_post(c):
    E = c.E; h, l = v4(E, c.st, c.a[0]), v4(E, c.st, c.a[1]); x, y, z = [v4(E, c.old, p) for p in c.a[2:]]
    for k in range(4): yield 'lane %d' % k, POP(h[k]) * 2 + POP(l[k]) == POP(x[k]) + POP(y[k]) + POP(z[k])
def _csa_terms(c):
    E = c.E; return zip(v4(E, c.st, c.a[0]), v4(E, c.st, c.a[1]), *[v4(E, c.old, p) for p in c.a[2:]])
def _csa_lem(c):
    for h, l, x, y, z in _csa_terms(c):
        b = lambda t, i: z3.ZeroExt(63, z3.Extract(i, i, t))
        for i in range(64): yield 'bit', b(h, i) * 2 + b(l, i) == b(x, i) + b(y, i) + b(z, i)
contract('CSA', props=[], setups=[S('h,l,a,b,c', lambda E, st: [vblk(E, st, 'h', False), vblk(E, st, 'l', False)] + [vblk(E, st, n) for n in 'abc'])],
         pre=lambda c: [('room', room(c.E, c.st, p, 4, 8)) for p in c.a], post=_csa_post, modifies=lambda c: c.a[:2], hints=lambda c: [popdef(t) for tt in _csa_terms(c) for t in tt], lemmas=_csa_lem)
def lsum(xs):
    r = xs[0]
    for x in xs[1:]: r = r + x
    return r
def _kinv2(op, store, first):
    def inv(V):
        E = V.E; i4 = simpz(W(trunc(V.i, 64, 32), 32) * 4); D = E.gx['D']
        s = lsum([W(x, 64) for x in V.total])
        if first:
            s = s * 16
            for nm, wt in (('ones', 1), ('twos', 2), ('fours', 4), ('eights', 8)):
                s = s + lsum([POP(x) for x in v4(E, V.st, V.at(nm))]) * wt
        r = [('range', And(ule(V.i, NW // 4, 64), eqv(W(V.i, 64) & (15 if first else 0), 0, 64))), ('sum', s == PS(D, i4))]
        if store:
            f = kf(op, view(E, V.old, V.a[0]), view(E, V.old, V.a[1])); O, O0 = view(E, V.st, V.a[2]), view(E, V.old, V.a[2])
            r += [('done', allb(O, 0, i4, lambda t: O(t) == f(t))), ('rest', allb(O, i4, NW, lambda t: O(t) == O0(t)))]
        return r
    return inv
def _kh2(k): return lambda V: [POP(z3.BitVecVal(0, 64)) == 0, ps_steps(V.E, V.E.gx['D'], simpz(W(trunc(V.i, 64, 32), 32) * 4), 4 * k)]
for op in ('or', 'union', 'and', 'intersection', 'xor', 'andnot'):
    L2 = lambda st: [LoopSpec(_kinv2(op, st, True), hints=_kh2(16)), LoopSpec(_kinv2(op, st, False), hints=_kh2(1))]
    gh = (lambda g: lambda c: (c.E.fact(POP(z3.BitVecVal(0, 64)) == 0), g(c))[1])(_kghost(op))
    mk('avx2_harley_seal_popcount256andstore_' + op, props=[], setups=[_ksetup('avx2', True), _ksetup('avx2', True, 'A'), _ksetup('avx2', True, 'B')], pre=_kpre('avx2'), post=_kpost(op, True), modifies=lambda c: [c.a[2]], ghost=gh, loops=L2(True))
    mk('avx2_harley_seal_popcount256_' + op, props=[], setups=[_ksetup('avx2', False)], pre=_kpre('avx2'), post=_kpost(op, False), ghost=gh, loops=L2(False))

# --- vector versions without cardinality, wrappers and dispatchers
def _inv_nv(op, isa, step):
    wd = VW[isa]
    def inv(V):
        E = V.E; iw = simpz(W(trunc(V.i, 64, 32), 32) * wd)
        a, b, o = V.a
        A, Bw, O, O0 = bview(E, V.old, a), bview(E, V.old, b), bview(E, V.st, o), bview(E, V.old, o)
        return [('range', And(ule(V.i, NW // wd, 64), eqv(W(V.i, 64) & (step - 1), 0, 64))),
                ('done', allb(O, 0, iw, lambda t: O(t) == OPS[op](A(t), Bw(t)))), ('rest', allb(O, iw, NW, lambda t: O(t) == O0(t)))]
    return inv
def _fixw(isa):
    f = lambda V: simpz(W(trunc(V.i, 64, 32), 32) * VW[isa])
    return {n: f for n in ('out', 'words_1', 'words_2')}
for op in ('or', 'union', 'and', 'intersection', 'xor', 'andnot'):
    pr = PB if op not in ('union', 'intersection') else ['C17']
    if op in ('or', 'xor'): pr = pr + ['C04']
    for isa in ('avx2', 'avx512'):
        mk('_%s_bitset_container_%s_nocard' % (isa, op), props=[], setups=ALL3, pre=_pre(3), post=_post3(op, False), modifies=mods3, loops=[LoopSpec(_inv_nv(op, isa, 8), fix=_fixw(isa))])
        mk('_%s_bitset_container_%s' % (isa, op), props=[], setups=ALL3[:3], pre=_pre(3), post=_post3(op, True), modifies=mods3)
        mk('_%s_bitset_container_%s_justcard' % (isa, op), props=[], setups=[_setup2], pre=_pre(2), post=_post2(op), ghost=_ghost3(op))
    mk('bitset_container_' + op, props=pr, setups=ALL3[:3], pre=_pre(3), post=_post3(op, True), modifies=mods3)
    mk('bitset_container_%s_nocard' % op, props=pr, setups=ALL3[:3], pre=_pre(3), post=_post3(op, False), modifies=mods3)
    mk('bitset_container_%s_justcard' % op, props=['C01', 'C03', 'C17'], setups=[_setup2], pre=_pre(2), post=_post2(op), ghost=_ghost3(op))
