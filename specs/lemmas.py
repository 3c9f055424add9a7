"""Lemmas used by the contracts, each with its own proof (checked on every run by check.py)."""
from common import *

def _bits(x): return z3.Sum([z3.ZeroExt(57, z3.Extract(i, i, x)) for i in range(64)])
def POP_setbit(w, i):
    """i: 64-bit index < 64"""
    m = z3.BitVecVal(1, 64) << i; b = z3.Extract(0, 0, z3.LShR(w, i))
    return And(POP(w | m) == POP(w) + z3.If(b == 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)), POP(w & ~m) == POP(w) - z3.If(b == 1, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
def POP_orlow(y, w):
    """POP_setbit with the bit given as the lowest set bit of w"""
    l = w & (0 - w)
    return Implies(w != 0, POP(y | l) == POP(y) + z3.If(y & l == 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
def POP_low(w):
    """removing the lowest set bit"""
    return Implies(w != 0, POP(w & (w - 1)) == POP(w) - 1)
def POP_split(w, i):
    """i: 64-bit index < 64"""
    lo = (z3.BitVecVal(1, 64) << i) - 1
    return POP(w) == POP(w & lo) + POP(w & ~lo)
def POP_mono(a, b): return Implies(a & ~b == 0, ule(POP(a), POP(b), 64))
def POP_zero(): return POP(z3.BitVecVal(0, 64)) == 0
def POP_nz(w): return And(ule(POP(w), 64, 64), Iff(POP(w) == 0, w == 0))
def PS_mono(a, i, j):
    i, j = W(i, 32), W(j, 32)
    return Implies(And(ule(i, j), ult(j, 1 << 26)), ule(PS(a, i), PS(a, j), 64))

def zero_sum(E, A, n):
    """sum zero iff every word is zero"""
    w = fbv('nz', 32)
    return And(Or(PS(A, n) == 0, And(ult(w, n), A.read(w) != 0)), Implies(PS(A, n) == 0, forall1([View(A, 0)], lambda t: Implies(ult(t, n), A.read(t) == 0))))
def full_sum(E, A, n):
    """a sum of 64 n forces every word to be full"""
    return Implies(PS(A, n) == n * 64, forall1([View(A, 0)], lambda t: Implies(ult(t, n), A.read(t) == 2**64 - 1)))
def sub_sum(E, A, Bw, n):
    """a larger sum has a word with a bit that the other lacks"""
    w = fbv('w', 32)
    return Or(ule(PS(A, n), PS(Bw, n), 64), And(ult(w, n), A.read(w) & ~Bw.read(w) != 0))
def run_ends(a, n):
    """run ends of word a followed by word n, counted as the code does"""
    return POP(a & ~(z3.LShR(a, 1) | (n << 63))) == POP(~a & (a << 1)) + (z3.LShR(a, 63) & ~n)
def proofs():
    """(name, [formulas, each of which must be unsatisfiable])"""
    x = z3.BitVec('x', 64); fs = []
    for i in range(64):
        m = z3.BitVecVal(1 << i, 64); b = z3.Extract(i, i, x)
        fs.append(Or(_bits(x | m) != _bits(x) + z3.If(b == 0, z3.BitVecVal(1, 58), z3.BitVecVal(0, 58)), _bits(x & ~m) != _bits(x) - z3.If(b == 1, z3.BitVecVal(1, 58), z3.BitVecVal(0, 58))))
    yield 'POP_setbit', fs
    fs = []
    for i in range(64):
        c = z3.Extract(i, i, x) == 1
        if i: c = And(c, z3.Extract(i - 1, 0, x) == 0)
        fs.append(And(c, _bits(x & (x - 1)) != _bits(x) - 1)); fs.append(And(c, x & (0 - x) != z3.BitVecVal(1 << i, 64)))
    yield 'POP_low', fs + [And(x != 0, *[Not(And(z3.Extract(i, i, x) == 1, z3.Extract(i - 1, 0, x) == 0) if i else z3.Extract(0, 0, x) == 1) for i in range(64)])]
    yield 'POP_split', [_bits(x) != _bits(x & z3.BitVecVal((1 << i) - 1, 64)) + _bits(x & z3.BitVecVal(~((1 << i) - 1) & (2**64 - 1), 64)) for i in range(64)]
    yield 'POP_nz', [z3.UGT(_bits(x), 64), And(_bits(x) == 0, x != 0), _bits(z3.BitVecVal(0, 64)) != 0]
    b2 = z3.BitVec('b2', 64)
    yield 'POP_mono', [And(x & ~b2 == 0, z3.UGT(_bits(x), _bits(b2)))]
    yield 'POP_full', [And(_bits(x) == 64, x != 2**64 - 1), _bits(z3.BitVecVal(2**64 - 1, 64)) != 64]
    yield 'run_ends', [z3.ZeroExt(6, _bits(x & ~(z3.LShR(x, 1) | (b2 << 63)))) != z3.ZeroExt(6, _bits(~x & (x << 1))) + (z3.LShR(x, 63) & ~b2)]
    # inductive lemmas over prefix sums: base and step, p = PS(i), q = POP(a[i])
    p, q, r = z3.BitVecs('p q r', 64); i, j = z3.BitVecs('i j', 32)
    yield 'PS_bound', [And(ult(i, (1 << 26) - 1), ule(p, z3.ZeroExt(32, i) * 64, 64), ule(q, 64, 64), z3.UGT(p + q, z3.ZeroExt(32, i + 1) * 64))]
    yield 'PS_mono', [And(ult(j, (1 << 26) - 1), ule(r, p, 64), ule(p, z3.ZeroExt(32, j) * 64, 64), ule(q, 64, 64), z3.ULT(p + q, r))]
    # extensionality: PS(a,n)=PS(b,n) and a[n]=b[n] give PS(a,n+1)=PS(b,n+1); update: one word changed
    f = z3.Function('POPx', z3.BitVecSort(64), z3.BitVecSort(64)); a, b = z3.BitVecs('a b', 64); k = z3.BitVec('k', 32)
    yield 'PS_ext', [And(p == r, a == b, p + f(a) != r + f(b))]
    yield 'zero_sum', [And(p == 0, q == 0, p + q != 0), And(p + q == 0, ule(p, 1 << 40, 64), ule(q, 64, 64), Or(p != 0, q != 0))]
    yield 'full_sum', [And(ult(i, 1 << 25), p + q == z3.ZeroExt(32, i + 1) * 64, ule(p, z3.ZeroExt(32, i) * 64, 64), ule(q, 64, 64), Or(q != 64, p != z3.ZeroExt(32, i) * 64))]
    yield 'sub_sum', [And(ule(p, r, 64), ule(r, 1 << 40, 64), ule(f(a), f(b), 64), ule(f(b), 64, 64), Not(ule(p + f(a), r + f(b), 64)))]
    d = z3.BitVec('d', 64)
    yield 'PS_store', [And(r == z3.If(z3.ULT(k, i), p + d, p), ult(i, 0xffffffff), Implies(i == k, f(b) == f(a) + d), Implies(i != k, b == a), r + f(b) != z3.If(z3.ULT(k, i + 1), p + f(a) + d, p + f(a)))]
def check(part=0, of=1):
    n = 0; bad = []; k = 0; t0 = __import__('time').time()
    for nm, fs in proofs():
        for f in fs:
            k += 1
            if k % of != part: continue
            s = z3.SolverFor('QF_UFBV') if nm.startswith('PS') else z3.SolverFor('QF_BV')
            s.set('timeout', 30000); s.add(f)
            if s.check() != z3.unsat: bad.append(nm)
            n += 1
    import array_c, run_c
    names = [x for i, x in enumerate(sorted(array_c.SEQ_LEMMAS)) if i % of == part]
    m, b, _ = array_c.check_seq(names) if names else (0, [], 0)
    n += m; bad += b
    return n, bad, __import__('time').time() - t0
if __name__ == '__main__': print(check())
