"""Specification vocabulary shared by all contracts."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import z3
from sym import *

class View:
    """array content seen from element offset i0"""
    def __init__(s, a, i0):
        s.a, s.i0 = a, W(i0, a.iw); s.w, s.iw = a.w, a.iw
        s.z = z3.is_bv_value(s.i0) and s.i0.as_long() == 0
    def read(s, t):
        t = W(t, s.iw)
        return s.a.read(t if s.z else simpz(t + s.i0))
    __call__ = read
    def bases(s):
        if s.z: return s.a.bases()
        return [(f, (lambda g: (lambda t: simpz(g(t) - s.i0)))(g)) for f, g in s.a.bases()]
    def stores(s): return [x if s.z else simpz(x - s.i0) for x in s.a.stores()]

def view(E, st, p, n=None):
    """View of the array p points to (p may point inside)"""
    a = E.arr(st, p)
    b = st.blk[p.b]
    i = p.o.div(b.ew, b.iw)
    if i is None: raise Unsupported('view alignment')
    return View(a, W(mask(i, b.iw) if isc(i) else i, b.iw))
def room(E, st, p, n, ew, w=32):
    """at least n elements (of ew bytes) addressable at p"""
    if not isinstance(p, Ptr) or p.b is None:
        if isinstance(p, Ptr): return eqv(n, 0, w)
        raise Unsupported('room of opaque')
    if p.b in st.dead: return z3.BoolVal(False)
    b = st.blk[p.b]
    if b.kind == 'raw': b = E.settle(st, b, ew)
    n64 = W(zext(n, w, 64), 64) * ew
    o = W(p.o.bv(), 64); sz = W(E.size64(b), 64)
    return And(z3.ULE(o, sz), z3.ULE(n64, sz - o))

def sorted_(A, n, w=None):
    n = W(n, A.iw)
    return forall2([A], lambda s, t: Implies(And(z3.ULT(s, t), z3.ULT(t, n)), z3.ULT(A(s), A(t))))
def mem(A, n, x, extra=()):
    n = W(n, A.iw)
    return exists1([A], lambda t: And(z3.ULT(t, n), A(t) == x), extra=extra)
def allb(A, lo, hi, f, extra=()):
    """for all lo<=t<hi: f(t)"""
    lo = W(lo, A.iw); hi = W(hi, A.iw)
    return forall1([A], lambda t: Implies(And(z3.ULE(lo, t), z3.ULT(t, hi)), f(t)), extra=extra)
def rank(E, A, n, x, name='rk'):
    """ghost: number of elements < x in the sorted A[0..n) (exists because A is sorted)"""
    p = fbv(name, A.iw); n = W(n, A.iw)
    E.fact(And(z3.ULE(p, n), forall1([A], lambda t: Implies(z3.ULT(t, n), (z3.ULT(t, p)) == z3.ULT(A(t), x)), extra=[p])))
    return p
def inR(A, n, p, x): return And(z3.ULT(p, W(n, A.iw)), A(p) == x)

def u16buf(E, st, name, n, ro=True, w=32, extra=0):
    """u16 array of n elements (n: w-bit)"""
    n64 = W(zext(n, w, 64), 64)
    return E.newblk(st, name, simpz((n64 + extra) * 2), 'arr', 2, ro=ro)
def u64buf(E, st, name, n, ro=True):
    if isc(n): return E.newblk(st, name, n * 8, 'arr', 8, ro=ro)
    return E.newblk(st, name, simpz(W(zext(n, n.size(), 64), 64) * 8), 'arr', 8, ro=ro)

X16 = z3.BitVec('x', 16)
REG = {}
def contract(name, **k):
    c = Contract(name, **k)
    REG[name] = c
    return c
def S(label, f, props=None):
    """props: the properties whose checks verify this variant (default: all the contract's)"""
    f.label = label; f.props = props
    return f
