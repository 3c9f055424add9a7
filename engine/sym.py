"""Deductive verifier core: symbolic execution of LLVM IR (compiled from /repo on every run) against
contracts; loops are cut by invariants, calls are replaced by contracts (or inlined), every obligation is
discharged by an SMT solver for all inputs and all iterations."""
import lia as _lia
import z3, re, time, sys, itertools, os
z3.set_param('smt.mbqi', False)
sys.setrecursionlimit(100000)

_zs = z3.simplify
def _simplify(e, *a, **k): return _zs(e, *a, bv_le2extract=False, **k)      # keep comparisons as comparisons
z3.simplify = _simplify
class Unsupported(Exception): pass
class Restart(Exception): pass
class PathEnd(Exception): pass

_ctr = itertools.count()
def fresh_name(p): return '%s!%d' % (p, next(_ctr))
def fbv(p, w): return z3.BitVec(fresh_name(p), w)
def fbool(p): return z3.Bool(fresh_name(p))
FPS = z3.BitVecSort(64)

# ------------------------------------------------------------------ bit-vector helpers (ints or z3)
def mask(v, w): return v & ((1 << w) - 1)
def sgn(v, w):
    v = mask(v, w)
    return v - (1 << w) if v >> (w - 1) else v
def W(v, w):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, (Ptr,)): raise Unsupported('pointer used as integer')
    assert v.size() == w, (v, v.size(), w)
    return v
def norm(e):
    """z3 -> python int when literal"""
    if z3.is_expr(e):
        if z3.is_bv_value(e): return e.as_long()
        if z3.is_true(e): return True
        if z3.is_false(e): return False
    return e
def isc(v): return isinstance(v, int)
def B(v):
    if isinstance(v, (bool, int)): return z3.BoolVal(bool(v))
    if z3.is_bool(v): return v
    return v != 0
def simp(e): return norm(z3.simplify(e)) if z3.is_expr(e) else e

K = None
def kind(e): return e.decl().kind() if z3.is_app(e) else None
def zext(v, a, b):
    if a == b: return v
    if isc(v): return mask(v, a)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, b), z3.BitVecVal(0, b))
    if kind(v) == z3.Z3_OP_ZERO_EXT: return z3.ZeroExt(b - v.arg(0).size(), v.arg(0))
    if kind(v) == z3.Z3_OP_ITE and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
        return z3.If(v.arg(0), z3.BitVecVal(v.arg(1).as_long(), b), z3.BitVecVal(v.arg(2).as_long(), b))
    return z3.ZeroExt(b - a, v)
def sext(v, a, b):
    if a == b: return v
    if isc(v): return mask(sgn(v, a), b)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(-1, b), z3.BitVecVal(0, b))
    if kind(v) == z3.Z3_OP_ZERO_EXT: return z3.ZeroExt(b - v.arg(0).size(), v.arg(0))
    if kind(v) == z3.Z3_OP_ITE and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
        return z3.If(v.arg(0), z3.BitVecVal(sgn(v.arg(1).as_long(), a), b), z3.BitVecVal(sgn(v.arg(2).as_long(), a), b))
    return z3.SignExt(b - a, v)
def trunc(v, a, b):
    if a == b: return v
    if isc(v): return mask(v, b) if b > 1 else v & 1
    k = kind(v)
    if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        y = v.arg(0); ys = y.size()
        if ys == b: return y
        if ys > b: return trunc(y, ys, b)
        return zext(y, ys, b) if k == z3.Z3_OP_ZERO_EXT else sext(y, ys, b)
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_BSUB) and v.num_args() == 2 and b >= 8:
        x = W(trunc(v.arg(0), a, b), b); y = W(trunc(v.arg(1), a, b), b)
        return norm({z3.Z3_OP_BADD: lambda: add(x, y, b), z3.Z3_OP_BMUL: lambda: x * y, z3.Z3_OP_BAND: lambda: x & y,
                     z3.Z3_OP_BOR: lambda: x | y, z3.Z3_OP_BXOR: lambda: x ^ y, z3.Z3_OP_BSUB: lambda: x - y}[k]())
    if z3.is_bv_value(v): return mask(v.as_long(), b)
    if k == z3.Z3_OP_ITE and b > 1:
        return z3.If(v.arg(0), W(trunc(v.arg(1), a, b), b), W(trunc(v.arg(2), a, b), b))
    if k == z3.Z3_OP_CONCAT:
        y = v.arg(v.num_args() - 1)
        if y.size() == b: return y
    if b == 1: return z3.Extract(0, 0, v) == 1
    return z3.Extract(b - 1, 0, v)
def add(a, b, w):
    a = norm(a); b = norm(b)
    if isc(a) and isc(b): return mask(a + b, w)
    if isc(a): a, b = b, a
    if isc(b):
        if mask(b, w) == 0: return a
        if kind(a) == z3.Z3_OP_BADD and a.num_args() == 2 and z3.is_bv_value(a.arg(1)):
            return add(a.arg(0), a.arg(1).as_long() + b, w)
        return a + z3.BitVecVal(b, w)
    return a + b
def sub(a, b, w):
    a = norm(a); b = norm(b)
    if isc(b): return add(a, mask(-b, w), w)
    if z3.is_expr(a) and z3.eq(a, b): return 0
    return W(a, w) - b
def eqv(a, b, w):
    if isc(a) and isc(b): return mask(a, w) == mask(b, w)
    a = W(a, w); b = W(b, w)
    if z3.eq(a, b): return True
    return a == b
def ite(c, a, b, w):
    c = norm(c)
    if isinstance(c, (bool, int)): return a if c else b
    if isc(a) and isc(b) and a == b: return a
    if z3.is_expr(a) and z3.is_expr(b) and z3.eq(a, b): return a
    if w == 1: return z3.If(c, B(a), B(b))
    return z3.If(c, W(a, w), W(b, w))
def And(*a):
    r = []
    for x in a:
        if isinstance(x, (list, tuple)): x = And(*x)
        x = norm(x)
        if x is True or (isc(x) and x == 1): continue
        if x is False or (isc(x) and x == 0): return z3.BoolVal(False)
        r.append(x)
    return z3.BoolVal(True) if not r else r[0] if len(r) == 1 else z3.And(*r)
def Or(*a):
    r = []
    for x in a:
        if isinstance(x, (list, tuple)): x = Or(*x)
        x = norm(x)
        if x is True or (isc(x) and x == 1): return z3.BoolVal(True)
        if x is False or (isc(x) and x == 0): continue
        r.append(x)
    return z3.BoolVal(False) if not r else r[0] if len(r) == 1 else z3.Or(*r)
def Not(a):
    a = norm(a)
    if isinstance(a, (bool, int)): return z3.BoolVal(not a)
    return z3.Not(a)
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b): return B(a) == B(b)
def ult(a, b, w=32): return z3.ULT(W(a, w), W(b, w))
def ule(a, b, w=32): return z3.ULE(W(a, w), W(b, w))
def slt(a, b, w=32): return W(a, w) < W(b, w)
def sle(a, b, w=32): return W(a, w) <= W(b, w)

POP = z3.Function('POP64', z3.BitVecSort(64), z3.BitVecSort(64))   # population count (64-bit result)
def popc(v):
    if isc(v): return bin(v).count('1')
    return POP(v)

# ------------------------------------------------------------------ pointers
class Off:
    __slots__ = ('c', 't')
    def __init__(s, c=0, t=None): s.c = c; s.t = t or {}
    def plus(s, o):
        t = dict(s.t)
        for k, (x, n) in o.t.items():
            m = t[k][1] + n if k in t else n
            if m: t[k] = (x, m)
            else: t.pop(k, None)
        return Off(s.c + o.c, t)
    def scaled(s, k): return Off(s.c * k, {i: (x, n * k) for i, (x, n) in s.t.items()} if k else {})
    @staticmethod
    def of(v, coef=1):
        """64-bit value -> Off"""
        v = norm(v)
        if isc(v): return Off(sgn(v, 64) * coef)
        k = kind(v)
        if k == z3.Z3_OP_BADD:
            r = Off()
            for i in range(v.num_args()): r = r.plus(Off.of(v.arg(i), coef))
            return r
        if k == z3.Z3_OP_BSUB and v.num_args() == 2:
            return Off.of(v.arg(0), coef).plus(Off.of(v.arg(1), -coef))
        if k == z3.Z3_OP_BMUL and v.num_args() == 2:
            for i in (0, 1):
                if z3.is_bv_value(v.arg(i)): return Off.of(v.arg(1 - i), coef * sgn(v.arg(i).as_long(), 64))
        if k == z3.Z3_OP_BNEG: return Off.of(v.arg(0), -coef)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(v.arg(1)) and v.arg(1).as_long() < 32:
            return Off.of(v.arg(0), coef << v.arg(1).as_long())
        return Off(0, {v.get_id(): (v, coef)})
    def bv(s):
        r = None
        for x, n in s.t.values():
            y = x if n == 1 else x * z3.BitVecVal(n, 64)
            r = y if r is None else r + y
        if r is None: return mask(s.c, 64)
        return r + z3.BitVecVal(s.c, 64) if s.c else r
    def const(s): return not s.t
    def div(s, k, iw):
        """element index (python int or z3 of width iw) or None if not syntactically divisible"""
        if k != 1 and (s.c % k or any(n % k for _, n in s.t.values())): return None
        r = s.c // k
        if not s.t: return r
        acc = None
        for x, n in s.t.values():
            y = W(trunc(x, 64, iw), iw); m = n // k
            if m != 1: y = y * z3.BitVecVal(m, iw)
            acc = y if acc is None else acc + y
        return add(acc, mask(r, iw), iw)

class Ptr:
    __slots__ = ('b', 'o')
    def __init__(s, b, o=None): s.b = b; s.o = o or Off()
    def plus(s, o): return Ptr(s.b, s.o.plus(o if isinstance(o, Off) else Off(o)))
    def __repr__(s): return '<%s+%s>' % (s.b, s.o.c if s.o.const() else s.o.bv())
NULL = Ptr(None)

class Fn:   # function pointer
    def __init__(s, name): s.name = name

class Blk:
    __slots__ = ('id', 'name', 'size', 'kind', 'ew', 'iw', 'fresh', 'ro', 'heap')
    def __init__(s, id, name, size, kind, ew=None, iw=32, fresh=False, ro=False, heap=True):
        s.id, s.name, s.size, s.kind, s.ew, s.iw, s.fresh, s.ro, s.heap = id, name, size, kind, ew, iw, fresh, ro, heap
    def __repr__(s): return '%s#%d' % (s.name, s.id)

# ------------------------------------------------------------------ array contents
class Arr:
    """functional array content: base uninterpreted function + chain of updates"""
    __slots__ = ('f', 'ops', 'w', 'iw', 'nm')
    def __init__(s, w, iw=32, name='arr', f=None, ops=()):
        s.w, s.iw = w, iw
        s.f = f if f is not None else z3.Function(fresh_name(name), z3.BitVecSort(iw), z3.BitVecSort(w))
        s.ops = ops
    def ext(s, op): return Arr(s.w, s.iw, f=s.f, ops=s.ops + (op,))
    def store(s, i, v):
        i = W(i, s.iw)
        ops = s.ops
        if ops and ops[-1][0] == 'st' and z3.eq(ops[-1][1], i): ops = ops[:-1]
        return Arr(s.w, s.iw, f=s.f, ops=ops + (('st', i, W(v, s.w)),))
    def copy(s, d, src, so, n): return s.ext(('cp', W(d, s.iw), src, W(so, s.iw), W(n, s.iw)))
    def fill(s, d, n, v): return s.ext(('fl', W(d, s.iw), W(n, s.iw), W(v, s.w)))
    def __call__(s, i): return s.read(i)
    def read(s, i):
        i = W(i, s.iw)
        return s._rd(i, len(s.ops))
    def _rd(s, i, n):
        if n == 0:
            if isinstance(s.f, (list, tuple)):    # concrete table
                if z3.is_bv_value(i): return z3.BitVecVal(s.f[i.as_long()], s.w)
                raise Unsupported('symbolic index into table')
            if callable(s.f) and not isinstance(s.f, z3.FuncDeclRef): return s.f(i)
            return s.f(i)
        op = s.ops[n - 1]
        if op[0] == 'st':
            c = simp(i == op[1])
            if c is True: return op[2]
            r = s._rd(i, n - 1)
            return r if c is False else z3.If(c, op[2], r)
        if op[0] == 'cp':
            _, d, src, so, m = op
            c = simp(z3.ULT(i - d, m))
            if c is False: return s._rd(i, n - 1)
            v = src.read(simpz(i - d + so))
            return v if c is True else z3.If(c, v, s._rd(i, n - 1))
        if op[0] == 'fl':
            _, d, m, v = op
            c = simp(z3.ULT(i - d, m))
            if c is True: return v
            r = s._rd(i, n - 1)
            return r if c is False else z3.If(c, v, r)
        raise Exception(op)
    def bases(s):
        """[(base function, map: base index -> index in s)]"""
        out = []
        if isinstance(s.f, z3.FuncDeclRef): out.append((s.f, lambda t: t))
        for op in s.ops:
            if op[0] == 'cp':
                _, d, src, so, m = op
                for f, g in src.bases():
                    out.append((f, (lambda g, d, so: (lambda t: simpz(g(t) - so + d)))(g, d, so)))
        return out
    def stores(s):
        """indices individually written (in s's index space)"""
        out = []
        for op in s.ops:
            if op[0] == 'st': out.append(op[1])
            elif op[0] == 'cp':
                for i in op[2].stores(): out.append(simpz(i - op[3] + op[1]))
            elif op[0] == 'fl': out += [op[1]]
        return out

def uses_fn(e):
    todo = [e]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: return True
        todo.extend(x.children())
    return False
def has_quant(e, seen=None):
    todo = [e]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        todo.extend(x.children())
    return False
def simpz(e): return z3.simplify(e)

# Quantified formulas are kept as proxies and expanded by polarity: as a fact, a universal becomes a z3
# quantifier with explicit triggers (plus its instances at individually written indices); as a goal it becomes
# its body at fresh constants.
QT = {}
class QF:
    __slots__ = ('nv', 'iw', 'arrs', 'body', 'extra', 'cache')
    def __init__(s, nv, iw, arrs, body, extra): s.nv, s.iw, s.arrs, s.body, s.extra, s.cache = nv, iw, arrs, body, extra, None
    def as_fact(s):
        """([ (vars, [(function name, var)], body) ], [ground instances])"""
        if s.cache is None: s.cache = s._fact1() if s.nv == 1 else s._fact2()
        return s.cache
    def _pts(s):
        seen = set(); out = []
        for a in s.arrs:
            for f, g in a.bases():
                key = (f.name(), z3.simplify(g(z3.BitVecVal(0, f.domain(0).size()))).sexpr())
                if key in seen: continue
                seen.add(key); out.append((f, g))
        return out
    def _fact1(s):
        tm = []; gr = []
        pts = s._pts()
        for f, g in pts:
            t = z3.BitVec(fresh_name('t'), f.domain(0).size())
            bd = z3.simplify(B(norm(s.body(g(t)))))
            if z3.is_true(bd): continue
            tm.append(([t], [(f, t)], bd))
        for a in s.arrs:
            for i in a.stores(): gr.append(B(norm(s.body(i))))
        for i in s.extra: gr.append(B(norm(s.body(W(i, s.iw)))))
        if not pts:
            t = z3.BitVec(fresh_name('t'), s.iw)
            tm.append(([t], [], B(norm(s.body(t)))))
        return tm, gr
    def _fact2(s):
        tm = []; gr = []; pts = s._pts()
        for (f, g) in pts:
            for (f2, g2) in pts:
                u = z3.BitVec(fresh_name('s'), f.domain(0).size()); t = z3.BitVec(fresh_name('t'), f2.domain(0).size())
                bd = z3.simplify(B(norm(s.body(g(u), g2(t)))))
                if z3.is_true(bd): continue
                tm.append(([u, t], [(f, u), (f2, t)], bd))
        st = [i for a in s.arrs for i in a.stores()]
        for i in st:
            for (f, g) in pts:
                t = z3.BitVec(fresh_name('t'), f.domain(0).size())
                tm.append(([t], [(f, t)], And(s.body(i, g(t)), s.body(g(t), i))))
            for j in st: gr.append(B(norm(s.body(i, j))))
        return tm, gr
    def as_goal(s):
        v = [fbv('sk', s.iw) for _ in range(s.nv)]
        g = B(norm(s.body(*v)))
        if s.nv == 1:
            st = [i for a in s.arrs for i in a.stores()]
            if len(st) > 2:
                # written positions one by one, then an arbitrary other position
                seen = set(); idx = []
                for i in st:
                    i = simpz(i)
                    if i.get_id() not in seen: seen.add(i.get_id()); idx.append(i)
                conds = [z3.simplify(v[0] == i) for i in idx]
                rest = z3.simplify(z3.substitute(g, *[(c, z3.BoolVal(False)) for c in conds if not z3.is_true(c) and not z3.is_false(c)]))
                parts = [z3.simplify(B(norm(s.body(i)))) for i in idx]
                return z3.And(*parts, z3.Or(*conds, rest))
        return g
def _proxy(q):
    b = z3.Bool(fresh_name('Q!'))
    QT[b.decl().name()] = q
    return b
def forall1(arrs, body, name='t', extra=()): return _proxy(QF(1, arrs[0].iw, arrs, body, tuple(extra)))
def exists1(arrs, body, name='t', extra=()): return Not(forall1(arrs, lambda t: Not(body(t)), name, extra))
def forall2(arrs, body, name='t'): return _proxy(QF(2, arrs[0].iw, arrs, body, ()))

_hasq = {}
def hasproxy(e):
    k = e.get_id()
    r = _hasq.get(k)
    if r is not None and r[0] is not None: return r[1]
    todo = [e]; seen = set(); v = False
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in QT: v = True; break
        todo.extend(x.children())
    _hasq[k] = (e, v)
    return v
def expand(e, pos, sink):
    """replace quantifier proxies in e; pos: e is used as a fact.  sink collects (guard, templates)"""
    e = B(norm(e))
    if not hasproxy(e): return e
    k = kind(e)
    if z3.is_const(e):
        q = QT[e.decl().name()]
        if pos:
            tm, gr = q.as_fact()
            gr = [expand(x, True, sink) for x in gr]
            if not tm: return And(*gr)
            b = z3.Bool(fresh_name('qg'))
            sink.append((b, tm))
            return And(b, *gr)
        return expand(q.as_goal(), False, sink)
    if k == z3.Z3_OP_NOT: return z3.Not(expand(e.arg(0), not pos, sink))
    if k == z3.Z3_OP_AND: return z3.And(*[expand(c, pos, sink) for c in e.children()])
    if k == z3.Z3_OP_OR: return z3.Or(*[expand(c, pos, sink) for c in e.children()])
    if k == z3.Z3_OP_IMPLIES: return z3.Or(z3.Not(expand(e.arg(0), not pos, sink)), expand(e.arg(1), pos, sink))
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(e.arg(0)):
        a, b = e.arg(0), e.arg(1)
        return z3.And(z3.Or(z3.Not(expand(a, not pos, sink)), expand(b, pos, sink)), z3.Or(z3.Not(expand(b, not pos, sink)), expand(a, pos, sink)))
    if k == z3.Z3_OP_ITE:
        c, a, b = e.children()
        return z3.And(z3.Or(z3.Not(expand(c, not pos, sink)), expand(a, pos, sink)), z3.Or(expand(c, pos, sink), expand(b, pos, sink)))
    raise Unsupported('quantifier under %s' % e.decl())

# popcount prefix sums over a content
_ps = {}
def PS(a, n):
    """sum of POP over a[0..n) for a 64-bit content (n: 32-bit)"""
    n = W(n, 32)
    r = None
    ops = a.ops
    if isinstance(a.f, z3.FuncDeclRef): key = a.f.name()
    else: key = 'k%d' % id(a.f)
    if key not in _ps: _ps[key] = (z3.Function('PS_' + key, z3.BitVecSort(32), z3.BitVecSort(64)), a.f)
    F = _ps[key][0]
    r = F(n)
    for k, op in enumerate(ops):
        if op[0] != 'st': raise Unsupported('prefix sum over bulk copy')
        prev = Arr(a.w, a.iw, f=a.f, ops=ops[:k])
        i = op[1]; i32 = W(trunc(i, a.iw, 32), 32)
        r = z3.If(z3.ULT(i32, n), r + POP(op[2]) - POP(prev.read(i)), r)
    return r
def PS_unfold(a, i):
    """instance of the definition of the prefix sum of base content a at i: PS(i+1)=PS(i)+POP(a[i]), PS(0)=0"""
    b = Arr(a.w, a.iw, f=a.f)
    i = W(i, 32)
    return And(PS(b, 0) == 0, PS(b, simpz(i + 1)) == PS(b, i) + POP(b.read(zext(i, 32, a.iw) if a.iw > 32 else i)))
def PS_bound(a, i):
    """lemma (induction on i with POP <= 64): PS(i) <= 64 i, for i < 2^26"""
    i = W(i, 32)
    return Implies(z3.ULT(i, 1 << 26), z3.ULE(PS(a, i), z3.ZeroExt(32, i) * 64))

_sumc = {}
def is_sum(e):
    """does the term mention population counts or their prefix sums?"""
    todo = [e]; order = []
    while todo:
        x = todo[-1]; i = x.get_id()
        if i in _sumc and _sumc[i][0] is not None: todo.pop(); continue
        ch = x.children()
        if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.decl().name() == 'POP64' or x.decl().name().startswith('PS_')):
            _sumc[i] = (x, True); todo.pop(); continue
        un = [c for c in ch if c.get_id() not in _sumc]
        if un: todo.extend(un); continue
        _sumc[i] = (x, any(_sumc[c.get_id()][1] for c in ch)); todo.pop()
    return _sumc[e.get_id()][1]

def flat(e, k):
    r = []
    for c in e.children():
        if kind(c) == k: r += flat(c, k)
        else: r.append(c)
    return r
class Lin:
    """linear forms over bit-vector atoms modulo 2^w; the ring structure makes truncation a homomorphism"""
    def __init__(s): s.atoms = {}; s.keep = []; s.memo = {}; s.rules = {}; s.intern = {}; s.rev = []
    def ck(s, e):
        """canonical key of a term: equal keys are equal terms (arithmetic normal form, commutative operators sorted, ghost definitions unfolded)"""
        i = e.get_id()
        if i in s.memo: return s.memo[i][1]
        k = e.decl().kind()
        if k == z3.Z3_OP_BAND or (k == z3.Z3_OP_BNOT and kind(e.arg(0)) == z3.Z3_OP_BNOT):
            if k == z3.Z3_OP_BAND:
                o = None
                for c in e.children():
                    c = c.arg(0) if kind(c) == z3.Z3_OP_BNOT else ~c
                    o = c if o is None else o | c
                h = s.ck(~o)
            else: h = s.ck(e.arg(0).arg(0))
            s.memo[i] = (e, h); return h
        if z3.is_bv_value(e): r = ('n', e.as_long(), e.size())
        elif z3.is_bv(e) and (k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG) or (k == z3.Z3_OP_BMUL and e.num_args() == 2 and any(z3.is_bv_value(x) for x in e.children())) or (k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)))):
            f = s.form(e, e.size())
            if len(f) == 1 and 1 not in f and list(f.values())[0] == 1: r = s.ck(s.atoms[list(f)[0]])
            else: r = ('lin', e.size(), tuple(sorted(((str(s.ckk(a)) if a != 1 else '1'), c) for a, c in f.items())))
        else:
            ch = [s.ck(c) for c in (flat(e, k) if k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR) else e.children())]
            if k in (z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_BXOR): ch = sorted(ch, key=str)
            r = ('op', e.decl().name(), tuple(e.params()) if e.decl().kind() == z3.Z3_OP_EXTRACT else e.size() if z3.is_bv(e) else 0, tuple(ch))
        r = s.rules.get(r, r)
        h = s.intern.get(r)
        if h is None: h = ('#', len(s.intern)); s.intern[r] = h; s.rev.append(r)
        s.memo[i] = (e, h)
        return h
    def ckk(s, a): return a
    def key(s, x):
        k = s.ck(x)
        k = (x.decl().name() if x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else 't', k)
        if k not in s.atoms: s.atoms[k] = x; s.keep.append(x)
        return k
    def form(s, e, w):
        """e (width >= w) as {atom or 1: coef} mod 2^w"""
        out = {}
        def add(k, c):
            c = (out.get(k, 0) + c) & ((1 << w) - 1)
            if c: out[k] = c
            else: out.pop(k, None)
        def go(e, c):
            k = e.decl().kind()
            if z3.is_bv_value(e): add(1, c * e.as_long()); return
            if k == z3.Z3_OP_BADD:
                for x in e.children(): go(x, c)
                return
            if k == z3.Z3_OP_BSUB:
                go(e.arg(0), c)
                for x in e.children()[1:]: go(x, -c)
                return
            if k == z3.Z3_OP_BNEG: go(e.arg(0), -c); return
            if k == z3.Z3_OP_BMUL and e.num_args() == 2:
                for q in (0, 1):
                    if z3.is_bv_value(e.arg(q)): go(e.arg(1 - q), c * e.arg(q).as_long()); return
            if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)): go(e.arg(0), c << min(e.arg(1).as_long(), 80)); return
            if k == z3.Z3_OP_EXTRACT and e.params()[1] == 0 and e.size() >= w: go(e.arg(0), c); return
            if k == z3.Z3_OP_CONCAT and w <= e.arg(e.num_args() - 1).size(): go(e.arg(e.num_args() - 1), c); return
            if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT) and e.arg(0).size() >= w: go(e.arg(0), c); return
            if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT) and kind(e.arg(0)) == z3.Z3_OP_EXTRACT:
                q = e.arg(0)
                if q.params()[1] == 0 and q.size() >= 8 and q.arg(0).size() >= w and kind(q.arg(0)) == z3.Z3_OP_UNINTERPRETED and q.arg(0).decl().name() == 'POP64': go(q.arg(0), c); return   # POP64 <= 64
            add(s.key(e), c)
        go(e, 1)
        return out
    def eq(s, a, b, w):
        f = s.form(a, w)
        for k, c in s.form(b, w).items():
            c = (f.get(k, 0) - c) & ((1 << w) - 1)
            if c: f[k] = c
            else: f.pop(k, None)
        return f

# ------------------------------------------------------------------ state
class Frame:
    __slots__ = ('f', 'bl', 'ix', 'env', 'ret', 'names', 'active', 'prev', 'allocas', 'loopcnt', 'path')
    def __init__(s, f):
        s.f = f; s.env = {}; s.names = {}; s.active = {}; s.prev = None; s.ret = None; s.allocas = []; s.loopcnt = {}; s.path = ()
    def copy(s):
        r = Frame(s.f); r.bl, r.ix, r.env, r.ret = s.bl, s.ix, dict(s.env), s.ret
        r.names, r.active, r.prev, r.allocas, r.loopcnt, r.path = dict(s.names), dict(s.active), s.prev, list(s.allocas), dict(s.loopcnt), s.path
        return r

class State:
    def __init__(s):
        s.mem = {}      # block id -> Arr | dict(off -> (size, value))
        s.blk = {}      # id -> Blk
        s.dead = set()
        s.frames = []
        s.g = {}        # ghost values
        s.log = []
    def copy(s):
        r = State(); r.mem = dict(s.mem); r.blk = dict(s.blk); r.dead = set(s.dead); r.frames = [f.copy() for f in s.frames]
        r.g = dict(s.g); r.log = list(s.log)
        return r
    def snap(s):
        r = State(); r.mem = dict(s.mem); r.blk = dict(s.blk); r.dead = set(s.dead); r.g = dict(s.g)
        return r

class Oblig:
    __slots__ = ('label', 'fn', 'line', 'file', 'ok', 'why', 't', 'be')

class LoopSpec:
    def __init__(s, inv, hints=None, unroll=False, havoc=None, dec=None, fix=None):
        s.inv, s.hints, s.unroll, s.havoc, s.dec = inv, hints, unroll, havoc, dec
        s.fix = fix or {}      # loop pointers whose element index is a function of the other loop variables
UNROLL = LoopSpec(None, unroll=True)

class Contract:
    def __init__(s, name, setups, pre, post, modifies=None, loops=(), ret=None, inline=(), opaque=(), hints=None, trusted=False, pure=False, mk_ret=None, props=(), callspec=None, ghost=None, budget=None, inline_always=False, lemmas=None, sums=False):
        s.sums = sums     # give facts about population-count sums to the solver even when the goal has none
        s.lemmas = lemmas
        s.ghost = ghost; s.budget = budget; s.inline_always = inline_always
        s.name, s.setups, s.pre, s.post, s.modifies, s.loops = name, setups, pre, post, modifies, list(loops)
        s.inline, s.opaque, s.hints, s.trusted, s.mk_ret, s.props = set(inline), opaque, hints, trusted, mk_ret, props
        s.callspec = callspec

class Ctx:
    """what a contract's clauses see"""
    def __init__(s, E, st, old, args, ret=None, con=None, top=False):
        s.E, s.st, s.old, s.a, s.ret, s.con, s.top = E, st, old, args, ret, con, top

def s_iw(E, V, p): return V.st.blk[p.b].iw
class VLoop:
    def __init__(s, E, st, fr, entry, args, old, hdr):
        s.__dict__.update(_E=E, st=st, _fr=fr, pre=entry, a=args, old=old, _hdr=hdr, E=E)
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        return s._E.lookup(s.st, s._fr, n, s._hdr)
    def at(s, n): return s._E.lookup(s.st, s._fr, n, s._hdr)
    def ix(s, n):
        p = s._E.lookup(s.st, s._fr, n, s._hdr)
        return s._E.eidx(p)

# ------------------------------------------------------------------ engine
LIMIT_UNROLL = 80
class Stats:
    def __init__(s): s.obl = 0; s.queries = 0; s.t = 0.0; s.by = {}

def _size_bits(t): return t.w

class Engine:
    def __init__(s, M, contracts, inline_specs=None, timeout=20000, verbose=False):
        s.M, s.contracts, s.ispecs = M, contracts, inline_specs or {}
        s.timeout = timeout; s.verbose = verbose
        s.stats = Stats()
        s.builtins = dict(BUILTINS)
        s.assumed = set()     # trusted facts used
        s.foff = {}; s.noapp = {}
        s.called = set(); s.lemmas = set()
        s.inlined = set()
        s.hw = None
        s.seen_hw = set()

    # ---- solver stack: ground SMT core + instantiation of quantified facts at the index terms present
    def reset(s):
        s.G = z3.SimpleSolver()
        s.G.set('timeout', s.timeout)
        s.facts = []          # ground formulas
        s.quants = []         # (guard, templates)
        s.qflat = []          # (guard, vars, trigger function names, body)
        s.terms = {}          # function name -> {id: term}
        s.tlog = []           # (fname, id) in insertion order
        s.done = set(); s.dlog = []
        s.seen = {}; s.slog = []
        s.marks = []
        s.pend = []
        s.usesums = bool(getattr(getattr(s, 'con', None), 'sums', False))
        s.lin = []            # proved linear equalities (not given to the solver)
        s.csmemo = {}
    def push(s):
        s.flush(); s._push()
    def _push(s):
        s.G.push()
        s.marks.append((len(s.facts), len(s.quants), len(s.qflat), len(s.tlog), len(s.dlog), len(s.slog), len(s.lin)))
    def pop(s):
        s.flush(); s._pop()
    def _pop(s):
        s.G.pop()
        a, b, c, d, e, f, l = s.marks.pop()
        del s.lin[l:]
        del s.facts[a:]; del s.quants[b:]; del s.qflat[c:]
        for fn, i in s.tlog[d:]: s.terms[fn].pop(i, None)
        del s.tlog[d:]
        for k in s.dlog[e:]: s.done.discard(k)
        del s.dlog[e:]
        for k in s.slog[f:]: s.seen.pop(k, None)
        del s.slog[f:]
    def collect(s, e):
        todo = [e]
        while todo:
            x = todo.pop(); i = x.get_id()
            if i in s.seen: continue
            s.seen[i] = x; s.slog.append(i)
            n = x.num_args()
            if n == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                a = x.arg(0); fn = x.decl().name()
                d = s.terms.setdefault(fn, {})
                if a.get_id() not in d:
                    d[a.get_id()] = a; s.tlog.append((fn, a.get_id()))
            if n: todo.extend(x.children())
    def addground(s, f):
        s.facts.append(f)
        if s.usesums or not is_sum(f): s.G.add(f)
        s.collect(f)
    def addquants(s, sink):
        for b, tm in sink:
            s.quants.append((b, tm))
            for vs, tr, bd in tm:
                if not tr: continue
                s.qflat.append((b, vs, [f.name() for f, _ in tr], [t for _, t in tr], bd, b.get_id() * 64 + len(s.qflat) % 64))
    def fact(s, f):
        f = norm(f)
        if f is True: return
        sink = []
        f = expand(B(f), True, sink)
        if z3.is_true(f): return
        s.addquants(sink)
        s.addground(f)
    def saturate(s, rounds=3, cap=6000):
        for r in range(rounds):
            new = []
            for (b, vs, fns, tv, bd, qid) in s.qflat:
                c0 = list(s.terms.get(fns[0], {}).values())
                if len(fns) == 1: tups = [(x,) for x in c0]
                else:
                    c1 = list(s.terms.get(fns[1], {}).values())
                    tups = [(x, y) for x in c0 for y in c1]
                bid = (b.get_id(), bd.get_id())
                for tup in tups:
                    key = (bid,) + tuple(x.get_id() for x in tup)
                    if key in s.done: continue
                    s.done.add(key); s.dlog.append(key)
                    if len(tup) == 2 and tup[0].get_id() == tup[1].get_id() and fns[0] == fns[1]:
                        pass
                    y = z3.simplify(z3.substitute(bd, *zip(tv, tup)))
                    if z3.is_true(y): continue
                    new.append(z3.Or(z3.Not(b), y))
                    if len(new) > cap: break
            s.ninst = getattr(s, 'ninst', 0) + len(new)
            for y in new: s.addground(y)
            if not new: break
    def check_now(s, to=None):
        s._push(); s.saturate()
        if to: s.G.set('timeout', to)
        r = s.G.check()
        s.G.set('timeout', s.timeout)
        s._pop()
        return r
    def assume(s, f):
        s.flush(); s.fact(f)
    def feasible(s, c):
        c = norm(c)
        if isinstance(c, (bool, int)): return bool(c)
        s.G.push(); s.G.add(c)
        s.G.set('timeout', 600)
        r = s.G.check()
        s.G.set('timeout', s.timeout)
        s.G.pop()
        return r != z3.unsat
    def prove(s, goals, sink=()):
        """conjunction of goals under current facts; returns (ok, backend)"""
        g = And(*goals)
        if z3.is_true(g): return True, 'trivial'
        t = time.time()
        ng = z3.Not(g)
        sm = s.usesums or is_sum(g)
        if is_sum(g) and s.linprove(g): 
            s.stats.queries += 1; s.stats.t += time.time() - t
            return True, 'linear elimination'
        s._push()
        if sm and not s.usesums:
            for f in s.facts:
                if is_sum(f): s.G.add(f)
        s.addquants(sink)
        s.addground(ng)
        if sm and not s.usesums: s.G.add(ng)
        lin = not sm and _lia.linear(ng)
        s.G.set('timeout', (200 if lin else 800 if uses_fn(ng) else 1500) if s.qflat else s.timeout)
        r = s.G.check()
        s.G.set('timeout', s.timeout)
        if r == z3.unknown and not sm and not uses_fn(ng):
            fs = [f for f in s.facts if not s.usesfn(f)]
            if _lia.unsat(fs, 3000):
                s._pop(); s.stats.queries += 1; s.stats.t += time.time() - t
                return True, 'z3 (integers)'
            S = z3.SolverFor('QF_BV'); S.set('timeout', 8000)
            S.add(fs)
            if S.check() == z3.unsat: r = z3.unsat
        if r != z3.unsat and s.qflat and not sm and uses_fn(ng) and s.locprove(g, 300 if lin else 2500, 3000): r = z3.unsat
        if r != z3.unsat and s.qflat:
            if lin:
                n0 = -1
                for rnd in range(3):
                    s.saturate(rounds=1)
                    if len(s.facts) == n0 or len(s.facts) > 1500: break
                    n0 = len(s.facts)
                    if _lia.unsat(s.facts, 5000):
                        s._pop(); s.stats.queries += 1; s.stats.t += time.time() - t
                        return True, 'z3 (integers)'
            s.saturate()
            r = s.G.check()
        s._pop()
        s.stats.queries += 1; s.stats.t += time.time() - t
        if r == z3.unsat: return True, 'z3'
        return False, str(r)
    def usesfn(s, f):
        i = f.get_id()
        if i not in s.noapp: s.noapp[i] = (f, not uses_fn(f))
        return not s.noapp[i][1]
    def linprove(s, g):
        """equality of two bit-vector sums from the equalities among the ground facts, by elimination modulo 2^w"""
        if kind(g) == z3.Z3_OP_AND: return all(s.linprove(x) for x in g.children())
        if kind(g) != z3.Z3_OP_EQ or not z3.is_bv(g.arg(0)): return False
        w = g.arg(0).size()
        s._push(); s.saturate()
        try:
            L = Lin()
            todo = list(s.facts); defs = []
            while todo:
                f = todo.pop(); k = kind(f)
                if k == z3.Z3_OP_AND: todo.extend(f.children())
                elif k == z3.Z3_OP_EQ:
                    for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                        if a.num_args() == 1 and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name().startswith('D!') and not (b.num_args() == 1 and b.decl().name().startswith('D!')): defs.append((a, b)); break
            # conditional equalities whose conditions follow from the facts about indices alone
            P = z3.Solver(); P.set('timeout', 2000)
            for f in s.facts:
                if not uses_fn(f): P.add(f)
            app = lambda a: a.num_args() == 1 and a.decl().kind() == z3.Z3_OP_UNINTERPRETED
            for f in s.facts:
                if kind(f) != z3.Z3_OP_OR: continue
                ds = []; td = list(f.children())
                while td:
                    x = td.pop()
                    if kind(x) == z3.Z3_OP_OR: td.extend(x.children())
                    elif kind(x) == z3.Z3_OP_NOT and kind(x.arg(0)) == z3.Z3_OP_AND: td.extend(z3.Not(y) for y in x.arg(0).children())
                    else: ds.append(x)
                es = [x for x in ds if kind(x) == z3.Z3_OP_EQ and z3.is_bv(x.arg(0)) and (app(x.arg(0)) or app(x.arg(1)))]
                if len(es) != 1 or any(uses_fn(x) for x in ds if x is not es[0]): continue
                P.push(); P.add(z3.Or(*[x for x in ds if x is not es[0]])); ok = P.check() == z3.unsat; P.pop()
                if ok:
                    a, b = es[0].arg(0), es[0].arg(1)
                    if not app(a): a, b = b, a
                    defs.append((a, b))
            for a, b in defs:
                n0 = len(L.intern)
                ka = L.ck(a); kb = L.ck(b)
                if ka != kb: L.rules[L.rev[ka[1]]] = L.rev[kb[1]]
            L.memo = {}
            r = L.eq(g.arg(0), g.arg(1), w)
            rows = []
            todo = list(s.facts)
            while todo:
                f = todo.pop()
                k = kind(f)
                if k == z3.Z3_OP_AND: todo.extend(f.children()); continue
                if k == z3.Z3_OP_EQ and z3.is_bv(f.arg(0)) and f.arg(0).size() >= w and is_sum(f):
                    e = L.eq(f.arg(0), f.arg(1), w)
                    if e: rows.append(e)
            for f in s.lin:
                if f.arg(0).size() >= w:
                    e = L.eq(f.arg(0), f.arg(1), w)
                    if e: rows.append(e)
            M = (1 << w) - 1
            def reduce(e, piv):
                e = dict(e)
                again = True
                while again:
                    again = False
                    for k in list(e):
                        if k in piv and k in e:
                            c = e[k]
                            for k2, c2 in piv[k].items():
                                v = (e.get(k2, 0) - c * c2) & M
                                if v: e[k2] = v
                                else: e.pop(k2, None)
                            again = True
                return e
            merged = {}
            for attempt in range(3):
                piv = {}
                for e in rows:
                    e = reduce(e, piv)
                    p = next((k for k in e if k != 1 and e[k] & 1 and not (isinstance(k, tuple) and k[0].startswith('PS_') and 0)), None)
                    if p is None: continue
                    inv = pow(e[p], -1, 1 << w)
                    e = {k: (c * inv) & M for k, c in e.items()}
                    for q in list(piv):
                        if p in piv[q]:
                            c = piv[q][p]; d = dict(piv[q])
                            for k2, c2 in e.items():
                                v = (d.get(k2, 0) - c * c2) & M
                                if v: d[k2] = v
                                else: d.pop(k2, None)
                            piv[q] = d
                    piv[p] = e
                r2 = reduce(r, piv)
                if not r2: return True
                # merge atoms with provably equal arguments
                S = None; new = False
                ks = {k for k in r2 if k != 1 and k[0] != 't'}
                allk = [k for k in L.atoms if k[0] != 't']
                S = s.G
                rs = S.check()
                if rs != z3.sat: return rs == z3.unsat
                m = S.model()
                val = {k: m.eval(L.atoms[k].arg(0), model_completion=True).as_long() for k in allk}
                cand = []
                for k in sorted(ks, key=str):
                    for k2 in allk:
                        if k2 == k or k2[0] != k[0] or val[k] != val[k2] or (k, k2) in merged: continue
                        merged[(k, k2)] = merged[(k2, k)] = True
                        cand.append((k, k2))
                def settle(cs):
                    if not cs: return []
                    S.push(); S.add(z3.Or(*[L.atoms[a].arg(0) != L.atoms[b].arg(0) for a, b in cs])); S.set('timeout', s.timeout if len(cs) > 1 else 3000)
                    rr = S.check()
                    S.set('timeout', s.timeout); S.pop()
                    if rr == z3.unsat: return cs
                    if len(cs) == 1: return []
                    h = len(cs) // 2
                    return settle(cs[:h]) + settle(cs[h:])
                for a, b in settle(cand): rows.append({a: 1, b: M}); new = True
                if not new: return False
            return False
        finally: s._pop()
    def locprove(s, g, to=400, lto=400):
        """goal-directed attempt: quantified facts instantiated only at the index terms of the goal, and the ground facts over them"""
        pts = {}; seen = set(); facts = [z3.Not(g)]
        def coll(e):
            todo = [e]
            while todo:
                x = todo.pop(); i = x.get_id()
                if i in seen: continue
                seen.add(i)
                if x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: pts.setdefault(x.decl().name(), {})[x.arg(0).get_id()] = x.arg(0)
                todo.extend(x.children())
        coll(g); done = set()
        for rnd in range(2):
            new = []
            for (b, vs, fns, tv, bd, qid) in s.qflat:
                c0 = list(pts.get(fns[0], {}).values())
                if len(fns) == 1: tups = [(x,) for x in c0]
                else:
                    c1 = list(pts.get(fns[1], {}).values())
                    if rnd or len(c0) * len(c1) > 64: continue
                    tups = [(x, y) for x in c0 for y in c1]
                for tup in tups:
                    k = (b.get_id(), bd.get_id()) + tuple(x.get_id() for x in tup)
                    if k in done: continue
                    done.add(k)
                    y = z3.simplify(z3.substitute(bd, *zip(tv, tup)))
                    if not z3.is_true(y): new.append(z3.Or(z3.Not(b), y))
            if not new: break
            if len(new) > 200: return False
            facts += new
            for y in new: coll(y)
        S = z3.SimpleSolver(); S.set('timeout', to)
        for f in s.facts:
            if f.get_id() in s.noapp: 
                if s.noapp[f.get_id()][1]: S.add(f)
                continue
            small = not uses_fn(f)
            s.noapp[f.get_id()] = (f, small)
            if small: S.add(f)
        S.add(facts)
        if S.check() == z3.unsat: return True
        if _lia.unsat([f for f in s.facts if s.noapp[f.get_id()][1]] + facts, lto): return True
        return lto > 1000 and _lia.unsat(list(s.facts) + facts, lto)
    def prove_batch(s, gs):
        """several goals over one instantiation of the quantified facts"""
        t = time.time()
        if len(gs) >= 6:
            loc = [s.locprove(g) for g in gs]
            s.stats.queries += len(gs)
            if all(loc) or sum(loc) * 2 > len(gs):
                s.stats.t += time.time() - t
                if all(loc): return loc, 'z3'
                rest = [g for g, l in zip(gs, loc) if not l]
                r, be = s.prove_batch(rest) if len(rest) < len(gs) else ([False] * len(rest), 'z3')
                it = iter(r)
                return [l or next(it) for l in loc], be
        s._push()
        for g in gs: s.collect(z3.Not(g))
        s.saturate()
        out = []
        for g in gs:
            s.G.push(); s.G.add(z3.Not(g)); s.G.set('timeout', 3000)
            out.append(s.G.check() == z3.unsat)
            s.G.pop()
            s.stats.queries += 1
        s.G.set('timeout', s.timeout)
        s._pop()
        s.stats.t += time.time() - t
        return out, 'z3'
    def full(s, extra=(), sink=()):
        """all facts as plain z3 formulas with quantifiers"""
        r = list(s.facts)
        for b, tm in list(s.quants) + list(sink):
            for vs, tr, bd in tm:
                if tr: q = z3.ForAll(vs, bd, patterns=[z3.MultiPattern(*[f(t) for f, t in tr]) if len(tr) > 1 else tr[0][0](tr[0][1])])
                else: q = z3.ForAll(vs, bd)
                r.append(z3.Or(z3.Not(b), q))
        return r + list(extra)
    def prove_hard(s, g, sink=()):
        t = time.time()
        s._push(); s.addquants(sink); s.addground(z3.Not(g))
        s.saturate(rounds=5)
        gf = list(s.facts)
        s._pop()
        why = 'unknown'
        if _lia.linear(g) and _lia.unsat(gf, s.timeout):
            s.stats.t += time.time() - t; s.stats.queries += 1
            return True, 'z3 (integers)'
        for cfg in ('QF', 'simple7', 'full'):
            if cfg == 'QF': S = z3.Solver(); fs = gf
            elif cfg == 'simple7': S = z3.SimpleSolver(); S.set('random_seed', 7); fs = gf
            else: S = z3.SimpleSolver(); fs = s.full([z3.Not(g)], sink)
            S.set('timeout', s.timeout)
            S.add(fs)
            r = S.check(); s.stats.queries += 1
            if r == z3.unsat:
                s.stats.t += time.time() - t
                return True, 'z3'
            if cfg != 'full' or why == 'unknown':
                why = ('sat (no counterexample to the instantiated obligation excluded)' if cfg != 'full' else 'sat') if r == z3.sat else 'unknown: ' + S.reason_unknown()
            if r == z3.sat and not s.qflat and not sink: break
            if time.time() > s.deadline: break
        s.stats.t += time.time() - t
        return False, why
    # ---- obligations
    def oblig(s, st, goal, label, inst=None):
        if s.dry: return
        g = norm(goal)
        s.stats.obl += 1
        if s.pos is not None: pos = s.pos
        if g is True or (isc(g) and g):
            s.stats.by['trivial'] = s.stats.by.get('trivial', 0) + 1
            return
        sink = []
        g = expand(B(g), False, sink)
        if not (kind(g) == z3.Z3_OP_EQ and is_sum(g)): g = z3.simplify(g)
        if z3.is_true(g):
            s.stats.by['trivial'] = s.stats.by.get('trivial', 0) + 1
            return
        if kind(g) == z3.Z3_OP_AND and g.num_args() > 2 and not sink:
            wh = s.where(st)
            s.stats.obl += g.num_args() - 1
            for x in g.children(): s.pend.append((x, label, wh, sink))
            return
        s.pend.append((g, label, s.where(st), sink))
    def where(s, st):
        fr = st.frames[-1] if st.frames else None
        if not fr: return ('?', None, None)
        dbg = None
        ins = fr.f.blocks[fr.bl]
        for k in range(min(fr.ix, len(ins) - 1), -1, -1):
            if ins[k].dbg is not None: dbg = ins[k].dbg; break
        return (fr.f.name, s.M.file_of(dbg) if dbg else None, s.M.line(dbg) if dbg else None)
    def flush(s):
        if s.dry: s.pend = []; return
        if not s.pend: return
        p, s.pend = s.pend, []
        if len(p) > 1:
            gr = [x for x in p if not x[3] and not uses_fn(x[0])]
            if len(gr) > 1:
                ok, be = s.prove([x[0] for x in gr])
                if ok:
                    s.stats.by[be] = s.stats.by.get(be, 0) + len(gr)
                    p = [x for x in p if x not in gr]
        # pieces of one obligation (positions written one by one) are tried together first
        q = []; k = 0
        while k < len(p):
            e = k
            while e + 1 < len(p) and p[e + 1][1] == p[k][1] and not p[e + 1][3] and not p[k][3]: e += 1
            if e - k >= 3 and not any(is_sum(x[0]) for x in p[k:e + 1]):
                ok, be = s.prove_batch([x[0] for x in p[k:e + 1]])
                for x, o in zip(p[k:e + 1], ok):
                    if o: s.stats.by[be] = s.stats.by.get(be, 0) + 1
                    else: q.append(x)
            else: q += p[k:e + 1]
            k = e + 1
        p = q
        for x in p:
            g, lab, wh, sink = x
            t0 = time.time()
            ok, be = s.prove([g], sink)
            if not ok: ok, be = s.prove_hard(g, sink)
            if s.verbose and time.time() - t0 > 1: print('   %.1fs %s %s %s' % (time.time() - t0, lab, wh, be)); sys.stdout.flush()
            if ok: s.stats.by[be] = s.stats.by.get(be, 0) + 1
            else: s.fail(lab, wh, be, g)
    def fail(s, lab, wh, why, g=None):
        if s.dry: return
        s.failures.append({'label': lab, 'fn': wh[0], 'file': wh[1], 'line': wh[2], 'why': why, 'goal': str(g)[:1500] if g is not None else ''})
        if s.verbose: print('   FAIL', lab, wh, why)
        if s.debugfail and g is not None: s.debugfail(s, lab, g)
        if len(s.failures) >= s.maxfail: raise Unsupported('too many failed obligations')

    # ---- struct layout by source field name
    def off(s, struct, field):
        k = (struct, field)
        if k in s.foff: return s.foff[k]
        m = s.M
        if not hasattr(m, '_dits'):
            m._dits = {}
            for i, x in m.meta.items():
                if 'DICompositeType(tag: DW_TAG_structure_type' in x:
                    n = re.search(r'name: "([^"]+)"', x); e = re.search(r'elements: !(\d+)', x)
                    if n and e: m._dits.setdefault(n.group(1), int(e.group(1)))
        els = [int(q) for q in re.findall(r'!(\d+)', m.meta[m._dits[struct]])]
        for e in els:
            x = m.meta[e]
            n = re.search(r'name: "([^"]+)"', x)
            o = re.search(r'offset: (\d+)', x); sz = re.search(r'size: (\d+)', x)
            s.foff[(struct, n.group(1))] = (int(o.group(1)) // 8 if o else 0, int(sz.group(1)) // 8 if sz else 0)
        if k not in s.foff: raise Unsupported('no field %s.%s' % k)
        return s.foff[k]
    def get(s, st, p, struct, field):
        o, sz = s.off(struct, field)
        d = st.mem[p.b]
        c = d.get(p.o.c + o)
        if c is None: raise Unsupported('uninitialised field %s.%s' % (struct, field))
        return c[1]
    def arr(s, st, p):
        """content of the array block p points to"""
        if not isinstance(p, Ptr) or p.b is None: raise Unsupported('array through %r' % (p,))
        if p.b in st.dead: raise Unsupported('array through dead block %r' % (p,))
        a = st.mem[p.b]
        if not isinstance(a, Arr): raise Unsupported('not an array: %r' % (p,))
        return a
    def eidx(s, p, blkew=None):
        """element index of pointer p within its array block"""
        b = s.curst.blk[p.b]
        i = p.o.div(b.ew or blkew, b.iw)
        if i is None: raise Unsupported('misaligned element index')
        return W(mask(i, b.iw) if isc(i) else i, b.iw)

    # ---- blocks
    def newblk(s, st, name, size, kind, ew=None, iw=32, fresh=False, ro=False, content=None, heap=True):
        i = 0; id = name
        while id in st.blk:
            i += 1; id = '%s~%d' % (name, i)
        b = Blk(id, name, size, kind, ew, iw, fresh, ro, heap)
        st.blk[id] = b
        if content is not None: st.mem[id] = content
        elif kind == 'struct': st.mem[id] = {}
        elif kind == 'arr': st.mem[id] = Arr(ew * 8, iw, name=re.sub(r'\W', '_', name))
        else: st.mem[id] = None
        return Ptr(id)
    def settle(s, st, b, ew):
        """decide the element width of a raw block on first typed access (buffers obtained by run containers hold 4-byte runs)"""
        if ew == 2 and 'run_container_' in b.name.split(':')[1 if ':' in b.name else 0]: ew = 4
        nb = Blk(b.id, b.name, b.size, 'arr', ew, b.iw, b.fresh, b.ro, b.heap)
        st.blk[b.id] = nb
        c = st.mem.get(b.id)
        if isinstance(c, tuple):     # zero-filled (or byte-filled) as a whole
            v = sum((c[1] & 255) << (8 * k) for k in range(ew))
            st.mem[b.id] = Arr(ew * 8, b.iw, f=(lambda v, w: (lambda i: z3.BitVecVal(v, w)))(v, ew * 8))
        else: st.mem[b.id] = Arr(ew * 8, b.iw, name=re.sub(r'\W', '_', b.name))
        return nb

    def size64(s, b): return b.size if not isc(b.size) else mask(b.size, 64)

    def check_access(s, st, p, n, what):
        """p..p+n within a live block"""
        if not isinstance(p, Ptr): raise Unsupported('%s through opaque pointer' % what)
        if p.b is None:
            s.fail_now(st, 'null-deref', '%s through null pointer' % what)
        if p.b in st.dead: s.fail_now(st, 'use-after-free', '%s to freed/invalidated %s' % (what, p.b))
        b = st.blk[p.b]
        if p.o.const() and isc(b.size):
            if isc(n):
                if not (0 <= p.o.c and p.o.c + n <= b.size): s.fail_now(st, 'bounds', '%s out of bounds of %s' % (what, p.b))
                s.stats.obl += 1; s.stats.by['trivial'] = s.stats.by.get('trivial', 0) + 1
                return b
        o = W(p.o.bv(), 64); sz = W(s.size64(b), 64); nn = W(n, 64)
        key = (p.b, o.get_id(), n if isc(n) else nn.get_id())
        s.oblig(st, And(z3.ULE(nn, sz), z3.ULE(o, sz - nn)), 'bounds of %s' % (b.name))
        return b
    def fail_now(s, st, lab, msg):
        # definite failure if this point is reachable
        if s.dry: raise PathEnd()
        s.flush()
        s.stats.obl += 1
        r = s.check_now()
        if r != z3.unsat:
            ok, why = s.prove_hard(z3.BoolVal(False))
            if not ok: s.fail('%s: %s' % (lab, msg), s.where(st), why)
        raise PathEnd()

    # ---- memory
    def load(s, st, p, ty):
        n = s.M.size(ty)
        if not isinstance(p, Ptr):
            h = s.rawload(st, p, ty)
            if h is not None: return h
            raise Unsupported('load through opaque pointer')
        b = s.check_access(st, p, n, 'load')
        if b.kind == 'raw': b = s.settle(st, b, s.elw(ty))
        c = st.mem[b.id]
        if isinstance(c, dict):
            if not p.o.const(): raise Unsupported('symbolic offset into struct %s' % b.name)
            return s.ld_struct(st, b, c, p.o.c, ty)
        return s.ld_arr(st, b, c, p.o, ty)
    def elw(s, ty):
        if ty.k == 'vec': return ty.e.w // 8
        if ty.k in ('int', 'ptr', 'fp'): return s.M.size(ty)
        raise Unsupported('elw')
    def ld_struct(s, st, b, c, o, ty):
        n = s.M.size(ty)
        if ty.k == 'struct':
            return [s.ld_struct(st, b, c, o + s.M.field_off(ty, i), f) for i, f in enumerate(ty.f)]
        if ty.k == 'vec':
            w = ty.e.w // 8
            return [s.ld_struct(st, b, c, o + i * w, ty.e) for i in range(ty.n)]
        if ty.k == 'arr':
            w = s.M.size(ty.e)
            return [s.ld_struct(st, b, c, o + i * w, ty.e) for i in range(ty.n)]
        x = c.get(o)
        if x is not None and x[0] == n:
            v = x[1]
            if ty.k == 'int' and ty.w < 8 * n and not isinstance(v, Ptr): return trunc(v, 8 * n, ty.w)
            return v
        if ty.k in ('int',):
            # containing cell
            for oo, (sz, v) in c.items():
                if oo <= o and o + n <= oo + sz and not isinstance(v, Ptr):
                    sh = 8 * (o - oo)
                    if isc(v): return mask(v >> sh, 8 * n)
                    return z3.Extract(sh + 8 * n - 1, sh, v)
            parts = []; q = o
            while q < o + n:
                y = c.get(q)
                if y is None or q + y[0] > o + n or isinstance(y[1], Ptr): break
                parts.append((y[0], y[1])); q += y[0]
            if q == o + n and parts:
                if all(isc(v) for _, v in parts):
                    r = 0; k = 0
                    for sz, v in parts: r |= v << k; k += 8 * sz
                    return r
                return z3.Concat(*[W(v, 8 * sz) for sz, v in reversed(parts)])
            if not any(oo < o + n and o < oo + sz for oo, (sz, v) in c.items()):
                v = fbv('uninit', 8 * n); d = dict(c); d[o] = (n, v); st.mem[b.id] = d
                return trunc(v, 8 * n, ty.w) if ty.w != 8 * n else v
        if ty.k == 'ptr' and x is None and not any(oo < o + n and o < oo + sz for oo, (sz, v) in c.items()):
            return fbv('uninitptr', 64)
        if ty.k == 'fp': return fbv('fp', 64)
        raise Unsupported('struct load %s+%d %r' % (b.name, o, ty))
    def ld_arr(s, st, b, a, o, ty):
        if ty.k == 'vec':
            w = ty.e.w // 8
            return [s.ld_arr(st, b, a, o.plus(Off(i * w)), ty.e) for i in range(ty.n)]
        if ty.k == 'struct':
            return [s.ld_arr(st, b, a, o.plus(Off(s.M.field_off(ty, i))), f) for i, f in enumerate(ty.f)]
        n = s.M.size(ty)
        ew = b.ew
        if n == ew or n % ew == 0:
            k = n // ew
            i = o.div(ew, a.iw)
            if i is None:
                i = s.dividx(st, o, ew, a.iw)
            vs = [norm(a.read(W(add(i, j, a.iw), a.iw) if not isc(i) else W(mask(i + j, a.iw), a.iw))) for j in range(k)]
            v = vs[0] if k == 1 else (sum(x << (8 * ew * j) for j, x in enumerate(vs)) if all(isc(x) for x in vs) else z3.Concat(*[W(x, 8 * ew) for x in reversed(vs)]))
            if ty.k == 'int' and ty.w < 8 * n: return trunc(v, 8 * n, ty.w)
            if ty.k == 'ptr': return s.rawptr(st, v)
            return v
        if ew % n == 0:
            # part of an element
            r = s.submod(o, ew)
            if r is None: raise Unsupported('partial element access')
            i = o.plus(Off(-r)).div(ew, a.iw)
            v = norm(a.read(W(mask(i, a.iw) if isc(i) else i, a.iw)))
            if not isc(v): s.collect(v)      # the cells read are points of interest
            return norm(z3.Extract(8 * r + 8 * n - 1, 8 * r, W(v, 8 * ew)))
        raise Unsupported('array load width')
    def submod(s, o, ew):
        if any(n % ew for _, n in o.t.values()): return None
        return o.c % ew
    def dividx(s, st, o, ew, iw):
        """element index of an offset that is not syntactically divisible: oblige divisibility"""
        v = W(o.bv(), 64)
        s.oblig(st, z3.URem(v, z3.BitVecVal(ew, 64)) == 0, 'aligned access')
        return W(trunc(simpz(z3.UDiv(v, z3.BitVecVal(ew, 64))), 64, iw), iw)
    def rawptr(s, st, v):
        v = norm(v)
        if isc(v) and v == 0: return NULL
        h = getattr(s, 'deref', None)
        if h:
            r = h(st, v)
            if r is not None: return r
        return v
    def rawload(s, st, p, ty): return None
    def ptrbits(s, st, v):
        """pointer value as 64-bit term"""
        if isinstance(v, Ptr):
            if v.b is None: return W(v.o.bv(), 64)
            base = z3.BitVec('addr$' + v.b, 64)
            return base + W(v.o.bv(), 64)
        return W(v, 64)

    def store(s, st, p, v, ty):
        n = s.M.size(ty)
        if not isinstance(p, Ptr): raise Unsupported('store through opaque pointer')
        b = s.check_access(st, p, n, 'store')
        if b.ro: s.fail_now(st, 'frame', 'write to read-only %s' % b.name)
        if b.kind == 'raw': b = s.settle(st, b, s.elw(ty))
        c = st.mem[b.id]
        if isinstance(c, dict):
            if not p.o.const(): raise Unsupported('symbolic offset into struct %s' % b.name)
            d = dict(c); s.st_struct(d, p.o.c, v, ty); st.mem[b.id] = d
            return
        st.mem[b.id] = s.st_arr(st, b, c, p.o, v, ty)
    def st_struct(s, d, o, v, ty):
        n = s.M.size(ty)
        if ty.k == 'struct':
            for i, f in enumerate(ty.f): s.st_struct(d, o + s.M.field_off(ty, i), v[i], f)
            return
        if ty.k in ('vec', 'arr'):
            w = s.M.size(ty.e)
            for i in range(ty.n): s.st_struct(d, o + i * w, v[i], ty.e)
            return
        if ty.k == 'int' and ty.w < 8 * n: v = zext(v, ty.w, 8 * n)
        for oo in list(d):
            sz, x = d[oo]
            if oo < o + n and o < oo + sz and not (oo == o and sz == n):
                # split the older cell
                del d[oo]
                if isinstance(x, Ptr) or not (isc(x) or z3.is_bv(x)): continue
                x = W(x, 8 * sz)
                if oo < o: d[oo] = (o - oo, norm(z3.simplify(z3.Extract(8 * (o - oo) - 1, 0, x))))
                if oo + sz > o + n: d[o + n] = (oo + sz - o - n, norm(z3.simplify(z3.Extract(8 * sz - 1, 8 * (o + n - oo), x))))
        d[o] = (n, v)
    def st_arr(s, st, b, a, o, v, ty):
        if ty.k == 'vec':
            w = ty.e.w // 8
            for i in range(ty.n): a = s.st_arr(st, b, a, o.plus(Off(i * w)), v[i], ty.e)
            return a
        if ty.k == 'struct':
            for i, f in enumerate(ty.f): a = s.st_arr(st, b, a, o.plus(Off(s.M.field_off(ty, i))), v[i], f)
            return a
        n = s.M.size(ty); ew = b.ew
        if ty.k == 'ptr': v = s.ptrbits(st, v)
        if ty.k == 'int' and ty.w < 8 * n: v = zext(v, ty.w, 8 * n)
        if n % ew == 0:
            i = o.div(ew, a.iw)
            if i is None: i = s.dividx(st, o, ew, a.iw)
            k = n // ew
            for j in range(k):
                e = v if k == 1 else (mask(v >> (8 * ew * j), 8 * ew) if isc(v) else z3.Extract(8 * ew * (j + 1) - 1, 8 * ew * j, W(v, 8 * n)))
                a = a.store(W(mask(i + j, a.iw), a.iw) if isc(i) else W(add(i, j, a.iw), a.iw), e)
            return a
        if ew % n == 0:
            r = s.submod(o, ew)
            if r is None: raise Unsupported('partial element store')
            i = o.plus(Off(-r)).div(ew, a.iw)
            i = W(mask(i, a.iw) if isc(i) else i, a.iw)
            old = W(a.read(i), 8 * ew)
            parts = []
            if r + n < ew: parts.append(z3.Extract(8 * ew - 1, 8 * (r + n), old))
            parts.append(W(v, 8 * n))
            if r > 0: parts.append(z3.Extract(8 * r - 1, 0, old))
            return a.store(i, z3.simplify(z3.Concat(*parts)) if len(parts) > 1 else parts[0])
        raise Unsupported('array store width')

    # bulk
    def memcopy(s, st, d, sp, n, move=False):
        n = norm(n)
        if isc(n) and n == 0: return
        if not isinstance(d, Ptr) or not isinstance(sp, Ptr): raise Unsupported('memcpy through opaque pointer')
        for q, w in ((d, 'memcpy write'), (sp, 'memcpy read')):
            if q.b is None:
                s.oblig(st, eqv(n, 0, 64), 'null-deref: %s through null' % w); 
                s.flush(); raise PathEnd()
        bs = s.check_access(st, sp, n, 'memcpy read')
        bd = s.check_access(st, d, n, 'memcpy write')
        if bd.ro: s.fail_now(st, 'frame', 'write to read-only %s' % bd.name)
        if not move and d.b == sp.b:
            o1 = W(d.o.bv(), 64); o2 = W(sp.o.bv(), 64); nn = W(n, 64)
            s.oblig(st, z3.Or(nn == 0, z3.UGE(o1 - o2, nn) & z3.UGE(o2 - o1, nn)), 'memcpy ranges do not overlap')
        cs = st.mem[bs.id]
        if bs.kind == 'raw' and bd.kind == 'raw':
            bs = s.settle(st, bs, 1); cs = st.mem[bs.id]
        if bs.kind == 'raw': bs = s.settle(st, bs, bd.ew or 1); cs = st.mem[bs.id]
        if isinstance(cs, dict) and bd.kind == 'raw' and isc(n):
            bd = Blk(bd.id, bd.name, bd.size, 'struct', None, bd.iw, bd.fresh, bd.ro, bd.heap); st.blk[bd.id] = bd; st.mem[bd.id] = {}
        if bd.kind == 'raw': bd = s.settle(st, bd, bs.ew)
        cd = st.mem[bd.id]
        if isinstance(cs, dict) and isinstance(cd, dict):
            if not (isc(n) and d.o.const() and sp.o.const()): raise Unsupported('symbolic struct copy')
            nd = dict(cd)
            for oo in list(nd):
                if oo < d.o.c + n and d.o.c < oo + nd[oo][0]:
                    if oo < d.o.c or oo + nd[oo][0] > d.o.c + n: raise Unsupported('partial struct copy')
                    del nd[oo]
            for oo, (sz, v) in cs.items():
                if sp.o.c <= oo and oo + sz <= sp.o.c + n: nd[oo - sp.o.c + d.o.c] = (sz, v)
            st.mem[bd.id] = nd
            return
        if isinstance(cs, dict) or isinstance(cd, dict):
            # struct <-> byte/word array with constant size: go through scalar cells
            if not isc(n): raise Unsupported('struct/array copy')
            import ir
            q = 0
            while q < n:
                if isinstance(cs, dict):
                    cell = cs.get(sp.o.c + q)
                    w = cell[0] if cell else 1
                    if isinstance(cell[1] if cell else 0, Ptr): raise Unsupported('pointer to bytes')
                else:
                    w = bs.ew
                    if n >= 2 and w == 1: w = {2: 2, 4: 4, 8: 8}.get(n, 1)
                v = s.load(st, sp.plus(q), ir.INT(8 * w)); s.store(st, d.plus(q), v, ir.INT(8 * w)); q += w
            return
        if bs.ew == bd.ew:
            ew = bs.ew
            i = d.o.div(ew, bd.iw); j = sp.o.div(ew, bs.iw); m = Off.of(n).div(ew, bd.iw)
            if i is None: i = s.dividx(st, d.o, ew, bd.iw)
            if j is None: j = s.dividx(st, sp.o, ew, bs.iw)
            if m is None: m = s.dividx(st, Off.of(n), ew, bd.iw)
            if isc(m) and m <= 4:
                vals = [cs.read(W(add(j, k, bs.iw), bs.iw)) for k in range(m)]
                for k in range(m): cd = cd.store(W(add(i, k, bd.iw), bd.iw), vals[k])
                st.mem[bd.id] = cd; return
            if bs.iw != bd.iw:
                f = Arr(cd.w, bd.iw, f=(lambda cs, a, b2: (lambda t: cs.read(W(trunc(t, a, b2) if a > b2 else zext(t, a, b2), b2))))(cs, bd.iw, bs.iw))
                f2 = Arr(cd.w, bd.iw, name='cpy')
                s.fact(forall1([f2], lambda t: f2.read(t) == f.read(t)))
                j = trunc(j, bs.iw, bd.iw) if bs.iw > bd.iw else zext(j, bs.iw, bd.iw)
                cs = f2
            st.mem[bd.id] = cd.copy(W(mask(i, bd.iw) if isc(i) else i, bd.iw), cs, W(mask(j, bd.iw) if isc(j) else j, bd.iw), W(m, bd.iw))
            return
        if isc(n) and n <= 64:
            import ir
            w = max(bs.ew, bd.ew)
            if w > n or n % w: w = min(bs.ew, bd.ew)
            vals = [s.load(st, sp.plus(q), ir.INT(8 * w)) for q in range(0, n, w)]
            for k, q in enumerate(range(0, n, w)): s.store(st, d.plus(q), vals[k], ir.INT(8 * w))
            return
        # different element widths: contents related by a definitional axiom when aligned
        F = Arr(8 * bd.ew, bd.iw, name='cpy')
        if bd.ew > bs.ew:
            r = bd.ew // bs.ew
            i = d.o.div(bd.ew, bd.iw)
            m = Off.of(n).div(bd.ew, bd.iw)
            if i is None or m is None:
                st.mem[bd.id] = F; return
            so = W(sp.o.bv(), 64)
            base = sp.o.div(bs.ew, bs.iw)
            if base is None: st.mem[bd.id] = F; return
            base = W(mask(base, bs.iw) if isc(base) else base, bs.iw); i = W(mask(i, bd.iw) if isc(i) else i, bd.iw); m = W(m, bd.iw)
            def body(t):
                u = t - i
                uu = W(zext(u, bd.iw, bs.iw) if bs.iw > bd.iw else trunc(u, bd.iw, bs.iw), bs.iw)
                parts = [cs.read(simpz(base + uu * r + k)) for k in range(r)]
                return F.read(t) == z3.If(z3.ULT(u, m), z3.Concat(*reversed(parts)), cd.read(t))
            s.fact(forall1([F], body))
            st.mem[bd.id] = F
            return
        r = bs.ew // bd.ew
        j = sp.o.div(bs.ew, bs.iw)
        dd = d.o.div(bd.ew, bd.iw)
        mm = Off.of(n).div(bd.ew, bd.iw)
        if j is None or dd is None or mm is None: st.mem[bd.id] = F; return
        dd = W(mask(dd, bd.iw) if isc(dd) else dd, bd.iw); j = W(mask(j, bs.iw) if isc(j) else j, bs.iw); mm = W(mm, bd.iw)
        def body(t):
            u = t - dd
            q = z3.UDiv(u, z3.BitVecVal(r, bd.iw)); rem = z3.URem(u, z3.BitVecVal(r, bd.iw))
            e = cs.read(simpz(j + W(zext(q, bd.iw, bs.iw) if bs.iw > bd.iw else trunc(q, bd.iw, bs.iw), bs.iw)))
            sh = W(zext(rem, bd.iw, bs.ew * 8) if bs.ew * 8 > bd.iw else trunc(rem, bd.iw, bs.ew * 8), bs.ew * 8) * (8 * bd.ew)
            return F.read(t) == z3.If(z3.ULT(u, mm), z3.Extract(8 * bd.ew - 1, 0, z3.LShR(e, sh)), cd.read(t))
        s.fact(forall1([F], body))
        st.mem[bd.id] = F

    def memset(s, st, d, v, n):
        n = norm(n)
        if isc(n) and n == 0: return
        b = s.check_access(st, d, n, 'memset')
        if b.ro: s.fail_now(st, 'frame', 'write to read-only %s' % b.name)
        if b.kind == 'raw':
            if isc(v) and d.o.const() and d.o.c == 0 and norm(simp(W(n, 64) == W(s.size64(b), 64))) is True:
                st.mem[b.id] = ('fill', v); return
            b = s.settle(st, b, b.ew or 1)
        c = st.mem[b.id]
        if isinstance(c, dict):
            if not (isc(n) and d.o.const() and isc(v)): raise Unsupported('symbolic struct memset')
            nd = dict(c)
            hit = [oo for oo in nd if oo < d.o.c + n and d.o.c < oo + nd[oo][0]]
            if v == 0 or isc(v):
                for oo in hit:
                    sz = nd[oo][0]
                    if oo < d.o.c or oo + sz > d.o.c + n: raise Unsupported('partial struct memset')
                    del nd[oo]
                for q in range(d.o.c, d.o.c + n): nd[q] = (1, v & 255)
                # regroup as needed on load
            st.mem[b.id] = nd
            return
        i = d.o.div(b.ew, b.iw); m = Off.of(n).div(b.ew, b.iw)
        if i is None: i = s.dividx(st, d.o, b.ew, b.iw)
        if m is None: m = s.dividx(st, Off.of(n), b.ew, b.iw)
        vv = sum((v & 255) << (8 * k) for k in range(b.ew)) if isc(v) else (z3.Concat(*[W(trunc(v, 32, 8) if v.size() == 32 else v, 8)] * b.ew) if b.ew > 1 else W(trunc(v, 32, 8) if v.size() == 32 else v, 8))
        st.mem[b.id] = c.fill(W(mask(i, b.iw) if isc(i) else i, b.iw), W(m, b.iw), vv)

    # ------------------------------------------------------------ verification of one function
    def verify(s, con, setup, maxfail=3, budget=600, debugfail=None):
        """returns dict: obligations, failures, unsupported, paths"""
        _lia.reset(); s.con = con; s.maxfail = maxfail; s.debugfail = debugfail
        s.mods = {}
        s.deadline = time.time() + budget
        s.stats = Stats(); s.called = set(); s.inlined = set(); s.assumed = set()
        t0 = time.time()
        res = None
        for phase in range(60):
            s.failures = []
            s.returns = 0; s.bodyok = 0; s.loopseen = []; s.npaths = 0
            s.stats.obl = 0; s.stats.by = {}
            s.dry = s.drymode = phase == 0 or not res
            try:
                s.reset()
                s.run_top(con, setup)
                if s.dry: res = True; continue
                break
            except Restart:
                res = None; continue
            except Unsupported as e:
                if s.failures and 'too many' in str(e): break
                wh = s.where(s.curst) if getattr(s, 'curst', None) and s.curst.frames else ('?', None, None)
                s.failures.append({'label': 'unsupported: %s' % e, 'fn': wh[0], 'file': wh[1], 'line': wh[2], 'why': 'engine', 'goal': ''})
                break
        if not s.failures and s.returns == 0 and not getattr(con, 'noreturn', False):
            s.failures.append({'label': 'vacuous: no path returns', 'fn': con.name, 'file': None, 'line': None, 'why': 'vacuity', 'goal': ''})
        return {'function': con.name, 'setup': getattr(setup, 'label', getattr(setup, '__name__', '?')), 'obligations': s.stats.obl, 'by': dict(s.stats.by), 'queries': s.stats.queries,
                'solver_s': round(s.stats.t, 2), 'wall_s': round(time.time() - t0, 2), 'failures': s.failures, 'paths': s.npaths, 'returns': s.returns,
                'loops': len(s.loopseen), 'callees': sorted(s.called), 'inlined': sorted(s.inlined), 'trusted': sorted(s.assumed)}

    def run_top(s, con, setup):
        f = s.M.func(con.name)
        if f is None: raise Unsupported('function %s not found' % con.name)
        f.cfg()
        st = State(); s.pos = None
        s.curst = st
        s.cache = {}
        s.gx = {}
        args = setup(s, st)
        old = st.snap()
        c = Ctx(s, st, st, args, con=con, top=True)
        for x in con.pre(c): s.fact(x[1])
        old = st.snap()
        s.top_old, s.top_args, s.top_con = old, args, con
        if con.ghost: s.gx.update(con.ghost(Ctx(s, st, old, args, con=con, top=True)))
        if not s.dry:
            if s.check_now(3000) == z3.unsat: raise Unsupported('contradictory precondition')
        s.enter(st, f, args, None)
        s.run(st)

    def enter(s, st, f, args, ret):
        f.cfg()
        fr = Frame(f)
        if len(st.frames) > 25: raise Unsupported('call depth')
        fr.path = (st.frames[-1].path if st.frames else ()) + (f.name,)
        if len(args) != len(f.params): raise Unsupported('argument count of %s' % f.name)
        for (t, n), v in zip(f.params, args): fr.env[n] = v
        fr.ret = ret
        fr.bl = f.order[0]; fr.ix = 0
        st.frames.append(fr)

    # ---- main loop
    def run(s, st):
        try:
            while True:
                if s.npaths > 20000: raise Unsupported('too many paths')
                s.curst = st
                s.step(st)
        except PathEnd:
            s.npaths += 1
            s.flush()
            if time.time() > s.deadline: raise Unsupported('time budget exhausted')

    def fork(s, st, alts):
        """alts: [(cond, continuation(st))]; explores every feasible one, then ends the current path"""
        s.flush()
        live = []
        for c, k in alts:
            c = simp(c)
            if c is False: continue
            live.append((c, k))
        if not live: raise PathEnd()
        if len(live) == 1 and live[0][0] is True:
            live[0][1](st); return
        feas = [(c, k) for c, k in live if s.feasible(c)]
        if len(feas) == 1:
            s.fact(feas[0][0]); feas[0][1](st); return
        for c, k in feas:
            st2 = st.copy()
            s.push(); s.fact(c)
            try:
                s.curst = st2
                k(st2)
                s.run(st2)
            except PathEnd:
                s.npaths += 1
            s.pop()
        raise PathEnd()

    def val(s, st, v, ty):
        k = v[0]
        if k == 'loc':
            fr = st.frames[-1]
            try: return fr.env[v[1]]
            except KeyError: raise Unsupported('undefined value %%%s in %s' % (v[1], fr.f.name))
        if k == 'int': return mask(v[1], ty.w)
        if k == 'null': return NULL
        if k == 'glob': return s.glob(st, v[1])
        if k in ('undef', 'poison', 'zeroinitializer'):
            if ty.k == 'vec': return [s.val(st, v, ty.e) for _ in range(ty.n)]
            if ty.k == 'arr': return [s.val(st, v, ty.e) for _ in range(ty.n)]
            if ty.k == 'struct': return [s.val(st, v, f) for f in ty.f]
            if ty.k == 'ptr': return NULL
            if ty.k == 'fp': return z3.BitVecVal(0, 64)
            if k == 'zeroinitializer': return 0
            return fbv('undef', ty.w) if ty.w > 1 else fbool('undef')
        if k in ('vec', 'agg'): return [s.val(st, x, t) for t, x in v[1]]
        if k == 'str': return list(v[1])
        if k == 'fp': return ('fpc', v[1])
        if k == 'gep':
            base = s.val(st, v[2][0][1], v[2][0][0])
            return s.gep(st, base, v[1], [(t, s.val(st, x, t)) for t, x in v[2][1:]])
        if k == 'cast': return s.val(st, v[3], v[2])
        raise Unsupported('value %r' % (v,))
    def glob(s, st, n):
        if n in s.M.ftext or n in s.M.fdecl: return Fn(n)
        id = '@' + n
        if id not in st.blk:
            t, v, const = s.M.global_init(n)
            sz = s.M.size(t)
            if t.k in ('arr',) :
                e = t
                while e.k == 'arr': e = e.e
                if e.k == 'int':
                    ew = s.M.size(e)
                    flat = []
                    def rec(v, t):
                        if t.k == 'arr':
                            if v[0] == 'zeroinitializer': flat.extend([0] * (s.M.size(t) // ew))
                            elif v[0] == 'str': flat.extend(v[1])
                            else:
                                for tt, x in v[1]: rec(x, tt)
                        else: flat.append(0 if v[0] == 'zeroinitializer' else mask(v[1], t.w))
                    content = None
                    if v is not None:
                        rec(v, t)
                        content = Arr(ew * 8, 32, f=flat)
                        s.tables = getattr(s, 'tables', {})
                    b = Blk(id, n, sz, 'arr', ew, 32, False, const, False)
                    st.blk[id] = b; st.mem[id] = content or Arr(ew * 8, 32, name=n)
                    return Ptr(id)
            b = Blk(id, n, sz, 'struct', None, 32, False, const, False)
            st.blk[id] = b; d = {}
            if v is not None and v[0] != 'external':
                try: s.st_struct(d, 0, s.val(st, v, t), t)
                except Unsupported: d = {}
            if not const: d = {}
            st.mem[id] = d
        return Ptr(id)

    def gep(s, st, base, bt, idx):
        o = Off()
        t = bt
        for k, (ty, v) in enumerate(idx):
            if k == 0:
                sz = s.M.size(t)
            elif t.k == 'struct':
                o = o.plus(Off(s.M.field_off(t, v))); t = t.f[v]; continue
            elif t.k in ('arr', 'vec'):
                t = t.e; sz = s.M.size(t)
            else: raise Unsupported('gep')
            o = o.plus(Off.of(sext(v, ty.w, 64), sz))
        if isinstance(base, Ptr): return base.plus(o)
        if isinstance(base, Fn): raise Unsupported('gep on function')
        return norm(W(base, 64) + W(o.bv(), 64)) if not (o.const() and o.c == 0) else base

    def jump(s, st, to):
        fr = st.frames[-1]; f = fr.f
        frm = fr.bl
        for h in list(fr.active):
            if to not in f.loops[h]:
                fr.active.pop(h)
        ins = f.blocks[to]
        phis = []
        for i in ins:
            if i.op == 'phi':
                for v, l in i.x:
                    if l == frm: phis.append((i, s.val(st, v, i.ty))); break
                else: raise Unsupported('phi without edge')
            elif i.op != 'dbg': break
        if to in f.loops:
            s.loop(st, fr, to, phis); return
        for i, v in phis: fr.env[i.res] = v
        fr.bl = to; fr.ix = 0
        s.rundbg(st, fr, to)
    def rundbg(s, st, fr, to):
        for k, i in enumerate(fr.f.blocks[to]):
            if i.op == 'dbg': s.dbg(st, fr, i)
            elif i.op != 'phi': break
    def dbg(s, st, fr, i):
        nm, kd = i.x
        if kd == 'value':
            v = i.a[0]
            if v[0] == 'loc' and v[1] not in fr.env: return
            try: fr.names[nm] = (i.ty, s.val(st, v, i.ty))
            except Unsupported: pass
        else:
            v = i.a[0]
            if v[0] == 'loc' and v[1] in fr.env: fr.names[nm] = ('mem', fr.env[v[1]])

    def lookup(s, st, fr, name, hdr=None):
        if hdr is not None:
            for i in fr.f.blocks[hdr]:
                if i.op != 'phi': break
                for (n, kd, ex) in fr.f.vars.get(i.res, []):
                    if n == name and not ex and i.res in fr.env: return fr.env[i.res]
        for q in [fr] + [x for x in reversed(st.frames) if x is not fr]:
            if name in q.names:
                t = q.names[name]
                if t[0] == 'mem':
                    p = t[1]
                    c = st.mem[p.b]
                    if isinstance(c, dict):
                        if 0 in c and len(c) == 1: return c[0][1]
                        return p
                    return p
                return t[1]
        raise Unsupported('no variable %s at loop' % name)

    # ---- loops
    def loopspec(s, st, fr, hdr):
        f = fr.f
        key = (fr.path, hdr)
        if f.name in s.ispecs and len(fr.path) > 1:
            sp = s.ispecs[f.name]; i = f.headers.index(hdr)
            return sp[i] if i < len(sp) else None
        # loops of the function under verification (and of helpers without their own specification), in order of first encounter
        if key not in s.loopkeys:
            if len(fr.path) == 1: pos = f.headers.index(hdr)
            else: pos = len(s.loopkeys)
            s.loopkeys[key] = pos
        i = s.loopkeys[key]
        sp = s.top_con.loops
        return sp[i] if i < len(sp) else None

    def loop(s, st, fr, hdr, phis):
        if not hasattr(s, 'loopkeys') or s.loopkeys_for is not s.top_con: s.loopkeys = {}; s.loopkeys_for = s.top_con
        if hdr in fr.active:
            info = fr.active[hdr]
            if info['unroll']:
                info = dict(info); info['n'] += 1
                if info['n'] > info['limit']: raise Unsupported('loop without invariant in %s does not unroll' % fr.f.name)
                fr.active[hdr] = info
                for i, v in phis: fr.env[i.res] = v
                fr.bl = hdr; fr.ix = 0; s.rundbg(st, fr, hdr)
                return
            s.backedge(st, fr, hdr, phis, info)
            return
        spec = s.loopspec(st, fr, hdr)
        if spec is None or spec.unroll:
            fr.active[hdr] = {'unroll': True, 'n': 0, 'limit': LIMIT_UNROLL if spec is None else 5000}
            for i, v in phis: fr.env[i.res] = v
            fr.bl = hdr; fr.ix = 0; s.rundbg(st, fr, hdr)
            return
        key = (fr.path, hdr)
        if key not in s.loopseen: s.loopseen.append(key)
        # entry
        entry_env = dict(fr.env)
        for i, v in phis: fr.env[i.res] = v
        fr.bl = hdr; fr.ix = 0; s.rundbg(st, fr, hdr)
        entry = st.snap()
        entry.vals = {}
        for i, v in phis:
            for (n, kd, ex) in fr.f.vars.get(i.res, []): entry.vals[n] = v
        V = VLoop(s, st, fr, entry, s.top_args, s.top_old, hdr)
        for lab, g in s.inv(spec, V): s.oblig(st, g, 'loop invariant on entry: ' + lab)
        s.flush()
        # havoc
        info = {'unroll': False, 'spec': spec, 'entry': entry, 'phib': {}}
        for i, v in phis:
            nv = s.havoc_phi(st, i, v, info)
            fr.env[i.res] = nv
        if spec.fix:
            s.rundbg(st, fr, hdr)
            V = VLoop(s, st, fr, entry, s.top_args, s.top_old, hdr)
            for i, v in phis:
                for (n, kd, ex) in fr.f.vars.get(i.res, []):
                    if n in spec.fix and not ex:
                        x = spec.fix[n](V); o = fr.env[i.res]
                        if isinstance(o, Ptr):
                            b, ew, r = info['phib'][i.res]
                            fr.env[i.res] = Ptr(b, Off.of(z3.ZeroExt(32, x) if x.size() == 32 else x, ew).plus(Off(r)))
                        else: fr.env[i.res] = x
        for (bid, off) in sorted(s.mods.get(key, ()), key=str):
            if bid not in st.blk: continue
            c = st.mem[bid]
            if off is None:
                if isinstance(c, Arr): st.mem[bid] = Arr(c.w, c.iw, name='h_' + re.sub(r'\W', '_', st.blk[bid].name))
                elif c is None or isinstance(c, tuple): pass
                else: raise Unsupported('havoc')
            else:
                if off not in c:
                    continue
                sz, v = c[off]
                d = dict(c)
                if isinstance(v, Ptr) and v.b is not None:
                    ob = st.blk[v.b]
                    nb = s.newblk(st, 'h:' + ob.name.split('|')[0] + '|' + '/'.join(fr.path) + hdr, fbv('hsize', 64), 'arr', ob.ew or 2, ob.iw, fresh=True)
                    st.dead.add(v.b)
                    d[off] = (sz, nb)
                elif isinstance(v, Ptr): d[off] = (sz, fbv('hp', 64))
                else: d[off] = (sz, fbv('hc', 8 * sz))
                st.mem[bid] = d
        s.rundbg(st, fr, hdr)
        info['mem'] = dict(st.mem); info['dead'] = set(st.dead); info['blks'] = set(st.blk)
        fr.active[hdr] = info
        V = VLoop(s, st, fr, entry, s.top_args, s.top_old, hdr)
        for lab, g in s.inv(spec, V): s.fact(g)
        if spec.dec: info['dec'] = spec.dec(V)
        if spec.hints:
            for g in spec.hints(V): s.fact(g)
        s.bodyok += 1
    def inv(s, spec, V):
        r = []
        for n, f in spec.fix.items():
            p = V.at(n)
            if isinstance(p, Ptr): r.append(('index of ' + n, eqv(V.ix(n), f(V), s_iw(s, V, p))))
            else: r.append(('value of ' + n, W(p, f(V).size()) == f(V)))
        for x in spec.inv(V) or []:
            if isinstance(x, tuple): r.append(x)
            else: r.append(('inv', x))
        return r
    def havoc_phi(s, st, i, v, info):
        if i.ty.k == 'int': return fbv('v', i.ty.w) if i.ty.w > 1 else fbool('v')
        if i.ty.k == 'vec': return [fbv('v', i.ty.e.w) for _ in range(i.ty.n)]
        if i.ty.k == 'fp': return fbv('v', 64)
        if i.ty.k == 'ptr':
            if isinstance(v, Ptr) and v.b is not None:
                b = st.blk[v.b]
                ew = b.ew or 1
                if b.kind == 'struct' : raise Unsupported('loop pointer into struct')
                o = v.o
                r = o.c % ew
                info['phib'][i.res] = (v.b, ew, r)
                if b.iw == 32:
                    return Ptr(v.b, Off(0, {}).plus(Off.of(z3.ZeroExt(32, fbv('pi', 32)), ew)).plus(Off(r)))
                return Ptr(v.b, Off.of(fbv('pi', 64), ew).plus(Off(r)))
            return fbv('vp', 64)
        raise Unsupported('loop variable of type %r' % i.ty)
    def backedge(s, st, fr, hdr, phis, info):
        key = (fr.path, hdr)
        ms = s.mods.setdefault(key, set())
        new = set()
        for bid in info['blks']:
            if bid in info['dead']: continue
            a, b = info['mem'].get(bid), st.mem.get(bid)
            if bid in st.dead and bid not in info['dead']:
                # freed inside the loop: allowed only if some havoced pointer cell owns it
                continue
            if a is b: continue
            if isinstance(b, Arr):
                if (bid, None) not in ms: new.add((bid, None))
            elif isinstance(b, dict):
                if not isinstance(a, dict): 
                    continue
                for off in set(a) | set(b):
                    x, y = a.get(off), b.get(off)
                    if x is not None and y is not None and x[0] == y[0] and (x[1] is y[1] or (isc(x[1]) and isc(y[1]) and x[1] == y[1]) or (z3.is_expr(x[1]) and z3.is_expr(y[1]) and z3.eq(x[1], y[1])) or (isinstance(x[1], Ptr) and isinstance(y[1], Ptr) and x[1].b == y[1].b and x[1].o.const() and y[1].o.const() and x[1].o.c == y[1].o.c)): continue
                    if (bid, off) not in ms: 
                        if x is None: continue     # cell undefined on entry: nothing known about it
                        new.add((bid, off))
        if new:
            ms |= new
            raise Restart()
        # a block freed in the loop must not be live state at the header
        for bid in info['blks']:
            if bid in st.dead and bid not in info['dead']:
                owned = False
                for (mb, off) in ms:
                    if off is not None:
                        c = info['mem'].get(mb)
                        if isinstance(c, dict) and off in c and isinstance(c[off][1], Ptr) and c[off][1].b == bid: owned = True
                if not owned: raise Unsupported('block %s freed inside a loop' % bid)
        for i, v in phis:
            if i.res in info['phib']:
                b, ew, r = info['phib'][i.res]
                if not isinstance(v, Ptr) or v.b != b: raise Unsupported('loop pointer changes block')
                ix = v.o.plus(Off(-r)).div(ew, 64)
                if ix is None: raise Unsupported('loop pointer step')
                if st.blk[b].iw == 32 and not isc(ix):
                    s.oblig(st, z3.Extract(63, 32, ix) == 0, 'loop pointer stays within index range')
            elif i.ty.k == 'ptr' and isinstance(v, Ptr): v = W(s.ptrbits(st, v), 64)
            fr.env[i.res] = v
        fr.bl = hdr; fr.ix = 0
        s.rundbg(st, fr, hdr)
        V = VLoop(s, st, fr, info['entry'], s.top_args, s.top_old, hdr)
        if info['spec'].hints and getattr(info['spec'], 'backhints', True):
            for g in info['spec'].hints(V): s.fact(g)
        for lab, g in s.inv(info['spec'], V): s.oblig(st, g, 'loop invariant preserved: ' + lab)
        if 'dec' in info:
            d0 = info['dec']; d1 = info['spec'].dec(V)
            s.oblig(st, z3.ULT(d1, d0), 'loop variant decreases')
        s.flush()
        raise PathEnd()

    # ---- instructions
    def step(s, st):
        fr = st.frames[-1]
        i = fr.f.blocks[fr.bl][fr.ix]
        op = i.op
        fn = getattr(s, 'i_' + op, None)
        if fn is None: raise Unsupported('instruction %s' % op)
        fn(st, fr, i)
    def i_phi(s, st, fr, i): fr.ix += 1
    def i_dbg(s, st, fr, i): s.dbg(st, fr, i); fr.ix += 1
    def setr(s, fr, i, v):
        if i.res is not None: fr.env[i.res] = v
        fr.ix += 1
    def i_alloca(s, st, fr, i):
        cnt = s.val(st, i.a[0], __import__('ir').INT(64))
        t = i.x
        sz = s.M.size(t)
        nm = 'alloca:%s:%s' % ('/'.join(fr.path), i.res)
        if isc(cnt):
            sz *= cnt
            e = t
            while e.k == 'arr': e = e.e
            if e.k == 'vec': e = e.e; p = s.newblk(st, nm, sz, 'arr', s.M.size(e), fresh=True, heap=False)
            elif t.k == 'arr' and e.k == 'int': p = s.newblk(st, nm, sz, 'arr', s.M.size(e), fresh=True, heap=False)
            elif t.k == 'arr' and e.k == 'ptr': p = s.newblk(st, nm, sz, 'arr', 8, fresh=True, heap=False)
            else: p = s.newblk(st, nm, sz, 'struct', fresh=True, heap=False)
        else:
            p = s.newblk(st, nm, simpz(W(cnt, 64) * sz), 'raw', fresh=True, heap=False)
        fr.allocas.append(p.b)
        s.setr(fr, i, p)
    def i_load(s, st, fr, i):
        p = s.val(st, i.a[0], PTRT)
        s.setr(fr, i, s.load(st, p, i.ty))
    def i_store(s, st, fr, i):
        v = s.val(st, i.a[0], i.ty); p = s.val(st, i.a[1], PTRT)
        s.store(st, p, v, i.ty); fr.ix += 1
    def i_getelementptr(s, st, fr, i):
        base = s.val(st, i.a[0][1], i.a[0][0])
        s.setr(fr, i, s.gep(st, base, i.x, [(t, s.val(st, v, t)) for t, v in i.a[1:]]))
    def i_br(s, st, fr, i):
        if not i.a: s.jump(st, i.x[0]); return
        c = s.val(st, i.a[0], I1)
        c = simp(c)
        if isinstance(c, (bool, int)): s.jump(st, i.x[0] if c else i.x[1]); return
        t, e = i.x
        for y, f, cy in ((t, e, c), (e, t, z3.Not(c))):
            if s.shortcut(fr, y, f): s.conj(st, fr, y, f, cy); return
        s.fork(st, [(c, lambda q: s.jump(q, t)), (z3.Not(c), lambda q: s.jump(q, e))])
    PURE = {'load', 'getelementptr', 'icmp', 'zext', 'sext', 'trunc', 'and', 'or', 'xor', 'add', 'sub', 'lshr', 'shl', 'dbg', 'br'}
    def shortcut(s, fr, y, f):
        """y only evaluates the second half of a && b (or a || b): no effects, leaves to f or elsewhere; f sees the same values from both"""
        F = fr.f; x = fr.bl
        if y == f or F.preds.get(y) != [x] or y in F.loops: return False
        ins = F.blocks[y]
        if any(i.op not in s.PURE for i in ins): return False
        b = ins[-1]
        if b.op != 'br' or not b.a or f not in b.x or b.x[0] == b.x[1]: return False
        if f in F.loops and f in fr.active: return False
        for h in fr.active:
            if y not in F.loops[h]: return False
        for i in F.blocks[f]:
            if i.op == 'phi':
                d = {l: v for v, l in i.x}
                if d.get(x) != d.get(y): return False
            elif i.op != 'dbg': break
        return True
    def conj(s, st, fr, y, f, c):
        """branch to y under c, then elsewhere under c and d; to f otherwise: two paths instead of three"""
        s.flush()
        fc, fn = s.feasible(c), s.feasible(z3.Not(c))
        if not fc: s.fact(z3.Not(c)); s.jump(st, f); return
        if not fn: s.fact(c); s.jump(st, y); return
        st2 = st.copy(); q = st2.frames[-1]
        s.push(); s.fact(c)
        d = None
        try:
            s.curst = st2
            q.bl = y; q.ix = 0
            b = q.f.blocks[y][-1]
            while q.f.blocks[y][q.ix] is not b: s.step(st2)
            d = simp(s.val(st2, b.a[0], I1))
            if isinstance(d, (bool, int)): d = z3.BoolVal(bool(d))
            to, d = (b.x[0], d) if b.x[1] == f else (b.x[1], z3.simplify(z3.Not(d)))
            s.flush()
            if s.feasible(d):
                s.fact(d)
                s.jump(st2, to)
                s.run(st2)
            else: s.npaths += 1
        except PathEnd: s.npaths += 1
        s.pop()
        if d is None: d = z3.BoolVal(False)     # the evaluation itself failed: reported there
        n = Or(z3.Not(c), z3.Not(d))
        if s.feasible(n):
            s.curst = st
            s.fact(n); s.jump(st, f); return
        raise PathEnd()
    def i_switch(s, st, fr, i):
        v = simp(s.val(st, i.a[0], i.ty))
        d, cs = i.x
        if isc(v):
            for c, l in cs:
                if mask(c, i.ty.w) == v: s.jump(st, l); return
            s.jump(st, d); return
        alts = []; neg = []
        for c, l in cs:
            e = v == z3.BitVecVal(c, i.ty.w)
            alts.append((e, (lambda l: lambda q: s.jump(q, l))(l))); neg.append(z3.Not(e))
        alts.append((And(*neg), lambda q: s.jump(q, d)))
        s.fork(st, alts)
    def i_ret(s, st, fr, i):
        v = s.val(st, i.a[0], i.ty) if i.a else None
        if v is None: v = None
        for b in fr.allocas: st.dead.add(b)
        st.frames.pop()
        if not st.frames:
            st.frames.append(fr)
            s.finish(st, v)
            raise PathEnd()
        up = st.frames[-1]
        if fr.ret is not None: up.env[fr.ret] = v
        up.ix += 1
    def i_unreachable(s, st, fr, i):
        s.fail_now(st, 'unreachable', 'unreachable code / failed assertion reached')
    def finish(s, st, v):
        """contract postcondition at a return of the function under verification"""
        con = s.top_con
        s.flush()
        if not s.dry:
            r = s.check_now(1500)
            if r == z3.unsat: return
        s.returns += 1
        c = Ctx(s, st, s.top_old, s.top_args, v, con=con, top=True)
        if con.hints:
            for f in con.hints(c): s.fact(f)
        if con.lemmas:
            for lab, g in con.lemmas(c):     # linear equalities between ground terms: proved on their own, then used for elimination
                if s.dry: continue
                s.stats.obl += 1; t = time.time()
                S = z3.Solver(); S.set('timeout', s.timeout); S.add(z3.Not(g)); s.stats.queries += 1
                if S.check() == z3.unsat: s.stats.by['z3'] = s.stats.by.get('z3', 0) + 1; s.lin.append(g)
                else: s.fail('lemma: ' + lab, s.where(st), 'not valid', g)
                s.stats.t += time.time() - t
        for lab, g in con.post(c):
            if lab.startswith('lemma '): s.flush(); s.fact(g); s.lemmas.add(lab[6:])      # conclusion of a lemma whose hypotheses are the obligations before it
            else:
                s.oblig(st, g, 'post: ' + lab)
                if lab.startswith('*'): s.flush(); s.fact(g)
        s.flush()
        s.frame_check(st, c)
    def frame_check(s, st, c):
        con = s.top_con
        allowed = set()
        for m in (con.modifies(c) if con.modifies else []):
            if isinstance(m, tuple): allowed.add((m[0].b, m[1]))
            else: allowed.add((m.b, '*'))
        for bid in s.top_old.blk:
            if (bid, '*') in allowed: continue
            if bid in st.dead and bid not in s.top_old.dead:
                s.fail_now2(st, 'frame', '%s freed' % bid); continue
            a, b = s.top_old.mem.get(bid), st.mem.get(bid)
            if a is b: continue
            if isinstance(b, dict) and isinstance(a, dict):
                for off in set(a) | set(b):
                    if (bid, off) in allowed: continue
                    x, y = a.get(off), b.get(off)
                    if x is None: continue
                    if y is None: s.fail_now2(st, 'frame', '%s+%d' % (bid, off)); continue
                    if x[1] is y[1]: continue
                    if isinstance(x[1], Ptr) or isinstance(y[1], Ptr):
                        if isinstance(x[1], Ptr) and isinstance(y[1], Ptr) and x[1].b == y[1].b and z3.is_true(z3.simplify(W(x[1].o.bv(), 64) == W(y[1].o.bv(), 64))): continue
                        s.fail_now2(st, 'frame', 'pointer %s+%d changed' % (bid, off)); continue
                    s.oblig(st, eqv(x[1], y[1], 8 * x[0]), 'frame: %s+%d unchanged' % (bid, off))
            elif isinstance(b, Arr) and isinstance(a, Arr):
                t = fbv('fr', a.iw)
                blk = st.blk[bid]
                n = W(trunc(W(s.size64(blk), 64) , 64, 64), 64)
                s.oblig(st, Implies(z3.ULT(W(zext(t, a.iw, 64), 64), z3.UDiv(n, z3.BitVecVal(blk.ew, 64))), a.read(t) == b.read(t)), 'frame: contents of %s unchanged' % bid)
        s.flush()
    def fail_now2(s, st, lab, msg):
        if s.dry: return
        s.stats.obl += 1
        ok, why = s.prove_hard(z3.BoolVal(False))
        if not ok: s.fail('%s: %s' % (lab, msg), s.where(st), why)

    # integer ops
    def lanes(s, ty, f, *vs):
        if ty.k == 'vec': return [f(*[v[k] for v in vs]) for k in range(ty.n)]
        return f(*vs)
    def binop(s, st, fr, i, f, chk=None):
        a = s.val(st, i.a[0], i.ty); b = s.val(st, i.a[1], i.ty)
        w = i.ty.e.w if i.ty.k == 'vec' else i.ty.w
        def g(x, y):
            if isinstance(x, Ptr) or isinstance(y, Ptr): return s.ptrarith(st, i.op, x, y)
            if chk: chk(x, y, w)
            return norm(f(x, y, w))
        s.setr(fr, i, s.lanes(i.ty, g, a, b))
    def ptrarith(s, st, op, x, y):
        if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.b != y.b: raise Unsupported('difference of unrelated pointers')
            return norm(W(x.o.plus(y.o.scaled(-1)).bv(), 64))
        if op in ('add', 'sub'):
            if isinstance(x, Ptr) and not isinstance(y, Ptr):
                o = Off.of(y, 1 if op == 'add' else -1)
                return Ptr(x.b, x.o.plus(o))
            if op == 'add' and isinstance(y, Ptr): return Ptr(y.b, y.o.plus(Off.of(x)))
        x = s.ptrbits(st, x) if isinstance(x, Ptr) else x
        y = s.ptrbits(st, y) if isinstance(y, Ptr) else y
        return {'and': lambda: W(x, 64) & W(y, 64), 'or': lambda: W(x, 64) | W(y, 64)}[op]()
    def nsw(s, st, i, kind):
        if 'nsw' not in (i.x or ()) and 'nuw' not in (i.x or ()): return None
        def chk(x, y, w):
            if isc(x) and isc(y):
                return
            X, Y = W(x, w), W(y, w)
            if 'nsw' in i.x:
                if kind == 'add': g = And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y))
                elif kind == 'sub': g = And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True))
                else: g = And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y))
                s.oblig(st, g, 'no signed overflow in %s' % kind)
        return chk
    def i_add(s, st, fr, i): s.binop(st, fr, i, lambda x, y, w: (norm(simp(z3.Xor(B(x), B(y)))) if w == 1 else add(x, y, w)), s.nsw(st, i, 'add'))
    def i_sub(s, st, fr, i):
        s.binop(st, fr, i, lambda x, y, w: sub(x, y, w), s.nsw(st, i, 'sub'))
    def i_mul(s, st, fr, i):
        def f(x, y, w):
            if isc(x) and isc(y): return mask(x * y, w)
            if isc(x): x, y = y, x
            if isc(y):
                if y == 1: return x
                if y == 0: return 0
            return W(x, w) * W(y, w)
        s.binop(st, fr, i, f, s.nsw(st, i, 'mul'))
    def divchk(s, st):
        def chk(x, y, w):
            if isc(y) and y: return
            s.oblig(st, Not(eqv(y, 0, w)), 'no division by zero')
        return chk
    def i_udiv(s, st, fr, i):
        def f(x, y, w):
            if isc(x) and isc(y) and y: return x // y
            if isc(y) and y and y & (y - 1) == 0: return z3.LShR(W(x, w), y.bit_length() - 1)
            return z3.UDiv(W(x, w), W(y, w))
        s.binop(st, fr, i, f, s.divchk(st))
    def i_urem(s, st, fr, i):
        def f(x, y, w):
            if isc(x) and isc(y) and y: return x % y
            if isc(y) and y and y & (y - 1) == 0: return W(x, w) & z3.BitVecVal(y - 1, w)
            return z3.URem(W(x, w), W(y, w))
        s.binop(st, fr, i, f, s.divchk(st))
    def i_sdiv(s, st, fr, i):
        ex = 'exact' in i.x
        def f(x, y, w):
            if isc(x) and isc(y) and y:
                a, b = sgn(x, w), sgn(y, w); q = abs(a) // abs(b)
                return mask(q if (a < 0) == (b < 0) else -q, w)
            if ex and isc(y) and w == 64:
                o = Off.of(x).div(y, 64)
                if o is not None: return mask(o, 64) if isc(o) else o
            if isc(y) and y & (y - 1) == 0 and ex: return W(x, w) >> (y.bit_length() - 1)
            return W(x, w) / W(y, w)
        s.binop(st, fr, i, f, s.divchk(st))
    def i_srem(s, st, fr, i):
        def f(x, y, w):
            if isc(x) and isc(y) and y:
                a, b = sgn(x, w), sgn(y, w); r = abs(a) % abs(b)
                return mask(-r if a < 0 else r, w)
            return z3.SRem(W(x, w), W(y, w))
        s.binop(st, fr, i, f, s.divchk(st))
    def shchk(s, st):
        def chk(x, y, w):
            if isc(y):
                if y >= w: s.fail_now(st, 'shift', 'shift amount out of range')
                return
            s.oblig(st, z3.ULT(W(y, w), z3.BitVecVal(w, w)), 'shift amount in range')
        return chk
    def i_shl(s, st, fr, i):
        def f(x, y, w):
            if isc(x) and isc(y): return mask(x << y, w)
            return W(x, w) << W(y, w)
        c0 = s.shchk(st); c1 = None
        if 'nsw' in i.x:
            def c1(x, y, w):
                X, Y = W(x, w), W(y, w)
                s.oblig(st, (X << Y) >> Y == X, 'no signed overflow in shl')
        def chk(x, y, w):
            c0(x, y, w)
            if c1 and not (isc(x) and isc(y)): c1(x, y, w)
        s.binop(st, fr, i, f, chk)
    def i_lshr(s, st, fr, i):
        def f(x, y, w):
            if isc(x) and isc(y): return x >> y
            return z3.LShR(W(x, w), W(y, w))
        s.binop(st, fr, i, f, s.shchk(st))
    def i_ashr(s, st, fr, i):
        def f(x, y, w):
            if isc(x) and isc(y): return mask(sgn(x, w) >> y, w)
            return W(x, w) >> W(y, w)
        s.binop(st, fr, i, f, s.shchk(st))
    def i_and(s, st, fr, i):
        def f(x, y, w):
            if w == 1: return norm(And(x, y))
            if isc(x) and isc(y): return x & y
            if isc(x): x, y = y, x
            if isc(y):
                if y == 0: return 0
                if y == (1 << w) - 1: return x
            return W(x, w) & W(y, w)
        s.binop(st, fr, i, f)
    def i_or(s, st, fr, i):
        def f(x, y, w):
            if w == 1: return norm(Or(x, y))
            if isc(x) and isc(y): return x | y
            if isc(x): x, y = y, x
            if isc(y):
                if y == 0: return x
                if y == (1 << w) - 1: return y
            return W(x, w) | W(y, w)
        s.binop(st, fr, i, f)
    def i_xor(s, st, fr, i):
        def f(x, y, w):
            if w == 1: return simp(z3.Xor(B(x), B(y)))
            if isc(x) and isc(y): return x ^ y
            if isc(x): x, y = y, x
            if isc(y):
                if y == 0: return x
                if y == (1 << w) - 1: return ~W(x, w)
            return W(x, w) ^ W(y, w)
        s.binop(st, fr, i, f)
    def i_icmp(s, st, fr, i):
        a = s.val(st, i.a[0], i.ty); b = s.val(st, i.a[1], i.ty)
        def f(x, y):
            if isinstance(x, Fn) or isinstance(y, Fn):
                if isinstance(x, Fn) and isinstance(y, Fn): e = x.name == y.name
                else: e = False
                return e if i.x == 'eq' else not e
            if isinstance(x, Ptr) or isinstance(y, Ptr): return s.ptrcmp(st, i.x, x, y)
            w = i.ty.e.w if i.ty.k == 'vec' else 64 if i.ty.k == 'ptr' else i.ty.w
            if w == 1:
                e = simp(B(x) == B(y))
                if i.x == 'eq': return e
                if i.x == 'ne': return norm(Not(e))
                raise Unsupported('i1 compare')
            if isc(x) and isc(y):
                sx, sy = sgn(x, w), sgn(y, w); x = mask(x, w); y = mask(y, w)
                return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': sx < sy, 'sle': sx <= sy, 'sgt': sx > sy, 'sge': sx >= sy}[i.x]
            X, Y = W(x, w), W(y, w)
            r = {'eq': lambda: X == Y, 'ne': lambda: X != Y, 'ult': lambda: z3.ULT(X, Y), 'ule': lambda: z3.ULE(X, Y), 'ugt': lambda: z3.UGT(X, Y), 'uge': lambda: z3.UGE(X, Y),
                 'slt': lambda: X < Y, 'sle': lambda: X <= Y, 'sgt': lambda: X > Y, 'sge': lambda: X >= Y}[i.x]()
            return r
        s.setr(fr, i, s.lanes(i.ty, f, a, b))
    def ptrcmp(s, st, pr, x, y):
        def nul(p): return (isinstance(p, Ptr) and p.b is None) or (isc(p) and p == 0)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.b == y.b and x.b is not None:
            b = st.blk[x.b]
            X = Y = None
            if b.ew and b.ew > 1:
                X, Y = x.o.div(b.ew, 64), y.o.div(b.ew, 64)
                if X is not None and Y is not None:
                    # both are element pointers of one object (no wrap-around of byte offsets: checked)
                    n = z3.UDiv(W(s.size64(b), 64), z3.BitVecVal(b.ew, 64)) if not isc(b.size) else mask(b.size // b.ew, 64)
                    for I in (X, Y):
                        if not isc(I): s.oblig(st, z3.ULE(W(I, 64), z3.BitVecVal(1 << 40, 64)), 'compared pointer within its object')
                    X, Y = W(mask(X, 64) if isc(X) else X, 64), W(mask(Y, 64) if isc(Y) else Y, 64)
                else: X = None
            if X is None: X, Y = W(x.o.bv(), 64), W(y.o.bv(), 64)
            if pr in ('eq', 'ne'):
                e = simp(X == Y); return e if pr == 'eq' else norm(Not(e))
            return {'ult': X < Y, 'ule': X <= Y, 'ugt': X > Y, 'uge': X >= Y, 'slt': X < Y, 'sle': X <= Y, 'sgt': X > Y, 'sge': X >= Y}[pr]
        if pr in ('eq', 'ne'):
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                e = x.b == y.b    # distinct live blocks have distinct addresses
                if x.b is None and y.b is None: e = True
            else:
                p, q = (x, y) if isinstance(x, Ptr) else (y, x)
                if nul(p):
                    e = simp(W(q, 64) == 0)
                else: e = simp(s.ptrbits(st, p) == W(q, 64))
            return e if pr == 'eq' else norm(Not(e))
        raise Unsupported('ordering of unrelated pointers')
    def i_zext(s, st, fr, i):
        v = s.val(st, i.a[0], i.x)
        if i.ty.k == 'vec': s.setr(fr, i, [zext(x, i.x.e.w, i.ty.e.w) for x in v])
        else: s.setr(fr, i, zext(int(v) if isinstance(v, bool) else v, i.x.w, i.ty.w))
    def i_sext(s, st, fr, i):
        v = s.val(st, i.a[0], i.x)
        if i.ty.k == 'vec': s.setr(fr, i, [sext(int(x) if isinstance(x, bool) else x, i.x.e.w, i.ty.e.w) for x in v])
        else: s.setr(fr, i, sext(int(v) if isinstance(v, bool) else v, i.x.w, i.ty.w))
    def i_trunc(s, st, fr, i):
        v = s.val(st, i.a[0], i.x)
        if i.ty.k == 'vec': s.setr(fr, i, [trunc(x, i.x.e.w, i.ty.e.w) for x in v])
        else: s.setr(fr, i, norm(trunc(v, i.x.w, i.ty.w)))
    def i_bitcast(s, st, fr, i):
        v = s.val(st, i.a[0], i.x)
        s.setr(fr, i, s.bitcast(v, i.x, i.ty))
    def bitcast(s, v, f, t):
        if f.k == t.k and f.k != 'vec': return v
        fw = f.e.w if f.k == 'vec' else f.w; tw = t.e.w if t.k == 'vec' else t.w
        vs = v if f.k == 'vec' else [v]
        if fw == tw: return list(vs) if t.k == 'vec' else vs[0]
        out = []
        if tw > fw:
            r = tw // fw
            if fw == 1:
                for k in range(0, len(vs), r):
                    g = vs[k:k + r]
                    if all(isinstance(x, (bool, int)) for x in g): out.append(sum(int(x) << j for j, x in enumerate(g)))
                    else: out.append(z3.Concat(*[z3.If(B(x), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for x in reversed(g)]))
            else:
                for k in range(0, len(vs), r):
                    g = vs[k:k + r]
                    if all(isc(x) for x in g): out.append(sum(x << (fw * j) for j, x in enumerate(g)))
                    else: out.append(s.cat(g, fw))
        else:
            r = fw // tw
            for x in vs:
                for j in range(r):
                    if isc(x): out.append(mask(x >> (tw * j), tw))
                    elif tw == 1: out.append(z3.Extract(j, j, x) == 1)
                    else: out.append(s.ext(x, tw * (j + 1) - 1, tw * j))
        return out if t.k == 'vec' else out[0]
    def cat(s, g, fw):
        # reassemble pieces of one wider value
        g = [W(x, fw) for x in g]
        k0 = g[0]
        if all(kind(x) == z3.Z3_OP_EXTRACT for x in g) and all(z3.eq(x.arg(0), k0.arg(0)) for x in g):
            src = k0.arg(0)
            if all(x.params()[1] == fw * j + k0.params()[1] for j, x in enumerate(g)):
                lo = k0.params()[1]; hi = g[-1].params()[0]
                if lo == 0 and hi == src.size() - 1: return src
                return z3.Extract(hi, lo, src)
        return z3.Concat(*reversed(g))
    def ext(s, x, hi, lo):
        if kind(x) == z3.Z3_OP_CONCAT:
            p = 0
            for k in range(x.num_args() - 1, -1, -1):
                a = x.arg(k); n = a.size()
                if p <= lo and hi < p + n:
                    return a if (p == lo and hi == p + n - 1) else s.ext(a, hi - p, lo - p)
                p += n
        if kind(x) == z3.Z3_OP_EXTRACT:
            l0 = x.params()[1]
            return z3.Extract(hi + l0, lo + l0, x.arg(0))
        return z3.Extract(hi, lo, x)
    def i_ptrtoint(s, st, fr, i): s.setr(fr, i, s.val(st, i.a[0], i.x))
    def i_inttoptr(s, st, fr, i): s.setr(fr, i, s.val(st, i.a[0], i.x))
    def i_freeze(s, st, fr, i): s.setr(fr, i, s.val(st, i.a[0], i.ty))
    def fpu(s, name, *a):
        args = []
        for x in a:
            if isinstance(x, tuple): x = z3.BitVec('fpc$' + x[1], 64)
            if isc(x): x = z3.BitVecVal(mask(x, 64), 64)
            args.append(x)
        f = z3.Function(name + '_' + '_'.join(str(x.size()) for x in args), *([x.sort() for x in args] + [z3.BitVecSort(64)]))
        return f(*args)
    def i_uitofp(s, st, fr, i): s.setr(fr, i, s.fpu('uitofp', W(s.val(st, i.a[0], i.x), i.x.w)))
    def i_sitofp(s, st, fr, i): s.setr(fr, i, s.fpu('sitofp', W(s.val(st, i.a[0], i.x), i.x.w)))
    def i_fdiv(s, st, fr, i): s.setr(fr, i, s.fpu(i.op, s.val(st, i.a[0], i.ty), s.val(st, i.a[1], i.ty)))
    i_fmul = i_fadd = i_fsub = i_fdiv
    def i_fpext(s, st, fr, i): s.setr(fr, i, s.fpu(i.op, s.val(st, i.a[0], i.x)))
    i_fptrunc = i_fpext
    def i_fptoui(s, st, fr, i): s.setr(fr, i, fbv('fptoui', i.ty.w))
    def i_fptosi(s, st, fr, i): s.setr(fr, i, fbv('fptosi', i.ty.w))
    def i_fcmp(s, st, fr, i): s.setr(fr, i, fbool('fcmp'))
    def i_select(s, st, fr, i):
        c = s.val(st, i.a[0], i.x)
        a = s.val(st, i.a[1], i.ty); b = s.val(st, i.a[2], i.ty)
        if i.x.k == 'vec':
            s.setr(fr, i, [ite(B(c[k]), a[k], b[k], i.ty.e.w) for k in range(i.ty.n)]); return
        c = simp(c)
        if isinstance(c, (bool, int)): s.setr(fr, i, a if c else b); return
        if i.ty.k == 'int': s.setr(fr, i, ite(c, a, b, i.ty.w)); return
        if i.ty.k == 'vec': s.setr(fr, i, [ite(c, x, y, i.ty.e.w) for x, y in zip(a, b)]); return
        if i.ty.k == 'ptr' and not any(isinstance(x, (Ptr, Fn)) for x in (a, b)): s.setr(fr, i, ite(c, a, b, 64)); return
        if i.ty.k == 'ptr' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b and a.b is not None and False: pass
        res = i.res
        def k1(q): q.frames[-1].env[res] = a; q.frames[-1].ix += 1
        def k2(q): q.frames[-1].env[res] = b; q.frames[-1].ix += 1
        s.fork(st, [(c, k1), (z3.Not(c), k2)])
    def i_extractvalue(s, st, fr, i):
        v = s.val(st, i.a[0], i.ty)
        for k in i.x: v = v[k]
        s.setr(fr, i, v)
    def i_insertvalue(s, st, fr, i):
        v = s.val(st, i.a[0], i.ty); e = s.val(st, i.a[1], i.ty.f[i.x[0]] if i.ty.k == 'struct' else i.ty.e)
        def rec(v, x):
            v = list(v)
            v[x[0]] = e if len(x) == 1 else rec(v[x[0]], x[1:])
            return v
        s.setr(fr, i, rec(v, i.x))
    def i_extractelement(s, st, fr, i):
        v = s.val(st, i.a[0], i.ty); k = s.val(st, i.a[1], __import__('ir').INT(64))
        if not isc(k): raise Unsupported('symbolic lane')
        s.setr(fr, i, v[k])
    def i_insertelement(s, st, fr, i):
        v = list(s.val(st, i.a[0], i.ty)); e = s.val(st, i.a[1], i.ty.e); k = s.val(st, i.a[2], __import__('ir').INT(64))
        if not isc(k): raise Unsupported('symbolic lane')
        v[k] = e
        s.setr(fr, i, v)
    def i_shufflevector(s, st, fr, i):
        a = s.val(st, i.a[0], i.ty); b = s.val(st, i.a[1], i.ty)
        m = s.val(st, i.a[2], i.x)
        al = a + b
        s.setr(fr, i, [al[k] if isc(k) else al[0] for k in m])
    def i_atomicrmw(s, st, fr, i): raise Unsupported('atomic')

    # ---- calls
    def i_call(s, st, fr, i):
        cal = i.x
        if cal[0] == 'asm':
            if i.text and 'cpuid' in i.text: raise Unsupported('cpuid')
            s.asm(st, fr, i); return
        args = [s.val(st, v, t) if t.k != 'metadata' else None for t, v in i.a]
        if cal[0] == 'glob': name = cal[1]
        else:
            f = s.val(st, cal, PTRT)
            if not isinstance(f, Fn): 
                h = getattr(s, 'indirect', None)
                if h:
                    r = h(st, f, args, i)
                    s.setr(fr, i, r); return
                raise Unsupported('indirect call')
            name = f.name
        s.call(st, fr, i, name, args)
    def call(s, st, fr, i, name, args):
        if name in s.builtins:
            r = s.builtins[name](s, st, i, args)
            if r is not FORKED: s.setr(fr, i, r)
            return
        if name.startswith('llvm.'):
            h = INTR.get(name)
            if h is None: raise Unsupported('intrinsic ' + name)
            s.setr(fr, i, h(s, st, i, args)); return
        con = s.contracts.get(name)
        if con is not None and not con.inline_always and name not in s.top_con.inline:
            s.called.add(name)
            if con.callspec is not None:
                s.flush()
                r = con.callspec(s, st, args, i)
                if isinstance(r, Forks):
                    res = i.res
                    def mk(v):
                        def k(q):
                            q2 = v(q) if callable(v) else v
                            f2 = q.frames[-1]
                            if res is not None: f2.env[res] = q2
                            f2.ix += 1
                        return k
                    s.fork(st, [(c, mk(v)) for c, v in r.alts]); return
                s.setr(fr, i, r); return
            s.setr(fr, i, s.apply(st, con, args, i.ty)); return
        f = s.M.func(name)
        if f is None: raise Unsupported('external function ' + name)
        s.inlined.add(name)
        s.enter(st, f, args, i.res)
    def apply(s, st, con, args, rty):
        """use a callee's contract: assert pre, havoc frame, assume post"""
        c = Ctx(s, st, st, args, con=con)
        for lab, g in con.pre(c): s.oblig(st, g, 'precondition of %s: %s' % (con.name, lab))
        s.flush()
        old = st.snap()
        c = Ctx(s, st, old, args, con=con)
        for m in (con.modifies(c) if con.modifies else []):
            if isinstance(m, tuple):
                p, off = m[0], m[1]
                d = dict(st.mem[p.b])
                sz = d[off][0] if off in d else m[2]
                d[off] = (sz, fbv('m', 8 * sz)); st.mem[p.b] = d
            else:
                if m.b in st.blk and st.blk[m.b].ro: s.fail_now(st, 'frame', 'callee %s writes read-only %s' % (con.name, m.b))
                a = st.mem[m.b]
                b = st.blk[m.b]
                if isinstance(a, dict):
                    st.mem[m.b] = {off: (sz, v if isinstance(v, Ptr) else fbv('m', 8 * sz)) for off, (sz, v) in a.items()}
                else: st.mem[m.b] = Arr(a.w, a.iw, name='m_' + re.sub(r'\W', '_', b.name))
        if con.mk_ret: r = con.mk_ret(c)
        elif rty.k == 'int': r = fbool('r_' + con.name) if rty.w == 1 else fbv('r_' + con.name, rty.w)
        elif rty.k == 'void': r = None
        elif rty.k == 'ptr': r = fbv('rp', 64)
        elif rty.k == 'fp': r = fbv('rf', 64)
        else: raise Unsupported('contract return type')
        c.ret = r
        for lab, g in con.post(c): s.fact(g)
        return r
    def asm(s, st, fr, i):
        h = getattr(s, 'asm_handler', None)
        if h is None: raise Unsupported('inline assembly')
        h(s, st, fr, i)

class Forks:
    def __init__(s, alts): s.alts = alts
FORKED = object()
import ir as _ir
PTRT = _ir.PTR; I1 = _ir.INT(1)

def bi_malloc(E, st, i, a):
    return E_malloc(E, st, i, a[0])
def E_malloc(E, st, i, n, zero=False):
    n = norm(n)
    site = 'malloc:%s:%s' % ('/'.join(st.frames[-1].path), i.res)
    small = isc(n) and 8 <= n <= 64
    p = E.newblk(st, site, n, 'struct' if small else 'raw', fresh=True)
    if zero:
        if small: E.memset(st, p, 0, n)
        else: st.mem[p.b] = ('fill', 0)
    E.assumed.add('allocation succeeds')
    return p
def bi_calloc(E, st, i, a):
    n = W(a[0], 64) * W(a[1], 64) if not (isc(a[0]) and isc(a[1])) else a[0] * a[1]
    return E_malloc(E, st, i, simp(n), zero=True)
def bi_free(E, st, i, a):
    p = a[0]
    if not isinstance(p, Ptr):
        raise Unsupported('free of opaque pointer')
    if p.b is None: return None
    if p.b in st.dead: E.fail_now(st, 'double-free', 'free of dead %s' % p.b)
    if not st.blk[p.b].heap: E.fail_now(st, 'bad-free', 'free of non-heap %s' % p.b)
    if not (p.o.const() and p.o.c == 0): E.oblig(st, eqv(norm(p.o.bv()), 0, 64), 'free of block start')
    st.dead.add(p.b)
    return None
def bi_realloc(E, st, i, a):
    p, n = a
    if isinstance(p, Ptr) and p.b is None: return E_malloc(E, st, i, n)
    if not isinstance(p, Ptr): raise Unsupported('realloc of opaque pointer')
    if p.b in st.dead: E.fail_now(st, 'double-free', 'realloc of dead %s' % p.b)
    b = st.blk[p.b]
    q = E_malloc(E, st, i, n)
    nb = st.blk[q.b]
    if b.kind == 'arr':
        st.blk[q.b] = Blk(nb.id, nb.name, nb.size, 'arr', b.ew, b.iw, True, False, True)
        st.mem[q.b] = st.mem[p.b]
    elif b.kind == 'raw': st.mem[q.b] = st.mem[p.b]
    else: raise Unsupported('realloc of struct')
    st.dead.add(p.b)
    return q
def bi_aligned(E, st, i, a): return E_malloc(E, st, i, a[1])
def bi_memcmp(E, st, i, a):
    return memcmp(E, st, a[0], a[1], a[2])
def memcmp(E, st, p, q, n):
    n = norm(n)
    r = fbv('memcmp', 32)
    if isc(n) and n == 0: return 0
    bp = E.check_access(st, p, n, 'memcmp'); bq = E.check_access(st, q, n, 'memcmp')
    A, C = st.mem[bp.id], st.mem[bq.id]
    if not (isinstance(A, Arr) and isinstance(C, Arr) and bp.ew == bq.ew): raise Unsupported('memcmp')
    ew = bp.ew
    i = p.o.div(ew, A.iw); j = q.o.div(ew, C.iw); m = Off.of(n).div(ew, A.iw)
    if None in (i, j, m): raise Unsupported('memcmp alignment')
    i, j, m = [W(mask(x, A.iw) if isc(x) else x, A.iw) for x in (i, j, m)]
    A2 = Arr(A.w, A.iw, f=A.f, ops=A.ops)
    w = fbv('mcw', A.iw)   # witness of difference
    E.fact(Implies(r == 0, forall1([A], lambda t: Implies(z3.ULT(t - i, m), A.read(t) == C.read(simpz(t - i + j))))))
    E.fact(Implies(r == 0, forall1([C], lambda t: Implies(z3.ULT(t - j, m), C.read(t) == A.read(simpz(t - j + i))))))
    E.fact(Implies(r != 0, And(z3.ULT(w, m), A.read(simpz(w + i)) != C.read(simpz(w + j)))))
    return r
def bi_memchr(E, st, i, a): raise Unsupported('memchr')
def bi_hw(E, st, i, a):
    """croaring_hardware_support(): every supported configuration"""
    if st.g.get('hw') is not None: return st.g['hw']
    res = i.res
    def mk(v):
        def k(q):
            q.g['hw'] = v; q.frames[-1].env[res] = v; q.frames[-1].ix += 1
        return k
    h = z3.BitVec('HWSUPPORT', 32)
    E.fork(st, [(h == v, mk(v)) for v in (0, 1, 3)] )
    return FORKED
def bi_nop(E, st, i, a): return None
def bi_abort(E, st, i, a):
    E.fail_now(st, 'abort', 'abort reached')
BUILTINS = {
    'malloc': bi_malloc, 'calloc': bi_calloc, 'free': bi_free, 'realloc': bi_realloc,
    'roaring_malloc': bi_malloc, 'roaring_calloc': bi_calloc, 'roaring_free': bi_free, 'roaring_realloc': bi_realloc,
    'roaring_aligned_malloc': bi_aligned, 'roaring_aligned_free': bi_free, 'memcmp': bi_memcmp,
    'croaring_hardware_support': bi_hw, 'printf': bi_nop, 'fprintf': bi_nop, 'fputs': bi_nop, 'puts': bi_nop, 'abort': bi_abort, 'exit': bi_abort,
}
INTR = {}
def intr(*names):
    def d(f):
        for n in names: INTR[n] = f
        return f
    return d
@intr('llvm.memcpy.p0.p0.i64')
def _(E, st, i, a): E.memcopy(st, a[0], a[1], a[2])
@intr('llvm.memmove.p0.p0.i64')
def _(E, st, i, a): E.memcopy(st, a[0], a[1], a[2], move=True)
@intr('llvm.memset.p0.i64')
def _(E, st, i, a): E.memset(st, a[0], a[1], a[2])
@intr('llvm.x86.avx.ldu.dq.256')
def _(E, st, i, a): return E.load(st, a[0], _ir.Ty('vec', n=32, e=_ir.INT(8))) if False else E.bitcast(E.load(st, a[0], _ir.Ty('vec', n=4, e=_ir.INT(64))), _ir.Ty('vec', n=4, e=_ir.INT(64)), i.ty)
@intr('llvm.x86.sse3.ldu.dq')
def _(E, st, i, a): return E.bitcast(E.load(st, a[0], _ir.Ty('vec', n=2, e=_ir.INT(64))), _ir.Ty('vec', n=2, e=_ir.INT(64)), i.ty)
@intr('llvm.ctpop.v8i64')
def _(E, st, i, a): return [E.popcnt64(x) for x in a[0]]
@intr('llvm.ctpop.i64')
def _(E, st, i, a): return E.popcnt64(a[0])
@intr('llvm.ctpop.i32')
def _(E, st, i, a):
    if isc(a[0]): return bin(a[0]).count('1')
    return E.popcnt(zext(a[0], 32, 64))
@intr('llvm.cttz.i64')
def _(E, st, i, a):
    if isc(a[0]): return (a[0] & -a[0]).bit_length() - 1 if a[0] else 64
    r = fbv('ctz', 64); x = W(a[0], 64)
    E.oblig(st, x != 0, 'ctz of zero')
    E.fact(Implies(x != 0, And(z3.ULT(r, 64), z3.Extract(0, 0, z3.LShR(x, r)) == 1, (x & ((z3.BitVecVal(1, 64) << r) - 1)) == 0)))
    return r
@intr('llvm.ctlz.i64')
def _(E, st, i, a):
    if isc(a[0]): return 64 - a[0].bit_length()
    r = fbv('clz', 64); x = W(a[0], 64)
    E.oblig(st, x != 0, 'clz of zero')
    E.fact(Implies(x != 0, And(z3.ULT(r, 64), z3.LShR(x, 63 - r) == 1)))
    return r
@intr('llvm.x86.avx2.psrli.w')
def _(E, st, i, a): return [norm(z3.LShR(W(x, 16), a[1])) for x in a[0]]
@intr('llvm.x86.avx2.psrli.d', 'llvm.x86.sse2.psrli.d', 'llvm.x86.avx512.psrli.d.512')
def _(E, st, i, a): return [norm(z3.LShR(W(x, 32), a[1])) for x in a[0]]
@intr('llvm.x86.avx2.pslli.q', 'llvm.x86.sse2.pslli.q')
def _(E, st, i, a): return [norm(W(x, 64) << a[1]) for x in a[0]]
@intr('llvm.x86.avx2.psrli.q', 'llvm.x86.sse2.psrli.q')
def _(E, st, i, a): return [norm(z3.LShR(W(x, 64), a[1])) for x in a[0]]
def _pshufb(E, st, i, a):
    t, ix = a
    out = []
    for k, x in enumerate(ix):
        lane = k // 16 * 16
        if isc(x): out.append(0 if x & 128 else t[lane + (x & 15)]); continue
        x = W(x, 8)
        if all(isc(y) for y in t[lane:lane + 16]):
            tab = t[lane:lane + 16]
            r = z3.BitVecVal(tab[15], 8); nib = z3.Extract(3, 0, x)
            for j in range(14, -1, -1): r = z3.If(nib == j, z3.BitVecVal(tab[j], 8), r)
        else:
            nib = z3.Extract(3, 0, x); r = W(t[lane + 15], 8)
            for j in range(14, -1, -1): r = z3.If(nib == j, W(t[lane + j], 8), r)
        out.append(norm(z3.If(z3.Extract(7, 7, x) == 1, z3.BitVecVal(0, 8), r)))
    return out
INTR['llvm.x86.avx2.pshuf.b'] = INTR['llvm.x86.ssse3.pshuf.b.128'] = _pshufb
@intr('llvm.x86.avx2.psad.bw', 'llvm.x86.sse2.psad.bw')
def _(E, st, i, a):
    out = []
    for k in range(0, len(a[0]), 8):
        r = None
        for x, y in zip(a[0][k:k + 8], a[1][k:k + 8]):
            x, y = W(x, 8), W(y, 8)
            d = z3.ZeroExt(56, z3.If(z3.UGE(x, y), x - y, y - x)); r = d if r is None else r + d
        out.append(r)
    return out
@intr('llvm.x86.avx2.pmovmskb', 'llvm.x86.sse2.pmovmskb.128')
def _(E, st, i, a):
    r = z3.Concat(*[z3.Extract(7, 7, W(x, 8)) for x in reversed(a[0])])
    return simp(r if len(a[0]) == 32 else z3.ZeroExt(32 - len(a[0]), r))
@intr('llvm.x86.sse2.packsswb.128')
def _(E, st, i, a):
    def sat(x):
        x = W(x, 16); return simp(z3.If(x > 127, z3.BitVecVal(127, 8), z3.If(x < -128, z3.BitVecVal(0x80, 8), z3.Extract(7, 0, x))))
    return [sat(x) for x in a[0] + a[1]]
@intr('llvm.assume')
def _(E, st, i, a): E.oblig(st, B(a[0]), 'llvm.assume'); E.fact(B(a[0]))
def _lane(f):
    def h(E, st, i, a): return [f(x, y) for x, y in zip(a[0], a[1])]
    return h
INTR['llvm.umin.v8i16'] = _lane(lambda x, y: ite(simp(z3.ULT(W(x, 16), W(y, 16))), x, y, 16))
INTR['llvm.umax.v8i16'] = _lane(lambda x, y: ite(simp(z3.ULT(W(x, 16), W(y, 16))), y, x, 16))

def _pop(E, v):
    """population count: uninterpreted with bounds; exact on literals"""
    if isc(v): return bin(v).count('1')
    r = POP(v)
    k = ('pop', v.get_id())
    if k not in E.cache:
        E.cache[k] = v
    E.fact(And(z3.ULE(r, 64), (r == 0) == (v == 0)))
    return r
Engine.popcnt64 = _pop
def _pop32(E, v):
    r = _pop(E, v)
    return r if isc(r) else z3.Extract(31, 0, r)
Engine.popcnt = _pop32
