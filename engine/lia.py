"""Second decision procedure for ground obligations: fixed-width arithmetic written out over the integers.
Every bit-vector term of width w becomes an integer in [0,2^w); a sum becomes lin - 2^w*k with a fresh bounded k (so wrap-around is
kept exactly); what has no linear reading (bitwise operations on two variables, variable shifts) becomes an unconstrained integer in
range. An unsatisfiable translation therefore implies an unsatisfiable original; nothing is concluded from the other answers."""
import z3
class Chunk:
    __slots__ = ('cs', 'kids', 'up', 'opaque', 'op0', 'uf')
    def __init__(s): s.cs = []; s.kids = []; s.up = None; s.opaque = False; s.op0 = 0; s.uf = False
    def append(s, c): s.cs.append(c)
SPLIT = set()
class Again(Exception): pass
class LIA:
    def __init__(s):
        s.memo = {}; s.side = Chunk(); s.n = 0; s.keep = []; s.fn = {}; s.bm = {}; s.opaque = 0; s.chunk = {}; s.smemo = {}; s.halves = {}
    # the side conditions of a term are kept with it, so that a translation can be used again in later queries
    def open(s): c = Chunk(); c.up = s.side; s.side = c; c.op0 = s.opaque; return c
    def close(s, key):
        c = s.side; s.side = c.up; c.up = None; c.opaque = s.opaque > c.op0
        s.chunk[key] = c; s.use(c)
    def use(s, c):
        s.side.kids.append(c)
        if c.opaque: s.opaque += 1
    def sides(s, es):
        seen = set(); out = []; uf = False; todo = [s.chunk[('f', e.get_id())] for e in es]
        while todo:
            c = todo.pop()
            if id(c) in seen: continue
            seen.add(id(c)); out += c.cs; todo += c.kids; uf = uf or c.uf
        return out, uf
    def var(s, lo, hi):
        s.n += 1; v = z3.Int('i!%d' % s.n); s.side.append(v >= lo); s.side.append(v <= hi); return v
    # linear forms {id: coef}, constant; value congruent to the term modulo 2^w
    def lin(s, e, w, c, acc):
        k = e.decl().kind()
        if z3.is_bv_value(e): acc[None] = acc.get(None, 0) + c * e.as_long(); return
        if k == z3.Z3_OP_BADD:
            for x in e.children(): s.lin(x, w, c, acc)
            return
        if k == z3.Z3_OP_BSUB:
            ch = e.children(); s.lin(ch[0], w, c, acc)
            for x in ch[1:]: s.lin(x, w, -c, acc)
            return
        if k == z3.Z3_OP_BNEG: s.lin(e.arg(0), w, -c, acc); return
        if k == z3.Z3_OP_BNOT: acc[None] = acc.get(None, 0) - c; s.lin(e.arg(0), w, -c, acc); return
        if k == z3.Z3_OP_BMUL:
            ch = e.children(); cs = [x for x in ch if z3.is_bv_value(x)]; vs = [x for x in ch if not z3.is_bv_value(x)]
            if len(vs) <= 1:
                for x in cs: c = c * x.as_long() % (1 << w)
                if c >= 1 << (w - 1): c -= 1 << w
                if vs: s.lin(vs[0], w, c, acc)
                else: acc[None] = acc.get(None, 0) + c
                return
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() < w:
            s.lin(e.arg(0), w, c << e.arg(1).as_long(), acc); return
        v, lo, hi = s.term(e, False)
        i = v.get_id() if z3.is_expr(v) else None
        if i is None: acc[None] = acc.get(None, 0) + c * v; return
        o = acc.get(i); acc[i] = (v, lo, hi, c + (o[3] if o else 0))
    def term(s, e, linok=True):
        """(integer expression, lower and upper bound)"""
        i = (e.get_id())
        if i in s.memo: s.use(s.chunk['t', i]); return s.memo[i]
        s.open(); r = s._term(e); s.close(('t', i)); s.memo[i] = r; s.keep.append(e); return r
    def _term(s, e):
        w = e.size(); k = e.decl().kind(); M = 1 << w
        if z3.is_bv_value(e): v = e.as_long(); return v, v, v
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BNOT) or (k == z3.Z3_OP_BMUL and sum(not z3.is_bv_value(x) for x in e.children()) <= 1) or (k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() < w):
            acc = {}; s.lin(e, w, 1, acc)
            c0 = acc.pop(None, 0) % M
            if c0 >= M // 2: c0 -= M
            ts = []; lo = hi = c0
            for v, l, h, c in acc.values():
                c %= M
                if c >= M // 2: c -= M
                if c == 0: continue
                ts.append(c * v if c != 1 else v)
                lo += min(c * l, c * h); hi += max(c * l, c * h)
            if not ts: return c0 % M, c0 % M, c0 % M
            x = sum(ts[1:], ts[0]) + c0 if c0 else sum(ts[1:], ts[0])
            if lo >= 0 and hi < M: return x, lo, hi
            q = s.var(lo // M, hi // M)
            v = s.var(0, M - 1); s.side.append(v == x - M * q)
            return v, 0, M - 1
        if k == z3.Z3_OP_ZERO_EXT: return s.term(e.arg(0))
        if k == z3.Z3_OP_SIGN_EXT:
            v, l, h = s.term(e.arg(0)); m = 1 << e.arg(0).size()
            if h < m // 2: return v, l, h
            return z3.If(v >= m // 2, v + (M - m), v), 0, M - 1
        if k == z3.Z3_OP_CONCAT:
            x = None; lo = hi = 0; sh = w
            for a in e.children():
                sh -= a.size(); v, l, h = s.term(a)
                x = v * (1 << sh) if x is None else x + v * (1 << sh); lo += l << sh; hi += h << sh
            if isinstance(x, int): return x, x, x
            return x, lo, hi
        if k == z3.Z3_OP_EXTRACT:
            hb, lb = e.params(); v, l, h = s.term(e.arg(0))
            if isinstance(v, int): r = (v >> lb) & (M - 1); return r, r, r
            if lb == 0 and h < M: return v, l, h
            if lb and not h >> (hb + 1): return s.split(e.arg(0), lb)[0], l >> lb, h >> lb
            if not lb: return s.split(e.arg(0), hb + 1)[1], 0, min(M - 1, h)
            q = s.split(e.arg(0), lb)[0]
            r = s.var(0, M - 1); s.side.append(q == s.var(0, h >> (hb + 1)) * M + r); return r, 0, M - 1
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(e.arg(1)):
            n = e.arg(1).as_long(); v, l, h = s.term(e.arg(0))
            if isinstance(v, int): r = v >> n if n < w else 0; return r, r, r
            if n >= w: return 0, 0, 0
            if n == 0: return v, l, h
            return s.split(e.arg(0), n)[0], l >> n, h >> n
        if k == z3.Z3_OP_BASHR and z3.is_bv_value(e.arg(1)) and 0 < e.arg(1).as_long() < w:
            n = e.arg(1).as_long(); v = s.sg(e.arg(0)); q = s.var(-(M >> (n + 1)), (M >> (n + 1)) - 1); r = s.var(0, (1 << n) - 1)
            s.side.append(v == q * (1 << n) + r); return z3.If(q < 0, q + M, q), 0, M - 1
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() > 0:
            n = e.arg(1).as_long(); v, l, h = s.term(e.arg(0))
            if isinstance(v, int): v = z3.IntVal(v)
            q = s.var(l // n, h // n); r = s.var(0, n - 1); s.side.append(v == q * n + r)
            return (r, 0, n - 1) if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) else (q, l // n, h // n)
        if k == z3.Z3_OP_BAND:
            cs = [x for x in e.children() if z3.is_bv_value(x)]; vs = [x for x in e.children() if not z3.is_bv_value(x)]
            if len(cs) == 1 and len(vs) == 1:
                m = cs[0].as_long(); v, l, h = s.term(vs[0])
                if isinstance(v, int): return v & m, v & m, v & m
                if m & (m + 1) == 0:
                    if h <= m: return v, l, h
                    r = s.var(0, m); q = s.var(0, h // (m + 1)); s.side.append(v == q * (m + 1) + r); return r, 0, m
                c = M - 1 - m
                if c & (c + 1) == 0:       # clears the low bits
                    r = s.var(0, c); q = s.var(0, h // (c + 1)); s.side.append(v == q * (c + 1) + r); return q * (c + 1), 0, h
            s.opaque += 1; ub = min([s.term(x)[2] for x in e.children()]); v = s.var(0, ub)
            for x in e.children(): s.side.append(v <= s.term(x)[0])
            return v, 0, ub
        if k == z3.Z3_OP_ITE:
            c = s.form(e.arg(0)); a, la, ha = s.term(e.arg(1)); b, lb, hb = s.term(e.arg(2))
            return z3.If(c, a, b), min(la, lb), max(ha, hb)
        if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 1 and z3.is_bv(e.arg(0)):
            a = s.term(e.arg(0))[0]; a = z3.IntVal(a) if isinstance(a, int) else a
            s.side.uf = True
            if w == 32 and e.decl().name() in SPLIT:        # the two halves as functions of their own
                lo, hi = [s.fn.setdefault((e.decl().name(), w, e.arg(0).size(), x), z3.Function('F%s%d_' % (x, e.arg(0).size()) + e.decl().name(), z3.IntSort(), z3.IntSort())) for x in ('lo', 'hi')]
                l, h = s.var(0, 65535), s.var(0, 65535); s.side.append(l == lo(a)); s.side.append(h == hi(a)); s.halves[e.get_id()] = (h, l)
                return h * 65536 + l, 0, M - 1
            f = s.fn.setdefault((e.decl().name(), w, e.arg(0).size()), z3.Function('F%d_%d_' % (w, e.arg(0).size()) + e.decl().name(), z3.IntSort(), z3.IntSort()))
            v = s.var(0, M - 1); s.side.append(v == f(a)); return v, 0, M - 1
        if e.num_args(): s.opaque += 1
        return s.var(0, M - 1), 0, M - 1
    def split(s, e, n):
        """quotient and remainder by 2^n"""
        i = (e.get_id(), n)
        if i in s.smemo: s.use(s.chunk[('s',) + i]); return s.smemo[i]
        if n == 16 and e.size() == 32 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() == 1 and e.decl().name() not in SPLIT:
            SPLIT.add(e.decl().name()); raise Again()
        s.open(); v, l, h = s.term(e)
        if n == 16 and e.get_id() in s.halves: r = s.halves[e.get_id()]
        else:
            r = s.var(l >> n, h >> n), s.var(0, (1 << n) - 1); s.side.append(v == r[0] * (1 << n) + r[1])
        s.close(('s',) + i); s.smemo[i] = r; s.keep.append(e); return r
    def sg(s, e):
        w = e.size(); v, l, h = s.term(e); m = 1 << (w - 1)
        if h < m: return v
        if l >= m: return v - 2 * m
        return z3.If(v >= m, v - 2 * m, v)
    def form(s, e):
        i = e.get_id()
        if i in s.bm: s.use(s.chunk['f', i]); return s.bm[i]
        s.open(); r = s._form(e); s.close(('f', i)); s.bm[i] = r; s.keep.append(e); return r
    def _form(s, e):
        k = e.decl().kind()
        if k == z3.Z3_OP_TRUE: return z3.BoolVal(True)
        if k == z3.Z3_OP_FALSE: return z3.BoolVal(False)
        if k == z3.Z3_OP_AND: return z3.And(*[s.form(x) for x in e.children()])
        if k == z3.Z3_OP_OR: return z3.Or(*[s.form(x) for x in e.children()])
        if k == z3.Z3_OP_NOT: return z3.Not(s.form(e.arg(0)))
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(s.form(e.arg(0)), s.form(e.arg(1)))
        if k == z3.Z3_OP_XOR: return z3.Xor(s.form(e.arg(0)), s.form(e.arg(1)))
        if k == z3.Z3_OP_ITE: return z3.If(s.form(e.arg(0)), s.form(e.arg(1)), s.form(e.arg(2)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            if z3.is_bool(e.arg(0)): return s.form(e.arg(0)) == s.form(e.arg(1))
            if z3.is_bv(e.arg(0)): return s.cmp(s.term(e.arg(0))[0], s.term(e.arg(1))[0], lambda a, b: a == b)
        if k == z3.Z3_OP_DISTINCT and e.num_args() == 2 and z3.is_bv(e.arg(0)): return z3.Not(s.cmp(s.term(e.arg(0))[0], s.term(e.arg(1))[0], lambda a, b: a == b))
        o = {z3.Z3_OP_ULEQ: (0, '<='), z3.Z3_OP_ULT: (0, '<'), z3.Z3_OP_UGEQ: (0, '>='), z3.Z3_OP_UGT: (0, '>'), z3.Z3_OP_SLEQ: (1, '<='), z3.Z3_OP_SLT: (1, '<'), z3.Z3_OP_SGEQ: (1, '>='), z3.Z3_OP_SGT: (1, '>')}.get(k)
        if o:
            a, b = (s.sg(e.arg(0)), s.sg(e.arg(1))) if o[0] else (s.term(e.arg(0))[0], s.term(e.arg(1))[0])
            return s.cmp(a, b, {'<=': lambda a, b: a <= b, '<': lambda a, b: a < b, '>=': lambda a, b: a >= b, '>': lambda a, b: a > b}[o[1]])
        s.n += 1; return z3.Bool('b!%d' % s.n) if e.num_args() or k != z3.Z3_OP_UNINTERPRETED else z3.Bool('v!' + e.decl().name())
    def cmp(s, a, b, f):
        r = f(a, b)
        return z3.BoolVal(r) if isinstance(r, bool) else r
L = LIA()
def reset():
    global L
    L = LIA()
def retry(f):
    def g(*a):
        while True:
            try: return f(*a)
            except Again: reset()
    return g
@retry
def linear(f):
    if len(L.keep) > 400000: reset()
    L.form(f); L.side = Chunk(); return not L.chunk['f', f.get_id()].opaque
@retry
def unsat(fs, to=2000):
    if len(L.keep) > 400000: reset()
    gs = [L.form(f) for f in fs]; L.side = Chunk()
    sd, uf = L.sides(fs)
    for sv, sd0, t in ((2, 0, min(to, max(300, to // 4))), (6, 0, to // 2), (6, 7, to // 2), (6, 3, to // 2)):      # two arithmetic solvers, good at different things; restarts
        S = z3.SolverFor('QF_UFLIA') if uf else z3.SolverFor('QF_LIA')
        S.set('timeout', t); S.set('arith.solver', sv); S.set('random_seed', sd0); S.add(gs); S.add(sd)
        r = S.check()
        if r != z3.unknown: return r == z3.unsat
    return False
