"""Reader for the textual LLVM IR (LLVM 18, opaque pointers) that clang produces
from /repo's current sources.  Functions are parsed lazily."""
import re

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'n', 'e', 'f', 'packed', 'name')
    def __init__(s, k, w=0, n=0, e=None, f=None, packed=False, name=None):
        s.k, s.w, s.n, s.e, s.f, s.packed, s.name = k, w, n, e, f, packed, name
    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.w
        if s.k in ('arr', 'vec'): return '%s%d x %r' % (s.k, s.n, s.e)
        if s.k == 'struct': return s.name or '{%s}' % ','.join(map(repr, s.f or []))
        return s.k

VOID, PTR, META, LABEL = Ty('void'), Ty('ptr', 64), Ty('metadata'), Ty('label')
DOUBLE, FLOAT = Ty('fp', 64), Ty('fp', 32)
_ints = {}
def INT(w):
    if w not in _ints: _ints[w] = Ty('int', w)
    return _ints[w]

def round_up(x, a): return (x + a - 1) // a * a

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'dbg', 'text')
    def __init__(s, op, res=None, ty=None, a=(), x=None, dbg=None, text=''):
        s.op, s.res, s.ty, s.a, s.x, s.dbg, s.text = op, res, ty, a, x, dbg, text
    def __repr__(s): return s.text.strip()

class Func:
    def __init__(s, name, rty, params):
        s.name, s.rty, s.params = name, rty, params   # params: [(ty, name)]
        s.blocks = {}      # label -> [Inst]
        s.order = []
        s.vars = {}        # value name -> set of source variable names
        s.dbg = None
    def cfg(s):
        if hasattr(s, '_succ'): return
        s._succ = {}
        for l in s.order:
            t = s.blocks[l][-1]
            if t.op == 'br': s._succ[l] = list(t.x)
            elif t.op == 'switch': s._succ[l] = [t.x[0]] + [c[1] for c in t.x[1]]
            else: s._succ[l] = []
        # dominators-based natural loops (back edges found by DFS on reducible CFG)
        s.entry = s.order[0]
        idom_order = []
        seen = set()
        stack = [(s.entry, iter(s._succ[s.entry]))]
        seen.add(s.entry); onstack = {s.entry}
        s.backedges = set()
        while stack:
            b, it = stack[-1]
            for n in it:
                if n in onstack: s.backedges.add((b, n))
                if n not in seen:
                    seen.add(n); onstack.add(n)
                    stack.append((n, iter(s._succ[n]))); break
            else:
                stack.pop(); onstack.discard(b); idom_order.append(b)
        s.rpo = idom_order[::-1]
        preds = {}
        for b in s.rpo:
            for n in s._succ[b]: preds.setdefault(n, []).append(b)
        s.preds = preds
        s.loops = {}
        for (b, h) in s.backedges:
            body = s.loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body: continue
                body.add(x); work.extend(preds.get(x, []))
        s.headers = [b for b in s.rpo if b in s.loops]

class Module:
    def __init__(s, path):
        s.types = {}
        s.globals = {}
        s.ftext = {}
        s.fdecl = {}
        s.funcs = {}
        s.meta = {}
        s.attrs = {}
        cur = None; buf = None
        for line in open(path, errors='replace'):
            line = line.rstrip('\n')
            if cur is not None:
                if line == '}':
                    s.ftext[cur] = buf; cur = None
                else:
                    buf.append(line)
                continue
            if not line: continue
            c = line[0]
            if c == '!':
                m = re.match(r'!(\d+) = (.*)', line)
                if m: s.meta[int(m.group(1))] = m.group(2)
            elif c == '%':
                m = re.match(r'(%[^ ]+) = type (.*)', line)
                s.types[m.group(1)] = m.group(2)
            elif c == '@':
                m = re.match(r'@("[^"]+"|[^ ]+) = (.*)', line)
                s.globals[m.group(1).strip('"')] = m.group(2)
            elif line.startswith('define'):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', line)
                cur = m.group(1).strip('"'); buf = [line]
            elif line.startswith('declare'):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', line)
                s.fdecl[m.group(1).strip('"')] = line
        s._tcache = {}

    # ---- types
    def size(s, t):
        k = t.k
        if k == 'int': return max(1, (t.w + 7) // 8) if t.w <= 8 else round_up((t.w + 7) // 8, min(16, 1 << ((t.w + 7) // 8 - 1).bit_length()))
        if k == 'ptr': return 8
        if k == 'fp': return t.w // 8
        if k == 'arr': return t.n * s.size(t.e)
        if k == 'vec': return round_up(t.n * t.e.w // 8, 1)
        if k == 'struct':
            o = 0; al = 1
            for f in t.f:
                a = 1 if t.packed else s.align(f)
                al = max(al, a); o = round_up(o, a) + s.size(f)
            return round_up(o, al)
        raise Exception('size %r' % t)
    def align(s, t):
        k = t.k
        if k == 'int': return min(8, s.size(t)) if t.w <= 64 else 16
        if k == 'ptr': return 8
        if k == 'fp': return t.w // 8
        if k == 'arr': return s.align(t.e)
        if k == 'vec': return s.size(t)
        if k == 'struct':
            if t.packed: return 1
            return max([1] + [s.align(f) for f in t.f])
        raise Exception('align')
    def field_off(s, t, i):
        o = 0
        for j, f in enumerate(t.f):
            a = 1 if t.packed else s.align(f)
            o = round_up(o, a)
            if j == i: return o
            o += s.size(f)
        raise IndexError

    def ty(s, txt):
        t, p = s.pty(txt, 0)
        return t
    def pty(s, x, p):
        while x[p] == ' ': p += 1
        c = x[p]
        if c == 'i' and x[p+1].isdigit():
            q = p + 1
            while q < len(x) and x[q].isdigit(): q += 1
            return INT(int(x[p+1:q])), q
        if x.startswith('ptr', p): return PTR, p + 3
        if x.startswith('void', p): return VOID, p + 4
        if x.startswith('metadata', p): return META, p + 8
        if x.startswith('label', p): return LABEL, p + 5
        if x.startswith('double', p): return DOUBLE, p + 6
        if x.startswith('float', p): return FLOAT, p + 5
        if c == '[':
            m = re.match(r'\[(\d+) x ', x[p:])
            e, q = s.pty(x, p + m.end())
            assert x[q] == ']'
            return Ty('arr', n=int(m.group(1)), e=e), q + 1
        if c == '<':
            if x[p+1] == '{':
                fs, q = s._fields(x, p + 2)
                assert x[q] == '>'
                return Ty('struct', f=fs, packed=True), q + 1
            m = re.match(r'<(\d+) x ', x[p:])
            e, q = s.pty(x, p + m.end())
            assert x[q] == '>'
            return Ty('vec', n=int(m.group(1)), e=e), q + 1
        if c == '{':
            fs, q = s._fields(x, p + 1)
            return Ty('struct', f=fs), q
        if c == '%':
            m = re.match(r'%("[^"]+"|[\w.$:]+)', x[p:])
            nm = m.group(0)
            if nm in s._tcache: return s._tcache[nm], p + m.end()
            d = s.types[nm]
            if d == 'opaque': t = Ty('struct', f=[], name=nm)
            else:
                t = s.ty(d); t.name = nm
            s._tcache[nm] = t
            return t, p + m.end()
        raise Exception('type? ' + x[p:p+60])
    def _fields(s, x, p):
        fs = []
        while x[p] == ' ': p += 1
        if x[p] == '}': return fs, p + 1
        while True:
            t, p = s.pty(x, p); fs.append(t)
            while x[p] == ' ': p += 1
            if x[p] == ',': p += 1; continue
            assert x[p] == '}', x[p:]
            return fs, p + 1

    # ---- values
    ATTR = re.compile(r'(?:(?:noundef|nonnull|signext|zeroext|returned|nocapture|readonly|readnone|writeonly|noalias|immarg|inreg|nofree|nest|swiftself|noundef|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|dead_on_unwind|writable|sret\([^)]*\)|byval\([^)]*\)|range\([^)]*\))\s+)+')
    def pval(s, x, p, ty):
        """parse a value of known type at x[p:]"""
        while x[p] == ' ': p += 1
        m = s.ATTR.match(x, p)
        if m: p = m.end()
        c = x[p]
        if c == '%':
            m = re.compile(r'%("[^"]+"|[\w.$-]+)').match(x, p)
            return ('loc', m.group(1)), m.end()
        if c == '@':
            m = re.compile(r'@("[^"]+"|[\w.$]+)').match(x, p)
            return ('glob', m.group(1).strip('"')), m.end()
        if c == '-' or c.isdigit():
            m = re.compile(r'-?\d+(\.\d+e[+-]\d+)?').match(x, p)
            if ty.k == 'fp': return ('fp', m.group(0)), m.end()
            return ('int', int(m.group(0))), m.end()
        for w in ('null', 'undef', 'poison', 'zeroinitializer', 'true', 'false'):
            if x.startswith(w, p):
                if w == 'true': return ('int', 1), p + 4
                if w == 'false': return ('int', 0), p + 5
                return (w,), p + len(w)
        if c == '<':   # vector constant
            vs, q = s._vals(x, p + 1, '>')
            return ('vec', vs), q
        if c in '[{':
            vs, q = s._vals(x, p + 1, ']' if c == '[' else '}')
            return ('agg', vs), q
        if c == 'c' and x[p+1] == '"':
            q = x.index('"', p + 2)
            raw = x[p+2:q]; out = []; i = 0
            while i < len(raw):
                if raw[i] == '\\': out.append(int(raw[i+1:i+3], 16)); i += 3
                else: out.append(ord(raw[i])); i += 1
            return ('str', out), q + 1
        m = re.compile(r'(getelementptr|bitcast|ptrtoint|inttoptr|trunc|add|sub)( inbounds| nuw| nsw)* ?\(').match(x, p)
        if m:
            op = m.group(1)
            if op == 'getelementptr':
                bt, q = s.pty(x, m.end())
                args = []
                while x[q] != ')':
                    q += 1
                    m2 = re.compile(r'\s*(inrange )?').match(x, q); q = m2.end()
                    t, q = s.pty(x, q); v, q = s.pval(x, q, t); args.append((t, v))
                return ('gep', bt, args), q + 1
            t, q = s.pty(x, m.end()); v, q = s.pval(x, q, t)
            m2 = re.compile(r' to ').match(x, q)
            t2, q = s.pty(x, m2.end())
            return ('cast', op, t, v, t2), q + 1
        if x.startswith('0x', p):
            m = re.compile(r'0x[0-9A-Fa-f]+').match(x, p)
            return ('fp', m.group(0)), m.end()
        raise Exception('value? %s at %s' % (x, x[p:p+40]))
    def _vals(s, x, p, end):
        vs = []
        while x[p] == ' ': p += 1
        if x[p] == end: return vs, p + 1
        while True:
            t, p = s.pty(x, p); v, p = s.pval(x, p, t); vs.append((t, v))
            while x[p] == ' ': p += 1
            if x[p] == ',': p += 1; continue
            assert x[p] == end, x[p:p+30]
            return vs, p + 1

    def func(s, name):
        if name in s.funcs: return s.funcs[name]
        if name not in s.ftext: return None
        f = s._pfunc(name, s.ftext[name])
        s.funcs[name] = f
        return f

    def global_init(s, name):
        """(type, value, is_constant) of a global variable"""
        txt = s.globals[name]
        m = re.match(r'(?:[\w()"]+ )*?(global|constant) ', txt)
        t, p = s.pty(txt, m.end())
        const = m.group(1) == 'constant'
        if 'external ' in txt[:m.start(1)]: return t, None, const
        v, _ = s.pval(txt, p, t)
        return t, v, const

    # ---- functions
    def _pfunc(s, name, lines):
        hdr = lines[0]
        i = hdr.index('@')
        pre = hdr[:i]
        m = re.match(r'define (?:(?:dso_local|internal|available_externally|linkonce_odr|weak_odr|linkonce|weak|hidden|local_unnamed_addr|zeroext|signext|noundef|noalias|nonnull|align \d+|dereferenceable\(\d+\)|range\([^)]*\)|private|comdat|unnamed_addr) )*', pre)
        rty, _ = s.pty(pre + ' ', m.end())
        p = hdr.index('(', i) + 1
        params = []; auto = 0
        if hdr[p] != ')':
            while True:
                while hdr[p] == ' ': p += 1
                if hdr.startswith('...', p): p += 3; break
                t, p = s.pty(hdr, p)
                m = re.compile(r'((?:[^%,()]|\([^)]*\))*)(?:%("[^"]+"|[\w.]+))?').match(hdr, p)
                nm = m.group(2)
                if nm is None: nm = str(auto); auto += 1
                elif nm.isdigit(): auto = int(nm) + 1
                params.append((t, nm)); p = m.end()
                if hdr[p] == ',': p += 1; continue
                break
        f = Func(name, rty, params)
        m = re.search(r'!dbg !(\d+)', hdr)
        if m: f.dbg = int(m.group(1))
        f.attrs = hdr
        auto = len([1 for _, n in params if n.isdigit()])
        cur = None
        j = 1
        n = len(lines)
        while j < n:
            ln = lines[j]; j += 1
            st = ln.strip()
            if not st or st[0] == ';': continue
            if not ln.startswith(' '):
                m = re.match(r'("[^"]+"|[\w.$-]+):', ln)
                cur = m.group(1).strip('"'); f.blocks[cur] = []; f.order.append(cur); continue
            if cur is None:
                cur = str(auto); f.blocks[cur] = []; f.order.append(cur)
            if st.startswith('switch') and not st.endswith(']') and '[' in st and ']' not in st:
                while ']' not in lines[j].split('!')[0]: st += ' ' + lines[j].strip(); j += 1
                st += ' ' + lines[j].strip(); j += 1
            ins = s._pinst(f, st)
            if ins is not None: f.blocks[cur].append(ins)
        return f

    def _pinst(s, f, st):
        text = st
        dbg = None
        m = re.search(r', !dbg !(\d+)', st)
        if m: dbg = int(m.group(1)); st = st[:m.start()] + st[m.end():]
        st = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+$', '', st)
        res = None
        m = re.match(r'%("[^"]+"|[\w.$-]+) = ', st)
        if m: res = m.group(1); st = st[m.end():]
        st = re.sub(r'^(tail |musttail |notail )', '', st)
        op = re.match(r'[a-z_]+', st).group(0)
        I = lambda ty, a=(), x=None: Inst(op, res, ty, a, x, dbg, text)
        if op == 'call':
            m = re.match(r'call (?:(?:fastcc|ccc|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|zeroext|signext|noundef|noalias|nonnull|align \d+|dereferenceable(?:_or_null)?\(\d+\)|range\([^)]*\)) )*', st)
            ty, p = s.pty(st, m.end())
            while st[p] == ' ': p += 1
            if st[p] == '(':   # function type
                d = 0
                while True:
                    if st[p] == '(': d += 1
                    if st[p] == ')':
                        d -= 1
                        if d == 0: break
                    p += 1
                p += 1
                while st[p] == ' ': p += 1
            if st.startswith('asm', p):
                m = re.compile(r'asm (?:sideeffect |alignstack |inteldialect )*"([^"]*)", "([^"]*)"\(').match(st, p)
                a, q = s._args(st, m.end())
                return I(ty, a, ('asm', m.group(1), m.group(2)))
            cal, p = s.pval(st, p, PTR)
            while st[p] == ' ': p += 1
            assert st[p] == '(', st
            if cal[0] == 'glob' and cal[1].startswith('llvm.dbg.'):
                m = re.match(r'call void @llvm\.dbg\.(value|declare)\(metadata (.*?), metadata !(\d+), metadata !DIExpression\(([^)]*)\)', st)
                if m:
                    mv = re.match(r'[^%]*%([\w.$-]+)$', m.group(2))
                    if mv:
                        nm = re.search(r'name: "([^"]+)"', s.meta.get(int(m.group(3)), ''))
                        if nm: f.vars.setdefault(mv.group(1), []).append((nm.group(1), m.group(1), m.group(4)))
                    nm = re.search(r'name: "([^"]+)"', s.meta.get(int(m.group(3)), ''))
                    if nm and not m.group(4) and 'poison' not in m.group(2) and 'undef' not in m.group(2):
                        try:
                            t, q = s.pty(m.group(2), 0); v, _ = s.pval(m.group(2) + ' ', q, t)
                        except Exception: return None
                        return Inst('dbg', None, t, (v,), (nm.group(1), m.group(1)), dbg, text)
                return None
            a, q = s._args(st, p + 1)
            return I(ty, a, cal)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv'):
            m = re.match(r'[a-z]+((?: (?:nuw|nsw|exact|disjoint|fast|nnan))*) ', st)
            ty, p = s.pty(st, m.end())
            a, p = s.pval(st, p, ty)
            b, p = s.pval(st, p + 1, ty)
            return I(ty, (a, b), set(m.group(1).split()))
        if op in ('icmp', 'fcmp'):
            m = re.match(r'[if]cmp (?:fast )?(\w+) ', st)
            ty, p = s.pty(st, m.end())
            a, p = s.pval(st, p, ty); b, p = s.pval(st, p + 1, ty)
            return I(ty, (a, b), m.group(1))
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            m = re.match(r'[a-z]+(?: nneg| nuw| nsw)* ', st)
            ty, p = s.pty(st, m.end()); v, p = s.pval(st, p, ty)
            assert st.startswith(' to ', p), st
            t2, p = s.pty(st, p + 4)
            return I(t2, (v,), ty)
        if op == 'load':
            m = re.match(r'load (?:atomic )?(?:volatile )?', st)
            ty, p = s.pty(st, m.end()); _, p = s.pty(st, p + 1); v, p = s.pval(st, p, PTR)
            return I(ty, (v,))
        if op == 'store':
            m = re.match(r'store (?:atomic )?(?:volatile )?', st)
            ty, p = s.pty(st, m.end()); v, p = s.pval(st, p, ty)
            _, p = s.pty(st, p + 1); a, p = s.pval(st, p, PTR)
            return I(ty, (v, a))
        if op == 'getelementptr':
            m = re.match(r'getelementptr (?:inbounds |nuw |nusw )*', st)
            bt, p = s.pty(st, m.end())
            args = []
            while p < len(st) and st[p] == ',':
                t, p = s.pty(st, p + 1); v, p = s.pval(st, p, t); args.append((t, v))
            return I(PTR, args, bt)
        if op == 'alloca':
            ty, p = s.pty(st, 7)
            m = re.match(r', (i\d+) (\S+?)(,|$)', st[p:])
            cnt = ('int', 1)
            if m: cnt, _ = s.pval(m.group(2) + ' ', 0, INT(64))
            return I(PTR, (cnt,), ty)
        if op == 'br':
            m = re.match(r'br label %("[^"]+"|[\w.$-]+)', st)
            if m: return I(None, (), [m.group(1).strip('"')])
            m = re.match(r'br i1 (.*), label %("[^"]+"|[\w.$-]+), label %("[^"]+"|[\w.$-]+)', st)
            v, _ = s.pval(m.group(1) + ' ', 0, INT(1))
            return I(None, (v,), [m.group(2).strip('"'), m.group(3).strip('"')])
        if op == 'switch':
            ty, p = s.pty(st, 7); v, p = s.pval(st, p, ty)
            m = re.compile(r', label %("[^"]+"|[\w.$-]+) \[').match(st, p)
            cases = [(int(a), b.strip('"')) for a, b in re.findall(r'i\d+ (-?\d+), label %("[^"]+"|[\w.$-]+)', st[m.end():])]
            return I(ty, (v,), (m.group(1).strip('"'), cases))
        if op == 'phi':
            ty, p = s.pty(st, 4)
            inc = []
            for m in re.finditer(r'\[ (.*?), %("[^"]+"|[\w.$-]+) \]', st[p:]):
                v, _ = s.pval(m.group(1) + ' ', 0, ty)
                inc.append((v, m.group(2).strip('"')))
            return I(ty, (), inc)
        if op == 'ret':
            if st == 'ret void': return I(VOID)
            ty, p = s.pty(st, 4); v, p = s.pval(st + ' ', p, ty)
            return I(ty, (v,))
        if op == 'unreachable': return I(None)
        if op == 'select':
            t0, p = s.pty(st, 7); c, p = s.pval(st, p, t0)
            ty, p = s.pty(st, p + 1); a, p = s.pval(st, p, ty)
            t2, p = s.pty(st, p + 1); b, p = s.pval(st, p, ty)
            return I(ty, (c, a, b), t0)
        if op == 'extractvalue':
            ty, p = s.pty(st, 13); v, p = s.pval(st, p, ty)
            return I(ty, (v,), [int(q) for q in re.findall(r', (\d+)', st[p:])])
        if op == 'insertvalue':
            ty, p = s.pty(st, 12); v, p = s.pval(st, p, ty)
            t2, p = s.pty(st, p + 1); e, p = s.pval(st, p, t2)
            return I(ty, (v, e), [int(q) for q in re.findall(r', (\d+)', st[p:])])
        if op == 'extractelement':
            ty, p = s.pty(st, 15); v, p = s.pval(st, p, ty)
            t2, p = s.pty(st, p + 1); e, p = s.pval(st, p, t2)
            return I(ty, (v, e))
        if op == 'insertelement':
            ty, p = s.pty(st, 14); v, p = s.pval(st, p, ty)
            t2, p = s.pty(st, p + 1); e, p = s.pval(st, p, t2)
            t3, p = s.pty(st, p + 1); i, p = s.pval(st, p, t3)
            return I(ty, (v, e, i))
        if op == 'shufflevector':
            ty, p = s.pty(st, 14); v, p = s.pval(st, p, ty)
            t2, p = s.pty(st, p + 1); e, p = s.pval(st, p, t2)
            t3, p = s.pty(st, p + 1); i, p = s.pval(st, p, t3)
            return I(ty, (v, e, i), t3)
        if op == 'freeze':
            ty, p = s.pty(st, 7); v, p = s.pval(st, p, ty)
            return I(ty, (v,))
        if op == 'fence': return None
        return I(None, (), st)

    def _args(s, st, p):
        a = []
        while st[p] == ' ': p += 1
        if st[p] == ')': return a, p
        while True:
            t, p = s.pty(st, p)
            if t.k == 'metadata':
                q = p
                while st[q] not in ',)': q += 1
                a.append((t, ('meta',))); p = q
            else:
                v, p = s.pval(st, p, t); a.append((t, v))
            while st[p] == ' ': p += 1
            if st[p] == ',': p += 1; continue
            assert st[p] == ')', st[p:]
            return a, p

    def line(s, dbg):
        if dbg is None: return None
        m = re.search(r'line: (\d+)', s.meta.get(dbg, ''))
        return int(m.group(1)) if m else None

    def file_of(s, dbg):
        x = s.meta.get(dbg, '')
        for _ in range(20):
            m = re.search(r'file: !(\d+)', x)
            if m:
                y = s.meta.get(int(m.group(1)), '')
                m2 = re.search(r'filename: "([^"]+)"', y)
                return m2.group(1) if m2 else '?'
            m = re.search(r'scope: !(\d+)', x)
            if not m: return '?'
            x = s.meta.get(int(m.group(1)), '')
        return '?'
