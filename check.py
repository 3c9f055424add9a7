#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current working tree.
 1. PROOF     - compile /repo/src to LLVM IR, generate the verification conditions of every contract tagged with the
                property (and, transitively, of every contract a proved caller relies on) and discharge them.
 2. BOUNDED   - run the executable form of the contracts on the real code, built with sanitizers, over generated cases
                (stand-in for the functions the verifier does not reach; never counted as proved).
 3. REPLAY    - when an obligation fails, search for a concrete failing input with (2) at greater depth.
exit 0: held on everything explored.  exit 1 + VIOLATION line: broken."""
import os, sys, json, time, subprocess, tempfile, shutil, re, glob, signal
V = os.path.dirname(os.path.abspath(__file__))
if __name__ == '__main__' and not os.environ.get('VERIF_VT'):
    os.environ['VERIF_VT'] = '1'
    os.execvp('python3-vt', ['python3-vt', os.path.abspath(__file__)] + sys.argv[1:])
sys.path[:0] = [V + '/engine', V + '/specs', V + '/rt', V]
import hashlib, threading, concurrent.futures as cf, multiprocessing as mp, traceback
from props import PROPS
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
NPROC = min(8, os.cpu_count() or 8)
T0 = time.time()
def log(*a): print('[%6.1fs]' % (time.time() - T0), *a); sys.stdout.flush()

# ------------------------------------------------------------------ concrete runs
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')
def run_one(exe, mode, seed, first, stride, count, maxsec, tmp):
    st = os.path.join(tmp, 'st.%s.%d.%d.%d' % (mode, seed, first, os.getpid()))
    cmd = [exe, mode, str(seed), str(first), str(stride), str(count), str(maxsec), st]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=ENV, timeout=maxsec + 60)
        rc, out = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        rc, out = 124, ((e.stdout or b'') + (e.stderr or b'')).decode('utf8', 'replace') if isinstance(e.stdout, (bytes, type(None))) else str(e.stdout)
    import struct
    cur = done = None
    try:
        with open(st, 'rb') as f: cur, done = struct.unpack('QQ', f.read(16))
    except Exception: pass
    m = re.search(r'^OK mode=\S+ cases=(\d+)', out, re.M)
    if rc == 0 and m: return {'ok': True, 'cases': int(m.group(1)), 'mode': mode}
    m = re.search(r'^FAIL mode=\S+ seed=\d+ case=(\d+)', out, re.M)
    if m: cur = int(m.group(1))
    what = re.search(r'^WHAT (.*)$', out, re.M)
    if what: what = what.group(1)
    else:
        what = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: .*)', out)
        what = what.group(1) if what else 'terminated abnormally, exit status %s' % rc
    return {'ok': False, 'mode': mode, 'seed': seed, 'case': cur, 'rc': rc, 'what': what[:600], 'out': out[:20000], 'cases': (done or 0)}
class Concrete:
    def __init__(s, exe, tmp): s.exe, s.tmp = exe, tmp; s.cases = {}; s.wall = 0
    def search(s, modes, seed, count, maxsec, nproc=NPROC):
        """every mode gets `count` cases split over processes, at most maxsec seconds in all"""
        if not modes: return None
        t0 = time.time(); bad = None
        jobs = []
        stride = max(1, nproc)
        per = maxsec / len(modes)
        with cf.ThreadPoolExecutor(nproc) as ex:
            fs = []
            for m in modes:
                for p in range(stride): fs.append(ex.submit(lambda m=m, p=p: None if bad else run_one(s.exe, m, seed, p, stride, max(1, count // stride), per, s.tmp)))
            for f in cf.as_completed(fs):
                r = f.result()
                if r is None: continue
                s.cases[r['mode']] = s.cases.get(r['mode'], 0) + r['cases']
                if not r['ok'] and r['case'] is not None and (bad is None): bad = r
                elif not r['ok'] and r['case'] is None: log('harness did not start:', r['out'][:500])
        s.wall += time.time() - t0
        return bad
    def confirm(s, r):
        """does the single case fail again?"""
        for _ in range(2):
            q = run_one(s.exe, r['mode'], r['seed'], r['case'], 1, 1, 100, s.tmp)
            if not q['ok']: return q
        return None

# ------------------------------------------------------------------ proofs
def fn_texts(ll):
    d = {}; cur = None
    pat = re.compile(r'^define .*?@"?([\w.$]+)"?\(')
    for line in open(ll):
        if cur is None:
            m = pat.match(line)
            if m: cur = m.group(1); buf = [line]
        else:
            buf.append(line)
            if line.startswith('}'): d[cur] = buf; cur = None
    return d
def norm_text(lines):
    o = []
    for l in lines:
        if 'call void @llvm.dbg' in l or l.lstrip().startswith(';'): continue
        l = re.sub(r', ![\w.]+ !\d+', '', l); l = re.sub(r'!\w+ !\d+', '', l); l = re.sub(r'![0-9]+', '', l); l = re.sub(r' #\d+', '', l); l = re.sub(r'; preds = .*', '', l)
        o.append(l.rstrip())
    return '\n'.join(o)
class Hashes:
    """hash of the IR a contract's proof depends on: the function and everything inlined into it"""
    def __init__(s, ll, contracts):
        s.t = fn_texts(ll); s.c = contracts; s.h = {}
        s.types = hashlib.sha256('\n'.join(sorted(l.strip() for l in open(ll) if re.match(r'%[\w.]+ = type', l))).encode()).hexdigest()
    def one(s, f):
        if f not in s.h:
            x = norm_text(s.t[f]) if f in s.t else '?'
            s.h[f] = (hashlib.sha256(x.encode()).hexdigest(), set(re.findall(r'@"?([\w.$]+)"?', x)) - {f})
        return s.h[f]
    def full(s, f):
        seen = set(); todo = [f]; acc = []
        while todo:
            g = todo.pop()
            if g in seen: continue
            seen.add(g)
            if g != f and g in s.c and not s.c[g].inline_always: continue
            if g not in s.t: continue
            h, cs = s.one(g); acc.append(g + h); todo += sorted(cs)
        return hashlib.sha256((s.types + '|'.join(sorted(acc))).encode()).hexdigest()[:24]
_M = None
def _work(job):
    import prove
    prove.M = _M
    return prove.work(job)
def _lem(k):
    import lemmas
    return lemmas.check(k, 8)
LEM = {}
def tasks_of(common, f, pid='ALL'): return [(f, k) for k, q in enumerate(common.REG[f].setups) if pid == 'ALL' or getattr(q, 'props', None) is None or pid in q.props]
def prove_all(ll, pid, budget, thorough):
    global _M
    import ir, prove, common
    prove.load_specs()
    _M = ir.Module(ll)
    H = Hashes(ll, common.REG)
    try: base = json.load(open(V + '/specs/baseline.json'))
    except Exception: base = {}
    todo = [n for n, c in common.REG.items() if pid in c.props and not c.trusted]
    seen = set(); results = []; trusted = set()
    ctx = mp.get_context('fork')
    tmo = 60000 if thorough else 20000
    deadline = time.time() + budget
    pool = ctx.Pool(NPROC, maxtasksperchild=6)
    pend = []
    def submit(f):
        if f in seen: return
        seen.add(f)
        if common.REG[f].trusted: trusted.add(f); return
        for t in sorted(tasks_of(common, f, pid)): pend.append((t, pool.apply_async(_work, ((t[0], t[1], {'eng': {'timeout': tmo}, 'budget': 400 if thorough else common.REG[f].budget or 240, 'maxfail': 2}),))))
    for f in sorted(todo, key=lambda f: -(base.get(f, {}).get('wall', 1))): submit(f)
    lem = [pool.apply_async(_lem, (k,)) for k in range(8)]
    undec_time = []
    while pend:
        nxt = []
        for t, a in pend:
            if a.ready():
                try: r = a.get()
                except Exception as e: r = {'function': t[0], 'setup': str(t[1]), 'obligations': 0, 'by': {}, 'queries': 0, 'solver_s': 0, 'wall_s': 0, 'paths': 0, 'returns': 0, 'loops': 0, 'callees': [], 'inlined': [], 'trusted': [], 'failures': [{'label': 'engine error: %r' % e, 'fn': t[0], 'file': None, 'line': None, 'why': 'engine', 'goal': ''}]}
                results.append(r)
                for c in r['callees']:
                    if c in common.REG: submit(c)
            else: nxt.append((t, a))
        pend[:] = nxt   # submit() may have appended to pend during the scan: those were scanned too
        if time.time() > deadline and pend:
            undec_time = sorted({t[0] for t, a in pend}); break
        time.sleep(0.05)
    n = 0; bad = []; t = 0; miss = 0
    for a in lem:
        try: r = a.get(max(1, deadline - time.time())); n += r[0]; bad += r[1]; t += r[2]
        except Exception: miss += 1
    LEM.update(checked=n, unproved=sorted(set(bad)), solver_s=round(t, 1), parts_not_finished=miss)
    pool.terminate(); pool.join()
    return results, seen, trusted, undec_time, H, base, common
def classify(results, H, base):
    """per function: proved / failed (obligation refused on changed code) / undecided"""
    fs = {}
    for r in results:
        d = fs.setdefault(r['function'], {'obl': 0, 'dis': 0, 'by': {}, 't': 0, 'wall': 0, 'fail': [], 'und': [], 'callees': set(), 'inlined': set(), 'q': 0, 'var': 0})
        hard = [f for f in r['failures'] if f['why'] != 'engine' and not f['label'].startswith(('engine error', 'unsupported', 'vacuous'))]
        soft = [f for f in r['failures'] if f not in hard]
        d['obl'] += r['obligations']; d['dis'] += max(0, sum(r['by'].values())); d['t'] += r['solver_s']; d['wall'] += r['wall_s']; d['q'] += r['queries']; d['var'] += 1
        for k, v in r['by'].items(): d['by'][k] = d['by'].get(k, 0) + v
        d['callees'] |= set(r['callees']); d['inlined'] |= set(r['inlined'])
        d['fail'] += hard; d['und'] += soft
    for f, d in fs.items():
        d['hash'] = H.full(f); d['same'] = base.get(f, {}).get('hash') == d['hash']
        if not d['fail'] and not d['und']: d['status'] = 'proved'
        elif d['fail'] and not d['same']: d['status'] = 'failed'
        else: d['status'] = 'undecided'
    return fs

def write_replay(pid, name, text):
    d = V + '/evidence/replay'; os.makedirs(d, exist_ok=True)
    p = '%s/%s_%s.txt' % (d, pid, name)
    open(p, 'w').write(text); return p
def known_findings(pid):
    out = []
    for l in open(V + '/KNOWN_FINDINGS.txt') if os.path.exists(V + '/KNOWN_FINDINGS.txt') else []:
        m = re.match(r'known: property=(\S+) mode=(\S+) match=/(.*)/ (.*)', l.strip())
        if m and m.group(1) == pid: out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out

def main():
    pid = sys.argv[1]; P = PROPS[pid]; thorough = TIER == 'thorough'
    os.makedirs(V + '/evidence', exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vchk_%s_' % pid)
    violation = None; notes = [];
    try:
        import build as eb, importlib.util
        spec = importlib.util.spec_from_file_location('rtbuild', V + '/rt/build.py'); rb = importlib.util.module_from_spec(spec); spec.loader.exec_module(rb)
        exe = None; ll = None
        with cf.ThreadPoolExecutor(2) as ex:
            fi = ex.submit(eb.build_ir, tmp + '/ir'); fr = ex.submit(rb.build_rt, tmp + '/rt')
            try: ll = fi.result()
            except Exception as e: notes.append('IR build failed: %s' % str(e)[:800])
            try: exe = fr.result()
            except Exception as e: notes.append('harness build failed: %s' % str(e)[:800])
        log('built: IR %s, harness %s' % (bool(ll), bool(exe)))
        fs = {}; trusted = set(); undt = []; common = None; wall_p = 0
        # --- 1. proof
        if ll:
            t1 = time.time()
            try:
                results, seen, trusted, undt, H, base, common = prove_all(ll, pid, P.get('proof_budget', 1500 if thorough else 330), thorough)
                fs = classify(results, H, base)
            except Exception as e: notes.append('proof stage: ' + traceback.format_exc()[-600:])
            wall_p = time.time() - t1
        failed = {f: d for f, d in fs.items() if d['status'] == 'failed'}
        for f in undt:
            if f not in fs or fs[f]['status'] == 'proved': fs.setdefault(f, {'obl': 0, 'dis': 0, 'by': {}, 't': 0, 'wall': 0, 'fail': [], 'und': [], 'callees': set(), 'inlined': set(), 'q': 0, 'var': 0, 'hash': '', 'same': False})['status'] = 'undecided'
        und = {f: d for f, d in fs.items() if d['status'] == 'undecided'}
        proved = {f: d for f, d in fs.items() if d['status'] == 'proved'}
        log('proof: %d functions proved, %d failed, %d undecided; %d obligations, %.1f s' % (len(proved), len(failed), len(und), sum(d['obl'] for d in fs.values()), wall_p))
        for f, d in list(failed.items()) + list(und.items()):
            for x in (d['fail'] + d['und'])[:3]: log('  %s: %s [%s:%s] %s' % (f, x['label'], x['file'], x['line'], x['why'][:160].replace('\n', ' ')))
        # --- 2. bounded stand-ins
        bad = None; C = None
        kf = known_findings(pid); kfhit = set()
        if exe:
            C = Concrete(exe, tmp)
            deep = bool(failed) or bool(und)
            cnt, sec = P.get('cases', 4000), P.get('secs', 60)
            if thorough: cnt, sec = cnt * 40, 1200
            elif deep: cnt, sec = cnt * 6, 110
            for rnd in range(2 if deep else 1):
                b = C.search(P['modes'], SEED + 1000 * rnd, cnt, sec)
                if b:
                    q = C.confirm(b)
                    bad = q or b
                    if not q: bad['what'] += ' (not reproduced when the case is run alone: depends on the preceding cases of the same process)'
                    for mode, rx, txt in kf:
                        if bad['mode'] == mode and rx.search(bad['what']): kfhit.add(txt); bad = None
                if bad: break
            log('bounded: %s, %.1f s%s' % (C.cases, C.wall, ' FAILED: ' + bad['what'][:200] if bad else ''))
        for t in kfhit: print('KNOWN-FINDING: property=%s %s' % (pid, t))
        # --- verdict
        if bad:
            t = 'property %s violated by the code in %s\n\nconcrete failing case (real code, sanitizers on):\n  %s\n\nrerun:\n  python3 %s/rt/build.py /tmp/rtx && ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 /tmp/rtx/rt %s %d %d 1 1 100\n\n%s\n' % (pid, os.environ.get('VERIF_REPO', '/repo'), bad['what'], V, bad['mode'], bad['seed'], bad['case'], bad['out'])
            for f, d in failed.items(): t += '\nfailed obligation: contract of %s: %s\n' % (f, '; '.join('%s at %s:%s' % (x['label'], x['file'], x['line']) for x in d['fail']))
            violation = ('%s' % write_replay(pid, 'case', t), '')
        elif failed:
            t = 'property %s: obligations generated from the current source are not discharged; no failing input found\n' % pid
            for f, d in failed.items():
                for x in d['fail']: t += '\nfailed obligation: contract of %s: %s\n  in %s at %s:%s\n  verifier: %s\n  goal: %s\n' % (f, x['label'], x['fn'], x['file'], x['line'], x['why'], x['goal'])
            violation = (write_replay(pid, 'obligation', t), ' no-failing-input-found')
        if not violation and not exe and not fs: raise RuntimeError('; '.join(notes))
        # --- evidence
        obl = sum(d['obl'] for d in fs.values()); dis = sum(d['dis'] for d in proved.values())
        by = {}
        for d in proved.values():
            for k, v in d['by'].items(): by[k] = by.get(k, 0) + v
        import z3
        cov = {'obligations': obl, 'discharged': dis, 'by_back_end': by, 'checker_cmd': 'python3-vt %s/check.py %s' % (V, pid),
               'trusted_base': ['clang 18 -O0 -g and opt (always-inline, sroa, early-cse, simplifycfg, instsimplify) translate the C source faithfully', 'engine/sym.py (VC generator) and its memory model', 'z3 %s (python3-vt)' % z3.get_version_string()] + ['assumed contract: ' + f for f in sorted(trusted)],
               'functions_proved': {f: {'obligations': d['obl'], 'variants': d['var'], 'solver_s': round(d['t'], 2), 'inlined': sorted(d['inlined'])} for f, d in sorted(proved.items())},
               'functions_undecided': {f: [x['label'] for x in (d['fail'] + d['und'])[:3]] for f, d in und.items()}, 'functions_failed': {f: [x['label'] for x in d['fail'][:3]] for f, d in failed.items()},
               'lemmas': dict(LEM), 'solver_s': round(sum(d['t'] for d in fs.values()), 1), 'proof_wall_s': round(wall_p, 1),
               'bounded_standins': {'label': 'BOUNDED, not proved', 'bound': 'generated cases; the domain is described in DESIGN.md', 'cases': C.cases if C else {}, 'wall_s': round(C.wall, 1) if C else 0, 'seed': SEED, 'functions': P.get('bounded', '')},
               'evaluations': sum(C.cases.values()) if C else 0, 'notes': notes}
        if P['level'] != 'proof':
            cov['distinct_nontrivial'] = cov['evaluations']; cov['rule'] = 'each case is generated from a distinct (seed, case number) pair; it builds at least one non-trivial object and compares the code with an independent oracle'; cov['samples'] = ['rt %s %d 0 1 1 100' % (m, SEED) for m in P['modes']]
            cov['explanation'] = P.get('note', '')
        ev = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': P['level'], 'coverage': cov, 'assumptions': ASSUME + P.get('assume', []), 'wall_s': round(time.time() - T0, 1), 'violations': 1 if violation else 0}
        json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for n in notes: log('note:', n[:400])
    if violation:
        print('VIOLATION property=%s replay=%s%s' % (pid, violation[0], violation[1])); sys.stdout.flush(); os._exit(1)
    print('OK property=%s' % pid); sys.stdout.flush(); os._exit(0)
ASSUME = ['memory allocation succeeds (the failure paths are not part of the properties)', 'objects are smaller than 2^31 elements', 'sequential execution', 'x86-64 little endian; the proofs are about the clang IR, the shipped library is built by gcc from the same source']
if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); print('check could not complete; nothing was decided'); sys.stdout.flush(); os._exit(2)
