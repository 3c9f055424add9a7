import sys, os, time, multiprocessing as mp, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, '..', 'specs'))
import ir, sym, build, common
def load_specs():
    import importlib
    for n in SPECS: importlib.import_module(n)
    return common.REG
SPECS = ['kernels', 'words', 'bitops', 'cbitset', 'bitset_c','array_c', 'run_c']
M = None
def work(job):
    fn, k, opts = job
    con = common.REG[fn]
    E = sym.Engine(M, common.REG, getattr(common, 'INLINE', {}), **opts.get('eng', {}))
    try:
        r = E.verify(con, con.setups[k], budget=opts.get('budget', 300), maxfail=opts.get('maxfail', 3), debugfail=opts.get('debugfail'))
    except Exception as e:
        import traceback
        pass
        r = {'function': fn, 'setup': str(k), 'obligations': 0, 'by': {}, 'queries': 0, 'solver_s': 0, 'wall_s': 0, 'paths': 0, 'returns': 0, 'loops': 0, 'callees': [], 'inlined': [], 'trusted': [],
             'failures': [{'label': 'engine error: %r' % e, 'fn': fn, 'file': None, 'line': None, 'why': traceback.format_exc()[-800:], 'goal': ''}]}
    return r
if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('fns', nargs='*'); ap.add_argument('--ir', default='/tmp/w2/all.ll'); ap.add_argument('-v', action='store_true'); ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--tb', action='store_true'); ap.add_argument('-t', type=int, default=20000); ap.add_argument('-m', type=int, default=3)
    ap.add_argument('-k', type=int)
    a = ap.parse_args()
    M = ir.Module(a.ir)
    load_specs()
    fns = a.fns or [n for n in common.REG if not common.REG[n].trusted]
    jobs = []
    for f in fns:
        for k in range(len(common.REG[f].setups)):
            if a.k is None or a.k == k: jobs.append((f, k, {'eng': {'verbose': a.v, 'timeout': a.t}, 'tb': a.tb, 'maxfail': a.m}))
    if a.j == 1 or len(jobs) == 1: it = map(work, jobs)
    else:
        pool = mp.Pool(a.j, maxtasksperchild=8); it = pool.imap_unordered(work, jobs)
    tot = 0; bad = 0
    for r in it:
        tot += r['obligations']
        st = 'ok  ' if not r['failures'] else 'FAIL'
        if r['failures']: bad += 1
        print(st, r['function'], '[%s]' % r['setup'], 'obl', r['obligations'], 'q', r['queries'], 'solver', r['solver_s'], 'wall', r['wall_s'], 'paths', r['paths'], 'ret', r['returns'], 'loops', r['loops'], r['callees'], r['inlined'])
        for f in r['failures']: print('     -', f['label'], f['fn'], f['line'], f['why'][-700:] if a.tb else f['why'][:200])
        sys.stdout.flush()
    print('obligations', tot, 'failed functions', bad)
