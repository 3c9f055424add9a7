import os, subprocess, glob, hashlib, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
def build_rt(out, repo=None, san=True):
    """compile /repo's current sources with sanitizers + the harness; returns the path of the executable"""
    repo = repo or os.environ.get('VERIF_REPO', '/repo')
    os.makedirs(out, exist_ok=True)
    sanf = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,nonnull-attribute,pointer-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] if san else []
    csrc = sorted(glob.glob(repo + '/src/**/*.c', recursive=True)); jobs = []; objs = []
    inc = ['-I', repo + '/include', '-I', repo]
    for c in csrc:
        o = os.path.join(out, os.path.relpath(c, repo).replace('/', '_') + '.o'); objs.append(o)
        jobs.append(['gcc', '-std=gnu11', '-O2', '-g1', '-DNDEBUG', '-w'] + sanf + inc + ['-c', c, '-o', o])
    for c in sorted(glob.glob(HERE + '/*.cpp')):
        o = os.path.join(out, os.path.basename(c) + '.o'); objs.append(o)
        extra = ['-O1'] + sanf if os.path.basename(c) == 'hcpp.cpp' else ['-O2']
        jobs.append(['g++', '-std=c++17', '-g1', '-DNDEBUG', '-w'] + extra + inc + ['-I', repo + '/cpp', '-c', c, '-o', o])
    def run(j):
        p = subprocess.run(j, capture_output=True, text=True); return j, p.returncode, p.stderr
    with cf.ThreadPoolExecutor(8) as ex:
        for j, rc, err in ex.map(run, jobs):
            if rc: raise RuntimeError('compile failed: ' + ' '.join(j) + '\n' + err[-3000:])
    exe = os.path.join(out, 'rt')
    p = subprocess.run(['g++'] + sanf + objs + ['-Wl,--wrap=croaring_hardware_support', '-o', exe], capture_output=True, text=True)
    if p.returncode: raise RuntimeError('link failed\n' + p.stderr[-3000:])
    return exe
if __name__ == '__main__': print(build_rt(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
