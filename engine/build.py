"""Compile /repo's current sources into one LLVM IR module (per run, in a scratch directory)."""
import subprocess, os, glob, tempfile, shutil, sys
REPO = os.environ.get('VERIF_REPO', '/repo')
FIRST = ['isadetection.c', 'memory.c', 'array_util.c', 'bitset_util.c', 'bitset.c']
def sources():
    src = os.path.join(REPO, 'src')
    fs = []
    for d, _, ns in os.walk(src):
        for n in ns:
            if n.endswith('.c'): fs.append(os.path.relpath(os.path.join(d, n), src))
    def key(f):
        b = FIRST.index(f) if f in FIRST else 10 if f.startswith('containers') else 11 if f.startswith('art') else 12
        return (b, f == 'roaring64.c', f)
    return sorted(fs, key=key)
def build_ir(out):
    """returns path of the textual IR"""
    os.makedirs(out, exist_ok=True)
    c = os.path.join(out, 'all.c')
    with open(c, 'w') as f:
        f.write('#include <roaring/roaring.h>\n#include <roaring/roaring64.h>\n')
        for s in sources(): f.write('#include "%s"\n' % os.path.join(REPO, 'src', s))
    a = os.path.join(out, 'all0.ll'); b = os.path.join(out, 'all.ll')
    cmd = ['/usr/bin/clang', '-std=gnu11', '-O0', '-Xclang', '-disable-O0-optnone', '-DNDEBUG', '-g', '-w', '-I' + REPO + '/include', '-I' + REPO + '/src', '-S', '-emit-llvm', '-o', a, c]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise RuntimeError('clang: ' + r.stderr[:3000])
    r = subprocess.run(['/usr/bin/opt', '-S', '-passes=always-inline,sroa,early-cse,simplifycfg,instsimplify', a, '-o', b], capture_output=True, text=True)
    if r.returncode: raise RuntimeError('opt: ' + r.stderr[:3000])
    os.remove(a)
    return b
if __name__ == '__main__': print(build_ir(sys.argv[1]))
