"""nothing to build ahead of time: every check compiles what it needs from /repo. Only verify that the tools are there."""
import shutil,sys,os,subprocess
for t in ['/usr/bin/clang','/usr/bin/opt','gcc','g++','python3-vt']:
    if not shutil.which(t): print('missing tool',t); sys.exit(1)
os.makedirs('/verif/evidence' if os.path.isdir('/verif') else 'evidence',exist_ok=True)
sys.exit(subprocess.call(['python3-vt','-c','import z3; print(z3.get_version_string())']))
