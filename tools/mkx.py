#!/usr/bin/env python3
"""mkx.py <mutant id> <dir>: scratch copy of /repo with a mutant applied and exported; source <dir>/env.sh afterwards"""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from mutants import M
m = next((m for m in M if m['id'] == sys.argv[1]), None)
d = sys.argv[2]
if os.path.exists(d):
    shutil.rmtree(d)
os.makedirs(d)
subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
if os.path.exists('/repo/Cargo.lock') and not os.path.exists(d + '/repo/Cargo.lock'):
    shutil.copy('/repo/Cargo.lock', d + '/repo/Cargo.lock')
if m:
    for f, old, new in m['edits']:
        p = f'{d}/repo/{f}'
        s = open(p).read()
        assert old in s, old
        open(p, 'w').write(s.replace(old, new, 1))
else:
    subprocess.run(['git', '-C', d + '/repo', 'apply', f'{V}/seeded/{sys.argv[1]}/patch.diff'], check=True)
subprocess.run(['cp', '-a', V + '/.work', d + '/work'], check=True)
open(d + '/env.sh', 'w').write(f'export VP_REPO={d}/repo VP_WORK={d}/work VP_EVID={d}/ev\n')
subprocess.run(['bash', V + '/export.sh'], env=dict(os.environ, VP_REPO=d + '/repo', VP_WORK=d + '/work', VP_EVID=d + '/ev'), check=True,
               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
