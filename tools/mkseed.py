#!/usr/bin/env python3
"""builds /verif/seeded/<id>/ from tools/seeds.py and confirms each change: builds, stable tests pass, demo passes/fails.
usage: mkseed.py [-k substr,..] [-j N] [--nocheck]"""
import json, os, subprocess, sys, shutil, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import seeds
ap = argparse.ArgumentParser(); ap.add_argument('-k', default=''); ap.add_argument('-j', type=int, default=4); ap.add_argument('--nocheck', action='store_true')
a = ap.parse_args()
sel = [s for s in seeds.SEEDS if not a.k or any(k in s['id'] for k in a.k.split(','))]
BASE = json.load(open('/opt/vp/BASELINE.json'))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def work(s):
    d = os.path.join(V, 'seeded', s['id'])
    w = f'/tmp/seed.{s["id"]}'
    shutil.rmtree(w, ignore_errors=True)
    sh(f'git clone -q /repo {w}; cp /repo/Cargo.lock {w}/')
    for f, old, new in s['edits']:
        p = os.path.join(w, f); t = open(p).read()
        if t.count(old) != 1:
            return f'{s["id"]}: edit matches {t.count(old)} times: {old[:50]!r}'
        open(p, 'w').write(t.replace(old, new))
    diff = sh(f'git -C {w} diff').stdout
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    shutil.copy(V + '/tools/seedlib/common.rs', d)
    shutil.copy(V + '/tools/seedlib/demo.sh', d)
    open(d + '/main.rs', 'w').write('mod common;\n#[allow(unused_imports)]\nuse common::*;\n' + s['demo'])
    for n, c in s.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(c)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    res = []
    if not a.nocheck:
        # target dir of its own so that builds do not collide
        env = dict(os.environ, CARGO_TARGET_DIR=w + '/target')
        b = sh('export PYO3_PYTHON=/usr/bin/python3.12 RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=%s/target; cargo build --workspace --offline 2>&1 | tail -30; cargo test --workspace --offline 2>&1 | grep -E "^test |^error|panicked"' % w, cwd=w, env=env)
        failed = [l for l in b.stdout.splitlines() if 'FAILED' in l or l.startswith('error')]
        okn = sum(1 for l in b.stdout.splitlines() if l.startswith('test ') and l.endswith('ok'))
        res.append(f'tests ok {okn} failed {failed[:3]}')
        r = sh(f'bash {d}/demo.sh', cwd=w, env=env)
        res.append(f'patched rc={r.returncode} {r.stdout.strip()[-150:]!r}')
        sh(f'git -C {w} checkout -q -- .')
        sh('export PYO3_PYTHON=/usr/bin/python3.12 RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=%s/target; cargo build --workspace --offline' % w, cwd=w, env=env)
        r = sh(f'bash {d}/demo.sh', cwd=w, env=env)
        res.append(f'clean rc={r.returncode}' + (f' {r.stdout.strip()[-300:]!r}' if r.returncode else ''))
    shutil.rmtree(w, ignore_errors=True)
    return f'{s["id"]}: ' + ' | '.join(res)

with ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(work, sel):
        print(r, flush=True)
