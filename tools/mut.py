#!/usr/bin/env python3
"""Development aid: applies textual edits to scratch copies of /repo and runs checks on them.
usage: mut.py [-k substr] [-j N]   (edits: tools/mutants.py; 'bug' must be caught by the named property, 'ok' must stay quiet)"""
import os, shutil, subprocess, sys, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'analyzer'))
sys.path.insert(0, os.path.join(V, 'tools'))
ap = argparse.ArgumentParser()
ap.add_argument('-k', default='')
ap.add_argument('-j', type=int, default=4)
ap.add_argument('-c', default='')
ap.add_argument('--all', action='store_true')
ap.add_argument('-v', action='store_true')
a = ap.parse_args()
from mutants import M
from registry import CHECKS
ms = [m for m in M if any((m['id'].startswith(k[1:]) if k.startswith('^') else k in m['id']) for k in a.k.split(','))]
base = tempfile.mkdtemp(prefix='mut', dir='/tmp')


def one(m):
    d = os.path.join(base, m['id'])
    os.makedirs(d)
    repo, work = d + '/repo', d + '/work'
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    for n in ('Cargo.lock',):
        if not os.path.exists(f'{repo}/{n}') and os.path.exists('/repo/' + n):
            shutil.copy('/repo/' + n, f'{repo}/{n}')
    for f, old, new in m['edits']:
        p = f'{repo}/{f}'
        s = open(p).read()
        if s.count(old) < 1:
            return m, 'BAD EDIT ' + old[:60], {}
        s = s.replace(old, new, 1) if not m.get('all') else s.replace(old, new)
        open(p, 'w').write(s)
    subprocess.run(['cp', '-a', V + '/.work', work], check=True)
    env = dict(os.environ, VP_REPO=repo, VP_WORK=work, VP_EVID=d + '/evid')
    r = subprocess.run(['bash', V + '/export.sh'], env=env, capture_output=True, text=True)
    if r.returncode:
        shutil.rmtree(d)
        return m, 'EXPORT FAILED ' + r.stderr[-600:], {}
    if m['kind'] == 'ok' or a.all:
        cs = (m.get('checks') or list(CHECKS)) if not a.c else list(CHECKS)
        if a.all: cs = list(CHECKS)
    else:
        cs = m['props']
    if a.c:
        cs = [c for c in cs if c in a.c.split(',')]
    res = {}
    for c in cs:
        if c not in CHECKS:
            res[c] = (None, 'no check')
            continue
        r = subprocess.run(['python3', V + '/analyzer/check.py', c, '--no-export'] + (['-v'] if a.v else []), env=env, capture_output=True, text=True)
        res[c] = (r.returncode, r.stdout + r.stderr[-300:])
    shutil.rmtree(d)
    return m, '', res


try:
    with ThreadPoolExecutor(a.j) as ex:
        for m, e, res in ex.map(one, ms):
            hit = [c for c, (rc, o) in res.items() if rc == 1]
            und = [c for c, (rc, o) in res.items() if rc not in (0, 1)]
            st = e or ('caught ' + ','.join(hit) if hit else 'quiet')
            good = (bool(hit) == (m['kind'] == 'bug')) and not e and not und
            print(('  ' if good else '! ') + m['kind'], m['id'], st, ('no answer ' + str(und)) if und else '')
            if not good or a.v:
                for c, (rc, o) in res.items():
                    print('     ', c, rc, o.strip().replace('\n', '\n        ')[:1500 if a.v else 500])
            sys.stdout.flush()
finally:
    shutil.rmtree(base, ignore_errors=True)
