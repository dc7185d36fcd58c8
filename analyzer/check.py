#!/usr/bin/env python3
"""check.py <property>: exports the MIR of /repo's current tree, applies the rules of one property, writes evidence."""
import importlib
import json
import os
import resource
import subprocess
import sys
import time

if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') != '0':
    # same order of sets in every run: the verdict must depend on the source only
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VP_EVID', os.path.join(VERIF, 'evidence'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from registry import CHECKS  # noqa: E402
from report import Report, run_sections  # noqa: E402


def known(prop):
    """known findings: lines 'known: property=<id> rule=<rule> where=<function> :: text' (fixed: lines suppress nothing)"""
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('known: property=' + prop + ' '):
                d = dict(x.split('=', 1) for x in l.split(' :: ')[0].split()[1:])
                d['text'] = l.split(' :: ', 1)[1] if ' :: ' in l else ''
                out.append(d)
    except FileNotFoundError:
        pass
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--no-export' not in sys.argv:
        r = subprocess.run(['bash', os.path.join(VERIF, 'export.sh')], stdout=subprocess.DEVNULL)
        if r.returncode:
            print('export of /repo failed (does it compile?)', file=sys.stderr)
            sys.exit(2)
    rep = Report(prop)
    title, expl, sections = CHECKS[prop]
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))   # a section that outgrows this is reported as undecided
    run_sections(rep, sections, 420 if tier == 'quick' else 600)
    bad = [i for i in rep.items if i['status'] == 'violation']
    kn = known(prop)
    hit = set()
    fresh = []
    for i in bad:
        m = [k for k in kn if k['rule'] == i['rule'] and k['where'] in i['where']]
        if m:
            for k in m:
                hit.add(k['text'])
            i['status'] = 'known-finding'
        else:
            fresh.append(i)
    for t in sorted(hit):
        print(f'KNOWN-FINDING: property={prop} {t}')
    ok = [i for i in rep.items if i['status'] == 'ok']
    un = [i for i in rep.items if i['status'] == 'undecided']
    os.makedirs(EVID, exist_ok=True)
    rules = {}
    for i in rep.items:
        rules.setdefault(i['rule'], {'ok': 0, 'violation': 0, 'undecided': 0, 'known-finding': 0})[i['status']] += 1
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {'explanation': expl,
                       'obligations': len(rep.items), 'discharged': len(ok),
                       'undecided': [f"{i['rule']} @ {i['where']}: {i['detail'][:300]}" for i in un],
                       'entries_analysed': rep.analysed,
                       'rules': rules,
                       'samples': [f"{i['rule']} @ {i['where']}: {i['detail'][:200]}" for i in ok[:12]],
                       'known_findings': sorted(hit)},
          'assumptions': ['MIR of the nightly compiler (-Zmir-opt-level=0) represents the built program',
                          'effect models of std, binrw, sha1, aes/cbc and pyo3 primitives (analyzer/models.py)',
                          'integer overflow panics count as failures of C03 only; other rules reason about non-overflowing runs'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print(f'{prop}: {len(ok)} obligations discharged, {len(fresh)} violated, {len(un)} undecided, {len(hit)} known, '
          f'{len(rep.analysed)} entries, {time.time() - t0:.1f}s')
    if '-v' in sys.argv:
        for i in un:
            print('  undecided', i['rule'], i['where'], i['detail'][:400])
    if fresh:
        path = os.path.join(EVID, prop + '.violation.txt')
        with open(path, 'w') as f:
            for i in fresh:
                f.write(f"{i['rule']}\n  at {i['where']}\n  {i['detail']}\n")
        for i in fresh[:8]:
            print(f"  {i['rule']} at {i['where']}: {i['detail'][:300]}")
        print(f'VIOLATION property={prop} replay={path}')
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
