"""Pretty printer for the exported MIR (debugging aid)."""
import json, sys, os
WORK = os.environ.get('VP_WORK', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '.work'))
def load(c): return json.load(open(f'{WORK}/mir/{c}.json'))
def pl(p):
    s = f'_{p[0]}'
    for e in p[1:]:
        if e == '*': s = f'(*{s})'
        elif e[0] == 'f': s += f'.{e[2] or e[1]}'
        elif e[0] == 'i': s += f'[_{e[1]}]'
        elif e[0] == 'd': s = f'({s} as {e[2]})'
        else: s += str(e)
    return s
def op(o, T):
    if 'c' in o: return pl(o['c'])
    if 'm' in o: return 'move ' + pl(o['m'])
    k = o['k']
    for f in ('int', 'str', 'refbytes', 'static', 'item'):
        if f in k: return f'const {f}:{str(k[f])[:60]}'
    if 'promoted' in k: return f'promoted[{k["promoted"]}]'
    if 'fn' in k: return 'fn ' + str(k['fn'].get('p'))
    return 'const ' + T[k['t']]['s'][:60] + str({a:b for a,b in k.items() if a!='t'})[:80]
def rv(r, T):
    k = r[0]
    if k == 'use': return op(r[1], T)
    if k == 'ref': return f'&{r[1:-1] if len(r)>3 else r[1]} {pl(r[-1]) if isinstance(r[-1], list) else r}'
    out = [k]
    for x in r[1:]:
        if isinstance(x, dict): out.append(op(x, T))
        elif isinstance(x, list) and x and isinstance(x[0], dict): out.append('(' + ', '.join(op(y, T) for y in x) + ')')
        else: out.append(str(x)[:120])
    return ' '.join(out)
def show(b, T):
    print('==', b['key'], b['file'], b['line'], 'argc', b['argc'])
    for i, (t, n) in enumerate(b['locals']): print(f'   _{i}: {T[t]["s"][:110]}  {n or ""}')
    for i, bb in enumerate(b['blocks']):
        if bb['cl']: continue
        print(f' bb{i}:')
        for s in bb['s']:
            if s[0] == '=': print(f'    {pl(s[1])} = {rv(s[2], T)}   // {s[3]}')
            elif s[0] == 'dead': pass
            else: print('   ', s)
        t = bb['t']
        if t[0] == 'call':
            c = t[1]
            print(f'    {pl(t[3])} = CALL {c.get("p")} rp={c.get("rp")} b={str(c.get("b"))[:100]} ctor={c.get("ctor")} ({", ".join(op(a, T) for a in t[2])}) -> bb{t[4]}')
        elif t[0] == 'switch': print(f'    switch {op(t[1], T)} {t[3]} else bb{t[4]}')
        elif t[0] == 'assert': print(f'    assert {op(t[1], T)} == {t[2]} {t[3][0]} -> bb{t[4]}')
        elif t[0] == 'drop': print(f'    drop {pl(t[1])} -> bb{t[3]}')
        else: print('   ', t)
if __name__ == '__main__':
    d = load(sys.argv[1])
    if len(sys.argv) < 3:
        for b in d['bodies']: print(b['root'], b['key'][:200], len(b['blocks']))
    else:
        for b in d['bodies']:
            if sys.argv[2] in b['key'] and (len(sys.argv) < 4 or b['root']): show(b, d['types'])
