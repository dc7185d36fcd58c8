"""Rules about hashing and encryption of groups and the title key: C08."""
from terms import *
from engine import Engine, UNDEF, Unsupported
from models import StdModels, content_term, zeros, _merge, ZERO
from prover import Prover
from common import *
from rules_group import *
import rules_group
from report import TCTX as CTX

CLEAN = {'cat', 'sha1', 'aesenc', 'aesdec', 'sym', 'zero', 'lit', 'h', 'mem', 'fb', 'pcs', 'view', 'fld', 'byte'}


def understood(t, memo):
    """the term contains only known operations (nothing the analysis lost track of)"""
    if t.__class__ is tuple:
        return all(understood(x, memo) for x in t)
    if t.__class__ is not T:
        return True
    r = memo.get(t)
    if r is None:
        memo[t] = True
        r = memo[t] = t.op in CLEAN and all(understood(x, memo) for x in t.a)
    return r


def expected(buf, key):
    """pieces of a written group whose plain data is `buf` (a term of GS bytes)"""
    z16 = zeros(16)
    k = mk('cat', ((key, 0, 16),), 16)

    def C(ps):
        return content_term(list(_merge(tuple(ps))))
    h2, h1s, h0s = [], [], {}
    for s in range(8):
        h1 = []
        for c in range(8):
            b = s * 8 + c
            h0 = [(mk('sha1', C([(buf, b * BS + (j + 1) * 0x400, 0x400)])), 0, 20) for j in range(31)]
            h0s[b] = h0
            h1.append((mk('sha1', C(h0)), 0, 20))
        h1s.append(h1)
        h2.append((mk('sha1', C(h1)), 0, 20))
    out = []
    for b in range(64):
        hdr = C(h0s[b] + [(ZERO, 0, 20)] + h1s[b // 8] + [(ZERO, 0, 0x20)] + h2 + [(ZERO, 0, 0x20)])
        eh = mk('aesenc', k, z16, hdr)
        out.append((eh, 0, HDR))
        out.append((mk('aesenc', k, C([(eh, 0x3D0, 16)]), C([(buf, b * BS + HDR, BD)])), 0, BD))
    return out, mk('sha1', C(h2))


def plain(c):
    """piece list of a content: unpack 'view' of a whole cat"""
    ps = list(c)
    return ps


def explain(a, b):
    """which part of an encrypted header differs"""
    def hdr(t):
        return t.a[2] if t.__class__ is T and t.op == 'aesenc' else None
    if a.op != b.op:
        return f'{show(a, 3)} instead of {show(b, 3)}'
    if a.op == 'aesenc':
        if a.a[0] is not b.a[0]:
            return 'encrypted under another key'
        if a.a[1] is not b.a[1]:
            if not (a.a[1].op == 'cat' and b.a[1].op == 'cat' and a.a[1].a[0] and a.a[1].a[0][0][0] is not b.a[1].a[0][0][0] and a.a[1].a[0][0][1:] == b.a[1].a[0][0][1:]):
                return f'other IV: {show(a.a[1], 3)}'
        x, y = a.a[2], b.a[2]
        if x is not y and x.op == 'cat' and y.op == 'cat':
            if x.a[1] != y.a[1]:
                return f'{x.a[1]:#x} bytes encrypted instead of {y.a[1]:#x}'
            pos = 0
            for p, q in zip(x.a[0], y.a[0]):
                if p != q:
                    return f'at {pos:#x} of the encrypted area: {show(p[0], 3)} instead of {show(q[0], 3)}'
                pos += p[2]
        return 'content differs'
    return 'content differs'


def compare(rep, rule, where, pieces, want, what):
    got = list(_merge(tuple(pieces)))
    memo = {}
    if got == list(want):
        rep.ok(rule, where, what)
        return
    if not all(isint(o) and isint(l) for _, o, l in got) or not understood(tuple(got), memo):
        rep.undecided(rule, where, what + ': content not understood')
        return
    # walk both lists
    pos = 0
    for i in range(max(len(got), len(want))):
        if i >= len(got) or i >= len(want) or got[i] != want[i]:
            d = explain(got[i][0], want[i][0]) if i < len(got) and i < len(want) and got[i][1:] == want[i][1:] else \
                (f'piece {show(got[i][0], 3)} of {got[i][2]:#x} bytes' if i < len(got) else 'missing')
            rep.viol(rule, where, f'{what}: block {pos // BS}, offset {pos % BS:#x}: {d}')
            return
        pos += want[i][2]


def c08_seal(rep):
    prog = program('disc_riider')
    b = impl_method(prog, WR, 'Write', 'flush')
    if b is None:
        return
    run = GroupRun(b, WR, modified=1, opaque=lambda x, c: False)
    rep.entry(run.e)
    want, top = expected(run.ctx['cache0'], run.ctx['key0'])
    n = m = 0
    for ev in run.e.all_events():
        if ev.info.get('store'):
            n += 1
            compare(rep, 'C08.group', ev.where(), ev.info['content'], want, 'written group has the disc layout')
        if ev.info.get('h3') and ev.name == 'copy':
            m += 1
            c = ev.info['content']
            if tuple(c) == ((top, 0, 20),):
                rep.ok('C08.h3', ev.where(), 'digest of the subgroup digests')
            elif understood(tuple(c), {}):
                rep.viol('C08.h3', ev.where(), f'the H3 entry is not the digest of the 8 subgroup digests: {show(c[0][0], 3)}')
            else:
                rep.undecided('C08.h3', ev.where(), 'content not understood')
    if not n:
        rep.undecided('C08.group', where_body(b), 'no write of a group recognised')
    if not m:
        rep.undecided('C08.h3', where_body(b), 'no write of an H3 entry recognised')
    # functions that seal a group in Write::write: the same ones, or analysed on their own
    b2 = impl_method(prog, WR, 'Write', 'write')
    if b2 is None:
        return
    done = set(f.body.path for f in run.e.frames.values())
    for path in sorted(callees(prog, b2.path) & pure_crypto(prog)):
        if path in done or not encrypts(prog, path):
            continue
        seal_function(rep, prog, path)


def callees(prog, path):
    seen, work = set(), [path]
    while work:
        x = work.pop()
        for y in prog.cg.get(x, ()):
            if y not in seen:
                seen.add(y)
                work.append(y)
    return seen


def seal_function(rep, prog, path):
    bs = [b for b in prog.bodies.values() if b.path == path]
    if not bs:
        return
    b = bs[0]
    tys = [b.lty(i)['s'] for i in range(1, b.argc + 1)]
    try:
        bi = 1 + next(i for i, t in enumerate(tys) if 'u8; 2097152]' in t or '0x200000' in t)
        ki = 1 + next(i for i, t in enumerate(tys) if '[u8; 16]' in t)
    except StopIteration:
        return
    e = Engine(prog.crate, StdModels())
    buf, key = mk('sym', 'CACHE'), mk('sym', 'KEY')
    at = {}

    def setup(e, st, f):
        at['b'] = e.deref(st, st.store[('L', f.id, bi)])
        at['k'] = e.deref(st, st.store[('L', f.id, ki)])
        e.write(st, *at['b'], mk('cat', ((buf, 0, GS),), GS))
        e.write(st, *at['k'], mk('cat', ((key, 0, 16),), 16))
    e.start(b, setup=setup)
    e.run()
    rep.entry(e)
    want, top = expected(buf, key)
    for x in e.all_exits():
        v = e.read(x.st, *at['b'])
        if v.__class__ is T and v.op == 'cat':
            compare(rep, 'C08.group', where_body(b), v.a[0], want, 'written group has the disc layout')


def piece(t):
    return t.a[0][0] if t.__class__ is T and t.op == 'cat' and len(t.a[0]) == 1 else None


def rule_load(rep, b, short):
    run = GroupRun(b, short)
    rep.entry(run.e)
    key = run.ctx['key0']
    loads = {}
    sym = False
    for ev in run.e.all_events():
        if ev.name != 'crypt' or not run.is_cache(ev.args[0]) or ev.info['mode'] != 'aesdec':
            continue
        w = ev.where()
        d = ev.args[0]
        pk, pi, ps = piece(ev.info['key']), piece(ev.info['iv']), piece(ev.info['src'])
        if pk is None or pi is None or ps is None:
            rep.undecided('C08.decrypt', w, 'key, IV or source not understood')
            continue
        if not isint(d.a[2]) or not all(isint(x) for x in (pi[1], ps[1], ps[2])):
            sym = True
            if ps[0] is pi[0] and isint(sub(pi[1], d.a[2])) and sub(pi[1], d.a[2]) != 0x3D0 - HDR:
                rep.viol('C08.decrypt', w, 'the IV is not taken from 0x3D0 of the same block')
            continue
        if d.a[2] % BS == 0 and d.a[3] == HDR:
            continue          # decryption of the hash area
        good = True
        if pk != (key, 0, 16):
            rep.viol('C08.decrypt', w, 'decrypted under another key')
            good = False
        if ps[0].op not in ('fb',):
            if understood(ps[0], {}):
                rep.viol('C08.decrypt', w, f'block at {d.a[2]:#x} is not decrypted from the stored bytes but from {show(ps[0], 3)}')
            else:
                rep.undecided('C08.decrypt', w, 'source not understood')
            continue
        if d.a[2] % BS != HDR or d.a[3] != BD or ps[1] != d.a[2]:
            rep.viol('C08.decrypt', w, f'decrypted area {d.a[2]:#x}+{show(d.a[3])} is not the data area of a block')
            good = False
        if pi[0] is not ps[0] or pi[1] != d.a[2] - HDR + 0x3D0 or pi[2] != 16:
            rep.viol('C08.decrypt', w, f'block {d.a[2] // BS}: the IV is not the 16 encrypted bytes at 0x3D0 of its header')
            good = False
        if good:
            loads.setdefault((ps[0], w), []).append(d.a[2] // BS)
    for (a, w), bl in loads.items():
        if sorted(set(bl)) == list(range(64)):
            rep.ok('C08.decrypt', w, 'all 64 data areas are decrypted with the title key and the IV at 0x3D0')
        elif not sym:
            rep.viol('C08.decrypt', w, f'only {len(set(bl))} of 64 data areas are decrypted')
    if not loads and not sym:
        ld = [ev for ev in run.e.all_events() if ev.info.get('load') is not None]
        for ev in ld:
            rep.undecided('C08.decrypt', ev.where(), 'no decryption recognised after the load')


def c08_load(rep):
    prog = program('disc_riider')
    for b in (impl_method(prog, 'CryptPartReader', 'Read', 'read'), inherent(prog, 'CryptPartReader', 'read_into_vec')):
        if b is not None:
            rule_load(rep, b, 'CryptPartReader')


def c08_reload(rep):
    prog = program('disc_riider')
    b = impl_method(prog, WR, 'Write', 'write')
    if b is not None:
        rule_load(rep, b, WR)


def c08_title(rep):
    """title key: the functions that encrypt and decrypt it use the same common key and IV"""
    prog = program('disc_riider')
    found = {}
    for b in prog.bodies.values():
        if b.closure or b.path not in pure_crypto(prog):
            continue
        tys = [b.lty(i)['s'] for i in range(1, b.argc + 1)]
        if not any('[u8; 8]' in t for t in tys) or not any('[u8; 16]' in t for t in tys):
            continue
        e = Engine(prog.crate, StdModels())
        names = {}

        def setup(e, st, f, b=b, names=names):
            for i in range(1, b.argc + 1):
                v = st.store[('L', f.id, i)]
                t = b.lty(i)['s']
                for tag, n in (('[u8; 8]', 8), ('[u8; 16]', 16)):
                    if tag in t:
                        y = mk('sym', {8: 'TITLEID', 16: 'TITLEKEY'}[n])
                        if t.startswith('&'):
                            e.write(st, *e.deref(st, v), mk('cat', ((y, 0, n),), n))
                        else:
                            st.store[('L', f.id, i)] = mk('cat', ((y, 0, n),), n)
                if t in ('u8', 'usize'):
                    y = mk('sym', 'KEYINDEX')
                    NN.setdefault(y, 8)
                    st.store[('L', f.id, i)] = y
        e.start(b, setup=setup)
        e.run()
        rep.entry(e)
        evs = [ev for ev in e.all_events() if ev.name == 'crypt']
        if len(set((ev.info['mode'], ev.info['key'], ev.info['iv'], ev.info['src']) for ev in evs)) != 1:
            continue
        ev = evs[0]
        outs = [x.ret for x in e.all_exits()]
        found[ev.info['mode']] = (b, ev, outs)
    w = lambda m: where_body(found[m][0])
    want_iv = content_term([(mk('sym', 'TITLEID'), 0, 8), (ZERO, 0, 8)])
    src = content_term([(mk('sym', 'TITLEKEY'), 0, 16)])
    for m in found:
        b, ev, outs = found[m]
        if ev.info['iv'] is want_iv:
            rep.ok('C08.title-key', w(m), 'IV is the title id followed by zeros')
        elif understood(ev.info['iv'], {}):
            rep.viol('C08.title-key', w(m), f'the IV is not the title id followed by 8 zero bytes: {show(ev.info["iv"], 4)}')
        if ev.info['src'] is src:
            rep.ok('C08.title-key', w(m), 'the given key is transformed')
        elif understood(ev.info['src'], {}):
            rep.viol('C08.title-key', w(m), 'something other than the given key is transformed')
        for o in outs:
            if o.__class__ is T and o.op == 'cat' and understood(o, {}):
                if len(o.a[0]) == 1 and o.a[0][0][0].op == m and o.a[0][0][1:] == (0, 16):
                    rep.ok('C08.title-key', w(m), 'the transformed key is returned')
                else:
                    rep.viol('C08.title-key', w(m), 'the returned bytes are not the transformed key')
    if set(found) >= {'aesenc', 'aesdec'}:
        ka, kb = found['aesenc'][1].info['key'], found['aesdec'][1].info['key']
        if ka is kb:
            rep.ok('C08.title-key', w('aesenc'), 'encryption and decryption use the same common key')
        elif understood(ka, {}) and understood(kb, {}):
            rep.viol('C08.title-key', w('aesenc'), f'common keys differ: {show(ka, 4)} and {show(kb, 4)}')
        else:
            rep.undecided('C08.title-key', w('aesenc'), f'{show(ka, 4)} / {show(kb, 4)}')
