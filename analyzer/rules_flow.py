"""Error-flow analysis (C01) and transfer-count analysis (C02) on the MIR of every function written in the repository.

A failure (Err of a tracked Result) is followed along every path of the control-flow graph of the function that received it, through moves,
references, the adapters of Result/Option, the ? operator and discriminant tests.  It must end in an Err that is returned, in a panic, or in a
value handed on; a path on which it is dropped and the function still returns Ok (or goes on with the next element) is a violation."""
from program import program

CRATES = ('disc_riider', 'iso_tool', 'disc_riider_py')
GENERATED = ('__pymethod', '__pyfunction', '__pyo3', 'pyo3::', 'clap::', 'binrw::BinRead', 'binrw::BinWrite', 'std::fmt::')
IGNERR = ('std::convert::Infallible', 'usize', 'std::num::TryFromIntError', 'std::array::TryFromSliceError', 'std::fmt::Error', '!', '()')

KEEP = {'map', 'map_err', 'and_then', 'and', 'inspect', 'inspect_err', 'copied', 'cloned', 'flatten', 'into', 'from', 'clone', 'as_deref', 'as_deref_mut',
        'as_ref', 'as_mut', 'context', 'with_context'}
PANIC = {'unwrap', 'expect', 'unwrap_unchecked', 'into_ok'}
DEFAULT = {'unwrap_or', 'unwrap_or_default', 'map_or', 'or', 'iter', 'iter_mut', 'into_iter', 'unwrap_or_else', 'map_or_else', 'or_else'}


def generated(b):
    return any(g in b.path for g in GENERATED) or b.path.startswith('<') and ('clap' in b.path or 'pyo3' in b.path)


def result_err(prog, t):
    """type of the error if the type is a tracked Result"""
    ty = prog.types[t]
    if ty['k'] == 'adt' and ty.get('n') == 'std::result::Result':
        e = prog.types[ty['a'][1]]
        if e['s'] in IGNERR or e['s'].startswith('std::ops::Infallible'):
            return None
        return e
    return None


def is_opt(prog, t):
    ty = prog.types[t]
    return ty['k'] == 'adt' and ty.get('n') == 'std::option::Option'


def strip(ty, prog):
    while ty['k'] in ('ref', 'ptr') and 'e' in ty:
        ty = prog.types[ty['e']]
    return ty


def user_callback(c):
    """failures of user supplied python callables are exempt"""
    p = (c.get('rp') or '') + ' ' + (c.get('p') or '')
    return 'pyo3' in p and c.get('m') in ('call', 'call0', 'call1', 'call_method', 'call_method0', 'call_method1', 'extract', 'call_bound', 'is_truthy', 'is_true')


class Way(Exception):
    pass


class Flow:
    """explores all paths from one source"""

    def __init__(self, b, src, limit=6000, benign=False):
        self.benign = benign
        self.b = b
        self.prog = b.prog
        self.src = src           # (block, dest local) of the source
        self.bad = None
        self.limit = limit
        self.escaped = False
        self.unknown = False
        self.gives = None

    def run(self, block, env, start=0):
        """env: local -> tag"""
        seen = set()
        work = [(block, start, env, False, (), frozenset())]
        n = 0
        while work and self.bad is None:
            bb, si, env, failed, trail, kinds = work.pop()
            key = (bb, si, frozenset(env.items()), failed, kinds)
            if key in seen:
                continue
            seen.add(key)
            n += 1
            if n > self.limit:
                self.unknown = True
                return
            for nxt in self.step(bb, si, dict(env), failed, trail, kinds):
                work.append(nxt)

    # ------------------------------------------------------------------
    def optag(self, env, o):
        p = o.get('m') or o.get('c')
        if p is None:
            return None
        return self.ptag(env, p)

    def ptag(self, env, p):
        t = env.get(p[0])
        if t is None:
            return None
        for e in p[1:]:
            if e == '*':
                if t.startswith('&'):
                    t = t[1:]
                else:
                    return None
            elif e[0] == 'd':
                continue
            elif e[0] == 'f':
                if t.startswith('T'):
                    t = t[1:].split('|')[e[1]]
                    if t == '-':
                        return None
                    continue
                if t in ('R', 'C', 'XErr', 'E', 'XBrk'):
                    # payload: after the test
                    return 'E'
                return None
            else:
                return None
        return t

    def fail(self, what, line, trail):
        self.bad = (what, line, trail)

    def step(self, bb, si, env, failed, trail, kinds):
        b = self.b
        blk = b.blocks[bb]
        for k in range(si, len(blk['s'])):
            s = blk['s'][k]
            if s[0] != '=':
                continue
            dst, rv = s[1], s[2]
            tag = None
            if rv[0] == 'use':
                o = rv[1]
                tag = self.optag(env, o)
                if tag is None and 'k' in o and dst == [0] and failed and self.src[0] == 'filter':
                    tag = {'1': 'K1', '0': 'K0'}.get(str(o['k'].get('v')))
                p = o.get('m')
                if tag and p is not None and len(p) == 1 and tag[0] != '&':
                    env.pop(p[0], None)
            elif rv[0] == 'ref':
                t = self.ptag(env, rv[1])
                if t:
                    tag = '&' + t
            elif rv[0] == 'discr':
                t = self.ptag(env, rv[1])
                if t in ('R', 'C', 'O', 'O-', 'XErr', 'XOk', 'XSome', 'XNone', 'XBrk'):
                    tag = 'D' + t
            elif rv[0] == 'agg':
                kind = rv[1]
                ops = [self.optag(env, o) for o in rv[2]]
                pend = [t for t in ops if t and t.lstrip('&') in ('R', 'C', 'O', 'O-', 'E')]
                if kind[0] == 'adt' and kind[1] in ('std::result::Result', 'std::option::Option'):
                    v = kind[2] if len(kind) > 2 else None
                    name = self.variant(kind)
                    if name == 'Err':
                        tag = 'XErr'
                    elif name == 'Ok':
                        tag = 'XOk' if not pend else 'XOkE'
                    elif name == 'Some':
                        tag = 'XSome' if not pend else 'XSomeE'
                    elif name == 'None':
                        tag = 'XNone'
                elif kind[0] == 'tuple' and any(ops) and not any(t in ('R', 'C', 'O', 'O-') for t in ops if t) and not any(t and '|' in t for t in ops):
                    tag = 'T' + '|'.join(t or '-' for t in ops)
                elif pend:
                    if kind[0] == 'closure':
                        # captured by a closure: handed on
                        self.escaped = True
                        if any(t in ('R', 'C', 'O', 'O-') for t in pend):
                            return []
                        tag = 'E'
                    elif any(t in ('R', 'C', 'O', 'O-') for t in pend):
                        self.escaped = True
                        return []
                    else:
                        tag = 'E'
            elif rv[0] == 'un' and rv[1] == 'Not':
                t = self.optag(env, rv[2])
                if t in ('BT', 'BF'):
                    tag = 'BF' if t == 'BT' else 'BT'
                if t in ('B+', 'B-'):
                    tag = 'B-' if t == 'B+' else 'B+'
            elif rv[0] == 'cast':
                t = next((self.optag(env, x) for x in rv[1:] if isinstance(x, dict)), None)
                if t:
                    tag = t
            if len(dst) == 1:
                if tag:
                    env[dst[0]] = tag
                else:
                    if env.get(dst[0]) in ('R', 'C', 'O') and not failed:
                        self.fail('the result is overwritten without having been looked at', s[3], trail)
                        return []
                    env.pop(dst[0], None)
            elif tag:
                # stored behind a pointer or in a field
                t = tag.lstrip('&')
                base = b.locals[dst[0]]
                if t in ('R', 'C', 'O', 'O-', 'E', 'XErr'):
                    self.escaped = True
                    if t != 'XErr' and not failed:
                        return []
                    if failed:
                        # handed on through memory of the caller
                        return []
        t = blk['t']
        line = blk['l']
        trail = trail + (line,)
        if t[0] == 'goto':
            return [(t[1], 0, env, failed, trail, kinds)]
        if t[0] == 'drop':
            p = t[1]
            if len(p) == 1 and env.get(p[0]) in ('R', 'C') and not failed:
                env.pop(p[0])
                env[-1] = f'the result is dropped without having been looked at (line {line})'
            if len(p) == 1 and env.get(p[0]) == 'E':
                env.pop(p[0])
            return [(t[3], 0, env, failed, trail, kinds)]
        if t[0] == 'assert':
            return [(t[4], 0, env, failed, trail, kinds)]
        if t[0] == 'ret':
            self.at_return(env, failed, trail, line, kinds)
            return []
        if t[0] == 'switch':
            tag = self.optag(env, t[1])
            if tag is None:
                return [(x, 0, env, failed, trail, kinds) for x in dict.fromkeys([y for _, y in t[3]] + [t[4]]) if self.live(x)]
            out = []
            if tag in ('BT', 'BF'):
                zero = next((x for v, x in t[3] if v == '0'), t[4])
                one = next((x for v, x in t[3] if v != '0'), t[4])
                return [(one if tag == 'BT' else zero, 0, env, failed, trail, kinds)]
            if tag in ('B+', 'B-'):
                # 0 = false
                for v, x in list(t[3]) + [(None, t[4])]:
                    val = (v != '0') if v is not None else None
                    if v is None:
                        val = any(a == '0' for a, _ in t[3])
                    bad = (val is False) if tag == 'B+' else (val is True)
                    if bad:
                        out.append((x, 0, self.known(env), True, trail, kinds))
                return out
            if tag.startswith('D'):
                k = tag[1:]
                fv = {'R': '1', 'C': '1', 'O': '0', 'O-': '1', 'XErr': '1', 'XBrk': '1', 'XOk': '0', 'XSome': '1', 'XNone': '0'}.get(k)
                if fv is None:
                    return [(x, 0, env, failed, trail, kinds) for x in dict.fromkeys([y for _, y in t[3]] + [t[4]]) if self.live(x)]
                tgt = next((x for v, x in t[3] if v == fv), None)
                if tgt is None:
                    tgt = t[4]
                if not self.live(tgt):
                    return []
                return [(tgt, 0, self.known(env) if k in ('R', 'C', 'O', 'O-') else env, failed or k in ('R', 'C', 'O', 'O-'), trail, kinds)]
            return [(x, 0, env, failed, trail, kinds) for x in dict.fromkeys([y for _, y in t[3]] + [t[4]]) if self.live(x)]
        if t[0] == 'call':
            return self.call(bb, t, env, failed, trail, kinds, line)
        return []

    def known(self, env):
        """environment on a path where the failure is certain"""
        out = {}
        for l, t in env.items():
            if l == -1:
                out[l] = t
                continue
            if t.startswith('T'):
                out[l] = 'T' + '|'.join(self.known({0: x}).get(0, '-') if x != '-' else '-' for x in t[1:].split('|'))
                continue
            r = t
            while r.startswith('&'):
                r = r[1:]
            if r in ('R', 'C'):
                t = t[:len(t) - len(r)] + ('XErr' if r == 'R' else 'E')
            elif r == 'O':
                t = 'XNone' if t == 'O' else None
            elif r.startswith('D') or r in ('B+', 'B-'):
                t = None
            if t:
                out[l] = t
        return out

    def live(self, x):
        blk = self.b.blocks[x]
        return not (blk['cl'] or (blk['t'][0] == 'unreach'))

    def variant(self, kind):
        for x in kind[2:]:
            if x in ('Ok', 'Err', 'Some', 'None'):
                return x
            if isinstance(x, int):
                return (['Ok', 'Err'] if kind[1].endswith('Result') else ['None', 'Some'])[x]
        return None

    def at_return(self, env, failed, trail, line, kinds):
        r = env.get(0)
        if -1 in env:
            if r not in ('XErr', 'E'):
                self.fail(env[-1], line, trail)
            return
        rt = self.prog.types[self.b.locals[0][0]]
        isres = rt['k'] == 'adt' and rt.get('n') == 'std::result::Result'
        if self.src[0] == 'filter':
            keep = self.src[1]
            if r == ('B+' if keep else 'B-') or failed and r == ('K0' if keep else 'K1'):
                self.fail('the failed element is filtered out', line, trail)
            return
        if not self.b.closure:
            if r in ('O', 'B+', 'B-'):
                self.gives = r
            elif failed and r == 'XNone':
                self.gives = 'O'
        if r and r.lstrip('&') in ('R', 'C', 'XErr', 'E', 'B+', 'B-', 'XNone', 'O-', 'XOkE', 'XSomeE', 'D'):
            return
        if r == 'O':
            if self.b.closure and self.src[0] == 'param':
                self.fail('the failure of an element is turned into its absence', line, trail)
            return
        if failed:
            if self.escaped:
                return
            if isres:
                if kinds and self.benign:
                    return
                if r == 'XOk':
                    self.fail('the failure is known and success is returned', line, trail)
                elif r is None and self.okret(trail):
                    self.fail('the failure is known and success is returned', line, trail)
                return
            if rt['s'] == '()' or rt['s'].startswith('std::vec::Vec') or rt['s'] in ('bool',):
                if rt['s'] == '()':
                    self.fail('the failure is known and the function returns normally', line, trail)
            return
        # never looked at
        if any(t in ('R', 'C', 'O') or t.startswith('T') and 'B-' in t.split('|')[-1] for t in env.values()):
            self.fail('the result is never looked at', line, trail)

    def okret(self, trail):
        return False

    # ------------------------------------------------------------------
    def call(self, bb, t, env, failed, trail, kinds, line):
        c, args, dst, tgt = t[1], t[2], t[3], t[4]
        m = c.get('m') or ''
        p = c.get('p') or ''
        rp = c.get('rp') or p
        if self.src[0] == bb and self.src[1] == 'call' and trail[:-1]:
            # the same operation again
            if failed and 'kind' not in kinds:
                self.fail('the failure is known and the loop goes on with the next element', line, trail)
            elif -1 in env:
                self.fail(env[-1], line, trail)
            elif not failed and any(t_ in ('O', 'R', 'C') for t_ in env.values()):
                self.fail('the result is not looked at before the next round of the loop', line, trail)
            return []
        if tgt is None:
            return []
        tags = [self.optag(env, a) for a in args]
        res = None
        recv = tags[0] if tags else None
        r0 = recv.lstrip('&') if recv else None
        onres = 'Result' in p or 'Result' in rp or 'Option' in p
        dty = self.prog.types[t[5]] if len(t) > 5 and isinstance(t[5], int) else None

        def consume():
            for a in args:
                q = a.get('m')
                if q is not None and len(q) == 1 and not (env.get(q[0]) or '').startswith('&'):
                    env.pop(q[0], None)

        if failed and m == 'kind' and r0 == 'E':
            kinds = kinds | {'kind'}
        if r0 in ('R', 'O', 'C', 'O-') and not failed:
            ref = recv.startswith('&')
            if m == 'branch':
                res = 'C'
            elif m in ('from_residual', 'from_output'):
                res = 'R'
            elif r0 == 'R':
                if m in KEEP or m == 'transpose':
                    res = 'R'
                elif m == 'ok':
                    res = 'O'
                elif m == 'err':
                    res = 'O-'
                elif m in ('is_ok', 'is_ok_and'):
                    res = 'B+'
                elif m in ('is_err', 'is_err_and'):
                    res = 'B-'
                elif m in PANIC:
                    return []
                elif m in ('expect_err', 'unwrap_err'):
                    res = 'E'
                elif m == 'drop' and 'mem' in p:
                    consume()
                    env[-1] = f'the result is dropped without having been looked at (line {line})'
                    return [(tgt, 0, env, failed, trail, kinds)]
                elif m in DEFAULT and onres:
                    if m in ('unwrap_or_else', 'map_or_else', 'or_else'):
                        v = self.closure_ok(args[1] if len(args) > 1 else None, env, dty)
                        if v == 'div':
                            return []
                        if v == 'err':
                            consume()
                            env[dst[0]] = 'R'
                            return [(tgt, 0, env, failed, trail, kinds)]
                        if v is None:
                            self.escaped = True
                            return []
                    if dty is not None and dty['k'] == 'adt' and dty.get('n') == 'std::result::Result' and m in ('map_or',):
                        self.escaped = True
                        return []
                    self.fail(f'the failure is replaced by a value ({m})', line, trail)
                    return []
                elif ref and m in ('fmt', 'eq', 'ne', 'new_debug', 'new_display'):
                    res = None
                    return [(tgt, 0, env, failed, trail, kinds)]
                else:
                    # handed on to another function
                    if dty is not None and dty['k'] == 'adt' and dty.get('n') == 'std::result::Result':
                        res = 'R'
                    else:
                        self.escaped = True
                        return []
            elif r0 == 'O':
                if m in ('ok_or', 'ok_or_else'):
                    res = 'R'
                elif m in ('map', 'and_then', 'filter', 'as_ref', 'as_mut', 'copied', 'cloned', 'inspect', 'flatten', 'zip', 'take'):
                    res = 'O'
                elif m in ('is_some', 'is_some_and'):
                    res = 'B+'
                elif m in ('is_none', 'is_none_or'):
                    res = 'B-'
                elif m in PANIC:
                    return []
                elif m in ('unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'map_or', 'or', 'map_or_else', 'or_else'):
                    self.fail(f'the failure is replaced by a value ({m})', line, trail)
                    return []
                else:
                    self.escaped = True
                    return []
            elif r0 == 'O-':
                if m in ('is_some', 'is_some_and'):
                    res = 'B-'
                elif m in ('is_none',):
                    res = 'B+'
                elif m in ('map', 'as_ref', 'as_mut', 'take', 'inspect'):
                    res = 'O-'
                elif m == 'map_or' or m == 'ok_or':
                    self.escaped = True
                    return []
                else:
                    self.escaped = True
                    return []
            else:
                self.escaped = True
                return []
            consume()
            if len(dst) == 1:
                env[dst[0]] = res
                if dst == [0] and m == 'from_residual' and res is None:
                    env[0] = 'XErr'
            else:
                self.escaped = True
                return []
            return [(tgt, 0, env, failed, trail, kinds)]
        # other positions than the receiver
        if not failed:
            moved = [i for i, a in enumerate(args) if i and tags[i] and tags[i].lstrip('&') in ('R', 'O', 'C')]
            if moved:
                if m in ('and', 'or', 'push', 'insert', 'send', 'replace'):
                    pass
                self.escaped = True
                return []
        else:
            # what happens with the error value
            if r0 == 'XErr':
                kn = {'branch': 'XBrk', 'is_err': 'BT', 'is_ok': 'BF', 'ok': 'XNone', 'err': 'XSome', 'map': 'XErr', 'map_err': 'XErr', 'and_then': 'XErr',
                      'inspect_err': 'XErr', 'as_ref': '&XErr', 'as_mut': '&XErr', 'and': 'XErr', 'inspect': 'XErr', 'clone': 'XErr'}.get(m)
                if m in PANIC:
                    return []
                if kn and (onres or m == 'branch') and len(dst) == 1:
                    consume()
                    env[dst[0]] = 'XErr' if kn == '&XErr' else kn
                    return [(tgt, 0, env, failed, trail, kinds)]
            et = [i for i, a in enumerate(args) if tags[i] in ('E', 'XErr') and 'm' in a]
            if et:
                if m == 'drop' and 'mem' in p:
                    pass
                elif m in ('from_residual',):
                    res = 'XErr'
                elif m in ('ok',) and onres:
                    res = 'XNone'
                elif m in ('from', 'into', 'new', 'other', 'map_err', 'branch', 'to_string', 'context') or \
                        (dty is not None and dty['k'] == 'adt' and dty.get('n') == 'std::result::Result'):
                    res = 'E'
                else:
                    self.escaped = True
                    return []
            elif m == 'exit' and 'process' in p:
                return []
        consume()
        if len(dst) == 1:
            if env.get(dst[0]) in ('R', 'C') and not failed:
                self.fail('the result is overwritten without having been looked at', line, trail)
                return []
            if res:
                env[dst[0]] = res
            elif dst == [0] and m == 'from_residual':
                env[0] = 'XErr'
            else:
                env.pop(dst[0], None)
        return [(tgt, 0, env, failed, trail, kinds)]

    def closure_ok(self, o, env, dty):
        """what a closure given to unwrap_or_else / or_else does with the failure: 'div' diverges, 'err' always an error, 'val' a value"""
        cb = closure_of(self.b, o)
        if cb is None:
            return None
        # reachable returns
        seen, st = set(), [0]
        oks = errs = rets = 0
        while st:
            x = st.pop()
            if x in seen or cb.blocks[x]['cl']:
                continue
            seen.add(x)
            for s in cb.blocks[x]['s']:
                if s[0] == '=' and s[1] == [0] and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == 'std::result::Result':
                    if self.variant(s[2][1]) == 'Ok':
                        oks += 1
                    else:
                        errs += 1
            if cb.blocks[x]['t'][0] == 'ret':
                rets += 1
            st.extend(cb.succs(x))
        if not rets:
            return 'div'
        rt = cb.prog.types[cb.locals[0][0]]
        if rt['k'] == 'adt' and rt.get('n') == 'std::result::Result':
            if oks:
                return 'val'
            return 'err' if errs else None
        return 'val'


def closure_of(b, o):
    """body of the closure an operand denotes"""
    if o is None:
        return None
    l = (o.get('m') or o.get('c') or [None])[0]
    if l is None:
        t = b.prog.types[o['k']['t']] if 'k' in o and isinstance(o['k'].get('t'), int) else None
        if t is not None and t['k'] == 'closure':
            return next((x for x in b.prog.roots if x.path == t.get('n')), None)
        return None
    for blk in b.blocks:
        for s in blk['s']:
            if s[0] == '=' and s[1] == [l] and s[2][0] == 'agg' and s[2][1][0] == 'closure':
                return b.prog.bodies.get(s[2][1][2]) or next((x for x in b.prog.bodies.values() if x.path == s[2][1][1]), None)
    return None


def callback_only(b, t):
    """a call running a closure whose only failures are those of user supplied python callables (Python::attach)"""
    c = t[1]
    if not ('pyo3' in (c.get('rp') or c.get('p') or '') and c.get('m') in ('attach', 'with_gil', 'try_attach', 'assume_attached')):
        return False
    for a in t[2]:
        cb = closure_of(b, a)
        if cb is not None:
            cb.prep()
            n = 0
            for i in cb.order:
                tt = cb.blocks[i]['t']
                if tt[0] == 'call' and user_callback(tt[1]):
                    n += 1
            return n > 0 and not list(sources(cb.prog, cb))
    return False


def own_bodies():
    for cr in CRATES:
        prog = program(cr)
        seen = set()
        for b in prog.roots + [x for x in prog.bodies.values() if not x.root]:
            if b.file.startswith('/') or generated(b) or b.path in seen:
                continue
            seen.add(b.path)
            yield cr, prog, b


def sources(prog, b, helpers={}):
    """(description, (block,'call') or ('param',) , start block, start statement, env)"""
    b.prep()
    for l in range(1, b.argc + 1):
        if result_err(prog, b.locals[l][0]):
            yield f'argument {b.locals[l][1] or l}', ('param', None), 0, 0, {l: 'R'}, b.line
    # closures receive their arguments as locals too (argc counts them)
    for i in b.order:
        blk = b.blocks[i]
        for k, s in enumerate(blk['s']):
            if s[0] == '=' and len(s[1]) == 1 and s[2][0] == 'use':
                p = s[2][1].get('m')
                if p is not None and len(p) > 1 and any(isinstance(e, list) and e[0] == 'd' for e in p[1:]) and result_err(prog, b.locals[s[1][0]][0]):
                    yield 'element', (i, 'elem'), i, k + 1, {s[1][0]: 'R'}, s[3]
        t = blk['t']
        if t[0] == 'call' and t[4] is not None and len(t[3]) == 1 and isinstance(t[5], int):
            c = t[1]
            if c.get('m') in ('branch', 'from_residual', 'from_output'):
                continue
            if 'encoding_rs' in (c.get('rp') or c.get('p') or '') and c.get('m') in ('decode', 'encode', 'decode_with_bom_removal', 'decode_without_bom_handling'):
                dt = prog.types[b.locals[t[3][0]][0]]
                if dt['k'] == 'tuple' and prog.types[dt['a'][-1]]['k'] == 'bool':
                    yield (c.get('rp') or c.get('p')), (i, 'call'), t[4], 0, {t[3][0]: 'T' + '-|' * (len(dt['a']) - 1) + 'B-'}, blk['l']
                    continue
            h = helpers.get(c.get('rp') or c.get('p'))
            if h:
                yield (c.get('rp') or c.get('p')), (i, 'call'), t[4], 0, {t[3][0]: h}, blk['l']
                continue
            e = result_err(prog, b.locals[t[3][0]][0])
            if e is None or user_callback(c) or callback_only(b, t):
                continue
            # adapters continue an earlier source
            if any(result_err(prog, at) for at in (t[6] if len(t) > 6 else []) if isinstance(at, int)) or \
                    any(strip(prog.types[at], prog).get('n') == 'std::result::Result' for at in (t[6] if len(t) > 6 else []) if isinstance(at, int)):
                continue
            yield (c.get('rp') or c.get('p') or '?'), (i, 'call'), t[4], 0, {t[3][0]: 'R'}, blk['l']


DROPPING = {'filter_map': 'ok', 'flat_map': 'ok', 'map_while': 'ok', 'find_map': 'ok'}
KEEPING = ('filter', 'take_while')
RESITER = ('std::fs::ReadDir', 'std::io::Bytes', 'std::io::Lines', 'std::io::Split')


def iterators(prog, b):
    """adapters that lose failed elements: (description, line, message or None)"""
    b.prep()
    for i in b.order:
        t = b.blocks[i]['t']
        if t[0] != 'call':
            continue
        c = t[1]
        m = c.get('m') or ''
        if c.get('tr') != 'std::iter::Iterator':
            continue
        fns = [a['k'].get('fn') for a in t[2][1:] if 'k' in a and a['k'].get('fn')]
        for f in fns:
            q = (f.get('rp') or f.get('p') or '')
            if 'Result' not in q:
                continue
            args = f.get('ra') or f.get('a') or []
            if len(args) > 1 and prog.types[args[1]]['s'] in IGNERR:
                continue
            if m in DROPPING and f.get('m') in ('ok', 'into_iter') or m in KEEPING and f.get('m') == 'is_ok':
                yield f'{m}(Result::{f["m"]})', b.blocks[i]['l'], 'failed elements of the iterator are left out'
            else:
                yield f'{m}(Result::{f.get("m")})', b.blocks[i]['l'], None
        if m in ('flatten', 'count', 'last', 'for_each') and c.get('a'):
            it = prog.types[c['a'][0]]
            while it['k'] == 'adt' and it.get('n', '').startswith('std::iter::') and it.get('a') and it['n'].split('::')[-1] in ('Skip', 'Take', 'StepBy', 'Rev', 'Fuse', 'Peekable', 'Filter', 'Inspect', 'SkipWhile', 'TakeWhile'):
                it = prog.types[it['a'][0]]
            if it['k'] == 'adt' and it.get('n') in RESITER and m == 'flatten':
                yield m, b.blocks[i]['l'], 'failed elements of the iterator are left out'
        if m in KEEPING + ('skip_while',):
            for a in t[2][1:]:
                cb = closure_of(b, a)
                if cb is None or cb.argc < 2:
                    continue
                ty = strip(prog.types[cb.locals[2][0]], prog)
                if ty['k'] == 'adt' and ty.get('n') == 'std::result::Result' and prog.types[ty['a'][1]]['s'] not in IGNERR:
                    k = 0
                    x = prog.types[cb.locals[2][0]]
                    while x['k'] in ('ref', 'ptr') and 'e' in x:
                        k += 1
                        x = prog.types[x['e']]
                    cb.prep()
                    f = Flow(cb, ('filter', m != 'skip_while'))
                    f.run(0, {2: '&' * k + 'R'})
                    yield f'{m}(closure)', b.blocks[i]['l'], f.bad[0] if f.bad else None


WRITES = ('write', 'write_all', 'write_be', 'write_le', 'write_fmt', 'write_type', 'write_vectored', 'write_options')


class BufState:
    """buffered writers created here: what they still hold when they are dropped on a successful way is lost silently if writing it fails"""

    def __init__(self, b):
        self.b = b
        self.bad = None

    def run(self):
        b = self.b
        prog = b.prog
        b.prep()
        bufs = set()
        for l in range(1, len(b.locals)):
            ty = prog.types[b.locals[l][0]]
            if ty['k'] == 'adt' and ty.get('n') in ('std::io::BufWriter', 'std::io::LineWriter') and l > b.argc:
                bufs.add(l)
        if not bufs:
            return 0
        seen = set()
        # env: local -> 'u' unflushed / 'f'; refs: local -> buffer
        work = [(0, frozenset(), frozenset(), None, None)]
        n = 0
        while work and self.bad is None:
            st = work.pop()
            if st in seen:
                continue
            seen.add(st)
            n += 1
            if n > 8000:
                return len(bufs)
            bb, env, refs, ret, lost = st
            env, refs = dict(env), dict(refs)
            blk = b.blocks[bb]
            for s in blk['s']:
                if s[0] != '=':
                    continue
                d, rv = s[1], s[2]
                if rv[0] == 'ref' and rv[1][0] in bufs and len(rv[1]) == 1:
                    if len(d) == 1:
                        refs[d[0]] = rv[1][0]
                    else:
                        env.pop(rv[1][0], None)
                elif rv[0] == 'ref' and rv[1][0] in refs and rv[1][1:] == ['*'] and len(d) == 1:
                    refs[d[0]] = refs[rv[1][0]]
                elif rv[0] == 'use' and (rv[1].get('m') or rv[1].get('c')):
                    q = rv[1].get('m') or rv[1].get('c')
                    if q[0] in refs and len(q) == 1 and len(d) == 1:
                        refs[d[0]] = refs[q[0]]
                    elif q[0] in bufs and len(q) == 1:
                        st_ = env.pop(q[0], None)
                        if len(d) == 1 and d[0] in bufs:
                            env[d[0]] = st_
                elif rv[0] == 'agg':
                    for o in rv[2]:
                        q = o.get('m') or o.get('c')
                        if q and q[0] in refs:
                            env[refs[q[0]]] = None
                        if q and q[0] in bufs:
                            env[q[0]] = None
                if d == [0]:
                    if rv[0] == 'agg' and rv[1][0] == 'adt' and rv[1][1] == 'std::result::Result':
                        ret = Flow.variant(None, rv[1])
                    else:
                        ret = '?'
            t = blk['t']
            nx = b.succ[bb]
            if t[0] == 'drop' and len(t[1]) == 1 and env.get(t[1][0]) == 'u':
                lost = lost or blk['l']
                env.pop(t[1][0])
            elif t[0] == 'call':
                c = t[1]
                m = c.get('m') or ''
                if t[3] == [0]:
                    ret = 'Err' if m == 'from_residual' else '?'
                for i, a in enumerate(t[2]):
                    q = a.get('m') or a.get('c')
                    if not q:
                        continue
                    if q[0] in refs and len(q) == 1:
                        if i == 0 and m in WRITES:
                            if env.get(refs[q[0]], 0) != None:
                                env[refs[q[0]]] = 'u'
                        elif i == 0 and m in ('flush', 'seek', 'rewind'):
                            env[refs[q[0]]] = 'f'
                        elif m in ('copy',) and 'io' in (c.get('p') or ''):
                            env[refs[q[0]]] = 'u'
                        elif m in ('by_ref', 'get_ref', 'deref', 'buffer', 'capacity', 'stream_position'):
                            pass
                        else:
                            env[refs[q[0]]] = None
                    elif q[0] in bufs and len(q) == 1:
                        if m == 'drop' and env.get(q[0]) == 'u':
                            lost = lost or blk['l']
                        env.pop(q[0], None)
                if len(t[3]) == 1 and t[3][0] in bufs:
                    env[t[3][0]] = 'f'
            elif t[0] == 'ret':
                rt = prog.types[b.locals[0][0]]
                if lost and (ret == 'Ok' or rt['s'] == '()'):
                    self.bad = lost
                continue
            for x in nx:
                work.append((x, frozenset(env.items()), frozenset(refs.items()), ret, lost))
        return len(bufs)


def c01_flow(rep):
    nb = ns = 0
    # functions that report failure by None or a bool: their callers are responsible
    helpers = {}
    for _ in range(3):
        n0 = len(helpers)
        for cr, prog, b in own_bodies():
            rt = prog.types[b.locals[0][0]]
            if b.closure or not (rt['k'] == 'bool' or is_opt(prog, b.locals[0][0])):
                continue
            for what, src, blk, si, env, line in sources(prog, b, helpers):
                f = Flow(b, src)
                f.run(blk, env, si)
                if f.gives:
                    helpers[b.path] = f.gives
        if len(helpers) == n0:
            break
    for cr, prog, b in own_bodies():
        nb += 1
        for what, src, blk, si, env, line in sources(prog, b, helpers):
            ns += 1
            f = Flow(b, src, benign=what.split('::')[-1] in ('create_dir', 'remove_file', 'remove_dir', 'remove_dir_all'))
            f.run(blk, env, si)
            w = f'{b.file}:{line} in {b.short()}'
            if f.bad:
                msg, l, trail = f.bad
                ln = [x for i, x in enumerate(trail) if i == 0 or x != trail[i - 1]]
                rep.viol('C01.flow', w, f'failure of {what}: {msg} (line {l}); way: ' + ' -> '.join(map(str, ln[-30:])))
            elif f.unknown:
                rep.undecided('C01.flow', w, f'failure of {what}: too many paths')
            else:
                rep.ok('C01.flow', w, f'failure of {what} is returned, handed on or panics on every path')
        for what, line, msg in iterators(prog, b):
            w = f'{b.file}:{line} in {b.short()}'
            ns += 1
            if msg:
                rep.viol('C01.iterator', w, f'{what}: {msg}')
            else:
                rep.ok('C01.iterator', w, f'{what} keeps failed elements')
        bs = BufState(b)
        if bs.run():
            w = f'{b.file}:{b.line} in {b.short()}'
            if bs.bad:
                rep.viol('C01.buffer', w, f'a buffered writer is dropped at line {bs.bad} with unwritten data and success is returned: a failing write would be lost')
            else:
                rep.ok('C01.buffer', w, 'buffered writers are flushed before they are dropped on successful ways')
    rep.analysed.append({'entry': 'all functions', 'functions': nb, 'sources': ns})
