"""Rules about extraction to and rebuilding from a folder: C02 (transfers), C04 (containment), C18 (agreement), C20 (buffers), C21 (destination)."""
import re
from terms import *
from engine import Engine, Unsupported
from models import StdModels
from prover import Prover, phi_in
from common import *
from report import TCTX, subtractions

SINKS = {'create', 'create_new', 'write', 'create_dir', 'create_dir_all', 'remove_file', 'remove_dir', 'remove_dir_all', 'rename', 'copy', 'hard_link', 'openopts'}


def adt(t):
    return t['n'].split('::')[-1] if t and t['k'] == 'adt' else None


def where_body(b):
    return f'{b.file}:{b.line} in {b.short()}'


def own(ev):
    return not ev.file.startswith('/')


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.__class__ is tuple:
            todo.extend(x)
        elif x.__class__ is T and x not in seen:
            seen.add(x)
            yield x
            todo.extend(x.a)


# ------------------------------------------------------------------ formatted text
def fmt_pieces(t):
    """pieces (python str or term) of a formatted string; None if not understood"""
    if not (t.__class__ is T and t.op == 'app' and t.a[0] == 'format'):
        return None
    f = t.a[1]
    if not (f.__class__ is T and f.op == 'app' and f.a[0] == 'fmtargs'):
        return None
    if len(f.a) == 2:
        return [f.a[1].a[0]] if f.a[1].__class__ is T and f.a[1].op == 'str' else None
    tmpl, arr = f.a[1], f.a[2]
    if not (tmpl.__class__ is T and tmpl.op == 'cat' and len(tmpl.a[0]) == 1 and tmpl.a[0][0][0].op == 'lit'):
        return None
    raw = bytes.fromhex(tmpl.a[0][0][0].a[0])
    out, i, n = [], 0, 0
    while i < len(raw):
        b = raw[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(raw[i + 1:i + 1 + b].decode('utf-8', 'replace'))
            i += 1 + b
        elif b == 0xC0:
            x = proj(arr, ('idx', n)) if arr.__class__ is T else None
            n += 1
            i += 1
            if not (x.__class__ is T and x.op == 'app' and x.a[0] == 'fmtarg' and x.a[1].a[0] == 'new_display'):
                return None
            out.append(x.a[2])
        else:
            return None
    return out


def simplify_name(t):
    """a text built by formatting exactly one value is that value"""
    for _ in range(3):
        p = fmt_pieces(t)
        if p is None or len(p) != 1:
            break
        t = mk('str', p[0]) if p[0].__class__ is str else p[0]
    return t


# ------------------------------------------------------------------ runs
class XRun:
    """one entry; callbacks handed to tree walks and the whole-range reader stay calls of their own"""

    def __init__(self, body, extra_opaque=(), captures=None, parent=None):
        self.body = body
        self.extra = extra_opaque
        self.captures = captures or {}
        self.parent = parent
        self.closures = []
        base = fst_opaque(body.path)

        def op(b, callee):
            return base(b, callee) or b.path.endswith('read_into_vec') or any(b.path.endswith(x) for x in extra_opaque)
        e = self.e = Engine(body.prog.crate, StdModels(STREAMS), opaque=op)
        e.hook = self.hook
        e.hook_out = self.hook_out
        e.start(body, setup=self.setup)
        e.run()
        TCTX.clear()
        self.p = Prover(e)
        self.evs = {}
        for ev in e.all_events():
            self.evs[(ev.node.id, ev.seq)] = ev

    def setup(self, e, st, f):
        st.store[('G', 'written')] = 0      # bytes written to files since the start
        st.store[('G', 'fill')] = 0         # bytes the last read put into the buffer
        st.store[('G', 'froot')] = mk('str', 'none')
        st.store[('G', 'rpos')] = -1        # stream position these bytes come from

    def file_of(self, st, ref):
        v = ref
        for _ in range(4):
            if v.__class__ is T and v.op == 'ref':
                v = self.e.read(st, v.a[0], v.a[1])
            elif v.__class__ is T and v.op == 'agg' and v.a[0] in ('BufWriter', 'BufReader'):
                v = proj(v, '#inner')
            elif v.__class__ is T and v.op == 'agg' and v.a[0] == 'File':
                return v
        return None

    def hook(self, ev, st):
        G = st.store
        ev.info['g'] = {k[1]: v for k, v in G.items() if k[0] == 'G'}
        if (ev.name.startswith('stream.') or ev.name.startswith('file.') or ev.name == 'io.copy') and ev.args:
            ev.info['file'] = self.file_of(st, ev.args[0] if ev.name != 'io.copy' else ev.args[1])
        if ev.name.startswith('call:'):
            for a in ev.args:
                try:
                    c, ref = self.e.closure_of(st, a)
                except Exception:
                    continue
                if c is not None and c.op == 'agg':
                    caps = {}
                    for k, x in c.a[2]:
                        if k.__class__ is str and k.isdigit():
                            v = x
                            for _ in range(3):
                                if v.__class__ is T and v.op == 'ref':
                                    v = self.e.read(st, v.a[0], v.a[1])
                            caps[int(k)] = v
                    b = proj(c, '#body')
                    self.closures.append((ev, c, caps))
        if ev.name.endswith('read_into_vec') and len(ev.args) >= 4:
            ev.info['src'] = ev.args[0]

    def hook_out(self, st, val, evs):
        if not (val.__class__ is T and val.op == 'agg' and val.a[1] == 'Ok'):
            return
        G = st.store
        for ev in evs:
            if ev.name in ('stream.write', 'stream.write_all') and ev.info.get('file') is not None:
                G[('G', 'written')] = add(G[('G', 'written')], ev.info['n'])
            elif ev.name == 'fs' and ev.info['kind'] == 'write' and ev.info.get('content') is not None:
                n = 0
                for _, _, l in ev.info['content']:
                    n = add(n, l)
                G[('G', 'written')] = add(G[('G', 'written')], n)
            elif ev.name == 'io.copy' and ev.info.get('file') is not None:
                G[('G', 'written')] = add(G[('G', 'written')], ev.args[2])
            elif ev.name in ('stream.read', 'stream.read_exact'):
                b = ev.info['buf']
                G[('G', 'fill')] = ev.info['n']
                G[('G', 'froot')] = mk('ref', b.a[0], b.a[1])
                G[('G', 'flo')] = b.a[2]
                G[('G', 'rpos')] = ev.info['pos']
            if ev.name.startswith('call:') and ev.name.endswith('read_into_vec') and len(ev.args) >= 4:
                d = ev.args[3]
                if d.__class__ is T and d.op == 'ref':
                    self.e.write(st, d.a[0], d.a[1] + ('#len',), ev.args[2])
                    self.e.write(st, d.a[0], d.a[1] + ('#buf',), mk('pdata', ev.args[1], ev.args[2]))
                    G[('G', 'fill')] = ev.args[2]
                    G[('G', 'froot')] = mk('ref', d.a[0], d.a[1] + ('#buf',))
                    G[('G', 'flo')] = 0
                    G[('G', 'rpos')] = ev.args[1]


def closure_body(prog, c):
    b = proj(c, '#body')
    key = b.a[0] if b.__class__ is T and b.op == 'str' else b
    return prog.bodies.get(key)


_cache = {}


def py_extract():
    """the extraction entry of the Python bindings and the callbacks it hands to tree walks"""
    if 'py' in _cache:
        return _cache['py']
    prog = program('disc_riider_py')
    b = inherent(prog, 'WiiIsoExtractor', 'extract_to')
    if b is None:
        raise Unsupported('extract_to not found')
    main = XRun(b)
    subs = []
    seen = set()
    for ev, c, caps in main.closures:
        if 'callback_all' not in ev.name:
            continue
        cb = closure_body(prog, c)
        if cb is None or cb.key in seen:
            continue
        seen.add(cb.key)
        r = XRun(cb, captures=caps, parent=main)
        r.call = ev
        subs.append(r)
    _cache['py'] = (main, subs)
    return main, subs


# ------------------------------------------------------------------ name classes (C04)
ALLC = frozenset(['empty', '.', '..', 'absolute', 'dir/../x', 'dir/x', 'plain'])
BAD = frozenset(['..', 'absolute', 'dir/../x'])
COMP = {0: 'Prefix', 1: 'RootDir', 2: 'CurDir', 3: 'ParentDir', 4: 'Normal'}


def without_kind(v):
    """classes that have no component of kind v"""
    return {1: ALLC - {'absolute'}, 2: ALLC - {'.'}, 3: ALLC - {'..', 'dir/../x'}, 4: frozenset(['empty', '.', '..', 'absolute', 'dir/../x'])}.get(v, ALLC)


def first_is(v):
    return {1: {'absolute'}, 2: {'.', 'dir/../x', 'dir/x'}, 3: {'..', 'dir/../x'}, 4: {'plain', 'dir/../x', 'dir/x'}}.get(v, set())


def strip_conv(t):
    while t.__class__ is T and t.op == 'app' and t.a[0] in ('utf8', 'lossy', 'cowdata', 'from', 'to_string'):
        t = t.a[1]
    return t


def is_first(t, x):
    return t.__class__ is T and t.op == 'app' and t.a[0] == 'comp' and t.a[1] is x and t.a[2] == 0


class Names:
    def __init__(self, run):
        self.run = run

    def classes(self, x, facts):
        """(classes a name can still have, facts about it that were not understood)"""
        cl, unk = ALLC, []
        nc = mk('app', 'ncomp', x)
        single = False
        firstnormal = False
        for f in facts:
            if not any(s is x for s in subterms(f)):
                continue
            r = self.fact(x, f, nc)
            if r is None:
                unk.append(f)
                continue
            if r == 'single':
                single = True
                continue
            cl = cl & r
            if 'plain' in r and not r & {'..', 'absolute', 'empty'}:
                firstnormal = True
        if single and firstnormal:
            cl = cl - {'dir/../x'}
        return cl, unk

    def fact(self, x, f, nc):
        pos = True
        g = f
        while g.op == 'not':
            g, pos = g.a[0], not pos
        if g.op == 'lt0':
            # nothing but the number of components and constants
            c, d = lin_parts(g.a[0])
            d = dict(d)
            if set(d) == {nc}:
                k = d[nc]
                # k*nc + c < 0
                if pos and k > 0 and -c <= 2 * k:
                    return 'single'
                if not pos and k < 0 and c == -k * 1 and k == -1:
                    return 'single'
                return ALLC
            if not any(s is x for s in subterms(tuple(t for t in d if t is not nc))):
                return ALLC
            return None
        if g.op == 'eq0':
            c, d = lin_parts(g.a[0])
            d = dict(d)
            if set(d) == {nc}:
                k = d[nc]
                if pos and -c == k:
                    return 'single'
                return ALLC
            if len(d) == 1:
                t, k = list(d.items())[0]
                if t.__class__ is T and t.op == 'disc' and abs(k) == 1:
                    v = -c * k
                    it = t.a[0]
                    if is_first(it, x):
                        if pos:
                            return frozenset(first_is(v))
                        return {1: ALLC - {'absolute'}, 2: ALLC - {'.'}, 3: ALLC - {'..'}, 4: ALLC - {'plain', 'dir/x'}}.get(v, ALLC)
                    if it.__class__ is T and it.op == 'app' and it.a[0] == 'comp' and it.a[1] is x:
                        return ALLC
                if t.__class__ is T and t.op == 'app':
                    r = self.pred(x, t, not pos)
                    if r is not None:
                        return r
                if t.__class__ is T and t.op in ('plen', 'fld'):
                    if pos and c == 0:
                        return frozenset(['empty'])
                    if not pos and c == 0:
                        return ALLC - {'empty'}
                    return ALLC
            return None
        if g.op == 'same':
            a, b = g.a
            a, b = strip_conv(a), strip_conv(b)
            for p, q in ((a, b), (b, a)):
                if p is x:
                    if q.__class__ is T and q.op == 'str':
                        s = q.a[0]
                        k = '..' if s == '..' else '.' if s == '.' else 'empty' if s == '' else None
                        if pos:
                            return frozenset([k or ('plain' if '/' not in s else 'dir/../x')])
                        return ALLC - {k} if k else ALLC
                    if q.__class__ is T and q.op == 'fld' and ('Normal' in str(q.a[1]) or (q.a[0].__class__ is T and q.a[0].op == 'fld' and 'Normal' in str(q.a[0].a[1]))):
                        return frozenset(['plain']) if pos else ALLC - {'plain'}
                    if q.__class__ is T and q.op == 'app' and q.a[0] == 'file_name':
                        return frozenset(['plain']) if pos else ALLC - {'plain'}
            return None
        if g.op == 'app':
            return self.pred(x, g, pos)
        return None

    def pred(self, x, t, pos):
        k = t.a[0]
        if k in ('is_absolute', 'has_root', 'is_relative') and t.a[1] is x:
            if k == 'is_relative':
                pos = not pos
            return frozenset(['absolute']) if pos else ALLC - {'absolute'}
        if k in ('contains', 'starts_with', 'ends_with') and t.a[1] is x:
            s = t.a[2]
            if s.__class__ is T and s.op == 'str':
                s = s.a[0]
            elif isint(s):
                s = chr(s)
            else:
                return None
            if pos:
                if s == '/':
                    return frozenset(['absolute', 'dir/../x', 'dir/x'])
                return None
            if k == 'contains':
                return {'/': frozenset(['empty', '.', '..', 'plain']), '..': ALLC - {'..', 'dir/../x'}, '.': ALLC - {'.', '..', 'dir/../x'}}.get(s, ALLC)
            if k == 'starts_with':
                return {'/': ALLC - {'absolute'}, '..': ALLC - {'..'}, '.': ALLC - {'.', '..'}}.get(s, ALLC)
            return {'/': ALLC, '..': ALLC - {'..'}, '.': ALLC - {'.', '..'}}.get(s, ALLC)
        if k in ('any', 'all') and len(t.a) >= 4:
            ev = next((ev for ev in self.run.evs.values() if ev.name == 'iter.' + k and ev.info.get('idx') is t.a[3]), None)
            if ev is None or ev.info.get('preds') is None:
                return None
            it = t.a[1]
            if not (it.__class__ is T and it.op == 'agg' and it.a[0] == 'iter:components' and dict(it.a[2])['s'] is x and dict(it.a[2])['n'] == 0):
                return None
            if (k == 'any') == pos:
                return None       # only says that some component is special
            want = 0 if k == 'any' else 1      # value the predicate has on every component
            el = ev.info['elem']
            cl = ALLC
            for v in (1, 2, 3, 4):
                may = False
                for f, val in ev.info['preds']:
                    if not self.consistent(f, el, v):
                        continue
                    if isint(val):
                        may |= bool(val) == bool(want)
                    else:
                        b = self.value_under(val, el, v)
                        may |= b is None or bool(b) == bool(want)
                if not may:
                    cl = cl & without_kind(v)
            return cl
        return None

    def consistent(self, facts, el, v):
        for f in facts:
            if self.value_under(f, el, v) == 0:
                return False
        return True

    def value_under(self, f, el, v):
        """truth of f when the component el is of kind v; None if open"""
        if isint(f):
            return f
        if f.op == 'not':
            r = self.value_under(f.a[0], el, v)
            return None if r is None else 1 - r
        if f.op == 'eq0':
            c, d = lin_parts(f.a[0])
            d = dict(d)
            if len(d) == 1:
                t, k = list(d.items())[0]
                if t.__class__ is T and t.op == 'disc' and t.a[0] is el:
                    return 1 if k * v + c == 0 else 0
        return None

    def forall(self, buf, at):
        """classes left for every element of a list by an earlier pass over it (loop or any/all); None = none found"""
        cl, unk, found = ALLC, [], False
        run = self.run
        for ev in run.evs.values():
            if ev.name in ('iter.any', 'iter.all') and it_buf(ev.args[0]) == buf and ev.info.get('preds') is not None:
                t = mk('app', ev.name[5:], ev.args[0], ev.args[1], ev.info['idx'])
                neg_, pos_ = None, None
                for f in at.facts:
                    g, p = f, True
                    while g.op == 'not':
                        g, p = g.a[0], not p
                    if g.op == 'eq0':
                        c, d = lin_parts(g.a[0])
                        if c == 0 and len(d) == 1 and dict(d).keys() == {t}:
                            g, p = t, not p
                    if g is t:
                        pos_ = p
                found = True
                want = {('iter.any', False): 0, ('iter.all', True): 1}.get((ev.name, pos_))
                if want is None:
                    unk.append(t)
                    continue
                el = ev.info['elem']
                x = run.e.read(ev.st, el.a[0], el.a[1]) if el.__class__ is T and el.op == 'ref' and ev.st is not None else self.elem_term(el)
                got = frozenset()
                for f, val in ev.info['preds']:
                    if isint(val):
                        if bool(val) != bool(want):
                            continue
                        fs = set(f)
                    else:
                        b = run.e.as_bool(val)
                        fs = set(f) | {b if want else tnot(b)}
                    c, u = self.classes(x, fs)
                    got |= c
                    unk += u
                cl &= got
            elif ev.name == 'iter.step' and it_buf(ev.args[1]) == buf:
                h = loop_header(run, ev)
                if h is None or at.node.id in run.p.loop(h) or not (ev.node.id < at.node.id):
                    continue
                it = ev.args[1]
                d = dict(it.a[2])
                if not (d['i'].__class__ is T and d['i'].op == 'phi'):
                    continue
                x = self.elem_at(d)
                got, any_ = frozenset(), False
                for (s, lab), st in run.e.nlist[h].ins.items():
                    if (s, h) in run.p.back:
                        any_ = True
                        c, u = self.classes(x, st.facts)
                        got |= c
                        unk += u
                if any_:
                    found = True
                    cl &= got
            elif ev.name.startswith('iter.') and ev.name not in ('iter.step', 'iter.collect', 'iter.next') and len(ev.args) > 1 and it_buf(ev.args[0]) == buf:
                found = True
                unk.append(mk('sym', ev.name))
        return (cl, unk) if found else (None, unk)

    def elem_at(self, d):
        p = d['ptr']
        v = mk('mem', p.a[0][1]) if p.a[0][0] == 'D' else None
        if v is None:
            return None
        for k in p.a[1]:
            v = proj(v, k)
        return proj(v, ('idx', add(p.a[2], d['i'])))

    def elem_term(self, el):
        if el.__class__ is T and el.op == 'ref' and el.a[0][0] == 'D':
            v = mk('mem', el.a[0][1])
            for k in el.a[1]:
                v = proj(v, k)
            return v
        return el


def it_buf(it):
    for _ in range(5):
        if not (it.__class__ is T and it.op == 'agg'):
            return None
        d = dict(it.a[2])
        if 'ptr' in d:
            p = d['ptr']
            return (p.a[0], p.a[1]) if p.__class__ is T and p.op == 'slice' else None
        it = d.get('in')
    return None


def loop_header(run, ev):
    run.p.prep() if not getattr(run.p, 'back', None) else None
    best = None
    for s, h in run.p.back:
        if ev.node.id in run.p.loop(h):
            if best is None or len(run.p.loop(h)) < len(run.p.loop(best)):
                best = h
    return best


# ------------------------------------------------------------------ C04
def section_field(prog):
    """name of the text field of the structure that carries a prepared section (validated when it is created, see C19)"""
    for n, a in prog.adts.items():
        if a['k'] == 'struct':
            fs = a['v'][0]['f']
            if any('WiiPartitionReadInfo' in f[1] for f in fs) and any('Fst' in f[1] for f in fs):
                return next((f[0] for f in fs if f[1].endswith('String')), None)
    return None


def path_params(body):
    out = {}
    for i in range(1, body.argc + 1):
        s = body.lty(i)['s']
        if re.search(r'\b(PathBuf|Path)\b', s):
            out[body.locals[i][1] or f'arg{i}'] = s
    return out


def strip_base(run, t, depth=0, seen=None):
    """[(base term, least number of components below it)] a path can have"""
    seen = seen if seen is not None else {}
    if depth > 40:
        return [(None, 0)]
    if t.__class__ is not T:
        return [(None, 0)]
    if t.op == 'app' and t.a[0] == 'join':
        b = t.a[2]
        if b.__class__ is T and b.op == 'str' and b.a[0].startswith('/'):
            return [(b, 0)]
        k = -1 if b.__class__ is T and b.op == 'str' and b.a[0] == '..' else 1
        return [(x, n + k if n is not None else None) for x, n in strip_base(run, t.a[1], depth + 1, seen)]
    if t.op == 'app' and t.a[0] == 'parent' or t.op == 'app' and t.a[0] == 'pathmod:pop':
        return [(x, n - 1 if n is not None else None) for x, n in strip_base(run, t.a[1], depth + 1, seen)]
    if t.op == 'app' and t.a[0] in ('pathmod:set_file_name', 'pathmod:set_extension'):
        return strip_base(run, t.a[1], depth + 1, seen)
    if t.op == 'phi':
        if t in seen:
            return []
        seen[t] = 1
        out = []
        n = run.e.nlist[t.a[0]]
        for (s, lab), st in n.ins.items():
            v = phi_in(t.a[1], st)
            if v is None:
                return [(None, 0)]
            if v is t:
                continue
            out += strip_base(run, v, depth + 1, seen)
        best = {}
        for x, k in out:
            best[x] = k if x not in best or k is None or (best[x] is not None and k < best[x]) else best[x]
        return list(best.items())
    m = re.match(r'\**arg1\.(\d+)$', show(t, 9))
    if m and run.parent is not None:
        v = run.captures.get(int(m.group(1)))
        if v is not None and v.__class__ is T:
            return strip_base(run.parent, v, depth + 1, {})
    return [(t, 0)]


def is_user_path(run, base):
    """the term is a path parameter of the entry"""
    r = run
    while r is not None:
        ps = path_params(r.body)
        s = show(base, 9).lstrip('*')
        if s in ps:
            return True
        if r.body.crate_main if hasattr(r.body, 'crate_main') else False:
            return True
        r = r.parent
    return False


def name_roots(run):
    """syms whose content comes from the image: everything except path parameters and the closure environment"""
    ps = path_params(run.body)
    out = set()
    for i in range(1, run.body.argc + 1):
        nm = run.body.locals[i][1] or f'arg{i}'
        if nm in ps or (run.body.closure and i == 1):
            continue
        out.add(nm)
    return out


def image_derived(run, t, depth=0):
    roots = name_roots(run)
    for s in subterms(t):
        if s.op == 'sym' and s.a[0] in roots:
            return True
        if s.op == 'fresh' and len(s.a) > 2:
            if str(s.a[2]).startswith(('parsed', 'nparsed')):
                return True
            ev = run.evs.get((s.a[0], s.a[1]))
            if ev is not None and depth < 4:
                for a in list(ev.args) + [ev.info.get('src')]:
                    if a.__class__ is T and image_derived(run, a, depth + 1):
                        return True
        m = re.match(r'\**arg1\.(\d+)$', show(s, 9)) if s.op in ('mem', 'fld') and run.body.closure else None
        if m and run.parent is not None and depth < 4:
            v = run.captures.get(int(m.group(1)))
            if v.__class__ is T and image_derived(run.parent, v, depth + 1):
                return True
    return False


def list_buf(run, x):
    """the list a name term is an element of"""
    if x.op == 'fld' and x.a[1].__class__ is tuple and x.a[1][0] == 'idx':
        t = x.a[0]
        path = []
        while t.__class__ is T and t.op == 'fld':
            path.append(t.a[1])
            t = t.a[0]
        if t.__class__ is T and t.op == 'mem':
            return ('D', t.a[0]), tuple(reversed(path))
    for s in subterms(x):
        if s.op == 'fresh':
            ev = run.evs.get((s.a[0], s.a[1]))
            if ev is not None:
                for a in list(ev.args) + [ev.info.get('src')]:
                    b = it_buf(a) if a.__class__ is T and a.op == 'agg' else ((a.a[0], a.a[1]) if a.__class__ is T and a.op == 'slice' else None)
                    if b:
                        return b
        if s.op == 'mem' and s.a[0].__class__ is T and s.a[0].op == 'sym':
            pass
    return None


def reach_sink(run, start, x, names):
    """sink reachable from the event `start` without the name being recognised as safe on the way"""
    succ = {}
    for n in run.e.nlist:
        for (s, lab) in n.ins:
            succ.setdefault(s, set()).add(n.id)
    for ev in start.node.events:
        if ev.seq > start.seq and is_sink(ev):
            return ev
    seen, todo = set(), [start.node.id]
    while todo:
        i = todo.pop(0)
        for j in sorted(succ.get(i, ())):
            if j in seen:
                continue
            seen.add(j)
            n = run.e.nlist[j]
            cl, unk = names.classes(x, n.st.facts)
            if not (cl & BAD):
                continue
            for ev in n.events:
                if is_sink(ev):
                    c2, _ = names.classes(x, ev.facts)
                    if c2 & BAD:
                        return ev
            todo.append(j)
    return None


def is_sink(ev):
    if ev.name != 'fs' or ev.info.get('kind') not in SINKS:
        return False
    if ev.info['kind'] == 'openopts':
        o = ev.info['opts']
        w = [proj(o, k) for k in ('write', 'append', 'create', 'create_new')]
        return any(v == 1 for v in w)
    return True


def sink_path(ev):
    if ev.info['kind'] in ('rename', 'copy', 'hard_link'):
        return ev.info.get('dst', ev.args[1])
    return ev.args[0]


def c04_run(rep, run, what):
    names = Names(run)
    sec = section_field(run.body.prog)
    rep.entry(run.e)
    nsink = 0
    for ev in run.e.all_events():
        if not own(ev):
            continue
        if is_sink(ev):
            nsink += 1
            for base, d in strip_base(run, sink_path(ev)):
                w = ev.where()
                if base is None:
                    rep.undecided('C04.base', w, 'path not resolved')
                elif base.op == 'str':
                    rep.viol('C04.base', w, f'{ev.info["kind"]} works on the fixed path {base.a[0]!r}, not below the destination folder')
                elif not is_user_path(run, base):
                    rep.undecided('C04.base', w, f'path starts at {show(base, 5)}')
                elif d < 0:
                    rep.viol('C04.base', w, f'{ev.info["kind"]} works on a parent of the destination folder')
                else:
                    rep.ok('C04.base', w, f'{ev.info["kind"]}: path starts at the destination folder')
        if ev.name in ('path.join', 'path.push', 'path.set_file_name', 'path.set_extension', 'path.with_file_name'):
            comp = ev.args[1]
            c04_component(rep, run, names, ev, comp, sec)
    return nsink


def c04_component(rep, run, names, ev, comp, sec):
    w = ev.where()
    if comp.__class__ is not T:
        rep.undecided('C04.name', w, 'component not understood')
        return
    comp = simplify_name(comp)
    if comp.op == 'app' and comp.a[0] == 'join':
        c04_component(rep, run, names, ev, comp.a[1], sec)
        c04_component(rep, run, names, ev, comp.a[2], sec)
        return
    if comp.op == 'str':
        s = comp.a[0]
        parts = s.split('/')
        if s.startswith('/') or '..' in parts:
            if reach_sink(run, ev, comp, names):
                rep.viol('C04.name', w, f'the fixed component {s!r} leaves the destination folder')
        else:
            rep.ok('C04.name', w, f'fixed component {s!r}')
        return
    x = strip_conv(comp)
    if x.op == 'fld' and x.a[1] == sec or show(x, 3).endswith('.' + str(sec)):
        rep.ok('C04.name', w, 'section name chosen by the caller (checked by C19)')
        return
    if not image_derived(run, x):
        rep.undecided('C04.name', w, f'component {show(x, 4)} not classified')
        return
    cl, unk = names.classes(x, ev.facts)
    if not (cl & BAD):
        rep.ok('C04.name', w, f'name from the image restricted to {sorted(cl)}')
        return
    lb = list_buf(run, x)
    if lb is not None:
        c2, u2 = names.forall(lb, ev)
        if c2 is not None:
            cl = cl & c2
            unk = unk + u2
            if not (cl & BAD):
                rep.ok('C04.name', w, f'names from the image restricted to {sorted(cl)} by an earlier pass')
                return
    p = fmt_pieces(comp)
    if p is None and x.op not in ('fld', 'mem', 'fresh'):
        rep.undecided('C04.name', w, f'component {show(x, 4)} not understood')
        return
    if p is not None and not (cl & BAD):
        return
    if unk or guard_elsewhere(run):
        rep.undecided('C04.name', w, f'restriction of the name not understood: {[show(u, 5) for u in unk][:3]}')
        return
    s = reach_sink(run, ev, x, names)
    if s is not None:
        rep.viol('C04.name', w, f'a name taken from the image can be {" or ".join(sorted(cl & BAD))} here and reaches {s.info["kind"]} at {s.where()}')
    else:
        rep.ok('C04.name', w, 'path not used to create anything before the name is checked')


def guard_elsewhere(run):
    """names could be checked where the table is parsed: some code of the library that parses names mentions separators"""
    lib = program('disc_riider')
    for b in lib.bodies.values():
        if not b.root or b.file.startswith('/') or 'fst' not in b.file:
            continue
        for blk in b.blocks:
            t = blk['t']
            if t[0] == 'call':
                s = str(t[1].get('p'))
                if re.search(r'Path::(components|is_absolute|has_root|file_name)|::contains$|::starts_with$|::eq_ignore', s) and 'test' not in b.path:
                    if re.search(r"str::<impl str>::(contains|starts_with)|Path::", s):
                        return True
    return False


def c04_py(rep):
    main, subs = py_extract()
    n = c04_run(rep, main, 'extract_to')
    for r in subs:
        n += c04_run(rep, r, 'callback')
        c04_loops(rep, r)
        file_created(rep, r, 'C04.refuse')
    if n < 8:
        rep.undecided('C04.count', where_body(main.body), f'only {n} creating calls found')
    cover(rep, 'C04.cover', ['disc_riider_py'], [main] + subs)


def c04_loops(rep, run):
    """a name that is refused ends the extraction of the file with an error: no path around the loop over the names skips adding one"""
    pushes = [ev for ev in run.e.all_events() if ev.name in ('path.push', 'path.join') and image_derived(run, ev.args[1])]
    if not pushes:
        return
    heads = {loop_header(run, ev) for ev in pushes} - {None}
    if len(heads) != 1:
        return
    h = heads.pop()
    loop = run.p.loop(h)
    push_nodes = {ev.node.id for ev in pushes}
    succ = {}
    for n in run.e.nlist:
        for (s, lab) in n.ins:
            succ.setdefault(s, set()).add(n.id)
    seen, todo = {h}, [h]
    bad = None
    while todo:
        i = todo.pop()
        if i in push_nodes:
            continue
        for j in succ.get(i, ()):
            if j == h:
                bad = i
            elif j in loop and j not in seen:
                seen.add(j)
                todo.append(j)
    ev = min(pushes, key=lambda v: v.node.id)
    if bad is None:
        rep.ok('C04.skip', ev.where(), 'every name of the path is added or ends the extraction with an error')
    else:
        n = run.e.nlist[bad]
        rep.viol('C04.skip', f'{n.frame.body.file}:{n.frame.body.blocks[n.bb]["l"]} in {n.frame.body.short()}', 'a name of the path is passed over instead of failing')


def dir_fact(run):
    """facts saying that the visited entry is not a file"""
    out = set()
    for i in range(1, run.body.argc + 1):
        t = run.body.lty(i)
        if t['k'] == 'ref' and adt(run.e.ty(t['e'])) == 'FstNode':
            en = run.e.enum_def(run.e.ty(t['e']))
            d = next((v['d'] for v in en['v'] if v['n'] == 'File'), None) if en else None
            if d is None:
                return None
            x = mk('disc', mk('mem', mk('sym', run.body.locals[i][1] or f'arg{i}')))
            out.add(tnot(eq0(sub(x, d))))
            for v in en['v']:
                if v['d'] != d:
                    out.add(eq0(sub(x, v['d'])))
    return out or None


def succs(run):
    succ = {}
    for n in run.e.nlist:
        for (s, lab) in n.ins:
            succ.setdefault(s, set()).add(n.id)
    return succ


def file_created(rep, run, rule):
    """the callback reports success for a file only after it created the file"""
    df = dir_fact(run)
    creates = {ev.node.id for ev in run.e.all_events() if is_sink(ev) and ev.info['kind'] in ('create', 'create_new', 'openopts', 'write')}
    if df is None or not creates:
        return
    succ = succs(run)
    seen, todo = {0}, [0]
    while todo:
        i = todo.pop()
        if i in creates:
            continue
        for j in succ.get(i, ()):
            if j not in seen and not (run.e.nlist[j].st.facts & df):
                seen.add(j)
                todo.append(j)
    for x in run.e.all_exits():
        r = x.ret
        if r.__class__ is T and r.op == 'agg' and r.a[1] == 'Ok' and not (x.st.facts & df):
            if x.node.id in seen and x.node.id not in creates:
                rep.viol(rule, where_body(run.body), 'the callback reports success for a file it has not created')
                return
    rep.ok(rule, where_body(run.body), 'success is reported for a file only after it was created')


def cover(rep, rule, crates, runs):
    """every creating call site of these crates lies in an analysed function"""
    seen = set()
    for r in runs:
        for f in r.e.frames.values():
            seen.add(f.body.path)
    for cr in crates:
        prog = program(cr)
        for b in prog.bodies.values():
            if not b.root or b.file.startswith('/') or b.path in seen:
                continue
            for blk in b.blocks:
                t = blk['t']
                if t[0] == 'call' and not blk['cl']:
                    p = str(t[1].get('p'))
                    m = re.search(r'std::fs::(File::create(?:_new)?|create_dir(?:_all)?|write|remove_\w+|rename|copy|hard_link)$', p)
                    if m:
                        rep.undecided(rule, f'{b.file}:{blk["l"]} in {b.short()}', f'{m.group(1)} outside the analysed extraction')


def c04_lib(rep):
    """system files written by the library (also used by the command line tool)"""
    prog = program('disc_riider')
    b = inherent(prog, 'WiiPartitionReadInfo', 'extract_system_files')
    if b is None:
        raise Unsupported('extract_system_files not found')
    if '04lib' not in _cache:
        _cache['04lib'] = XRun(b)
    n = c04_run(rep, _cache['04lib'], 'extract_system_files')
    if n < 3:
        rep.undecided('C04.count', where_body(b), f'only {n} creating calls found')


# ------------------------------------------------------------------ C02 / C20: moving one file out of the image
def node_param(run):
    for i in range(1, run.body.argc + 1):
        t = run.body.lty(i)
        if t['k'] == 'ref' and adt(run.e.ty(t['e'])) == 'FstNode':
            return mk('mem', mk('sym', run.body.locals[i][1] or f'arg{i}'))
    return None


def file_fields(run):
    """(offset, length) terms of the visited file"""
    for n, a in run.body.prog.adts.items():
        if n.split('::')[-1] == 'FstNode':
            for v in a['v']:
                if v['n'] == 'File':
                    off = next((f[0] for f in v['f'] if f[1] == 'u64'), None)
                    ln = next((f[0] for f in v['f'] if f[1] == 'u32'), None)
                    x = node_param(run)
                    if off and ln and x is not None:
                        r = []
                        for k, bits in ((off, 64), (ln, 32)):
                            t = proj(x, ('File', k))
                            if t.__class__ is T:
                                NN.setdefault(t, bits)
                            r.append(t)
                        return r
    return None


def file_callbacks(subs):
    return [r for r in subs if any(is_sink(ev) for ev in r.e.all_events())]


def drop_empty(rep, run, rule, evs):
    """a transfer that asks for nothing may stand anywhere: failures that vanish once something is asked for are none"""
    for i in rep.items:
        if i['rule'] != rule or i['status'] != 'violation':
            continue
        mine = [(ev, e) for ev, e in evs if ev.where() == i['where']]
        good = bool(mine)
        for ev, e in mine:
            s = ev.args[1] if len(ev.args) > 1 else None
            if not (s.__class__ is T and s.op == 'slice') or isint(s.a[3]):
                good = False
                break
            if not Prover(run.e).query('eq', e, ev.node, frozenset(set(ev.facts) | {tlt(0, s.a[3])}), 2):
                good = False
        if good:
            i['status'] = 'ok'


def c02_extract(rep):
    main, subs = py_extract()
    rs = file_callbacks(subs)
    if not rs:
        rep.undecided('C02.whole', where_body(main.body), 'no callback that writes files recognised')
    for run in rs:
        rep.entry(run.e)
        ff = file_fields(run)
        df = dir_fact(run)
        if ff is None or df is None:
            rep.undecided('C02.whole', where_body(run.body), 'entry fields not recognised')
            continue
        off, ln = ff
        for x in run.e.all_exits():
            r = x.ret
            if not (r.__class__ is T and r.op == 'agg' and r.a[1] == 'Ok') or x.st.facts & df:
                continue
            rep.oblige(run.p, 'C02.whole', 'eq', sub(x.st.store[('G', 'written')], ln), x.node, frozenset(x.st.facts), where_body(run.body),
                       'success is reported only after as many bytes were written as the entry is long')
        subtractions(rep, run, 'C02.count')
        pl = []
        for ev in run.e.all_events():
            if ev.name in ('stream.read', 'stream.read_exact') and own(ev):
                d = sub(ev.info['pos'], add(off, ev.info['g']['written']))
                pl.append((ev, d))
                rep.oblige(run.p, 'C02.place', 'eq', d, ev.node, ev.facts, ev.where(),
                           'each piece is read right behind the bytes written so far')
        rep.flush()
        drop_empty(rep, run, 'C02.place', pl)
    file_created(rep, rs[0], 'C02.created') if rs else None


def c20_extract(rep):
    main, subs = py_extract()
    for run in [main] + subs:
        c20_writes(rep, run)


def c20_writes(rep, run):
    n = 0
    for ev in run.e.all_events():
        if not own(ev) or ev.name not in ('stream.write', 'stream.write_all') or ev.info.get('file') is None:
            continue
        s = ev.args[1]
        if s.op != 'slice':
            continue
        g = ev.info['g']
        fr = g['froot']
        if fr.op == 'ref' and (fr.a[0], fr.a[1]) == (s.a[0], s.a[1]):
            n += 1
            rep.oblige(run.p, 'C20.filled', 'eq', sub(s.a[2], g.get('flo', 0)), ev.node, ev.facts, ev.where(), 'what is written starts where the last read started')
            rep.oblige(run.p, 'C20.filled', 'eq', sub(s.a[3], g['fill']), ev.node, ev.facts, ev.where(), 'exactly the bytes of the last read are written')
        else:
            d = whole_pdata(ev)
            if d is not None:
                n += 1
                rep.oblige(run.p, 'C20.filled', 'eq', d, ev.node, ev.facts, ev.where(), 'exactly the bytes read for this file are written')
            else:
                rep.undecided('C20.filled', ev.where(), 'source of the written bytes not recognised')
    if n:
        rep.entry(run.e)


def pdata_of(content):
    """(offset, length, skipped, taken) if the bytes are a piece of one range read from the partition"""
    if not content or len(content) != 1:
        return None
    x, o, l = content[0]
    while x.__class__ is T and x.op in ('view', 'cat', 'pcs'):
        if x.op == 'view':
            o = add(o, x.a[1])
            x = x.a[0]
        elif len(x.a[0]) == 1:
            y, oo, ll = x.a[0][0]
            o = add(o, oo)
            x = y
        else:
            return None
    if x.__class__ is T and x.op == 'pdata':
        return x.a[0], x.a[1], o, l
    return None


def whole_pdata(ev):
    p = pdata_of(ev.info.get('content'))
    if p is None or p[2] != 0:
        return None
    return sub(p[3], p[1])


def getter_runs():
    """the methods of every partition definition that hand out bytes"""
    if 'get' in _cache:
        return _cache['get']
    prog = program('disc_riider')
    out = []
    for b in prog.bodies.values():
        if not b.root or b.closure or b.file.startswith('/'):
            continue
        m = re.search(r'<(?:[\w:]*::)?(\w+)(?:<.*>)? as (?:[\w:]*::)?WiiPartitionDefinition<.*>>::(\w+)$', b.path)
        if m and 'Cow' in b.lty(0)['s']:
            out.append((m.group(1), m.group(2), XRun(b)))
    _cache['get'] = out
    return out


def cow_slice(v):
    """slice handed out by an Ok value Cow or (Cow, _)"""
    x = proj(v, ('Ok', '0'))
    for _ in range(2):
        if x.__class__ is T and x.op == 'agg' and x.a[0] == 'tuple':
            x = proj(x, '0')
    if x.__class__ is T and x.op == 'agg' and x.a[1] == 'Borrowed':
        return proj(x, ('Borrowed', '0'))
    if x.__class__ is T and x.op == 'agg' and x.a[1] == 'Owned':
        return 'owned'
    return None


def c20_getters(rep):
    gs = getter_runs()
    if len(gs) < 8:
        rep.undecided('C20.buffer', 'WiiPartitionDefinition', f'only {len(gs)} methods handing out bytes found')
    for ty, m, run in gs:
        rep.entry(run.e)
        w = where_body(run.body)
        rd = [ev for ev in run.e.all_events() if ev.name == 'stream.read_to_end' and own(ev)]
        for ev in rd:
            rep.oblige(run.p, 'C20.buffer', 'eq', ev.info['before'], ev.node, ev.facts, ev.where(), 'the buffer is empty before the file is read into it')
        for x in run.e.all_exits():
            if not (x.ret.__class__ is T and x.ret.op == 'agg' and x.ret.a[1] == 'Ok'):
                continue
            s = cow_slice(x.ret)
            if s == 'owned':
                rep.ok('C20.handed', w, 'a fresh vector is handed out')
                continue
            if not (s.__class__ is T and s.op == 'slice'):
                rep.undecided('C20.handed', w, 'returned bytes not recognised')
                continue
            ln = run.e.read(x.st, s.a[0], s.a[1][:-1] + ('#len',)) if s.a[1] and s.a[1][-1] == '#buf' else None
            if ln is None:
                rep.undecided('C20.handed', w, 'returned bytes are not those of a vector')
                continue
            rep.oblige(run.p, 'C20.handed', 'eq', s.a[2], x.node, frozenset(x.st.facts), w, 'the returned bytes start at the start of the buffer')
            rep.oblige(run.p, 'C20.handed', 'eq', sub(s.a[3], ln), x.node, frozenset(x.st.facts), w, 'the whole filled buffer is returned')
            fr = x.st.store.get(('G', 'froot'))
            if not rd and fr is not None and fr.op == 'ref' and (fr.a[0], fr.a[1]) == (s.a[0], s.a[1]):
                rep.oblige(run.p, 'C20.handed', 'eq', sub(s.a[2], x.st.store.get(('G', 'flo'), 0)), x.node, frozenset(x.st.facts), w, 'the returned bytes start where the read started')
                rep.oblige(run.p, 'C20.handed', 'eq', sub(s.a[3], x.st.store[('G', 'fill')]), x.node, frozenset(x.st.facts), w, 'exactly the bytes read for this file are returned')
            if rd:
                dst = [ev for ev in rd if ev.args[1].op == 'ref' and (ev.args[1].a[0], ev.args[1].a[1] + ('#buf',)) == (s.a[0], s.a[1])]
                if not dst:
                    rep.undecided('C20.handed', w, 'the file is read into another buffer than the returned one')
                else:
                    one = [ev for ev in dst if sub(ln, ev.info['n']) == 0]
                    if one or len(dst) == 1:
                        rep.oblige(run.p, 'C20.handed', 'eq', sub(s.a[3], dst[0].info['n'] if not one else one[0].info['n']), x.node, frozenset(x.st.facts), w,
                                   'exactly the bytes read from this file are returned')


class Only:
    """report that passes on some rules only, under another name"""

    def __init__(self, rep, rules):
        self.__dict__.update(rep=rep, rules=rules)

    def __getattr__(self, k):
        f = getattr(self.rep, k)
        if k in ('ok', 'viol', 'undecided'):
            return lambda rule, *a: f(self.rules[rule], *a) if rule in self.rules else None
        if k == 'oblige':
            return lambda p, rule, *a: f(p, self.rules[rule], *a) if rule in self.rules else None
        return f


def c20_vec(rep):
    """the whole-range reader discards what the vector held before"""
    import rules_group
    rules_group.c05_read_vec(Only(rep, {'C05.count': 'C20.vector', 'C05.contiguous': 'C20.vector'}))


# ------------------------------------------------------------------ C02: counts of partial transfers
ADAPT = {'branch', 'map_err', 'from_residual', 'into', 'from', 'unwrap', 'expect', 'ok', 'into_pyerr', 'into_pyerr_with_path', 'unwrap_or', 'unwrap_or_default', 'ok_or', 'ok_or_else',
         'clone', 'copied', 'cloned', 'as_ref', 'inspect_err', 'or_else', 'unwrap_or_else'}


def has_int(prog, t, d=0):
    ty = prog.types[t]
    if ty['k'] in ('uint', 'int'):
        return True
    return d < 4 and ty['k'] in ('adt', 'tuple', 'ref') and any(has_int(prog, x, d + 1) for x in (ty.get('a') or []) if isinstance(x, int)) or ty['k'] == 'ref' and has_int(prog, ty['e'], d + 1)


def places(x):
    """all places read by an operand/rvalue"""
    if isinstance(x, dict):
        for k in ('m', 'c'):
            if k in x:
                yield x[k]
        return
    if isinstance(x, list):
        for y in x:
            yield from places(y)


def closure_uses_arg(prog, ty):
    """does the closure (or function) given as mapper look at its argument"""
    if ty['k'] == 'closure':
        for b in prog.bodies.values():
            if b.closure and b.path == ty.get('n'):
                return any(p and p[0] == 2 for blk in b.blocks for s in blk['s'] if s[0] == '=' for p in list(places(s[2])) + ([s[2][1]] if s[2][0] in ('ref', 'discr') else []))
    if 'drop' in ty['s']:
        return False
    return True


def count_used(b, blk, dest):
    """is the count inside the Result stored in local `dest` ever looked at; returns (used, reason)"""
    prog = b.prog
    carry = {dest}
    for _ in range(30):
        n = len(carry)
        for bl in b.blocks:
            if bl['cl']:
                continue
            for s in bl['s']:
                if s[0] != '=':
                    continue
                dst, rv = s[1], s[2]
                if rv[0] in ('use', 'ref', 'copyref', 'cast') or rv[0] == 'addr':
                    src = list(places(rv[1:])) if rv[0] != 'ref' else [rv[1] if isinstance(rv[1], list) and rv[1] and isinstance(rv[1][0], int) else rv[2]]
                    if any(p[0] in carry for p in src):
                        if rv[0] == 'cast':
                            return True
                        if any('Err' in str(e) or 'Break' in str(e) for p in src for e in p[1:]):
                            continue
                        if dst[0] == 0 or len(dst) > 1:
                            return True
                        carry.add(dst[0])
                elif rv[0] == 'discr':
                    continue
                elif rv[0] == 'agg':
                    if any(p[0] in carry for p in places(rv)):
                        if rv[1][0] == 'closure' or dst[0] == 0:
                            return True
                        carry.add(dst[0])
                else:
                    if any(p[0] in carry for p in places(rv[1:])):
                        return True
            t = bl['t']
            if t[0] == 'call':
                args = t[2]
                hit = [i for i, o in enumerate(args) if any(p[0] in carry for p in places(o))]
                if hit:
                    m = t[1].get('m')
                    d = t[3]
                    if m in ('is_ok', 'is_err', 'drop', 'err'):
                        continue
                    if m in ('map', 'and_then', 'is_ok_and', 'map_or', 'map_or_else') and hit == [0]:
                        fty = prog.types[t[6][1]] if len(t) > 6 and len(t[6]) > 1 else None
                        if fty is None or closure_uses_arg(prog, fty):
                            return True
                        continue
                    if m in ADAPT:
                        if d[0] == 0:
                            return has_int(prog, t[5])
                        if has_int(prog, t[5]):
                            carry.add(d[0])
                        continue
                    return True
            elif t[0] == 'switch':
                if any(p[0] in carry and len(p) >= 1 for p in places(t[1])):
                    return True
            elif t[0] == 'assert':
                if any(p[0] in carry for p in places(t[1:])):
                    return True
        if len(carry) == n:
            break
    return False


def c02_counts(rep):
    from rules_flow import CRATES, generated
    n = 0
    seen = set()
    for cr in CRATES:
        prog = program(cr)
        for b in prog.bodies.values():
            if b.file.startswith('/') or generated(b) or b.path in seen or '::test' in b.path:
                continue
            seen.add(b.path)
            for blk in b.blocks:
                t = blk['t']
                if t[0] != 'call' or blk['cl']:
                    continue
                c = t[1]
                m, tr, p = c.get('m'), c.get('tr'), str(c.get('p'))
                w = f'{b.file}:{blk["l"]} in {b.short()}'
                take = any('std::io::Take<' in prog.types[x]['s'] for x in t[6] if isinstance(x, int)) if len(t) > 6 else False
                if tr in ('std::io::Read', 'std::io::Write') and m in ('read', 'write', 'read_vectored', 'write_vectored') or p.endswith(('FileExt::read_at', 'FileExt::write_at')):
                    n += 1
                    if count_used(b, blk, t[3][0]) or t[3][0] == 0:
                        rep.ok('C02.ignored', w, f'the count returned by {m} is looked at')
                    else:
                        rep.viol('C02.ignored', w, f'{m} may move fewer bytes than asked for and its count is not looked at')
                elif take and (p == 'std::io::copy' or m in ('read_to_end', 'read_to_string')):
                    n += 1
                    if count_used(b, blk, t[3][0]) or t[3][0] == 0:
                        rep.ok('C02.ignored', w, 'the count of a limited transfer is looked at')
                    elif p != 'std::io::copy' and any(x['t'][0] == 'call' and x['t'][1].get('m') == 'len' for x in b.blocks):
                        rep.undecided('C02.ignored', w, 'limited read: only the length of the result could tell')
                    else:
                        rep.viol('C02.ignored', w, 'a transfer limited with take() ends early without error and its count is not looked at')
    rep.analysed.append({'entry': 'all functions', 'functions': len(seen), 'sites': n})


def c02_vec(rep):
    import rules_group
    rules_group.c05_read_vec(rep)


def c02_fill(rep):
    """a fixed buffer that is filled piece by piece: the end of the input before it is full must not count as success"""
    from rules_flow import CRATES, generated
    from rules_tree import TRun, explore, ret_variant
    from rules_section import subterms
    n = 0
    seen = set()
    for cr in CRATES:
        prog = program(cr)
        for b in prog.bodies.values():
            if b.file.startswith('/') or generated(b) or b.path in seen or '::test' in b.path or b.name == 'read':
                continue
            if not any(k['t'][0] == 'call' and not k['cl'] and k['t'][1].get('tr') == 'std::io::Read' and k['t'][1].get('m') == 'read' for k in b.blocks):
                continue
            seen.add(b.path)
            arrays = {i for i in range(len(b.locals)) if re.match(r'^\[u8; \d+\]$', b.lty(i)['s'])}
            if not arrays:
                continue
            try:
                run = TRun(b, opaque=lambda x, c: not x.file.startswith('/'), memkeys=False, unroll=False, maxnodes=3000)
            except Unsupported:
                continue
            reads = [ev for ev in run.e.all_events() if ev.name == 'stream.read' and ev.info.get('buf') is not None]
            acc = set()
            for ev in reads:
                t = ev.info['buf']
                if t.__class__ is T and t.op == 'slice' and t.a[0][0] == 'L' and t.a[0][1] == 0 and t.a[0][2] in arrays and not isint(t.a[2]):
                    acc.add(t.a[0])
            if not acc:
                continue
            part = set()
            for ev in run.e.all_events():
                if ev in reads:
                    continue
                for a in ev.args:
                    for y in subterms(a) if a.__class__ is T else ():
                        if y.op == 'slice' and y.a[0] in acc and not isint(y.a[3]):
                            part.add(y.a[0])
            rep.entry(run.e)
            n += len(acc)
            for root in sorted(acc):
                if root in part:
                    continue
                bad = set()

                def onevent(s, ev):
                    if ev in reads and ev.info['buf'].__class__ is T and ev.info['buf'].a[0] == root:
                        return ('read', ev.info['n'], ev.where())
                    return s

                def onedge(s, n_, lab, m, st):
                    new = st.facts - (n_.st.facts if n_.st is not None else frozenset())
                    if s[0] == 'read' and eq0(s[1]) in new:
                        return ('short', None, s[2])
                    if s[0] == 'short' and lab[0] == 's' and any(f.__class__ is T and not any(y.op == 'disc' for y in subterms(f)) for f in new):
                        return ('start', None, None)
                    return s

                def onexit(s, x):
                    if s[0] == 'short' and ret_variant(x.ret) not in ('Err', 'None'):
                        bad.add(s[2])
                explore(run, ('start', None, None), onevent, onedge, onexit)
                for w in sorted(bad):
                    rep.viol('C02.fill', w, 'a buffer that the input did not fill is passed off as complete')
                if not bad:
                    rep.ok('C02.fill', where_body(b), 'the end of the input before the buffer is full is an error')
    rep.analysed.append({'entry': 'functions that fill a buffer piece by piece', 'functions': len(seen), 'sites': n})
