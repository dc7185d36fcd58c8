"""Effect models of the std / third-party functions the workspace calls."""
from terms import *
import engine as EN
from engine import UNDEF, ZERO

# ------------------------------------------------------------------ byte contents


def cat_make(pieces):
    out = []
    n = 0
    for a, o, l in pieces:
        if l == 0:
            continue
        n += l
        if a.op == 'zero':
            o = 0
        if out:
            pa, po, pl = out[-1]
            if pa is a and (a.op in ('zero', 'fill') or po + pl == o):
                out[-1] = (pa, po, pl + l)
                continue
        out.append((a, o, l))
    return mk('cat', tuple(out), n)


def zeros(n):
    return mk('cat', ((ZERO, 0, n),) if n else (), n)


def lit(hexs):
    n = len(hexs) // 2
    if n and not hexs.strip('0'):
        return zeros(n)
    if n == 0:
        return mk('cat', (), 0)
    return mk('cat', ((mk('lit', hexs), 0, n),), n)


def norm_piece(a, o, l):
    if a.op == 'lit':
        h = a.a[0][2 * o:2 * (o + l)]
        if not h.strip('0'):
            return (ZERO, 0, l)
        return (mk('lit', h), 0, l)
    return (a, o, l)


def cat_read(c, off, ln):
    out = []
    pos = 0
    for a, o, l in c.a[0]:
        s = max(pos, off)
        e = min(pos + l, off + ln)
        if s < e:
            out.append(norm_piece(a, o + (s - pos) if a.op not in ('zero', 'fill') else 0, e - s))
        pos += l
        if pos >= off + ln:
            break
    return out


def cat_write(c, off, ln, pieces):
    total = c.a[1]
    return cat_make(cat_read(c, 0, off) + list(pieces) + cat_read(c, off + ln, total - off - ln))


def piece_byte(ps):
    if len(ps) != 1:
        return UNDEF
    a, o, l = ps[0]
    if a.op == 'zero':
        return 0
    if a.op == 'lit':
        return int(a.a[0][2 * o:2 * o + 2], 16)
    if a.op == 'fill':
        return a.a[0]
    if a.op == 'b1':
        return a.a[0]
    t = mk('byte', a, o)
    NN.setdefault(t, 8)
    return t


def byte_piece(v):
    if isint(v):
        return [(ZERO, 0, 1)] if v == 0 else [(mk('lit', '%02x' % (v & 255)), 0, 1)]
    if v.op == 'byte' and isint(v.a[1]):
        return [(v.a[0], v.a[1], 1)]
    return [(mk('b1', v), 0, 1)]


def pieces_of(content, off, ln):
    """pieces of content[off..off+ln]"""
    if content.__class__ is T and content.op == 'cat' and isint(off) and isint(ln) and 0 <= off and off + ln <= content.a[1]:
        return cat_read(content, off, ln)
    if content.__class__ is T and content.op == 'cat' and off == 0 and ln is content.a[1]:
        return list(content.a[0])
    if content.__class__ is T and content.op == 'cat' and len(content.a[0]) == 1 and content.a[0][0][0].op == 'zero':
        return [(ZERO, 0, ln)]
    return [(mk('view', content, off, ln), 0, ln)]


def content_term(pieces):
    """single canonical term for a piece list (used as hash/cipher input)"""
    if all(isint(l) and isint(o) for _, o, l in pieces):
        return cat_make(pieces)
    return mk('pcs', tuple(pieces))


# ------------------------------------------------------------------ helpers
RES = 'std::result::Result'
OPT = 'std::option::Option'
UNIT = agg('tuple', None, {})


def ok(v):
    return agg(RES, 'Ok', {('Ok', '0'): v})


def err(v):
    return agg(RES, 'Err', {('Err', '0'): v})


def some(v):
    return agg(OPT, 'Some', {('Some', '0'): v})


def none():
    return agg(OPT, 'None', {})


class C:
    """one call"""

    def __init__(self, e, st, fr, bb, blk, callee, args, atys, dty, ops, body):
        self.e, self.st, self.fr, self.bb, self.blk = e, st, fr, bb, blk
        self.callee, self.args, self.ops, self.body = callee, args, ops, body
        self.dty = e.ty(dty) if dty is not None else None
        self.atys = [e.ty(t) for t in atys] if atys else [None] * len(args)
        if not atys and len(args) == 1 and callee.get('tr') and callee.get('a'):
            # a function item handed to a combinator: argument types from its own generic arguments
            tr, a = callee['tr'].split('::')[-1], callee['a']
            if tr == 'From' and len(a) > 1:
                self.atys, self.dty = [e.ty(a[1])], e.ty(a[0])
            elif tr == 'Into' and len(a) > 1:
                self.atys, self.dty = [e.ty(a[0])], e.ty(a[1])
            elif tr in ('ToString', 'ToOwned', 'Clone', 'AsRef', 'Borrow'):
                t = e.ty(a[0])
                self.atys = [{'k': 'ref', 'e': a[0], 's': '&' + (t['s'] if t else '?'), 'm': False}]

    def event(self, name, args=None, **info):
        return self.e.event(self.st, self.fr, self.blk, name, self.args if args is None else args, callee=self.callee, **info)

    def fresh(self, tag, ty=None):
        return self.e.fresh(tag, ty)

    def rd(self, v):
        r, p = self.e.deref(self.st, v)
        return self.e.read_any(self.st, r, p)

    def targ(self, ty, i=0):
        if ty and ty.get('a') and i < len(ty['a']):
            return self.e.ty(ty['a'][i])
        return None

    def pointee_ty(self, i):
        t = self.atys[i]
        if t and t['k'] in ('ref', 'ptr'):
            return self.e.ty(t['e'])
        return None

    def obj(self, i):
        """follow argument i through all reference layers given by its type: (root, path, type)"""
        t = self.atys[i]
        v = self.args[i]
        if t is None or t['k'] not in ('ref', 'ptr'):
            root = ('C', self.e.cur.id, self.bb, i)
            self.st.store[root] = v
            return root, (), t
        return self.obj_v(v, t)

    def obj_v(self, v, t):
        t = self.e.ty(t['e'])
        r, p = self.e.deref(self.st, v)
        while True:
            if r[0] == 'S':
                return r, p, t
            if t['k'] in ('ref', 'ptr'):
                v = self.e.read_any(self.st, r, p)
                r, p = self.e.deref(self.st, v)
                t = self.e.ty(t['e'])
                continue
            if t['k'] == 'adt' and t['n'] == 'std::boxed::Box' and t.get('a') and self.e.ty(t['a'][0])['k'] != 'array':
                x = self.e.read_any(self.st, r, p)
                r, p = self.e.deref(self.st, x)
                t = self.e.ty(t['a'][0])
                continue
            return r, p, t

    def to_slice(self, i):
        """argument i as a slice term (root, path, off, len)"""
        return self.as_slice(self.args[i], self.atys[i])

    def as_slice(self, v, t, depth=0):
        e, st = self.e, self.st
        if v.__class__ is T and v.op == 'slice':
            return v
        if v.__class__ is T and v.op == 'str':
            k = lit(v.a[0].encode().hex())
            return mk('slice', ('K', k), (), 0, k.a[1])
        if t is not None and t['k'] in ('ref', 'ptr') and depth < 6:
            pt = e.ty(t['e'])
            r, p = e.deref(st, v)
            if r[0] == 'S':
                return r[1]
            if pt['k'] == 'array':
                if pt.get('len') is not None and e.ty(pt['e']).get('bits') == 8:
                    e.arrlen[(r, p)] = pt['len']
                return mk('slice', r, p, 0, pt.get('len', UNDEF))
            if pt['k'] == 'slice' or pt['k'] == 'str':
                ln = mk('plen', v)
                NN.setdefault(ln, 63)
                return mk('slice', r, p, 0, ln)
            if pt['k'] == 'adt':
                n = pt['n']
                if n.endswith('vec::Vec') or n.endswith('string::String'):
                    cur = e.read(st, r, p)
                    return mk('slice', r, p + ('#buf',), 0, e.value_len(cur))
                if n.endswith('boxed::Box'):
                    x = e.read(st, r, p)
                    inner = e.ty(pt['a'][0])
                    if inner['k'] == 'array':
                        r2, p2 = e.deref(st, x)
                        if r2[0] == 'S':
                            return r2[1]
                        if inner.get('len') is not None and e.ty(inner['e']).get('bits') == 8:
                            e.arrlen[(r2, p2)] = inner['len']
                        return mk('slice', r2, p2, 0, inner.get('len', UNDEF))
                    if inner['k'] == 'slice':
                        return self.as_slice(x, {'k': 'ref', 'e': pt['a'][0], 's': '', 'mut': True}, depth + 1)
                if n.endswith('borrow::Cow'):
                    return self.cow_slice(e.read(st, r, p), pt)
                if 'Array' in n or n.endswith('NullString'):
                    cur = e.read(st, r, p)
                    return mk('slice', r, p, 0, e.value_len(cur))
                if n.endswith('io::Cursor'):
                    return self.as_slice(e.read(st, r, p + ('#inner',)), None, depth + 1)
            if pt['k'] in ('ref', 'ptr'):
                return self.as_slice(e.read(st, r, p), pt, depth + 1)
        if t is not None and t['k'] == 'array':
            root = ('C', e.cur.id, self.bb, 'arr', e.seq)
            st.store[root] = v
            return mk('slice', root, (), 0, t.get('len', UNDEF))
        if t is not None and t['k'] == 'adt' and (t['n'].endswith('vec::Vec') or 'Array' in t['n']):
            root = ('C', e.cur.id, self.bb, 'vec', e.seq)
            st.store[root] = v
            if t['n'].endswith('vec::Vec'):
                return mk('slice', root, ('#buf',), 0, e.value_len(v))
            return mk('slice', root, (), 0, e.value_len(v))
        ln = mk('plen', v)
        NN.setdefault(ln, 63)
        r, p = e.deref(st, v)
        if r[0] == 'S':
            return r[1]
        return mk('slice', r, p, 0, ln)

    def cow_slice(self, cow, t):
        e = self.e
        if cow.__class__ is T and cow.op == 'agg' and cow.a[1] == 'Borrowed':
            x = proj(cow, ('Borrowed', '0'))
            if x.__class__ is T and x.op == 'slice':
                return x
            ln = mk('plen', x)
            NN.setdefault(ln, 63)
            r, p = e.deref(self.st, x)
            return mk('slice', r, p, 0, ln)
        if cow.__class__ is T and cow.op == 'agg' and cow.a[1] == 'Owned':
            x = proj(cow, ('Owned', '0'))
            root = ('K', x)
            return mk('slice', root, ('#buf',), 0, e.value_len(x))
        ln = proj(cow, '#len')
        NN.setdefault(ln, 63)
        return mk('slice', ('D', mk('cowdata', cow)), (), 0, ln)

    # ---- contents
    def slice_content(self, s):
        v = self.e.read(self.st, s.a[0], s.a[1])
        v = self.whole(v, s)
        return pieces_of(v, s.a[2], s.a[3])

    def whole(self, v, s):
        """a byte array of known length as piece list"""
        n = self.e.arrlen.get((s.a[0], s.a[1]))
        if n is not None and v.__class__ is T and v.op != 'cat' and v.op != 'pcs':
            return mk('cat', ((v, 0, n),), n)
        return v

    def bytes_of(self, i):
        """content pieces of a byte-ish argument"""
        s = self.to_slice(i)
        return self.slice_content(s)

    def store_slice(self, s, pieces):
        """overwrite the bytes of slice s; pieces total length = s.len"""
        self.store_at(self.st, s, pieces)

    def store_at(self, st, s, pieces):
        root, path, off, ln = s.a
        if root[0] == 'K':
            return
        v = self.whole(self.e.read(st, root, path), s)
        if v.__class__ is T and v.op == 'cat' and isint(off) and isint(ln) and all(isint(l) for _, _, l in pieces) and off + ln <= v.a[1]:
            self.e.write(st, root, path, cat_write(v, off, ln, pieces))
            return
        if off == 0 and (ln is self.len_of_buf(v) or (isint(ln) and ln == self.len_of_buf(v))):
            self.e.write(st, root, path, content_term(pieces))
            return
        self.e.write(st, root, path, mk('bufupd', v, off, ln, tuple(pieces)) if self.depth_ok(v) else self.fresh('buf'))

    def depth_ok(self, v):
        d = 0
        while v.__class__ is T and v.op == 'bufupd':
            v = v.a[0]
            d += 1
            if d > 6:
                return False
        return True

    def len_of_buf(self, v):
        if v.__class__ is T and v.op == 'cat':
            return v.a[1]
        return None

    # ---- strings
    def content(self, i):
        return self.content_v(self.args[i], self.atys[i])

    def content_v(self, v, t):
        e = self.e
        for _ in range(6):
            if t is None:
                break
            if t['k'] == 'ref':
                pt = e.ty(t['e'])
                if pt['k'] == 'str' or (pt['k'] == 'adt' and pt['n'] in ('std::path::Path', 'std::ffi::OsStr', 'std::ffi::os_str::OsStr')):
                    if v.__class__ is T and v.op == 'ref':
                        v = e.read(self.st, v.a[0], v.a[1])
                    return v
                if pt['k'] in ('slice', 'array'):
                    return v
                r, p = e.deref(self.st, v)
                if r[0] == 'S':
                    return v
                v = e.read_any(self.st, r, p)
                t = pt
                continue
            if t['k'] == 'adt' and t['n'].endswith('boxed::Box'):
                r, p = e.deref(self.st, v)
                v = e.read_any(self.st, r, p)
                t = e.ty(t['a'][0]) if t.get('a') else None
                continue
            if t['k'] == 'adt' and t['n'].endswith('borrow::Cow'):
                if v.__class__ is T and v.op == 'agg' and v.a[1]:
                    return proj(v, (v.a[1], '0'))
                return mk('cowdata', v)
            break
        return v

    def res(self, okv, errv=None, okfacts=(), oketf=None, erreff=None):
        return [(ok(okv), list(okfacts), oketf), (err(errv if errv is not None else self.fresh('err')), [], erreff)]

    def typed(self, tag, ty):
        """fresh value of a type"""
        v = self.fresh(tag, ty)
        if ty is None:
            return v
        if ty['k'] == 'tuple' and not ty['a']:
            return UNIT
        if ty['k'] == 'tuple':
            return agg('tuple', None, {str(i): self.typed(f'{tag}.{i}', self.e.ty(x)) for i, x in enumerate(ty['a'])})
        if ty['k'] == 'ref' and self.e.ty(ty['e'])['k'] == 'slice':
            ln = mk('plen', v)
            NN.setdefault(ln, 63)
            return mk('slice', ('D', v), (), 0, ln)
        return v

    def default_ret(self, tag, split=True):
        t = self.dty
        if t is None:
            return self.fresh(tag)
        if t['k'] == 'never':
            return None
        if t['k'] == 'adt' and t['n'] == RES and split:
            return [(ok(self.typed(tag + '.ok', self.targ(t, 0))), [], None), (err(self.typed(tag + '.err', self.targ(t, 1))), [], None)]
        if t['k'] == 'adt' and t['n'] == OPT and split:
            return [(some(self.typed(tag + '.some', self.targ(t, 0))), [], None), (none(), [], None)]
        return self.typed(tag, t)

    def havoc_arg(self, i, tag='hv'):
        t = self.atys[i]
        v = self.args[i]
        if t is None:
            return
        self.havoc_val(v, t, tag + str(i), 0)

    def havoc_val(self, v, t, tag, d):
        e = self.e
        if d > 4 or v.__class__ is not T:
            return
        if t['k'] in ('ref', 'ptr') and t.get('mut'):
            pt = e.ty(t['e'])
            r, p = e.deref(self.st, v)
            if r[0] == 'S':
                s = r[1]
                cur = e.read(self.st, s.a[0], s.a[1])
                self.store_slice(s, [(self.fresh(tag + '.buf'), 0, s.a[3])])
                return
            if r[0] == 'K':
                return
            if pt['k'] in ('ref', 'ptr'):
                self.havoc_val(e.read_any(self.st, r, p), pt, tag, d + 1)
                return
            if pt['k'] == 'closure':
                self.havoc_val(e.read(self.st, r, p), pt, tag, d + 1)
                return
            cur = e.read(self.st, r, p)
            e.write(self.st, r, p, self.havoc_value(cur, tag, pt))
        elif t['k'] == 'closure' and v.op == 'agg':
            ups = t.get('up') or []
            for k, x in v.a[2]:
                i = int(k) if str(k).isdigit() else None
                ut = e.ty(ups[i]) if i is not None and i < len(ups) else None
                if ut is not None and ut['k'] in ('ref', 'ptr', 'closure'):
                    self.havoc_val(x, ut, f'{tag}.{k}', d + 1)
        elif v.op == 'agg' and any(k == '#body' for k, _ in v.a[2]):
            for k, x in v.a[2]:
                if x.__class__ is T and x.op == 'ref' and k != '#body' and x.a[0][0] != 'K':
                    cur = e.read(self.st, x.a[0], x.a[1])
                    nv = self.fresh(tag + '.' + str(k))
                    if cur.__class__ is int or cur in NN:
                        NN.setdefault(nv, 64)
                    e.write(self.st, x.a[0], x.a[1], nv)

    def havoc_value(self, cur, tag, pt):
        f = self.fresh(tag, pt)
        return f


# ------------------------------------------------------------------ registry
REG = {}
TRAIT = {}


def model(*paths):
    def d(f):
        for p in paths:
            REG[p] = f
        return f
    return d


def tmodel(trait, *ms):
    def d(f):
        for m in ms:
            TRAIT[(trait, m)] = f
        return f
    return d


class Models:
    """default model set; rules may subclass"""

    def __init__(self, stream_types=(), extra=None):
        self.stream_types = set(stream_types)   # ADT names treated as abstract streams
        self.extra = extra or {}

    def override(self, e, callee, body):
        """non-None: do not inline `body`, use call()"""
        tr = callee.get('tr')
        if tr in ('std::io::Read', 'std::io::Write', 'std::io::Seek') and self.stream_types:
            st = self.self_type(e, callee)
            if st in self.stream_types:
                return 'stream'
        p = callee.get('rp') or callee.get('p')
        if p in self.extra or callee.get('p') in self.extra:
            return 'extra'
        if p in REG:
            return 'reg'
        return None

    def self_type(self, e, callee):
        a = callee.get('a')
        if not a:
            return None
        t = e.ty(a[0])
        while t['k'] in ('ref', 'ptr'):
            t = e.ty(t['e'])
        return t['n'].split('::')[-1] if t['k'] == 'adt' else None

    def on_drop(self, e, st, fr, t, blk):
        pass

    def call(self, e, st, fr, bb, blk, callee, args, atys, dty, ops, body):
        c = C(e, st, fr, bb, blk, callee, args, atys, dty, ops, body)
        p = callee.get('p')
        rp = callee.get('rp')
        f = self.extra.get(p) or self.extra.get(rp)
        if f:
            r = f(c)
            if r is not NotImplemented:
                return r
        f = REG.get(p) or REG.get(rp)
        if f:
            r = f(c)
            if r is not NotImplemented:
                return r
        f = TRAIT.get((callee.get('tr'), callee.get('m')))
        if f is None and callee.get('tr'):
            f = TRAIT.get((callee['tr'].split('::')[-1], callee.get('m')))
        if f:
            r = f(c)
            if r is not NotImplemented:
                return r
        if body is not None and body.path in fr.chain:
            ev = c.event('rec', body=body)
        else:
            e.unmodeled[p] = e.unmodeled.get(p, 0) + 1
            ev = c.event('call:' + str(p), body=body)
        for i in range(len(args)):
            c.havoc_arg(i)
        r = c.default_ret('ret')
        ev.res = r
        return r


# ------------------------------------------------------------------ numbers
@tmodel('std::cmp::Ord', 'min')
def _(c):
    t = c.atys[0]
    if t and t['k'] in ('uint', 'int'):
        return tmin(c.args[0], c.args[1])
    return NotImplemented


@tmodel('std::cmp::Ord', 'max')
def _(c):
    t = c.atys[0]
    if t and t['k'] in ('uint', 'int'):
        return tmax(c.args[0], c.args[1])
    return NotImplemented


@tmodel('std::cmp::Ord', 'clamp')
def _(c):
    return tmin(tmax(c.args[0], c.args[1]), c.args[2])


@model('std::cmp::min')
def _(c):
    return tmin(c.args[0], c.args[1]) if c.atys[0]['k'] in ('uint', 'int') else NotImplemented


@model('std::cmp::max')
def _(c):
    return tmax(c.args[0], c.args[1]) if c.atys[0]['k'] in ('uint', 'int') else NotImplemented


def _num(c):
    p = c.callee['p']
    m = c.callee.get('m') or p.split('::')[-1]
    t = c.atys[0]
    if t and t['k'] == 'ref':
        t = c.e.ty(t['e'])
    bits = t.get('bits', 64) if t else 64
    a = c.args[0]
    b = c.args[1] if len(c.args) > 1 else None
    uns = t['k'] == 'uint' if t else True
    M = (1 << bits) - 1
    if m in ('saturating_sub',) and uns:
        # max(a,b) - b
        return sub(tmax(a, b), b)
    if m == 'saturating_add' and uns:
        return tmin(add(a, b), M)
    if m == 'saturating_mul' and uns:
        return tmin(mul(a, b), M)
    if m == 'saturating_add_signed':
        return tmax(add(a, b), 0)
    if m == 'checked_add_signed' or m == 'checked_add' or m == 'checked_sub' or m == 'checked_mul':
        r = add(a, b) if 'add' in m else (sub(a, b) if 'sub' in m else mul(a, b))
        good = tand(tle(0, r), tle(r, M)) if uns else 1
        if isint(r) and uns:
            return some(r) if 0 <= r <= M else none()
        if uns:
            lo, hi = interval(r)
            if lo is not None and lo >= 0 and hi is not None and hi <= M:
                return some(r)
        return [(some(r), [good], None), (none(), [tnot(good)] if not isint(good) or good == 0 else [], None)]
    if m in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'unchecked_add', 'unchecked_sub'):
        r = add(a, b) if 'add' in m else (sub(a, b) if 'sub' in m else mul(a, b))
        if isint(r):
            return r & M if uns else r
        if m == 'wrapping_sub' and uns:
            lo, _ = interval(r)
            if lo is None or lo < 0:
                return [(r, [tle(b, a)], None), (add(r, M + 1), [tlt(a, b)], None)]
        # assumed not to wrap (positions are far below the type's limit)
        c.event('wrapping', [a, b, r])
        return r
    if m == 'div_ceil' and isint(b):
        return div(add(a, b - 1), b)
    if m == 'next_multiple_of' and isint(b):
        return mulc(div(add(a, b - 1), b), b)
    if m == 'is_multiple_of' and isint(b) and b:
        return eq0(mod(a, b))
    if m == 'abs_diff':
        return sub(tmax(a, b), tmin(a, b))
    if m in ('pow',):
        return a ** b if isint(a) and isint(b) else c.typed('pow', c.dty)
    if m in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes'):
        n = bits // 8
        if isint(a):
            return lit((a & M).to_bytes(n, 'big' if m == 'to_be_bytes' else 'little').hex())
        return mk('cat', ((mk('tob', 'be' if m == 'to_be_bytes' else 'le', bits, a), 0, n),), n)
    if m in ('swap_bytes', 'rotate_left', 'rotate_right', 'leading_zeros', 'trailing_zeros', 'count_ones'):
        return c.typed(m, c.dty)
    if m in ('from_be_bytes', 'from_le_bytes', 'from_ne_bytes'):
        t = mk('fromb', m, a)
        c.e.note_type(t, c.dty)
        return t
    if m in ('is_power_of_two',):
        return c.typed(m, c.dty)
    if m in ('to_ascii_lowercase', 'to_ascii_uppercase'):
        v = c.rd(a) if c.atys[0]['k'] == 'ref' else a
        t = mk('app', m, v)
        NN.setdefault(t, 8)
        return t
    return NotImplemented


# ------------------------------------------------------------------ Option / Result
def _unwrap(c):
    v = c.args[0]
    p = c.callee['p']
    good = 'Some' if 'Option' in p else 'Ok'
    if v.__class__ is T and v.op == 'agg' and v.a[1]:
        if v.a[1] == good:
            return proj(v, (good, '0'))
        c.e.panic(c.e.cur, c.st, c.fr, c.blk, 'unwrap', 0, v)
        return None
    e = c.e.enum_def(c.atys[0]) if c.atys[0] else None
    d = disc_of(v, e)
    if d.__class__ is T and e:
        d2 = c.e.disc_fact(c.st, d, e)
        want = [x['d'] for x in e['v'] if x['n'] == good][0]
        if isint(d2):
            if d2 == want:
                return proj(v, (good, '0'))
            return None
        c.e.panic(c.e.cur, c.st, c.fr, c.blk, 'unwrap', eq0(sub(d, want)), v)
        c.e.assume(c.st, eq0(sub(d, want)))
    r = proj(v, (good, '0'))
    c.e.note_type(r, c.dty) if r.__class__ is T else None
    return r


for _p in ('std::option::Option::<T>::unwrap', 'std::result::Result::<T, E>::unwrap', 'std::option::Option::<T>::expect',
           'std::result::Result::<T, E>::expect', 'std::option::Option::<T>::unwrap_unchecked'):
    REG[_p] = _unwrap


@model('std::result::Result::<T, E>::unwrap_or', 'std::result::Result::<T, E>::unwrap_or_default', 'std::option::Option::<T>::unwrap_or_default')
def _(c):
    v = c.args[0]
    good = 'Some' if 'Option' in c.callee['p'] else 'Ok'
    if v.__class__ is T and v.op == 'agg' and v.a[1]:
        if v.a[1] == good:
            return proj(v, (good, '0'))
        return c.args[1] if len(c.args) > 1 else _default(c, c.dty)
    return c.typed('unwrap_or', c.dty)


@model('std::option::Option::<std::result::Result<T, E>>::transpose')
def _(c):
    v = c.args[0]
    if not (v.__class__ is T and v.op == 'agg' and v.a[1]):
        return NotImplemented
    if v.a[1] == 'None':
        return ok(none())
    x = proj(v, ('Some', '0'))
    if x.__class__ is T and x.op == 'agg' and x.a[1]:
        return ok(some(proj(x, ('Ok', '0')))) if x.a[1] == 'Ok' else err(proj(x, ('Err', '0')))
    d = mk('disc', x)
    return [(ok(some(proj(x, ('Ok', '0')))), [eq0(d)], None), (err(proj(x, ('Err', '0'))), [eq0(sub(d, 1))], None)]


def _default(c, t):
    if t is None:
        return c.fresh('default')
    if t['k'] in ('uint', 'int', 'bool'):
        return 0
    if t['k'] == 'str' or (t['k'] == 'ref' and c.e.ty(t['e'])['k'] == 'str'):
        return mk('str', '')
    if t['k'] == 'adt' and t['n'].endswith('vec::Vec'):
        return empty_vec(c, t)
    if t['k'] == 'adt' and t['n'].endswith('string::String'):
        return mk('str', '')
    if t['k'] == 'adt' and t['n'] == OPT:
        return none()
    if t['k'] == 'array' and c.e.ty(t['e']).get('bits') == 8:
        return zeros(t['len'])
    return c.fresh('default', t)


@tmodel('std::default::Default', 'default')
def _(c):
    return _default(c, c.dty)


@model('std::mem::drop')
def _(c):
    c.event('drop')
    return UNIT


@model('std::hint::must_use', 'std::convert::identity', 'std::hint::black_box')
def _(c):
    return c.args[0]


@model('std::intrinsics::typed_swap_nonoverlapping')
def _(c):
    a, b = c.args
    ra, pa = c.e.deref(c.st, a)
    rb, pb = c.e.deref(c.st, b)
    va, vb = c.e.read_any(c.st, ra, pa), c.e.read_any(c.st, rb, pb)
    c.event('swap', [a, b], va=va, vb=vb)
    c.e.write(c.st, ra, pa, vb)
    c.e.write(c.st, rb, pb, va)
    return UNIT


# ------------------------------------------------------------------ conversions
STRTY = ('std::string::String', 'std::path::PathBuf', 'std::path::Path', 'std::ffi::OsString', 'std::ffi::OsStr', 'std::ffi::os_str::OsString', 'std::ffi::os_str::OsStr')


def is_str(e, t):
    while t and t['k'] == 'ref':
        t = e.ty(t['e'])
    if not t:
        return False
    if t['k'] == 'str':
        return True
    if t['k'] == 'adt' and t['n'] in STRTY:
        return True
    if t['k'] == 'adt' and t['n'].endswith('borrow::Cow') and t.get('a') and is_str(e, e.ty(t['a'][0])):
        return True
    return False


@tmodel('std::convert::Into', 'into')
@tmodel('std::convert::From', 'from')
def _conv(c):
    ft, tt = c.atys[0], c.dty
    v = c.args[0]
    e = c.e
    if ft is None or tt is None:
        return c.fresh('into', tt)
    if ft['s'] == tt['s']:
        return v
    if is_str(e, ft) and is_str(e, tt):
        return c.content(0)
    if tt['k'] in ('uint', 'int') and ft['k'] in ('uint', 'int', 'bool', 'char'):
        return v
    if ft['k'] == 'ref' and tt['k'] == 'ref':
        if 'Array' in tt['s'] or c.e.ty(tt['e'])['k'] in ('array', 'slice') or 'Array' in ft['s']:
            return v
    if 'Array' in tt['s'] or 'Array' in ft['s']:
        return v
    if tt['k'] == 'adt':
        n = tt['n']
        if n.endswith('borrow::Cow'):
            if ft['k'] == 'adt' and ft['n'].endswith('vec::Vec'):
                return agg(n, 'Owned', {('Owned', '0'): v})
            if ft['k'] == 'ref':
                return agg(n, 'Borrowed', {('Borrowed', '0'): v})
        if n.endswith('boxed::Box'):
            root = ('H', e.cur.id, e.seq)
            e.seq += 1
            c.st.store[root] = v
            return mk('ref', root, ())
        if n.endswith('vec::Vec') and ft['k'] == 'adt' and ft['n'].endswith('borrow::Cow'):
            s = c.cow_slice(v, ft)
            return vec_from_slice(c, s)
        if n.endswith('Error') or 'Err' in n:
            return mk('app', 'errconv', v)
        if n == OPT:
            return some(v)
    t = mk('app', 'conv:' + tt['s'][:60], v)
    e.note_type(t, tt)
    return t


@tmodel('std::convert::TryInto', 'try_into')
@tmodel('std::convert::TryFrom', 'try_from')
def _(c):
    ft = c.atys[0]
    tt = c.targ(c.dty, 0)
    v = c.args[0]
    if ft and tt and ft['k'] in ('uint', 'int') and tt['k'] in ('uint', 'int'):
        b = tt['bits']
        lo, hi = (0, (1 << b) - 1) if tt['k'] == 'uint' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        good = tand(tle(lo, v), tle(v, hi))
        if isint(good):
            return ok(v) if good else err(c.fresh('tryfrom'))
        c.event('try_into', [v], bits=b)
        return [(ok(v), [good], None), (err(c.fresh('tryfrom')), [tnot(good)], None)]
    if tt and ((tt['k'] == 'ref' and c.e.ty(tt['e'])['k'] == 'array') or (tt['k'] == 'adt' and tt['n'].endswith('boxed::Box') and c.e.ty(tt['a'][0])['k'] == 'array')):
        want = c.e.ty(tt['e'] if tt['k'] == 'ref' else tt['a'][0]).get('len')
        s = c.as_slice(v, ft)
        ln = s.a[3]
        if s.a[2] == 0 and tt['k'] == 'adt':
            val = mk('ref', s.a[0], s.a[1])
        else:
            val = mk('slice', s.a[0], s.a[1], s.a[2], want if want is not None else ln)
        if want is None:
            return ok(val)
        g = teq(ln, want)
        if isint(g):
            return ok(val) if g else err(c.fresh('tryfrom'))
        return [(ok(val), [g], None), (err(c.fresh('tryfrom')), [tnot(g)], None)]
    if tt and tt['k'] == 'array':
        if v.__class__ is T and (v.op == 'cat') and v.a[1] == tt.get('len'):
            return ok(v)
        ps = c.bytes_of(0) if ft and ft['k'] in ('ref', 'adt') else None
        if ps is not None and len(ps) >= 1:
            ct = content_term(ps)
            if ct.op == 'cat' and ct.a[1] == tt.get('len'):
                return ok(ct)
        if ft and ft['k'] == 'adt' and 'Array' in ft['s']:
            return ok(v)
    return NotImplemented


@tmodel('std::clone::Clone', 'clone')
@tmodel('std::borrow::ToOwned', 'to_owned')
@model('std::slice::<impl [T]>::to_vec', 'core::slice::<impl [T]>::to_vec')
def _(c):
    t = c.pointee_ty(0)
    if is_str(c.e, c.atys[0]):
        return c.content(0)
    if t and t['k'] == 'slice':
        return vec_from_slice(c, c.to_slice(0))
    if t and t['k'] == 'ref':
        return c.rd(c.args[0])
    v = c.rd(c.args[0])
    return v


@tmodel('std::string::ToString', 'to_string')
def _(c):
    if is_str(c.e, c.atys[0]):
        return c.content(0)
    return mk('app', 'to_string', c.rd(c.args[0]))


def _arith(c):
    def val(i):
        v, t = c.args[i], c.atys[i]
        while t and t['k'] == 'ref':
            v = c.rd(v)
            t = c.e.ty(t['e'])
        return v, t
    a, ta = val(0)
    b, tb = val(1)
    if not ta or not tb or ta['k'] not in ('uint', 'int') or tb['k'] not in ('uint', 'int'):
        return NotImplemented
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}[c.callee['m']]
    return c.e.binop(op, a, b, ta, c.st)


for _t, _m in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem'), ('BitAnd', 'bitand'), ('BitOr', 'bitor'), ('BitXor', 'bitxor'), ('Shl', 'shl'), ('Shr', 'shr')):
    tmodel('std::ops::' + _t, _m)(_arith)


@tmodel('std::convert::AsRef', 'as_ref')
@tmodel('std::convert::AsMut', 'as_mut')
@tmodel('std::ops::Deref', 'deref')
@tmodel('std::ops::DerefMut', 'deref_mut')
@tmodel('std::borrow::Borrow', 'borrow')
@tmodel('std::borrow::BorrowMut', 'borrow_mut')
def _asref(c):
    t = c.pointee_ty(0)
    d = c.dty
    if is_str(c.e, c.atys[0]) and is_str(c.e, d):
        dp = c.e.ty(d['e']) if d['k'] == 'ref' else None
        if dp and dp['k'] == 'adt' and dp['n'] in ('std::string::String', 'std::path::PathBuf'):
            return c.args[0]
        if d.get('mut'):
            return c.args[0]
        return c.content(0)
    if d and d['k'] == 'ref':
        dp = c.e.ty(d['e'])
        if dp['k'] == 'slice':
            return c.to_slice(0)
        if dp['k'] == 'array':
            if t and t['k'] == 'adt' and t['n'].endswith('boxed::Box'):
                return c.rd(c.args[0])
            return c.args[0]
        if t and t['s'] == dp['s']:
            return c.args[0]
        if t and t['k'] == 'adt' and t['n'].endswith('boxed::Box'):
            return c.rd(c.args[0])
        if t and t['k'] == 'ref':
            return c.rd(c.args[0])
        if t and t['k'] == 'adt' and t['n'].endswith('borrow::Cow'):
            v = c.rd(c.args[0])
            if v.__class__ is T and v.op == 'agg' and v.a[1] == 'Borrowed':
                return proj(v, ('Borrowed', '0'))
            return mk('cowdata', v)
        if t and t['k'] == 'adt' and t['n'].endswith('NullString'):
            return c.args[0]
    v = mk('app', 'asref', c.args[0])
    return c.args[0] if d is None else v


# ------------------------------------------------------------------ comparison
def eq_values(c, a, b, t, depth=0):
    """-> bool term"""
    e = c.e
    if t is None:
        return e.same(a, b)
    if t['k'] in ('uint', 'int', 'char'):
        return teq(a, b)
    if t['k'] == 'bool':
        return e.binop('Eq', a, b, t, c.st)
    if t['k'] == 'tuple' and not t['a']:
        return 1
    return e.same(a, b)


@tmodel('std::cmp::PartialEq', 'eq')
@tmodel('std::cmp::PartialEq', 'ne')
def _eq(c):
    ne = c.callee['m'] == 'ne'
    e = c.e
    fix = (lambda x: tnot(x)) if ne else (lambda x: x)
    t0, t1 = c.atys[0], c.atys[1]
    if is_str(e, t0) or is_str(e, t1):
        a, b = c.content(0), c.content(1)
        if a.__class__ is T and b.__class__ is T and a.op == 'str' and b.op == 'str':
            return fix(1 if a.a[0] == b.a[0] else 0)
        return fix(e.same(a, b))
    ra, pa, ta = c.obj(0)
    rb, pb, tb = c.obj(1)
    if ra[0] == 'S' or rb[0] == 'S' or (ta and ta['k'] in ('array', 'slice')) or (tb and tb['k'] in ('array', 'slice')):
        x = content_term(c.bytes_of(0))
        y = content_term(c.bytes_of(1))
        if x is y:
            return fix(1)
        return fix(e.same(x, y))
    a, b = e.read_any(c.st, ra, pa), e.read_any(c.st, rb, pb)
    if ta and ta['k'] == 'adt':
        ed = e.enum_def(ta)
        if ed and ta['n'] == OPT:
            pt = c.targ(ta, 0)
            return _eq_opt(c, a, b, pt, ed, fix)
        if ed:
            fields = any(v['f'] for v in ed['v'])
            da, db = disc_of(a, ed), disc_of(b, ed)
            if isint(da) and isint(db) and da != db:
                return fix(0)
            if not fields:
                return fix(teq(da, db))
        return fix(e.same(a, b))
    return fix(eq_values(c, a, b, ta))


def _eq_opt(c, a, b, pt, ed, fix):
    e = c.e
    da, db = disc_of(a, ed), disc_of(b, ed)
    if not isint(da):
        da = e.disc_fact(c.st, da, ed)
    if not isint(db):
        db = e.disc_fact(c.st, db, ed)
    if isint(da) and isint(db):
        if da != db:
            return fix(0)
        if da == 0:
            return fix(1)
        x, y = proj(a, ('Some', '0')), proj(b, ('Some', '0'))
        for z in (x, y):
            if z.__class__ is T:
                e.note_type(z, pt)
        return fix(eq_values(c, x, y, pt))
    if isint(da):
        a, b, da, db = b, a, db, da
    # a unknown
    if isint(db):
        if db == 0:
            return fix(eq0(da))
        x, y = proj(a, ('Some', '0')), proj(b, ('Some', '0'))
        for z in (x, y):
            if z.__class__ is T:
                e.note_type(z, pt)
        q = eq_values(c, x, y, pt)
        return [(fix(0), [eq0(da)], None), (fix(1), [eq0(sub(da, 1)), q], None), (fix(0), [eq0(sub(da, 1)), tnot(q)], None)]
    return fix(e.same(a, b))


@tmodel('std::cmp::PartialOrd', 'lt')
@tmodel('std::cmp::PartialOrd', 'le')
@tmodel('std::cmp::PartialOrd', 'gt')
@tmodel('std::cmp::PartialOrd', 'ge')
def _(c):
    ra, pa, ta = c.obj(0)
    rb, pb, tb = c.obj(1)
    if ta and ta['k'] in ('uint', 'int'):
        a, b = c.e.read_any(c.st, ra, pa), c.e.read_any(c.st, rb, pb)
        return {'lt': tlt(a, b), 'le': tle(a, b), 'gt': tlt(b, a), 'ge': tle(b, a)}[c.callee['m']]
    return NotImplemented


@tmodel('std::cmp::Ord', 'cmp')
@tmodel('std::cmp::PartialOrd', 'partial_cmp')
def _(c):
    ra, pa, ta = c.obj(0)
    rb, pb, tb = c.obj(1)
    wrap = some if c.callee['m'] == 'partial_cmp' else (lambda x: x)
    O = 'std::cmp::Ordering'
    a, b = c.e.read_any(c.st, ra, pa), c.e.read_any(c.st, rb, pb)
    if ta and ta['k'] in ('uint', 'int'):
        return [(wrap(agg(O, 'Less', {})), [tlt(a, b)], None), (wrap(agg(O, 'Equal', {})), [teq(a, b)], None), (wrap(agg(O, 'Greater', {})), [tlt(b, a)], None)]
    if is_str(c.e, c.atys[0]):
        a, b = c.content(0), c.content(1)
    ev = c.event('cmp', [a, b])
    return wrap(mk('app', 'cmp', a, b))


@model('std::cmp::Ordering::then_with', 'std::cmp::Ordering::then', 'std::cmp::Ordering::reverse', 'std::cmp::Ordering::is_eq', 'std::cmp::Ordering::is_ne')
def _(c):
    c.event('ordering:' + c.callee['p'].split('::')[-1])
    return c.fresh('ord', c.dty)


# ------------------------------------------------------------------ slices and vectors
def empty_vec(c, t=None):
    return agg('Vec', None, {'#len': 0, '#buf': mk('cat', (), 0)})


def vec_from_slice(c, s):
    ps = c.slice_content(s)
    return agg('Vec', None, {'#len': s.a[3], '#buf': content_term(ps)})


@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::string::String::new', 'std::string::String::with_capacity')
def _(c):
    if c.callee['p'].endswith('with_capacity'):
        c.event('alloc', [c.args[0]], kind='with_capacity')
    if 'String' in c.callee['p']:
        return mk('str', '')
    return empty_vec(c)


@model('std::vec::from_elem')
def _(c):
    v, n = c.args
    c.event('alloc', [n], kind='from_elem')
    t = c.atys[0]
    if t and t.get('bits') == 8:
        if isint(n):
            buf = zeros(n) if v == 0 else mk('cat', ((mk('fill', v), 0, n),), n)
        else:
            buf = mk('pcs', ((ZERO if v == 0 else mk('fill', v), 0, n),))
    else:
        buf = agg('array', None, {'#rep': v, '#len': n})
    return agg('Vec', None, {'#len': n, '#buf': buf})


@model('std::vec::Vec::<T, A>::into_boxed_slice')
def _(c):
    v = c.args[0]
    root = ('H', c.e.cur.id, c.e.seq)
    c.e.seq += 1
    c.st.store[root] = proj(v, '#buf')
    return mk('slice', root, (), 0, c.e.value_len(v))


@model('std::boxed::Box::<T>::new')
def _(c):
    root = ('H', c.e.cur.id, c.e.seq)
    c.e.seq += 1
    c.st.store[root] = c.args[0]
    return mk('ref', root, ())


@model('std::boxed::Box::<T>::new_uninit')
def _(c):
    root = ('H', c.e.cur.id, c.e.seq)
    v = mk('fresh', c.e.cur.id, c.e.seq, 'uninit')
    c.e.seq += 1
    c.st.store[root] = v
    return mk('ref', root, ())


@model('std::boxed::box_assume_init_into_vec_unsafe')
def _(c):
    a = c.args[0]
    if not (a.__class__ is T and a.op == 'ref'):
        return NotImplemented
    v = c.e.read(c.st, a.a[0], a.a[1])
    for _ in range(6):
        if v.__class__ is T and v.op == 'agg' and v.a[0] != 'array' and len(v.a[2]) == 1:
            v = v.a[2][0][1]
    if v.__class__ is T and v.op == 'cat':
        return agg('Vec', None, {'#len': v.a[1], '#buf': v})
    if v.__class__ is T and v.op == 'agg' and v.a[0] == 'array':
        d = dict(v.a[2])
        n = d.pop('#len', None)
        if isint(n) and len(d) == n:
            return agg('Vec', None, {'#len': n, '#buf': agg('array', None, d)})
    return NotImplemented


def vlen(c, root, path):
    v = c.e.read(c.st, root, path)
    return c.e.value_len(v)


def vec_obj(c, i=0):
    r, p, t = c.obj(i)
    return r, p, t


@model('std::vec::Vec::<T, A>::capacity', 'std::string::String::capacity')
def _(c):
    t = c.fresh('cap')
    NN.setdefault(t, 63)
    return t


@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'std::string::String::len', 'core::str::<impl str>::len')
def _(c):
    if is_str(c.e, c.atys[0]):
        s = c.content(0)
        if s.__class__ is T and s.op == 'str':
            return len(s.a[0].encode())
        t = mk('app', 'strlen', s)
        NN.setdefault(t, 63)
        return t
    return c.to_slice(0).a[3]


@model('core::slice::<impl [T]>::is_empty', 'std::vec::Vec::<T, A>::is_empty', 'core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def _(c):
    if is_str(c.e, c.atys[0]):
        s = c.content(0)
        if s.__class__ is T and s.op == 'str':
            return 0 if s.a[0] else 1
        return c.e.same(s, mk('str', ''))
    return eq0(c.to_slice(0).a[3])


@model('std::vec::Vec::<T, A>::clear', 'std::string::String::clear')
def _(c):
    r, p, t = vec_obj(c)
    c.event('vec.clear', [mk('ref', r, p)] if r[0] != 'S' else c.args)
    c.e.write(c.st, r, p, empty_vec(c) if 'Vec' in c.callee['p'] else mk('str', ''))
    return UNIT


@model('std::vec::Vec::<T, A>::truncate')
def _(c):
    r, p, t = vec_obj(c)
    ln = vlen(c, r, p)
    n = tmin(ln, c.args[1])
    c.event('vec.truncate', [mk('ref', r, p), n])
    c.e.write(c.st, r, p + ('#len',), n)
    buf = c.e.read(c.st, r, p + ('#buf',))
    c.e.write(c.st, r, p + ('#buf',), content_term(pieces_of(buf, 0, n)))
    return UNIT


@model('std::vec::Vec::<T, A>::resize')
def _(c):
    r, p, t = vec_obj(c)
    n = c.args[1]
    ln = vlen(c, r, p)
    c.event('alloc', [n], kind='resize')
    c.event('vec.resize', [mk('ref', r, p), n], before=ln)
    buf = c.e.read(c.st, r, p + ('#buf',))
    if ln == 0:
        nb = content_term([(ZERO if c.args[2] == 0 else mk('fill', c.args[2]), 0, n)])
    else:
        nb = mk('resized', buf, n)
    c.e.write(c.st, r, p + ('#len',), n)
    c.e.write(c.st, r, p + ('#buf',), nb)
    return UNIT


@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::reserve_exact')
def _(c):
    c.event('alloc', [c.args[1]], kind='reserve')
    return UNIT


@model('std::vec::Vec::<T, A>::try_reserve', 'std::vec::Vec::<T, A>::try_reserve_exact')
def _(c):
    c.event('fallible', kind='try_reserve')
    return c.res(UNIT)


@model('std::vec::Vec::<T, A>::push')
def _(c):
    r, p, t = vec_obj(c)
    ln = vlen(c, r, p)
    c.event('vec.push', [mk('ref', r, p) if r[0] != 'S' else c.args[0], c.args[1]], before=ln)
    buf = c.e.read(c.st, r, p + ('#buf',))
    et = c.targ(t, 0)
    if et and et.get('bits') == 8:
        nb = content_term((pieces_of(buf, 0, ln) if ln != 0 else []) + byte_piece(c.args[1])) if isint(ln) else mk('push', c.fresh('pb'), c.args[1])
    elif isint(ln) and ln < 64:
        its = {}
        if buf.__class__ is T and buf.op == 'agg':
            its = dict(buf.a[2])
        if len(its) >= ln:
            its[('idx', ln)] = c.args[1]
            nb = agg('array', None, its)
        else:
            nb = c.fresh('vbuf')
    else:
        nb = c.fresh('vbuf')
    c.e.write(c.st, r, p + ('#len',), add(ln, 1))
    c.e.write(c.st, r, p + ('#buf',), nb)
    return UNIT


@model('std::vec::Vec::<T, A>::pop')
def _(c):
    r, p, t = vec_obj(c)
    ln = vlen(c, r, p)
    c.event('vec.pop', [mk('ref', r, p)], before=ln)
    v = c.typed('pop', c.targ(c.dty, 0))
    if isint(ln):
        if ln == 0:
            return none()

    def eff(s):
        c.e.write(s, r, p + ('#len',), sub(ln, 1))
        buf = c.e.read(s, r, p + ('#buf',))
        if buf.__class__ is T and buf.op == 'agg' and isint(ln):
            its = {k: x for k, x in buf.a[2] if k != ('idx', ln - 1)}
            c.e.write(s, r, p + ('#buf',), agg('array', None, its))
        else:
            c.e.write(s, r, p + ('#buf',), c.fresh('vbuf'))
    if isint(ln):
        eff(c.st)
        return some(v)
    return [(some(v), [tlt(0, ln)], eff), (none(), [eq0(ln)], None)]


@model('std::vec::Vec::<T, A>::extend_from_slice', 'std::io::Write::write_all_vec')
def _(c):
    r, p, t = vec_obj(c)
    s = c.to_slice(1)
    ln = vlen(c, r, p)
    ps = c.slice_content(s)
    c.event('vec.extend', [mk('ref', r, p), s], before=ln, n=s.a[3], content=tuple(ps), under=c.e.read(c.st, s.a[0], s.a[1]))
    buf = c.e.read(c.st, r, p + ('#buf',))
    nl = add(ln, s.a[3])
    if isint(ln) and isint(s.a[3]) and buf.__class__ is T and (buf.op == 'cat'):
        nb = cat_make(cat_read(buf, 0, ln) + ps)
    elif ln == 0:
        nb = content_term(ps)
    else:
        nb = c.fresh('vbuf')
    c.e.write(c.st, r, p + ('#len',), nl)
    c.e.write(c.st, r, p + ('#buf',), nb)
    return UNIT


@tmodel('std::iter::Extend', 'extend')
def _(c):
    r, p, t = vec_obj(c)
    ln = vlen(c, r, p)
    it = c.args[1]
    s = None
    if c.atys[1] and c.atys[1]['k'] == 'ref':
        s = c.to_slice(1)
    n = s.a[3] if s is not None else None
    if s is None and it.__class__ is T and it.op == 'agg' and it.a[0] == 'iter:slice':
        n = sub(proj(it, 'n'), proj(it, 'i'))
    if n is None:
        n = c.fresh('extn')
        NN[n] = 63
    c.event('vec.extend', [mk('ref', r, p), it], before=ln, n=n, content=None)
    c.e.write(c.st, r, p + ('#len',), add(ln, n))
    c.e.write(c.st, r, p + ('#buf',), c.fresh('vbuf'))
    return UNIT


@model('std::vec::Vec::<T, A>::insert', 'std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def _(c):
    r, p, t = vec_obj(c)
    ln = vlen(c, r, p)
    m = c.callee['m']
    ev = c.event('vec.' + m, [mk('ref', r, p)] + list(c.args[1:]), before=ln)
    c.e.panic(c.e.cur, c.st, c.fr, c.blk, 'vec.' + m, tle(c.args[1], ln) if m == 'insert' else tlt(c.args[1], ln), (ln, c.args[1]))
    old = c.e.elem(c.st, c.e.read(c.st, r, p + ('#buf',)), c.args[1])
    c.e.write(c.st, r, p + ('#len',), add(ln, 1) if m == 'insert' else sub(ln, 1))
    nb = c.fresh('vbuf')
    if m == 'insert':
        nb = agg('?arr', None, {('idx', c.args[1]): c.args[2]}, nb)
    c.e.write(c.st, r, p + ('#buf',), nb)
    ev.info['old'] = old
    return UNIT if m == 'insert' else old


@model('std::vec::Vec::<T, A>::retain', 'std::vec::Vec::<T, A>::retain_mut', 'std::vec::Vec::<T, A>::dedup', 'std::vec::Vec::<T, A>::dedup_by',
       'std::vec::Vec::<T, A>::append', 'std::vec::Vec::<T, A>::drain', 'std::vec::Vec::<T, A>::split_off',
       'core::slice::<impl [T]>::sort_unstable_by', 'core::slice::<impl [T]>::sort_by', 'core::slice::<impl [T]>::sort_unstable',
       'core::slice::<impl [T]>::sort_unstable_by_key', 'core::slice::<impl [T]>::sort_by_key', 'std::slice::<impl [T]>::sort_by',
       'std::slice::<impl [T]>::sort_by_key', 'std::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::reverse', 'core::slice::<impl [T]>::swap',
       'core::slice::<impl [T]>::rotate_left', 'core::slice::<impl [T]>::rotate_right', 'std::slice::<impl [T]>::sort_by_cached_key')
def _(c):
    m = c.callee['m']
    s = c.to_slice(0)
    ev = c.event('vec.' + m, [s] + list(c.args[1:]))
    r, p = s.a[0], s.a[1]
    ln = s.a[3]
    for i in range(1, len(c.args)):
        c.havoc_arg(i)
    if m == 'drain':
        it = agg('iter:slice', None, {'ptr': s, 'i': 0, 'n': ln, 'own': 1, 'back': 0})
        c.e.write(c.st, r, p[:-1] + ('#len',), 0) if p and p[-1] == '#buf' else None
        root = ('H', c.e.cur.id, c.e.seq)
        c.e.seq += 1
        c.st.store[root] = c.e.read(c.st, r, p)
        return agg('iter:slice', None, {'ptr': mk('slice', root, (), s.a[2], ln), 'i': 0, 'n': ln, 'own': 1})
    if s.a[0][0] not in ('K',):
        c.e.write(c.st, r, p, c.fresh('vbuf'))
        if m in ('retain', 'retain_mut', 'dedup', 'dedup_by', 'append', 'split_off') and p and p[-1] == '#buf':
            n = c.fresh('vlen')
            NN[n] = 63
            c.e.write(c.st, r, p[:-1] + ('#len',), n)
    if m == 'split_off':
        return c.typed(m, c.dty)
    return UNIT


@model('core::slice::<impl [T]>::binary_search_by', 'core::slice::<impl [T]>::binary_search_by_key', 'core::slice::<impl [T]>::binary_search', 'core::slice::<impl [T]>::partition_point')
def _(c):
    s = c.to_slice(0)
    i = c.fresh('bs')
    NN[i] = 63
    ev = c.event('search', [s] + list(c.args[1:]), kind=c.callee['m'], res=i)
    clo = c.args[1]
    if c.callee['m'] == 'partition_point':
        c.e.assume(c.st, tle(i, s.a[3]))
        return i
    j = c.fresh('bsi')
    NN[j] = 63
    ev.info['resi'] = j
    # evaluate the comparator on the probed element
    fact_ok = [tlt(i, s.a[3])]
    el = mk('ref', s.a[0], s.a[1] + (('idx', add(s.a[2], i)),))
    if c.callee['m'] == 'binary_search_by':
        ev.info['cmp'] = c.e.inline_eval(c.st, clo, [el], c.fr, c.blk)
    return [(ok(i), fact_ok, None), (err(j), [tle(j, s.a[3])], None)]


def range_bounds(c, rg, ln, t):
    """range value -> (start, end) or None"""
    if rg.__class__ is not T or rg.op != 'agg':
        n = t['n'] if t and t['k'] == 'adt' else ''
    else:
        n = rg.a[0]
    n = n.split('::')[-1]
    if n == 'RangeFrom':
        return proj(rg, 'start'), ln
    if n == 'RangeTo':
        return 0, proj(rg, 'end')
    if n == 'Range':
        return proj(rg, 'start'), proj(rg, 'end')
    if n == 'RangeFull':
        return 0, ln
    if n == 'RangeInclusive':
        return proj(rg, 'start'), add(proj(rg, 'end'), 1)
    if n == 'RangeToInclusive':
        return 0, add(proj(rg, 'end'), 1)
    return None


@model('std::ops::RangeInclusive::<Idx>::new')
def _(c):
    return agg('std::ops::RangeInclusive', None, {'start': c.args[0], 'end': c.args[1], 'exhausted': 0})


@tmodel('std::ops::Index', 'index')
@tmodel('std::ops::IndexMut', 'index_mut')
def _index(c):
    e = c.e
    if is_str(e, c.atys[0]):
        ev = c.event('stridx')
        return mk('app', 'stridx', c.content(0), c.args[1])
    s = c.to_slice(0)
    it = c.atys[1]
    ln = s.a[3]
    if it and it['k'] == 'uint':
        ix = c.args[1]
        cond = tlt(ix, ln)
        bounds_check(c, cond, 'index', (ln, ix))
        return mk('ref', s.a[0], s.a[1] + (('idx', add(s.a[2], ix)),))
    b = range_bounds(c, c.args[1], ln, it)
    if b is None:
        return NotImplemented
    a, z = b
    conds = []
    if not (isint(a) and a == 0):
        conds.append(tle(a, z))
    if z is not ln:
        conds.append(tle(z, ln))
    for k in conds:
        bounds_check(c, k, 'slice-index', (ln, a, z, s))
    return mk('slice', s.a[0], s.a[1], add(s.a[2], a), sub(z, a))


def bounds_check(c, cond, kind, info):
    e = c.e
    if isint(cond):
        if not cond:
            e.panic(e.cur, c.st, c.fr, c.blk, kind, 0, info)
        return
    if e.known(c.st, cond) is True:
        return
    e.panic(e.cur, c.st, c.fr, c.blk, kind, cond, info)
    e.assume(c.st, cond)


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last',
       'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut', 'core::str::<impl str>::get')
def _(c):
    if is_str(c.e, c.atys[0]):
        return NotImplemented
    s = c.to_slice(0)
    ln = s.a[3]
    m = c.callee['m']
    if m.startswith('get'):
        it = c.atys[1]
        if it and it['k'] != 'uint':
            b = range_bounds(c, c.args[1], ln, it)
            if b is None:
                return NotImplemented
            a, z = b
            g = tand(tle(a, z), tle(z, ln))
            v = some(mk('slice', s.a[0], s.a[1], add(s.a[2], a), sub(z, a)))
            return [(v, [g], None), (none(), [tnot(g)], None)]
        ix = c.args[1]
    elif m.startswith('first'):
        ix = 0
    else:
        ix = sub(ln, 1)
    g = tand(tle(0, ix), tlt(ix, ln))
    c.event('slice.get', [s, ix])
    v = some(mk('ref', s.a[0], s.a[1] + (('idx', add(s.a[2], ix)),)))
    if isint(g):
        return v if g else none()
    return [(v, [g], None), (none(), [tnot(g)], None)]


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def _(c):
    s = c.to_slice(0)
    m = c.args[1]
    bounds_check(c, tle(m, s.a[3]), 'split_at', (s.a[3], m, s))
    a = mk('slice', s.a[0], s.a[1], s.a[2], m)
    b = mk('slice', s.a[0], s.a[1], add(s.a[2], m), sub(s.a[3], m))
    return agg('tuple', None, {'0': a, '1': b})


@model('core::slice::<impl [T]>::split_first_chunk', 'core::slice::<impl [T]>::first_chunk_mut', 'core::slice::<impl [T]>::first_chunk')
def _(c):
    return NotImplemented


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def _(c):
    d, s = c.to_slice(0), c.to_slice(1)
    bounds_check(c, teq(d.a[3], s.a[3]), 'copy_from_slice', (d.a[3], s.a[3], d, s))
    ps = c.slice_content(s)
    c.event('copy', [d, s], content=tuple(ps), under=c.e.read(c.st, s.a[0], s.a[1]), dunder=c.e.read(c.st, d.a[0], d.a[1]))
    h = getattr(c.e, 'on_copy', None)
    if h:
        h(c, d, s)
    c.store_slice(d, ps)
    return UNIT


@model('core::slice::<impl [T]>::fill')
def _(c):
    d = c.to_slice(0)
    v = c.args[1]
    ps = [(ZERO if v == 0 else mk('fill', v), 0, d.a[3])]
    c.event('fill', [d], content=tuple(ps))
    c.store_slice(d, ps)
    return UNIT


@model('core::slice::<impl [T]>::copy_within')
def _(c):
    d = c.to_slice(0)
    c.event('copy_within', [d] + list(c.args[1:]))
    b = range_bounds(c, c.args[1], d.a[3], c.atys[1])
    if b:
        a, z = b
        src = mk('slice', d.a[0], d.a[1], add(d.a[2], a), sub(z, a))
        dst = mk('slice', d.a[0], d.a[1], add(d.a[2], c.args[2]), sub(z, a))
        ps = c.slice_content(src)
        c.store_slice(dst, ps)
    else:
        c.store_slice(d, [(c.fresh('cw'), 0, d.a[3])])
    return UNIT


# ------------------------------------------------------------------ iterators
def slice_iter(c, s, own=0, kind='iter:slice', **kw):
    return agg(kind, None, dict({'ptr': s, 'i': 0, 'n': s.a[3], 'own': own}, **kw))


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def _(c):
    return slice_iter(c, c.to_slice(0))


def _chunks(c):
    s = c.to_slice(0)
    m = c.callee['m']
    cs = c.args[1]
    ex = 1 if 'exact' in m else 0
    if not isint(cs):
        return NotImplemented
    if not ex and not isint(s.a[3]):
        return agg('iter:chunksv', None, {'ptr': s, 'o': 0, 'c': cs})
    n = div(s.a[3], cs) if ex else div(add(s.a[3], cs - 1), cs)
    return agg('iter:chunks', None, {'ptr': s, 'i': 0, 'n': n, 'c': cs, 'ex': ex})


for _m in ('chunks', 'chunks_mut', 'chunks_exact', 'chunks_exact_mut'):
    REG['core::slice::<impl [T]>::' + _m] = _chunks


@tmodel('std::iter::IntoIterator', 'into_iter')
def _(c):
    v = c.args[0]
    t = c.atys[0]
    e = c.e
    if v.__class__ is T and v.op == 'agg' and (str(v.a[0]).startswith('iter:') or v.a[0] in ('std::ops::Range', 'std::ops::RangeInclusive')):
        return v
    if t is None:
        return v
    if t['k'] == 'ref':
        pt = e.ty(t['e'])
        if pt['k'] in ('slice', 'array') or (pt['k'] == 'adt' and pt['n'].endswith('vec::Vec')):
            return slice_iter(c, c.to_slice(0))
        return v
    if t['k'] == 'adt' and t['n'].endswith('vec::Vec') or t['k'] == 'array':
        s = c.as_slice(v, t)
        return slice_iter(c, s, own=1)
    return v


def _adapt(c):
    m = c.callee['m']
    it = c.args[0]
    d = {'in': it}
    if m in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'map_while', 'inspect'):
        d['f'] = c.args[1]
    elif m in ('skip', 'take', 'step_by'):
        d['k'] = c.args[1]
    elif m in ('zip', 'chain'):
        # argument may need into_iter
        x = c.args[1]
        t = c.atys[1]
        if not (x.__class__ is T and x.op == 'agg' and (str(x.a[0]).startswith('iter:') or str(x.a[0]).startswith('std::ops::Range'))):
            if t and t['k'] == 'ref' and c.e.ty(t['e'])['k'] in ('slice', 'array') or (t and t['k'] == 'ref' and c.e.ty(t['e']).get('n', '').endswith('vec::Vec')):
                x = slice_iter(c, c.to_slice(1))
            elif t and (t['k'] == 'array' or (t['k'] == 'adt' and t['n'].endswith('vec::Vec'))):
                x = slice_iter(c, c.as_slice(x, t), own=1)
        d['b'] = x
    elif m == 'enumerate':
        d['i'] = 0
    elif m == 'peekable':
        d['pk'] = none()
    return agg('iter:' + m, None, d)


for _m in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'map_while', 'inspect', 'skip', 'take', 'step_by', 'zip', 'chain', 'enumerate',
           'cloned', 'copied', 'rev', 'peekable', 'by_ref', 'fuse'):
    TRAIT[('std::iter::Iterator', _m)] = _adapt


@tmodel('std::iter::Iterator', 'by_ref')
def _(c):
    return c.args[0]


@model('std::iter::once')
def _(c):
    return agg('iter:once', None, {'v': c.args[0], 'done': 0})


@model('core::str::<impl str>::split', 'core::str::<impl str>::bytes', 'core::str::<impl str>::chars', 'core::str::<impl str>::split_terminator', 'core::str::<impl str>::lines', 'core::str::<impl str>::as_bytes', 'std::string::String::as_bytes', 'std::string::String::into_bytes')
def _(c):
    m = c.callee['m']
    s = c.content(0)
    if m in ('as_bytes',):
        if s.__class__ is T and s.op == 'str':
            k = lit(s.a[0].encode().hex())
            return mk('slice', ('K', k), (), 0, k.a[1])
        ln = mk('app', 'strlen', s)
        NN.setdefault(ln, 63)
        return mk('slice', ('D', mk('app', 'strbytes', s)), (), 0, ln)
    if m in ('split', 'split_terminator'):
        return agg('iter:split', None, {'s': s, 'sep': c.args[1], 'n': 0})
    return agg('iter:' + m, None, {'s': s, 'n': 0})


def iter_next(c, st, it, depth=0):
    """-> list of (facts, item or None, new_it) ; None = unknown iterator"""
    e = c.e
    if it.__class__ is not T or it.op != 'agg' or depth > 6:
        return None
    tag = it.a[0]
    d = dict(it.a[2])
    if tag in ('std::ops::Range', 'std::ops::RangeInclusive'):
        s, en = d.get('start'), d.get('end')
        if s is None or en is None:
            return None
        inc = tag.endswith('Inclusive')
        if inc:
            ex = d.get('exhausted', 0)
            lim = add(en, 1)
        else:
            lim = en
        if isint(s) and isint(lim):
            if lim - s > EN.MAXITER - 10:
                c.e.nounroll = True
                mark_nounroll(c)
                return [([], s, agg(tag, None, dict(d, start=add(s, 1)))), ([], None, it)]
            if s < lim:
                return [([], s, agg(tag, None, dict(d, start=s + 1)))]
            return [([], None, it)]
        return [([tlt(s, lim)], s, agg(tag, None, dict(d, start=add(s, 1)))), ([tle(lim, s)], None, it)]
    if tag == 'iter:components':
        nc = mk('app', 'ncomp', d['s'])
        NN.setdefault(nc, 62)
        return [([tlt(d['n'], nc)], mk('app', 'comp', d['s'], d['n']), agg(tag, None, dict(d, n=add(d['n'], 1)))), ([tle(nc, d['n'])], None, it)]
    if tag in ('iter:slice', 'iter:chunks'):
        i, n, p = d['i'], d['n'], d['ptr']
        if p.__class__ is not T or p.op != 'slice':
            item, new = c.fresh('next'), agg(tag, None, dict(d, i=add(i, 1)))
            return [([tlt(i, n)], item, new), ([tle(n, i)], None, it)]
        if tag == 'iter:slice':
            path = p.a[1] + (('idx', add(p.a[2], i)),)
            item = mk('ref', p.a[0], path)
            if d.get('own'):
                item = e.read(st, p.a[0], path)
        else:
            cs = d['c']
            ln = cs if d['ex'] else tmin(cs, sub(p.a[3], mulc(i, cs)))
            item = mk('slice', p.a[0], p.a[1], add(p.a[2], mulc(i, cs)), ln)
        new = agg(tag, None, dict(d, i=add(i, 1)))
        if isint(i) and isint(n):
            if n - i > EN.MAXITER - 10:
                mark_nounroll(c)
                return [([], item, new), ([], None, it)]
            return [([], item, new)] if i < n else [([], None, it)]
        return [([tlt(i, n)], item, new), ([tle(n, i)], None, it)]
    if tag == 'iter:chunksv':
        # o is clamped to the end so that it equals the bytes handed out
        o, p, cs = d['o'], d['ptr'], d['c']
        ln = tmin(cs, sub(p.a[3], o))
        item = mk('slice', p.a[0], p.a[1], add(p.a[2], o), ln)
        return [([tlt(o, p.a[3])], item, agg(tag, None, dict(d, o=add(o, ln)))), ([tle(p.a[3], o)], None, it)]
    if tag == 'iter:once':
        if d['done']:
            return [([], None, it)]
        return [([], d['v'], agg(tag, None, dict(d, done=1)))]
    if tag in ('iter:cloned', 'iter:copied'):
        r = iter_next(c, st, d['in'], depth + 1)
        if r is None:
            return None
        out = []
        for f, x, ni in r:
            if x is not None and x.__class__ is T and x.op == 'ref':
                x = e.read(st, x.a[0], x.a[1])
            elif x is not None:
                rr, pp = e.deref(st, x)
                x = e.read_any(st, rr, pp)
            out.append((f, x, agg(tag, None, dict(d, **{'in': ni}))))
        return out
    if tag == 'iter:enumerate':
        r = iter_next(c, st, d['in'], depth + 1)
        if r is None:
            return None
        out = []
        for f, x, ni in r:
            nd = dict(d, **{'in': ni})
            if x is not None:
                x = agg('tuple', None, {'0': d['i'], '1': x})
                nd['i'] = add(d['i'], 1)
            out.append((f, x, agg(tag, None, nd)))
        return out
    if tag == 'iter:take':
        k = d['k']
        out = []
        r = iter_next(c, st, d['in'], depth + 1)
        if r is None:
            return None
        if isint(k):
            if k <= 0:
                return [([], None, it)]
            return [(f, x, agg(tag, None, dict(d, **{'in': ni, 'k': k - 1}))) for f, x, ni in r]
        out.append(([tle(k, 0)], None, it))
        for f, x, ni in r:
            out.append((f + [tlt(0, k)], x, agg(tag, None, dict(d, **{'in': ni, 'k': sub(k, 1)}))))
        return out
    if tag == 'iter:skip':
        inner = d['in']
        k = d['k']
        if inner.__class__ is T and inner.op == 'agg' and inner.a[0] in ('iter:slice', 'iter:chunks'):
            di = dict(inner.a[2])
            ni = agg(inner.a[0], None, dict(di, i=tmin(add(di['i'], k), di['n'])))
            r = iter_next(c, st, ni, depth + 1)
            return [(f, x, y) for f, x, y in r]
        if inner.__class__ is T and inner.op == 'agg' and inner.a[0] == 'std::ops::Range':
            di = dict(inner.a[2])
            ni = agg(inner.a[0], None, dict(di, start=add(di['start'], k)))
            return iter_next(c, st, ni, depth + 1)
        if inner.__class__ is T and inner.op == 'agg' and inner.a[0] == 'iter:enumerate' and isint(k):
            di = dict(inner.a[2])
            r0 = iter_next(c, st, agg('iter:skip', None, {'in': di['in'], 'k': k}), depth + 1)
            if r0 is None:
                return None
            out = []
            for f, x, y in r0:
                i = add(di['i'], k)
                out.append((f, None if x is None else agg('tuple', None, {'0': i, '1': x}), agg('iter:enumerate', None, {'in': y, 'i': add(i, 1)})))
            return out
        return None
    if tag == 'iter:step_by':
        inner = d['in']
        k = d['k']
        if inner.__class__ is T and inner.op == 'agg' and inner.a[0] == 'std::ops::Range' and isint(k):
            di = dict(inner.a[2])
            r = iter_next(c, st, inner, depth + 1)
            out = []
            for f, x, y in r:
                if x is None:
                    out.append((f, x, it))
                else:
                    out.append((f, x, agg(tag, None, dict(d, **{'in': agg(inner.a[0], None, dict(di, start=add(di['start'], k)))}))))
            return out
        return None
    if tag == 'iter:rev':
        inner = d['in']
        if inner.__class__ is T and inner.op == 'agg' and inner.a[0] == 'std::ops::Range':
            di = dict(inner.a[2])
            s, en = di['start'], di['end']
            new = agg(tag, None, dict(d, **{'in': agg(inner.a[0], None, dict(di, end=sub(en, 1)))}))
            if isint(s) and isint(en):
                return [([], en - 1, new)] if s < en else [([], None, it)]
            return [([tlt(s, en)], sub(en, 1), new), ([tle(en, s)], None, it)]
        if inner.__class__ is T and inner.op == 'agg' and inner.a[0] == 'iter:slice':
            di = dict(inner.a[2])
            i, n, p = di['i'], di['n'], di['ptr']
            path = p.a[1] + (('idx', add(p.a[2], sub(n, 1))),)
            item = mk('ref', p.a[0], path)
            if di.get('own'):
                item = e.read(st, p.a[0], path)
            new = agg(tag, None, dict(d, **{'in': agg('iter:slice', None, dict(di, n=sub(n, 1)))}))
            if isint(i) and isint(n):
                return [([], item, new)] if i < n else [([], None, it)]
            return [([tlt(i, n)], item, new), ([tle(n, i)], None, it)]
        return None
    if tag == 'iter:zip':
        ra = iter_next(c, st, d['in'], depth + 1)
        rb = iter_next(c, st, d['b'], depth + 1)
        if ra is None or rb is None:
            return None
        out = []
        for f, x, ni in ra:
            if x is None:
                out.append((f, None, agg(tag, None, dict(d, **{'in': ni}))))
                continue
            for f2, y, nb in rb:
                if y is None:
                    out.append((f + f2, None, agg(tag, None, dict(d, **{'in': ni, 'b': nb}))))
                else:
                    out.append((f + f2, agg('tuple', None, {'0': x, '1': y}), agg(tag, None, dict(d, **{'in': ni, 'b': nb}))))
        return out
    if tag == 'iter:chain':
        if 'in' in d and d['in'] is not None and not (d['in'].__class__ is T and d['in'].op == 'str'):
            ra = iter_next(c, st, d['in'], depth + 1)
            if ra is None:
                return None
            out = []
            for f, x, ni in ra:
                if x is not None:
                    out.append((f, x, agg(tag, None, dict(d, **{'in': ni}))))
                else:
                    rb = iter_next(c, st, d['b'], depth + 1)
                    if rb is None:
                        return None
                    for f2, y, nb in rb:
                        out.append((f + f2, y, agg(tag, None, dict(d, **{'in': mk('str', '#done'), 'b': nb}))))
            return out
        rb = iter_next(c, st, d['b'], depth + 1)
        if rb is None:
            return None
        return [(f, y, agg(tag, None, dict(d, b=nb))) for f, y, nb in rb]
    if tag == 'iter:map':
        r = iter_next(c, st, d['in'], depth + 1)
        if r is None:
            return None
        out = []
        for f, x, ni in r:
            new = agg(tag, None, dict(d, **{'in': ni}))
            if x is None:
                out.append((f, None, new))
                continue
            vs = e.inline_eval(st, d['f'], [x], c.fr, c.blk)
            if vs is None:
                out.append((f, mk('app', 'mapped', d['f'], x), new))
            else:
                for f2, v, s2 in vs:
                    out.append((f + sorted(f2, key=tkey), v, new))
        return out
    if tag == 'iter:filter':
        r = iter_next(c, st, d['in'], depth + 1)
        if r is None:
            return None
        return None
    if tag == 'iter:peekable':
        pk = d['pk']
        if pk.__class__ is T and pk.op == 'agg' and pk.a[1] == 'Some':
            x = proj(pk, ('Some', '0'))
            new = agg(tag, None, dict(d, pk=none()))
            if x.__class__ is T and x.op == 'agg' and x.a[1] == 'None':
                return [([], None, new)]
            if x.__class__ is T and x.op == 'agg' and x.a[1] == 'Some':
                return [([], proj(x, ('Some', '0')), new)]
            return None
        r = iter_next(c, st, d['in'], depth + 1)
        if r is None:
            # opaque inner iterator
            v = c.fresh('peeknext')
            return [([], v, it), ([], None, it)]
        return [(f, x, agg(tag, None, dict(d, **{'in': ni}))) for f, x, ni in r]
    if tag in ('iter:bytes', 'iter:chars'):
        s = d['s']
        ch = mk('app', 'charat', s, d['n'])
        NN.setdefault(ch, 8 if tag == 'iter:bytes' else 32)
        ln = mk('app', 'strlen', s)
        NN.setdefault(ln, 63)
        return [([tlt(d['n'], ln)], ch, agg(tag, None, dict(d, n=add(d['n'], 1)))), ([tle(ln, d['n'])], None, it)]
    return None


def mark_nounroll(c):
    fr = c.fr
    bb = c.bb
    if bb in fr.body.inloops:
        for h in fr.body.inloops[bb][-1:]:
            c.st.nou = c.st.nou | {(fr.id, h)}


def iter_place(c, i=0):
    r, p, t = c.obj(i)
    return r, p, t


@tmodel('std::iter::Iterator', 'next')
def _(c):
    r, p, t = iter_place(c)
    if r[0] == 'S':
        return NotImplemented
    it = c.e.read(c.st, r, p)
    res = iter_next(c, c.st, it)
    if res is None or len(res) > 1:
        mark_nounroll(c)
    if res is None:
        ev = c.event('iter.next', [mk('ref', r, p), it])
        n = c.e.read(c.st, r, p + ('#n',)) if False else None
        item = c.typed('item', c.targ(c.dty, 0))
        ev.res = item
        if it.__class__ is T and it.op == 'agg' and str(it.a[0]).startswith('iter:'):
            new = agg('iter:opaque', None, {'of': mk('str', str(it.a[0])), 'st': c.fresh('it'), 'src': it_src(it)})
        else:
            new = c.fresh('it')

        def eff(s):
            c.e.write(s, r, p, new)
        return [(some(item), [], eff), (none(), [], eff)]
    outs = []
    ev = c.event('iter.step', [mk('ref', r, p), it])
    for f, x, ni in res:
        def eff(s, ni=ni):
            c.e.write(s, r, p, ni)
        outs.append((none() if x is None else some(x), f, eff))
    if len(outs) == 1:
        for f in outs[0][1]:
            c.e.assume(c.st, f)
        outs[0][2](c.st)
        return outs[0][0]
    return outs


def it_src(it):
    while it.__class__ is T and it.op == 'agg' and str(it.a[0]).startswith('iter:'):
        d = dict(it.a[2])
        for k in ('src', 'in', 'ptr', 's'):
            if k in d:
                it = d[k]
                break
        else:
            break
    return it


@model('std::iter::Peekable::<I>::peek', 'std::iter::Peekable::<I>::peek_mut')
def _(c):
    r, p, t = iter_place(c)
    it = c.e.read(c.st, r, p)
    if it.__class__ is T and it.op == 'agg' and it.a[0] == 'iter:peekable':
        d = dict(it.a[2])
        pk = d['pk']
        if pk.__class__ is T and pk.op == 'agg' and pk.a[1] == 'Some':
            x = proj(pk, ('Some', '0'))
            if x.__class__ is T and x.op == 'agg' and x.a[1]:
                if x.a[1] == 'None':
                    return none()
                return some(mk('ref', r, p + ('pk', ('Some', '0'), ('Some', '0'))))
        res = iter_next(c, c.st, d['in'])
        if res is None:
            v = c.typed('peek', None)
            res = [([], v, d['in']), ([], None, d['in'])]
        c.event('iter.peek', [mk('ref', r, p)])
        outs = []
        for f, x, ni in res:
            nv = agg('iter:peekable', None, {'in': ni, 'pk': some(none() if x is None else some(x))})

            def eff(s, nv=nv):
                c.e.write(s, r, p, nv)
            outs.append((none() if x is None else some(mk('ref', r, p + ('pk', ('Some', '0'), ('Some', '0')))), f, eff))
        return outs
    return NotImplemented


@tmodel('std::iter::Iterator', 'find')
@tmodel('std::iter::Iterator', 'position')
@tmodel('std::iter::Iterator', 'any')
@tmodel('std::iter::Iterator', 'all')
@tmodel('std::iter::Iterator', 'rposition')
def _find(c):
    m = c.callee['m']
    r, p, t = iter_place(c)
    it = c.e.read(c.st, r, p) if r[0] != 'S' else UNDEF
    idx = c.fresh('fi')
    NN[idx] = 63
    el, facts0 = iter_elem(c, it, idx)
    ev = c.event('iter.' + m, [it, c.args[1]], idx=idx, src=it_src(it))
    preds = None
    if el is not None:
        arg = el
        if m == 'find':
            root = ('C', c.e.cur.id, c.bb, 'find')
            c.st.store[root] = el
            arg = mk('ref', root, ())
        preds = c.e.inline_eval(c.st, c.args[1], [arg], c.fr, c.blk)
    else:
        el = c.typed('found', c.targ(c.dty, 0) if m == 'find' else None)
    ev.info['elem'] = el
    ev.info['preds'] = [(f, v) for f, v, _ in preds] if preds is not None else None
    if m in ('any', 'all'):
        b = mk('app', m, it, c.args[1], idx)
        return b
    val = el if m == 'find' else idx
    outs = []
    if preds is None:
        outs.append((some(val), facts0, None))
    else:
        for f, v, _s in preds:
            if isint(v):
                if v:
                    outs.append((some(val), facts0 + sorted(f, key=tkey), None))
            else:
                outs.append((some(val), facts0 + sorted(f, key=tkey) + [c.e.as_bool(v)], None))
    outs.append((none(), [], None))
    return outs


def iter_elem(c, it, idx):
    """the element a search over `it` stopped at, for index idx"""
    if it.__class__ is T and it.op == 'agg' and it.a[0] == 'iter:slice':
        d = dict(it.a[2])
        pp = d['ptr']
        x = mk('ref', pp.a[0], pp.a[1] + (('idx', add(pp.a[2], add(d['i'], idx))),))
        if d.get('own'):
            x = c.e.read(c.st, x.a[0], x.a[1])
        return x, [tlt(add(d['i'], idx), d['n'])]
    if it.__class__ is T and it.op == 'agg' and it.a[0] == 'iter:components':
        d = dict(it.a[2])
        nc = mk('app', 'ncomp', d['s'])
        NN.setdefault(nc, 62)
        i = add(d['n'], idx)
        return mk('app', 'comp', d['s'], i), [tlt(i, nc)]
    if it.__class__ is T and it.op == 'agg' and it.a[0] in ('iter:cloned', 'iter:copied'):
        x, f = iter_elem(c, dict(it.a[2])['in'], idx)
        if x is not None and x.__class__ is T and x.op == 'ref':
            return c.e.read(c.st, x.a[0], x.a[1]), f
    return None, []


def _consume(c):
    m = c.callee['m']
    it = c.args[0]
    if c.atys[0] and c.atys[0]['k'] == 'ref':
        r, p, t = iter_place(c)
        it = c.e.read(c.st, r, p)
    ev = c.event('iter.' + m, [it] + list(c.args[1:]), src=it_src(it))
    for i in range(1, len(c.args)):
        c.havoc_arg(i)
    if m == 'last' or m == 'nth':
        if it.__class__ is T and it.op == 'agg' and it.a[0] == 'iter:slice':
            d = dict(it.a[2])
            pp = d['ptr']
            ix = sub(d['n'], 1) if m == 'last' else add(d['i'], c.args[1])
            x = mk('ref', pp.a[0], pp.a[1] + (('idx', add(pp.a[2], ix)),))
            g = tlt(d['i'], d['n']) if m == 'last' else tlt(ix, d['n'])
            if isint(g):
                return some(x) if g else none()
            return [(some(x), [g], None), (none(), [tnot(g)], None)]
    if m == 'count':
        if it.__class__ is T and it.op == 'agg' and it.a[0] in ('iter:slice', 'iter:chunks'):
            d = dict(it.a[2])
            return sub(d['n'], d['i'])
        if it.__class__ is T and it.op == 'agg' and it.a[0] == 'iter:components':
            d = dict(it.a[2])
            nc = mk('app', 'ncomp', d['s'])
            NN.setdefault(nc, 62)
            if d['n'] == 0:
                return nc
    r = c.default_ret(m)
    ev.res = r
    return r


for _m in ('reduce', 'sum', 'fold', 'collect', 'for_each', 'count', 'last', 'nth', 'max', 'min', 'try_for_each', 'try_fold', 'product', 'find_map', 'max_by_key', 'min_by_key', 'flatten', 'flat_map', 'unzip', 'partition', 'size_hint', 'eq'):
    TRAIT.setdefault(('std::iter::Iterator', _m), _consume)


# ------------------------------------------------------------------ strings and paths
@model('std::string::String::as_str', 'std::string::String::as_mut_str', 'std::path::Path::new', 'std::path::PathBuf::as_path', 'std::path::Path::to_path_buf',
       'core::str::<impl str>::trim', 'std::ffi::OsStr::to_os_string', 'std::path::Path::as_os_str', 'std::string::String::into_boxed_str', 'std::ffi::OsString::as_os_str', 'std::path::Path::to_owned', 'std::path::PathBuf::into_os_string')
def _(c):
    if c.callee['m'] == 'trim':
        return mk('app', 'trim', c.content(0))
    return c.content(0)


@model('std::str::<impl str>::to_ascii_uppercase', 'std::str::<impl str>::to_ascii_lowercase', 'std::str::<impl str>::to_uppercase', 'std::str::<impl str>::to_lowercase')
def _(c):
    s = c.content(0)
    up = 'upper' in c.callee['m']
    if s.__class__ is T and s.op == 'str':
        return mk('str', s.a[0].upper() if up else s.a[0].lower())
    return mk('app', ('upper' if up else 'lower') + ('' if 'ascii' in c.callee['m'] else 'U'), s)


@model('std::string::String::truncate', 'std::string::String::push_str', 'std::string::String::push', 'std::string::String::insert', 'std::string::String::insert_str')
def _(c):
    r, p, t = c.obj(0)
    if r[0] in ('K', 'S'):
        return UNIT
    s = c.e.read_any(c.st, r, p)
    args = []
    for i in range(1, len(c.args)):
        v = c.content(i) if i == 1 and c.callee['m'] == 'push_str' else c.args[i]
        args.append(v)
    c.e.write(c.st, r, p, mk('app', 'str.' + c.callee['m'], s, *args))
    return UNIT


@model('core::str::<impl str>::trim_end', 'core::str::<impl str>::trim_start', 'core::str::<impl str>::trim_ascii')
def _(c):
    return mk('app', 'trim', c.content(0))


@model('core::str::<impl str>::make_ascii_uppercase', 'core::str::<impl str>::make_ascii_lowercase')
def _(c):
    r, p, t = c.obj(0)
    s = c.e.read_any(c.st, r, p)
    up = 'upper' in c.callee['m']
    if s.__class__ is T and s.op == 'str':
        nv = mk('str', s.a[0].upper() if up else s.a[0].lower())
    else:
        nv = mk('app', 'upper' if up else 'lower', s)
    if r[0] not in ('K', 'S'):
        if r[0] == 'D' and not p and r[1].__class__ is T and r[1].op in ('app', 'fld', 'sym', 'str', 'fresh', 'phi'):
            # &mut str obtained by deref_mut: the argument itself is the String reference
            pass
        c.e.write(c.st, r, p, nv)
    return UNIT


@model('core::str::<impl str>::eq_ignore_ascii_case')
def _(c):
    a, b = c.content(0), c.content(1)
    if a.__class__ is T and b.__class__ is T and a.op == 'str' and b.op == 'str':
        return 1 if a.a[0].lower() == b.a[0].lower() else 0
    for x, y in ((a, b), (b, a)):
        if y.__class__ is T and y.op == 'str':
            return c.e.same(mk('app', 'upper', x), mk('str', y.a[0].upper()))
    return c.e.same(mk('app', 'upper', a), mk('app', 'upper', b))


@model('core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with', 'core::str::<impl str>::contains', 'std::path::Path::starts_with', 'std::path::Path::is_absolute', 'std::path::Path::is_relative', 'std::path::Path::has_root')
def _(c):
    return mk('app', c.callee['m'], c.content(0), c.content(1) if len(c.args) > 1 else 0)


def mkjoin(a, b):
    """path join; literal relative components are split so that spelling does not matter"""
    if b.__class__ is T and b.op == 'str':
        s = b.a[0]
        if not s.startswith('/'):
            for comp in s.split('/'):
                if comp in ('', '.'):
                    continue
                a = mk('app', 'join', a, mk('str', comp))
            return a
    if b.__class__ is T and b.op == 'app' and b.a[0] == 'join':
        # join(a, join(x, y)) = join(join(a, x), y)
        return mk('app', 'join', mkjoin(a, b.a[1]), b.a[2])
    return mk('app', 'join', a, b)


@model('std::path::Path::join')
def _(c):
    a, b = c.content(0), c.content(1)
    c.event('path.join', [a, b])
    return mkjoin(a, b)


@model('std::path::PathBuf::push')
def _(c):
    r, p, t = c.obj(0)
    a = c.e.read(c.st, r, p)
    b = c.content(1)
    c.event('path.push', [a, b])
    c.e.write(c.st, r, p, mkjoin(a, b))
    return UNIT


@model('std::path::PathBuf::pop', 'std::path::PathBuf::set_file_name', 'std::path::PathBuf::set_extension')
def _(c):
    r, p, t = c.obj(0)
    a = c.e.read(c.st, r, p)
    c.event('path.' + c.callee['m'], [a] + list(c.args[1:]))
    c.e.write(c.st, r, p, mk('app', 'pathmod:' + c.callee['m'], a, c.content(1) if len(c.args) > 1 else 0))
    return c.typed(c.callee['m'], c.dty)


@model('std::path::PathBuf::from', 'std::path::PathBuf::new')
def _(c):
    return c.content(0) if c.args else mk('str', '')


@model('std::path::Path::parent')
def _(c):
    a = c.content(0)
    if a.__class__ is T and a.op == 'app' and a.a[0] == 'join':
        return some(a.a[1])
    v = mk('app', 'parent', a)
    if a.__class__ is T and a.op == 'phi':
        return some(v)
    return [(some(v), [], None), (none(), [], None)]


@model('std::path::Path::file_name')
def _(c):
    a = c.content(0)
    if a.__class__ is T and a.op == 'app' and a.a[0] == 'join' and a.a[2].__class__ is T and a.a[2].op == 'str':
        return some(a.a[2])
    return [(some(mk('app', 'file_name', a)), [], None), (none(), [], None)]


@model('std::path::Path::components')
def _(c):
    return agg('iter:components', None, {'s': c.content(0), 'n': 0})


_old_next = iter_next


@model('std::path::Path::is_file', 'std::path::Path::is_dir', 'std::path::Path::exists')
def _(c):
    return mk('app', c.callee['m'], c.content(0))


@model('std::ffi::OsStr::to_str', 'std::path::Path::to_str')
def _(c):
    s = c.content(0)
    v = mk('app', 'utf8', s)
    g = mk('app', 'is_utf8', s)
    return [(some(v), [g], None), (none(), [tnot(g)], None)]


@model('std::ffi::OsStr::to_string_lossy', 'std::path::Path::to_string_lossy', 'std::string::String::from_utf8_lossy')
def _(c):
    c.event('lossy', [c.args[0]])
    return mk('app', 'lossy', c.content(0) if c.atys[0] else c.args[0])


@model("std::borrow::Cow::<'_, B>::into_owned")
def _(c):
    if is_str(c.e, c.atys[0]) and is_str(c.e, c.dty):
        return c.content(0)
    return NotImplemented


@model('std::fmt::format')
def _(c):
    a = c.args[0]
    return mk('app', 'format', a)


@model('std::fmt::Arguments::<\'a>::new', 'std::fmt::Arguments::<\'a>::from_str')
def _(c):
    vals = []
    for v, t in zip(c.args, c.atys):
        x = v
        if v.__class__ is T and v.op == 'ref':
            x = c.e.read(c.st, v.a[0], v.a[1])
        vals.append(x)
    return mk('app', 'fmtargs', *[v for v in vals])


@model("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_upper_hex", "core::fmt::rt::Argument::<'_>::new_lower_hex")
def _(c):
    k = c.callee['m']
    if is_str(c.e, c.atys[0]):
        return mk('app', 'fmtarg', mk('str', k), c.content(0))
    return mk('app', 'fmtarg', mk('str', k), c.rd(c.args[0]))


@model('std::io::_print', 'std::io::_eprint')
def _(c):
    c.event('print')
    return UNIT


@model('alloc::io::error::<impl std::io::Error>::new', 'std::io::Error::new', 'std::io::Error::other', 'std::io::Error::last_os_error')
def _(c):
    return mk('app', 'ioerror', *c.args)


@model('core::panicking::panic_fmt', 'core::panicking::panic', 'core::panicking::assert_failed', 'core::panicking::unreachable_default_msg',
       'core::panicking::panic_explicit', 'std::rt::panic_fmt', 'std::rt::begin_panic', 'core::panicking::panic_display', 'core::panicking::unreachable_display',
       'core::panicking::panic_nounwind', 'core::panicking::panic_bounds_check')
def _(c):
    c.e.panic(c.e.cur, c.st, c.fr, c.blk, 'panic:' + c.callee['p'].split('::')[-1], 0, None)
    return None


@model('std::process::exit', 'std::process::abort')
def _(c):
    c.event('exit', c.args)
    return None


# ------------------------------------------------------------------ files
@model('std::fs::File::create', 'std::fs::File::open', 'std::fs::File::create_new')
def _(c):
    p = c.content(0)
    f = c.fresh('file')
    m = c.callee['m']
    c.event('fs', [p], kind=m, file=f)
    fv = agg('File', None, {'#path': p, '#pos': 0, '#id': f, '#mode': mk('str', m)})
    return c.res(fv)


@model('std::fs::OpenOptions::new', 'std::fs::File::options')
def _(c):
    return agg('OpenOptions', None, {k: 0 for k in ('read', 'write', 'append', 'truncate', 'create', 'create_new')})


def _oo(c):
    r, p, t = c.obj(0)
    c.e.write(c.st, r, p + (c.callee['m'],), c.args[1])
    return c.args[0]


for _m in ('read', 'write', 'append', 'truncate', 'create', 'create_new'):
    REG['std::fs::OpenOptions::' + _m] = _oo


@model('std::fs::OpenOptions::open')
def _(c):
    r, p, t = c.obj(0)
    o = c.e.read(c.st, r, p)
    path = c.content(1)
    f = c.fresh('file')
    c.event('fs', [path], kind='openopts', opts=o, file=f)
    return c.res(agg('File', None, {'#path': path, '#pos': 0, '#id': f, '#mode': o}))


@model('std::fs::create_dir_all', 'std::fs::create_dir', 'std::fs::remove_file', 'std::fs::remove_dir_all', 'std::fs::remove_dir', 'std::fs::metadata', 'std::fs::read_dir',
       'std::fs::write', 'std::fs::read', 'std::fs::read_to_string', 'std::fs::rename', 'std::fs::copy', 'std::fs::symlink_metadata', 'std::fs::exists', 'std::path::Path::metadata',
       'std::path::Path::read_dir', 'std::path::Path::try_exists', 'std::fs::hard_link', 'std::fs::canonicalize')
def _(c):
    m = c.callee['m']
    p = c.content(0)
    extra = {}
    if m == 'write':
        extra['content'] = tuple(c.bytes_of(1)) if c.atys[1] else None
    elif len(c.args) > 1:
        extra['dst'] = c.content(1)
    ev = c.event('fs', [p] + list(c.args[1:]), kind=m, **extra)
    if m in ('metadata', 'symlink_metadata'):
        return c.res(mk('app', 'metadata' if m == 'metadata' else 'lmetadata', p))
    if m == 'read_dir':
        return c.res(agg('iter:readdir', None, {'path': p}))
    return c.default_ret('fs.' + m)


@model('std::fs::File::set_len', 'std::fs::File::sync_all', 'std::fs::File::sync_data', 'std::fs::File::metadata', 'std::fs::File::try_clone')
def _(c):
    c.event('file.' + c.callee['m'], [c.rd(c.args[0])] + list(c.args[1:]))
    return c.default_ret(c.callee['m'])


@model('std::fs::DirEntry::file_name', 'std::fs::DirEntry::path')
def _(c):
    v = c.rd(c.args[0])
    return mk('app', 'dirent.' + c.callee['m'], v)


@model('std::fs::DirEntry::metadata', 'std::fs::DirEntry::file_type')
def _(c):
    v = c.rd(c.args[0])
    c.event('fs', [v], kind='dirent.' + c.callee['m'])
    return c.res(mk('app', 'dirent.' + c.callee['m'], v))


@model('std::fs::Metadata::is_dir', 'std::fs::Metadata::is_file', 'std::fs::Metadata::len', 'std::fs::FileType::is_dir', 'std::fs::FileType::is_file', 'std::fs::Metadata::is_symlink', 'std::fs::FileType::is_symlink', 'std::fs::Metadata::file_type')
def _(c):
    v = c.rd(c.args[0])
    t = mk('app', 'meta.' + c.callee['m'], v)
    if c.callee['m'] == 'len':
        NN.setdefault(t, 64)
    return t


# ------------------------------------------------------------------ streams
def stream_of(c, i=0):
    """(root, path, type) of the stream object behind argument i"""
    r, p, t = c.obj(i)
    return r, p, t


POSPATH = {}    # ADT short name -> function(c, root, path) -> (root, path) of the position cell


def pos_cell(c, r, p, t):
    n = t['n'].split('::')[-1] if t and t['k'] == 'adt' else None
    f = POSPATH.get(n)
    if f:
        return f(c, r, p)
    return r, p + ('#pos',)


def get_pos(c, cell, st=None):
    v = c.e.read(st or c.st, *cell)
    if v.__class__ is T:
        NN.setdefault(v, 64)
    return v


def sref(r, p):
    return mk('ref', r, p) if r[0] != 'S' else r[1]


def disturb(c, r, p, t, st, tag, write):
    """workspace stream used abstractly: everything it buffers may change"""
    v = c.e.read(st, r, p)
    scrub(c, st, v, tag, 0)


def scrub(c, st, v, tag, d):
    if v.__class__ is not T or d > 5:
        return
    if v.op == 'agg':
        for k, x in v.a[2]:
            if k in ('file', 'source', 'rs'):
                continue
            scrub(c, st, x, tag + '.' + str(k), d + 1)
    elif v.op == 'ref' and v.a[0][0] == 'H':
        cur = c.e.read(st, v.a[0], v.a[1])
        if cur.__class__ is T and cur.op == 'cat':
            c.e.write(st, v.a[0], v.a[1], mk('cat', ((c.fresh(tag + '.buf'), 0, cur.a[1]),), cur.a[1]))
        elif cur.__class__ is T and cur.op != 'agg':
            c.e.write(st, v.a[0], v.a[1], c.fresh(tag + '.obj'))
    elif v.op == 'slice' and v.a[0][0] == 'H':
        cur = c.e.read(st, v.a[0], v.a[1])
        if cur.__class__ is T and cur.op == 'cat':
            c.e.write(st, v.a[0], v.a[1], mk('cat', ((c.fresh(tag + '.buf'), 0, cur.a[1]),), cur.a[1]))


@tmodel('std::io::Seek', 'seek')
def _seek(c):
    r, p, t = stream_of(c)
    cell = pos_cell(c, r, p, t)
    pos = get_pos(c, cell)
    w = c.args[1]
    kind = w.a[1] if w.__class__ is T and w.op == 'agg' else None
    if kind == 'Start':
        new = proj(w, ('Start', '0'))
    elif kind == 'Current':
        new = add(pos, proj(w, ('Current', '0')))
    else:
        new = c.fresh('seekpos')
    if new.__class__ is T:
        NN.setdefault(new, 64) if new.op not in ('lin',) else None
    c.event('seek', [sref(r, p), new], pos=pos, kind=kind, st=t)

    def eff(s):
        c.e.write(s, cell[0], cell[1], new)

    def bad(s):
        x = mk('fresh', c.e.cur.id, c.e.seq, 'badpos')
        NN.setdefault(x, 64)
        c.e.write(s, cell[0], cell[1], x)
    return c.res(new, oketf=eff, erreff=bad)


@tmodel('std::io::Seek', 'stream_position')
def _(c):
    r, p, t = stream_of(c)
    cell = pos_cell(c, r, p, t)
    pos = get_pos(c, cell)
    c.event('stream_position', [sref(r, p), pos], pos=pos, st=t)
    return c.res(pos)


@tmodel('std::io::Seek', 'rewind')
def _(c):
    r, p, t = stream_of(c)
    cell = pos_cell(c, r, p, t)
    pos = get_pos(c, cell)
    c.event('seek', [sref(r, p), 0], pos=pos, kind='Start', st=t)
    return c.res(UNIT, oketf=lambda s: c.e.write(s, cell[0], cell[1], 0))


@tmodel('std::io::Read', 'read')
@tmodel('std::io::Read', 'read_exact')
def _read(c):
    m = c.callee['m']
    r, p, t = stream_of(c)
    cell = pos_cell(c, r, p, t)
    pos = get_pos(c, cell)
    s = c.to_slice(1)
    if m == 'read':
        n = c.fresh('nread')
        NN[n] = 63
        facts = [tle(n, s.a[3])]
    else:
        n = s.a[3]
        facts = []
    ev = c.event('stream.' + m, [sref(r, p), s, n], pos=pos, n=n, want=s.a[3], st=t, buf=s)
    fb = mk('fb', sref(r, p), pos)

    def eff(st):
        if m == 'read_exact':
            c.store_at(st, s, [(fb, 0, s.a[3])])
        else:
            part = mk('slice', s.a[0], s.a[1], s.a[2], s.a[3])
            c.store_at(st, part, [(mk('partread', fb, n), 0, s.a[3])])
        c.e.write(st, cell[0], cell[1], add(pos, n))

    def bad(st):
        x = mk('fresh', c.e.cur.id, ev.seq, 'badpos')
        NN.setdefault(x, 64)
        c.e.write(st, cell[0], cell[1], x)
        c.store_at(st, s, [(mk('fresh', c.e.cur.id, ev.seq, 'garbage'), 0, s.a[3])])
    return c.res(n if m == 'read' else UNIT, okfacts=facts, oketf=eff, erreff=bad)


@tmodel('std::io::Read', 'read_to_end')
@tmodel('std::io::Read', 'read_to_string')
def _(c):
    r, p, t = stream_of(c)
    cell = pos_cell(c, r, p, t)
    pos = get_pos(c, cell)
    vr, vp, vt = c.obj(1)
    before = vlen(c, vr, vp)
    n = c.fresh('nend')
    NN[n] = 63
    ev = c.event('stream.read_to_end', [sref(r, p), mk('ref', vr, vp), n], pos=pos, n=n, before=before, st=t)
    src = c.e.read(c.st, r, p)

    def eff(st):
        c.e.write(st, cell[0], cell[1], add(pos, n))
        if before == 0:
            c.e.write(st, vr, vp, agg('Vec', None, {'#len': n, '#buf': mk('pcs', ((mk('fb', src if src.__class__ is T and src.op == 'agg' else sref(r, p), pos), 0, n),))}))
        else:
            c.e.write(st, vr, vp + ('#len',), add(before, n))
            c.e.write(st, vr, vp + ('#buf',), mk('fresh', c.e.cur.id, ev.seq, 'vbuf'))

    def bad(st):
        x = mk('fresh', c.e.cur.id, ev.seq, 'badlen')
        NN.setdefault(x, 63)
        c.e.write(st, vr, vp + ('#len',), x)
    return c.res(n, oketf=eff, erreff=bad)


@tmodel('std::io::Read', 'take')
@tmodel('std::io::Read', 'bytes')
@tmodel('std::io::Read', 'chain')
def _(c):
    return mk('app', 'io.' + c.callee['m'], *c.args)


@tmodel('std::io::Read', 'by_ref')
@tmodel('std::io::Write', 'by_ref')
def _(c):
    return c.args[0]


@tmodel('std::io::Write', 'write')
@tmodel('std::io::Write', 'write_all')
def _write(c):
    m = c.callee['m']
    r, p, t = stream_of(c)
    s = c.to_slice(1)
    if t and t['k'] == 'adt' and t['n'].endswith('vec::Vec'):
        c.callee = dict(c.callee)
        ln = vlen(c, r, p)
        ps = c.slice_content(s)
        c.event('vec.extend', [mk('ref', r, p), s], before=ln, n=s.a[3], content=tuple(ps))
        c.e.write(c.st, r, p + ('#len',), add(ln, s.a[3]))
        c.e.write(c.st, r, p + ('#buf',), content_term(ps) if ln == 0 else c.fresh('vbuf'))
        return c.res(s.a[3] if m == 'write' else UNIT)
    cell = pos_cell(c, r, p, t)
    pos = get_pos(c, cell)
    if m == 'write':
        n = c.fresh('nwritten')
        NN[n] = 63
        facts = [tle(n, s.a[3])]
    else:
        n = s.a[3]
        facts = []
    ps = c.slice_content(s)
    ev = c.event('stream.' + m, [sref(r, p), s, n], pos=pos, n=n, want=s.a[3], content=tuple(ps), st=t)

    def eff(st):
        c.e.write(st, cell[0], cell[1], add(pos, n))
        if t and t['k'] == 'adt':
            disturb(c, r, p, t, st, f'w{ev.seq}', True)

    def bad(st):
        x = mk('fresh', c.e.cur.id, ev.seq, 'badpos')
        NN.setdefault(x, 64)
        c.e.write(st, cell[0], cell[1], x)
    return c.res(n if m == 'write' else UNIT, okfacts=facts, oketf=eff, erreff=bad)


@tmodel('std::io::Write', 'write_fmt')
def _(c):
    r, p, t = stream_of(c)
    c.event('stream.write_fmt', [sref(r, p)])
    return c.res(UNIT)


@tmodel('std::io::Write', 'flush')
def _(c):
    r, p, t = stream_of(c)
    ev = c.event('stream.flush', [sref(r, p)], st=t)

    def eff(st):
        if t and t['k'] == 'adt':
            disturb(c, r, p, t, st, f'f{ev.seq}', True)
    return c.res(UNIT, oketf=eff)


@model('std::io::copy')
def _(c):
    r, p, t = stream_of(c, 0)
    r2, p2, t2 = stream_of(c, 1)
    n = c.fresh('ncopy')
    NN[n] = 63
    c.event('io.copy', [sref(r, p), sref(r2, p2), n], st=t, dst=t2)
    c1, c2 = pos_cell(c, r, p, t), pos_cell(c, r2, p2, t2)

    def eff(st):
        c.e.write(st, c1[0], c1[1], add(get_pos(c, c1, st), n))
        c.e.write(st, c2[0], c2[1], add(get_pos(c, c2, st), n))
    return c.res(n, oketf=eff)


@model('std::io::BufWriter::<W>::new', 'std::io::BufReader::<R>::new', 'std::io::BufWriter::<W>::with_capacity', 'std::io::BufReader::<R>::with_capacity')
def _(c):
    inner = c.args[-1]
    return agg('BufWriter' if 'BufWriter' in c.callee['p'] else 'BufReader', None, {'#inner': inner, '#pos': mk('fresh', c.e.cur.id, c.e.seq, 'bpos'), '#buffered': 1})


@model('std::io::BufWriter::<W>::into_inner')
def _(c):
    c.event('bufwriter.into_inner', [c.args[0]])
    return c.res(proj(c.args[0], '#inner'))


@model('std::io::Cursor::<T>::new')
def _(c):
    return agg('Cursor', None, {'#inner': c.args[0], '#pos': 0})


@model('std::io::Cursor::<T>::into_inner', 'std::io::Cursor::<T>::get_ref')
def _(c):
    v = c.args[0]
    if c.callee['m'] == 'get_ref':
        v = c.rd(v)
    return proj(v, '#inner')


@model('std::io::Cursor::<T>::position')
def _(c):
    v = proj(c.rd(c.args[0]), '#pos')
    if v.__class__ is T:
        NN.setdefault(v, 64)
    return v


SIZES = {}     # type string -> serialised size (filled by the layout rules)
MINSIZES = {}  # least serialised size of records of variable size


@tmodel('binrw::BinReaderExt', 'read_be')
@tmodel('binrw::BinReaderExt', 'read_le')
@tmodel('binrw::BinReaderExt', 'read_ne')
@tmodel('binrw::BinReaderExt', 'read_type')
@tmodel('binrw::BinReaderExt', 'read_be_args')
def _(c):
    r, p, t = stream_of(c)
    cell = pos_cell(c, r, p, t)
    pos = get_pos(c, cell)
    ty = c.targ(c.dty, 0)
    v = c.typed('parsed', ty)
    n = enc_size(c.e, ty, v) if ty else None
    if n is None:
        n = c.fresh('nparsed')
        NN[n] = 63
    src = c.e.read(c.st, r, p)
    c.event('stream.read_be', [sref(r, p), v], pos=pos, n=n, ty=ty, st=t, val=v, src=src, endian=c.callee['m'])

    def eff(st):
        c.e.write(st, cell[0], cell[1], add(pos, n))
    return c.res(v, oketf=eff)


@tmodel('binrw::BinWriterExt', 'write_be')
@tmodel('binrw::BinWriterExt', 'write_le')
@tmodel('binrw::BinWriterExt', 'write_ne')
@tmodel('binrw::BinWriterExt', 'write_type')
def _(c):
    r, p, t = stream_of(c)
    cell = pos_cell(c, r, p, t)
    pos = get_pos(c, cell)
    ty = c.pointee_ty(1)
    v = c.rd(c.args[1])
    n = SIZES.get(ty['s']) if ty else None
    if ty and ty['k'] in ('uint', 'int'):
        n = ty['bits'] // 8
    if n is None:
        n = mk('encsize', ty['s'] if ty else '', v)
        NN.setdefault(n, 31)
        if ty and MINSIZES.get(ty['s']):
            n = add(n, MINSIZES[ty['s']])      # encsize: the part beyond the least size
    src = c.e.read(c.st, r, p)
    c.event('stream.write_be', [sref(r, p), v], pos=pos, n=n, ty=ty, st=t, val=v, dst=src, endian=c.callee['m'])

    def eff(st):
        c.e.write(st, cell[0], cell[1], add(pos, n))
        if src.__class__ is T and src.op == 'agg' and src.a[0] == 'Cursor':
            inner = proj(src, '#inner')
            if inner.__class__ is T and inner.op == 'ref':
                c.e.write(st, inner.a[0], inner.a[1], agg('Vec', None, {'#len': add(pos, n), '#buf': mk('pcs', ((mk('enc', ty['s'] if ty else '', v), 0, n),)) if pos == 0 else mk('fresh', c.e.cur.id, c.e.seq, 'curbuf')}))
        elif t and t['k'] == 'adt':
            disturb(c, r, p, t, st, 'wb', True)
    return c.res(UNIT, oketf=eff)


# ------------------------------------------------------------------ code generated by binrw
@model('binrw::__private::write_fn_type_hint', 'binrw::__private::write_map_fn_input_type_hint', 'binrw::__private::coerce_fn',
       'binrw::__private::parse_fn_type_hint', 'binrw::__private::map_reader_type_hint', 'binrw::__private::map_writer_type_hint')
def _(c):
    return c.args[0]


@model('binrw::__private::write_fn_map_output_type_hint', 'binrw::__private::write_map_args_type_hint', 'binrw::__private::map_args_type_hint',
       'binrw::__private::parse_function_args_type_hint', 'binrw::__private::write_function_args_type_hint')
def _(c):
    return c.args[1]


@model('binrw::__private::restore_position')
def _(c):
    return c.fresh('restore')


@model('binrw::__private::assert')
def _(c):
    t = c.args[0]
    bad = err(c.fresh('assertfail'))
    if isint(t):
        return ok(UNIT) if t else bad
    t = c.e.as_bool(t)
    return [(ok(UNIT), [t], None), (bad, [tnot(t)], None)]


@model('binrw::__private::Required::args')
def _(c):
    return UNIT


@model('binrw::__private::write_zeroes')
def _(c):
    r, p, t = stream_of(c)
    cell = pos_cell(c, r, p, t)
    pos = get_pos(c, cell)
    c.event('rec.pad', [c.args[1]], pos=pos, n=c.args[1])

    def eff(st):
        c.e.write(st, cell[0], cell[1], add(pos, c.args[1]))
    return c.res(UNIT, oketf=eff)


def enc_size(e, t, v=None):
    """bytes a value of this type takes in a stream"""
    if t['k'] in ('uint', 'int', 'bool', 'char', 'float') and t.get('bits'):
        return t['bits'] // 8
    if t['k'] == 'array' and isint(t.get('len')):
        n = enc_size(e, e.ty(t['e']))
        return None if n is None else mulc(n, t['len'])
    if t['k'] == 'adt':
        if t['s'] in SIZES:
            return SIZES[t['s']]
        if t['n'].endswith('vec::Vec') and v is not None:
            n = enc_size(e, e.ty(t['a'][0]))
            l = proj(v, '#len')
            if l.__class__ is T:
                NN.setdefault(l, 62)
            return None if n is None else mulc(l, n)
    return None


@tmodel('binrw::BinWrite', 'write_options')
def _(c):
    r, p, t = c.obj_v(c.args[1], c.atys[1]) if c.atys and c.atys[1] else c.e.deref(c.st, c.args[1]) + (None,)
    cell = pos_cell(c, r, p, t)
    pos = get_pos(c, cell)
    ty = c.e.ty(c.callee['a'][0])
    v = c.rd(c.args[0])
    n = enc_size(c.e, ty, v)
    facts = []
    if n is None:
        n = mk('encsize', ty['s'], v)
        NN.setdefault(n, 62)
        if 'NullString' in ty['s']:
            facts = [tle(n, 63)]      # titles that fit their field
    c.event('rec.write', [c.args[0], v], pos=pos, n=n, ty=ty, val=v, endian=c.args[2] if len(c.args) > 2 else None)

    def eff(st):
        c.e.write(st, cell[0], cell[1], add(pos, n))
    return c.res(UNIT, okfacts=facts, oketf=eff)


@tmodel('binrw::BinRead', 'read_options')
def _(c):
    r, p, t = c.obj_v(c.args[0], c.atys[0]) if c.atys and c.atys[0] else c.e.deref(c.st, c.args[0]) + (None,)
    cell = pos_cell(c, r, p, t)
    pos = get_pos(c, cell)
    ty = c.e.ty(c.callee['a'][0])
    v = c.typed('parsed', ty)
    n = enc_size(c.e, ty, v)
    facts = []
    if n is None:
        n = c.fresh('nparsed')
        NN.setdefault(n, 62)
        if 'NullString' in ty['s']:
            facts = [tle(n, 63)]
    c.event('rec.read', [v], pos=pos, n=n, ty=ty, val=v, extra=c.args[2] if len(c.args) > 2 else None, endian=c.args[1] if len(c.args) > 1 else None)

    def eff(st):
        c.e.write(st, cell[0], cell[1], add(pos, n))
    return c.res(v, okfacts=facts, oketf=eff)


# ------------------------------------------------------------------ hashing and ciphers
HASH_EMPTY = mk('h', ())


def _digest(c):
    m = c.callee['m']
    if m == 'new':
        return agg('hasher', None, {'in': mk('h', ())})
    if m == 'digest':
        ct = tuple(c.bytes_of(0))
        c.event('sha1', [mk('h', ct)])
        return mk('cat', ((mk('sha1', _ht(ct)), 0, 20),), 20)
    if m in ('update', 'chain_update'):
        ps = tuple(c.bytes_of(1))
        if m == 'update':
            r, p, t = c.obj(0)
            cur = c.e.read(c.st, r, p + ('in',))
        else:
            cur = proj(c.args[0], 'in')
        old = cur.a[0] if cur.__class__ is T and cur.op == 'h' else ((mk('hstate', cur), 0, 0),)
        if len(old) > 4096:
            nv = mk('h', ((c.fresh('h'), 0, 0),))
        else:
            nv = mk('h', _merge(old + ps))
        c.event('hash.update', [nv], content=ps)
        if m == 'update':
            c.e.write(c.st, r, p + ('in',), nv)
            return UNIT
        return agg('hasher', None, {'in': nv})
    if m in ('finalize', 'finalize_reset', 'reset', 'finalize_fixed', 'finalize_into', 'finalize_into_reset'):
        byval = c.atys[0]['k'] != 'ref'
        if byval:
            cur = proj(c.args[0], 'in')
        else:
            r, p, t = c.obj(0)
            cur = c.e.read(c.st, r, p + ('in',))
            c.e.write(c.st, r, p + ('in',), mk('h', ()))
        if m == 'reset':
            return UNIT
        d = mk('cat', ((mk('sha1', _ht(cur.a[0]) if cur.__class__ is T and cur.op == 'h' else cur), 0, 20),), 20)
        c.event('sha1', [cur], digest=d)
        return d
    return NotImplemented


def _merge(ps):
    out = []
    for a, o, l in ps:
        if isint(l) and l == 0 and a.op != 'hstate':
            continue
        if out:
            pa, po, pl = out[-1]
            if pa is a and isint(l) and isint(pl) and isint(o) and isint(po) and (a.op in ('zero', 'fill') or po + pl == o):
                out[-1] = (pa, po, pl + l)
                continue
        out.append((a, o, l))
    return tuple(out)


def _ht(ps):
    return content_term(list(ps))


for _m in ('new', 'update', 'finalize', 'finalize_reset', 'reset', 'digest', 'chain_update', 'finalize_into'):
    TRAIT[('Digest', _m)] = _digest
    TRAIT[('sha1::Digest', _m)] = _digest
    TRAIT[('digest::digest::Digest', _m)] = _digest


@tmodel('KeyIvInit', 'new')
@tmodel('KeyIvInit', 'new_from_slices')
def _(c):
    k = content_term(c.bytes_of(0))
    iv = content_term(c.bytes_of(1))
    s = c.dty['s'] if c.dty else ''
    mode = 'enc' if 'Encryptor' in s else ('dec' if 'Decryptor' in s else '?')
    v = agg('cipher', None, {'key': k, 'iv': iv, 'mode': mk('str', mode)})
    if c.callee['m'] == 'new_from_slices':
        return c.res(v)
    return v


def _crypt(c):
    m = c.callee['m']
    v = c.args[0]
    if c.atys[0] and c.atys[0]['k'] == 'ref':
        v = c.rd(v)
    mode = 'aesenc' if m.startswith('encrypt') else 'aesdec'
    key, iv = proj(v, 'key'), proj(v, 'iv')
    if 'b2b' in m:
        ps = c.bytes_of(1)
        d = c.to_slice(2)
    else:
        s = c.to_slice(1)
        ln = c.args[2] if len(c.args) > 2 else s.a[3]
        d = mk('slice', s.a[0], s.a[1], s.a[2], ln)
        ps = c.slice_content(d)
    src = content_term(ps)
    n = d.a[3]
    out = mk(mode, key, iv, src)
    c.event('crypt', [d], mode=mode, key=key, iv=iv, src=src, n=n)
    g = 1
    nn = n
    if 'b2b' in m and src.op == 'cat':
        nn = src.a[1]
        d = mk('slice', d.a[0], d.a[1], d.a[2], nn)
    g = eq0(mod(nn, 16))
    if not isint(g):
        c.e.panic(c.e.cur, c.st, c.fr, c.blk, 'cipher-length', g, (nn,))

    def eff(st):
        c.store_at(st, d, [(out, 0, nn)])
    if isint(g):
        if g:
            eff(c.st)
            return ok(d)
        return err(c.fresh('pad'))
    return [(ok(d), [g], eff), (err(c.fresh('pad')), [tnot(g)], None)]


for _m in ('encrypt_padded_mut', 'decrypt_padded_mut', 'encrypt_padded_b2b_mut', 'decrypt_padded_b2b_mut'):
    for _t in ('BlockEncryptMut', 'BlockDecryptMut'):
        TRAIT[(_t, _m)] = _crypt


@model('sha1::digest::hybrid_array::Array::<T, U>::as_slice')
def _(c):
    s = c.to_slice(0)
    return s


# ------------------------------------------------------------------ encodings
@model('encoding_rs::Encoding::encode', 'encoding_rs::Encoding::decode', 'encoding_rs::Encoding::decode_without_bom_handling', 'encoding_rs::Encoding::decode_with_bom_removal')
def _(c):
    m = c.callee['m']
    inp = c.content(1) if is_str(c.e, c.atys[1]) else content_term(c.bytes_of(1))
    enc = c.args[0]
    v = mk('app', 'sjis.' + ('encode' if m == 'encode' else 'decode'), inp)
    bad = mk('app', 'sjis.bad.' + ('encode' if m == 'encode' else 'decode'), inp)
    c.event('encoding', [inp], kind=m, enc=enc, res=v)
    if m.startswith('decode_'):
        return agg('tuple', None, {'0': v, '1': bad})
    return agg('tuple', None, {'0': v, '1': mk('fresh', c.e.cur.id, c.e.seq, 'encname'), '2': bad})


@model('std::slice::<impl [T]>::join')
def _(c):
    if not is_str(c.e, c.dty):
        return NotImplemented
    ev = c.event('str.join', c.args)
    v = ev.info['res'] = mk('fresh', c.e.cur.id, ev.seq, 'joined')
    return v


# ------------------------------------------------------------------ python
@model('pyo3::Python::<\'_>::attach', 'pyo3::Python::<\'_>::with_gil')
def _(c):
    return NotImplemented


@model('pyo3::Py::<T>::call1', 'pyo3::Py::<T>::call0', 'pyo3::Py::<T>::is_truthy', 'pyo3::Py::<T>::call')
def _(c):
    m = c.callee['m']
    ev = c.event('py.' + m, c.args)
    if m == 'is_truthy':
        v = mk('app', 'truthy', c.rd(c.args[0]) if c.atys[0]['k'] == 'ref' else c.args[0])
        NN.setdefault(v, 1)
        ev.info['res'] = v
        return c.res(v)
    a = c.args[2] if len(c.args) > 2 else UNIT
    v = mk('fresh', c.e.cur.id, ev.seq, 'pyobj')
    ev.info['res'] = v
    ev.info['arg'] = a
    return c.res(v)


import re as _re


class StdModels(Models):
    NUMRE = _re.compile(r'(core|std)::num::<impl ([iu](8|16|32|64|128|size))>::(\w+)$')

    def call(self, e, st, fr, bb, blk, callee, args, atys, dty, ops, body):
        p = callee.get('p') or ''
        if '::num::<impl' in p:
            m = self.NUMRE.match(p)
            if m:
                c = C(e, st, fr, bb, blk, callee, args, atys, dty, ops, body)
                callee = dict(callee, m=m.group(4))
                c.callee = callee
                r = _num(c)
                if r is not NotImplemented:
                    return r
        return Models.call(self, e, st, fr, bb, blk, callee, args, atys, dty, ops, body)
