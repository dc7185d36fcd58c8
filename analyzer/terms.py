"""Interned value terms of the abstract domain, with a linear normal form for integers."""
from math import gcd


class T:
    __slots__ = ('op', 'a', 'id', '_at')

    def __repr__(self):
        return show(self, 6)

    def __hash__(self):
        return self.id

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
NN = {}      # atom -> bits (unsigned atoms: 0 <= atom < 2^bits)
RANGE = {}   # atom -> (lo, hi) inclusive, tighter


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t._at = None
        _tab[k] = t
    return t


def isint(v):
    return v.__class__ is int


# ---------------------------------------------------------------- linear forms
def lin_parts(v):
    """value -> (const, tuple of (atom, coef))"""
    if v.__class__ is int:
        return v, ()
    if v.op == 'lin':
        return v.a[0], v.a[1]
    return 0, ((v, 1),)


def lin_make(c, d):
    items = [(k, v) for k, v in d.items() if v != 0]
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    return mk('lin', c, tuple(items))


def add(a, b):
    if a.__class__ is int and b.__class__ is int:
        return a + b
    ca, ta = lin_parts(a)
    cb, tb = lin_parts(b)
    d = dict(ta)
    for k, v in tb:
        d[k] = d.get(k, 0) + v
    return lin_make(ca + cb, d)


def mulc(a, c):
    if a.__class__ is int:
        return a * c
    if c == 0:
        return 0
    if c == 1:
        return a
    ca, ta = lin_parts(a)
    return lin_make(ca * c, {k: v * c for k, v in ta})


def neg(a):
    return mulc(a, -1)


def sub(a, b):
    return add(a, mulc(b, -1))


def mul(a, b):
    if a.__class__ is int:
        return mulc(b, a)
    if b.__class__ is int:
        return mulc(a, b)
    # distribute over linear forms
    ca, ta = lin_parts(a)
    cb, tb = lin_parts(b)
    r = ca * cb
    for k, v in tb:
        r = add(r, mulc(k, v * ca))
    for k, v in ta:
        r = add(r, mulc(k, v * cb))
        for k2, v2 in tb:
            x, y = (k, k2) if k.id < k2.id else (k2, k)
            m = mk('mul', x, y)
            if nonneg_atom(x) and nonneg_atom(y):
                NN.setdefault(m, 128)
            r = add(r, mulc(m, v * v2))
    return r


def div(x, c):
    """floor division by a positive constant"""
    if c == 1:
        return x
    if x.__class__ is int:
        return x // c
    cx, tx = lin_parts(x)
    out = cx // c
    rc = cx % c
    d = {}
    q = {}
    for k, v in tx:
        if v % c == 0:
            q[k] = v // c
        else:
            d[k] = v
    if q:
        out = add(out, lin_make(0, q))
    if not d:
        return out
    # common factor
    g = c
    for v in d.values():
        g = gcd(g, v)
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        rc //= g
        c //= g
        return add(out, div(lin_make(rc, d), c))
    if len(d) == 1 and rc == 0:
        (k, v), = d.items()
        if v == 1 and k.op == 'div':
            return add(out, div(k.a[0], k.a[1] * c))
    r = lin_make(rc, d)
    rg = interval(r)
    if rg[0] is not None and rg[1] is not None and rg[0] // c == rg[1] // c:
        return add(out, rg[0] // c)
    # x = c*A + k0 + a*(y mod c2) with a small rest
    for k, v in d.items():
        if k.op == 'div':
            y, c2 = k.a
            cy, ty = lin_parts(y)
            if len(ty) == 1 and abs(ty[0][1]) == 1 and ty[0][0] in d:
                a = d[ty[0][0]] * ty[0][1]
                if a > 0 and a * (c2 - 1) < c:
                    rest = add(sub(r, mulc(y, a)), mulc(k, a * c2))
                    k0, tr = lin_parts(rest)
                    if all(w % c == 0 for _, w in tr) and 0 <= k0 % c and k0 % c + a * (c2 - 1) < c:
                        return add(out, div(rest, c))
    t = mk('div', r, c)
    if rg[0] is not None and rg[0] >= 0:
        NN.setdefault(t, 64)
    return add(out, t)


def mod(x, c):
    if x.__class__ is int:
        return x % c
    return sub(x, mulc(div(x, c), c))


def nonneg_atom(t):
    if t in NN or t.op in ('disc', 'bool'):
        return True
    if t.op == 'phi' and t.a[1][-1] in ('#off', '#slen', '#len'):
        return True
    r = RANGE.get(t)
    return r is not None and r[0] is not None and r[0] >= 0


def atom_range(t, depth=3):
    r = RANGE.get(t)
    if r:
        return r
    op = t.op
    if op == 'div' and depth:
        lo, hi = interval(t.a[0], depth - 1)
        c = t.a[1]
        return (None if lo is None else lo // c, None if hi is None else hi // c)
    if op == 'min' and depth:
        a, b = interval(t.a[0], depth - 1), interval(t.a[1], depth - 1)
        lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
        his = [x for x in (a[1], b[1]) if x is not None]
        return (lo, min(his) if his else None)
    if op == 'max' and depth:
        a, b = interval(t.a[0], depth - 1), interval(t.a[1], depth - 1)
        los = [x for x in (a[0], b[0]) if x is not None]
        hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
        return (max(los) if los else None, hi)
    if op == 'trunc':
        return (0, (1 << t.a[0]) - 1)
    b = NN.get(t)
    if b is not None:
        return (0, (1 << b) - 1)
    if op == 'phi' and t.a[1][-1] in ('#off', '#slen', '#len'):
        return (0, (1 << 64) - 1)
    if op in ('eq0', 'lt0', 'not', 'and', 'or', 'same', 'bool'):
        return (0, 1)
    if op == 'disc':
        return (0, 1 << 20)
    return (None, None)


def interval(v, depth=3):
    if v.__class__ is int:
        return (v, v)
    c, ts = lin_parts(v)
    lo = hi = c
    for k, co in ts:
        a, b = atom_range(k, depth)
        if co < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + a * co
        hi = None if hi is None or b is None else hi + b * co
    return (lo, hi)


def tmin(a, b):
    if a is b or a == b:
        return a
    if isint(a) and isint(b):
        return min(a, b)
    lo, hi = interval(sub(a, b))
    if hi is not None and hi <= 0:
        return a
    if lo is not None and lo >= 0:
        return b
    x, y = sorted((a, b), key=tkey)
    t = mk('min', x, y)
    la, lb = interval(a)[0], interval(b)[0]
    if la is not None and lb is not None and la >= 0 and lb >= 0:
        NN.setdefault(t, 64)
    return t


def tmax(a, b):
    if a is b or a == b:
        return a
    if isint(a) and isint(b):
        return max(a, b)
    lo, hi = interval(sub(a, b))
    if hi is not None and hi <= 0:
        return b
    if lo is not None and lo >= 0:
        return a
    x, y = sorted((a, b), key=tkey)
    t = mk('max', x, y)
    la, lb = interval(a)[0], interval(b)[0]
    if (la is not None and la >= 0) or (lb is not None and lb >= 0):
        NN.setdefault(t, 64)
    return t


def tkey(v):
    return (0, v) if isint(v) else (1, v.id)


# ---------------------------------------------------------------- booleans
def eq0(e):
    if isint(e):
        return 1 if e == 0 else 0
    c, ts = lin_parts(e)
    lo, hi = interval(e)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return 0
    g = abs(c)
    for _, v in ts:
        g = gcd(g, v)
    gg = 0
    for _, v in ts:
        gg = gcd(gg, v)
    if c % gg:
        return 0
    s = 1 if ts[0][1] > 0 else -1
    if g > 1 or s < 0:
        e = lin_make(c // g * s if s > 0 else -(c // g), {k: v // g * s for k, v in ts})
    # boolean atom compared with constant
    c, ts = lin_parts(e)
    if len(ts) == 1 and ts[0][1] == 1 and ts[0][0].op in BOOLOPS:
        if c == 0:
            return tnot(ts[0][0])
        if c == -1:
            return ts[0][0]
    return mk('eq0', e)


def lt0(e):
    """e < 0"""
    if isint(e):
        return 1 if e < 0 else 0
    lo, hi = interval(e)
    if hi is not None and hi < 0:
        return 1
    if lo is not None and lo >= 0:
        return 0
    c, ts = lin_parts(e)
    g = 0
    for _, v in ts:
        g = gcd(g, v)
    if g > 1:
        # g*x + c < 0  <=>  x < -c/g  <=> x + ceil(c/g) ... x < -c/g  <=> x <= ceil(-c/g)-1
        k = -((c) // g)          # ceil(-c/g)
        e = lin_make(-k, {a: v // g for a, v in ts})
    return mk('lt0', e)


BOOLOPS = ('eq0', 'lt0', 'not', 'and', 'or', 'same', 'bool', 'app')


def teq(a, b):
    if a is b:
        return 1
    return eq0(sub(a, b))


def tlt(a, b):
    return lt0(sub(a, b))


def tle(a, b):
    return lt0(sub(sub(a, b), 1))


def tnot(t):
    if isint(t):
        return 0 if t else 1
    if t.op == 'not':
        return t.a[0]
    if t.op == 'lt0':
        return lt0(sub(neg(t.a[0]), 1))
    return mk('not', t)


def tand(a, b):
    if isint(a):
        return b if a else 0
    if isint(b):
        return a if b else 0
    if a is b:
        return a
    x, y = sorted((a, b), key=tkey)
    return mk('and', x, y)


def tor(a, b):
    return tnot(tand(tnot(a), tnot(b)))


# ---------------------------------------------------------------- traversal
def kids(t):
    """child terms of a T"""
    out = []
    if t.op == 'old':        # a value of an earlier loop iteration: opaque
        return out
    st = [t.a]
    while st:
        x = st.pop()
        for y in x:
            if y.__class__ is T:
                out.append(y)
            elif y.__class__ is tuple:
                st.append(y)
    return out


def atoms(v):
    """set of all sub-terms (cached)"""
    if v.__class__ is not T:
        return frozenset()
    if v._at is not None:
        return v._at
    stack = [v]
    while stack:
        t = stack[-1]
        if t._at is not None:
            stack.pop()
            continue
        ks = kids(t)
        pend = [k for k in ks if k._at is None]
        if pend:
            stack.extend(pend)
            continue
        s = {t}
        for k in ks:
            s |= k._at
        t._at = frozenset(s)
        stack.pop()
    return v._at


def subst(v, m, cache=None):
    """simultaneous substitution of atoms, renormalising"""
    if v.__class__ is not T:
        return v
    if cache is None:
        cache = {}
    return _subst(v, m, frozenset(m), cache)


def _subst_tuple(x, m, ms, cache):
    out = []
    for y in x:
        if y.__class__ is T:
            out.append(_subst(y, m, ms, cache))
        elif y.__class__ is tuple:
            out.append(_subst_tuple(y, m, ms, cache))
        else:
            out.append(y)
    return tuple(out)


def _subst(v, m, ms, cache):
    if v in m:
        return m[v]
    r = cache.get(v)
    if r is not None:
        return r
    if not (atoms(v) & ms):
        cache[v] = v
        return v
    op = v.op
    if op == 'lin':
        r = v.a[0]
        for k, c in v.a[1]:
            x = _subst(k, m, ms, cache)
            if x.__class__ is T and x.op in ('agg', 'ref', 'slice', 'buf'):
                x = mk('illtyped', x)
            r = add(r, mulc(x, c))
    elif op == 'div':
        r = div(_subst(v.a[0], m, ms, cache), v.a[1])
    elif op == 'mul':
        r = mul(_subst(v.a[0], m, ms, cache), _subst(v.a[1], m, ms, cache))
    else:
        a = _subst_tuple(v.a, m, ms, cache)
        r = rebuild(op, a)
    cache[v] = r
    return r


REBUILD = {}


def rebuild(op, a):
    f = REBUILD.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


REBUILD.update({
    'eq0': eq0, 'lt0': lt0, 'not': tnot, 'and': tand, 'min': tmin, 'max': tmax,
})


def trunc(bits, x):
    if isint(x):
        return x & ((1 << bits) - 1)
    if x.op == 'lin' and (x.a[0] and x.a[0] % (1 << bits) == 0 or any(c % (1 << bits) == 0 for _, c in x.a[1])):
        x = lin_make(x.a[0] if x.a[0] % (1 << bits) else 0, {t: c for t, c in x.a[1] if c % (1 << bits)})
        if isint(x):
            return x & ((1 << bits) - 1)
    lo, hi = interval(x)
    if lo is not None and hi is not None and lo >= 0 and hi < (1 << bits):
        return x
    t = mk('trunc', bits, x)
    NN.setdefault(t, bits)
    return t


REBUILD['trunc'] = trunc


# ---------------------------------------------------------------- aggregates
def agg(tag, variant, items, base=None):
    """items: dict"""
    if not items and variant is None and base is not None:
        return base
    return mk('agg', tag, variant, tuple(sorted(items.items(), key=lambda kv: str(kv[0]))), base)


def items_of(t):
    return dict(t.a[2])


def proj(v, key):
    if v.__class__ is T:
        if v.op == 'agg':
            for k, x in v.a[2]:
                if k == key:
                    return x
            if v.a[3] is not None:
                return proj(v.a[3], key)
            return mk('undef', v, key) if v.a[1] is None else mk('undef', v, key)
        if v.op == 'ite':
            pass
        return mk('fld', v, key)
    return mk('fld', v, key)


REBUILD['fld'] = lambda v, key: proj(v, key)
REBUILD['agg'] = lambda tag, var, items, base: mk('agg', tag, var, items, base)


def disc_of(v, enum):
    """enum: adt def or None"""
    if v.__class__ is T and v.op == 'agg' and v.a[1] is not None:
        if enum:
            for x in enum['v']:
                if x['n'] == v.a[1]:
                    return x['d']
        return mk('disc', v)
    return mk('disc', v)


ENUMS = {}   # adt path -> def, filled by the engine; used when a substitution makes a variant known


def _disc_rebuild(v):
    if v.__class__ is T and v.op == 'agg' and v.a[1] is not None:
        e = ENUMS.get(v.a[0])
        if e:
            return disc_of(v, e)
    return mk('disc', v)


REBUILD['disc'] = _disc_rebuild


def show(v, depth=5):
    if v.__class__ is int:
        return hex(v) if abs(v) > 64 else str(v)
    if v.__class__ is not T:
        return str(v)
    if depth <= 0:
        return '..'
    op, a = v.op, v.a
    if op == 'lin':
        s = []
        for k, c in a[1]:
            s.append((f'{show(c)}*' if c != 1 else '') + show(k, depth - 1))
        if a[0]:
            s.append(show(a[0]))
        return '(' + ' + '.join(s) + ')'
    if op == 'sym':
        return str(a[0])
    if op == 'fld':
        return f'{show(a[0], depth - 1)}.{keystr(a[1], depth)}'
    if op == 'mem':
        return f'*{show(a[0], depth - 1)}'
    if op == 'phi':
        return f'phi{a[0]}<{pathstr(a[1])}>'
    if op == 'fresh':
        return f'ev{a[0]}.{a[1]}' + (f'.{a[2]}' if len(a) > 2 else '')
    if op == 'agg':
        its = ', '.join(f'{keystr(k, depth)}: {show(x, depth - 1)}' for k, x in a[2])
        nm = str(a[0]).split('::')[-1]
        return f'{nm}{"::" + a[1] if a[1] else ""}{{{its}{" ..base " + show(a[3], depth - 1) if a[3] is not None else ""}}}'
    if op == 'eq0':
        return f'{show(a[0], depth - 1)}==0'
    if op == 'lt0':
        return f'{show(a[0], depth - 1)}<0'
    if op == 'not':
        return f'!({show(a[0], depth - 1)})'
    if op == 'ref':
        return f'&{pathstr((a[0],) + a[1])}'
    if op == 'slice':
        return f'&{pathstr((a[0],) + a[1])}[{show(a[2], depth - 1)};{show(a[3], depth - 1)}]'
    if op == 'str':
        return repr(a[0])
    return f'{op}({", ".join(show(x, depth - 1) if x.__class__ in (T, int) else str(x)[:60] for x in a)})'


def keystr(k, depth=3):
    if isinstance(k, tuple):
        return '.'.join(show(x, depth - 1) if isinstance(x, T) else str(x) for x in k)
    return str(k)


def pathstr(p):
    return '/'.join(keystr(x) if not isinstance(x, T) else show(x, 3) for x in p)


def _cat_rebuild(pieces, n):
    from models import cat_read, cat_make
    if not any(a.op in ('cat', 'view') for a, _, _ in pieces):
        return mk('cat', pieces, n)
    out = []
    ch = False
    for a, o, l in pieces:
        if a.op == 'view' and a.a[0].__class__ is T and a.a[0].op == 'cat' and isint(a.a[1]) and isint(o) and isint(l):
            out.extend(cat_read(a.a[0], a.a[1] + o, l))
            ch = True
        elif a.op == 'cat' and isint(o) and isint(l):
            out.extend(cat_read(a, o, l))
            ch = True
        else:
            out.append((a, o, l))
    return cat_make(out) if ch else mk('cat', pieces, n)


REBUILD['cat'] = _cat_rebuild
