"""Shared configuration of the analyses: which callees stay opaque, where entries are found."""
import re
from program import program

STREAMS = {'IOWindow', 'CryptPartReader', 'WiiEncryptedReadWriteStream'}
_reach = {}


def reaches_recursion(prog, path):
    m = _reach.get(id(prog))
    if m is None:
        rev = {}
        for a, bs in prog.cg.items():
            for b in bs:
                rev.setdefault(b, set()).add(a)
        m = set(prog.recursive)
        work = list(m)
        while work:
            x = work.pop()
            for y in rev.get(x, ()):
                if y not in m:
                    m.add(y)
                    work.append(y)
        _reach[id(prog)] = m
    return path in m


def fst_opaque(entry=None):
    """tree-walking FST functions are analysed as entries of their own"""
    def f(body, callee):
        if entry is not None and body.path == entry:
            return False
        p = body.path
        tail = '::'.join(re.sub(r'<[^<>]*>', '', p).split('::')[-2:]).lower()
        return reaches_recursion(body.prog, p) and ('fst' in p.lower())
    return f


# ------------------------------------------------------------------ finding code
def impl_method(prog, ty, trait, m):
    """body of <..ty.. as ..trait..>::m (generic instance preferred)"""
    rx = re.compile(r'<(?:[\w:]*::)?' + ty + r'(?:<.*>)? as (?:[\w:]*::)?' + trait + r'(?:<.*>)?>::' + m + r'$')
    c = [b for b in prog.bodies.values() if rx.search(b.path)]
    c.sort(key=lambda b: (not b.root, b.key))
    return c[0] if c else None


def inherent(prog, ty, m):
    rx = re.compile(r'(?:^|::)' + ty + r'(?:::<.*?>)?::' + m + r'$')
    c = [b for b in prog.bodies.values() if rx.search(b.path)]
    c.sort(key=lambda b: (not b.root, b.key))
    return c[0] if c else None


def function(prog, name):
    rx = re.compile(r'(?:^|::)' + name + r'$')
    c = [b for b in prog.bodies.values() if rx.search(b.path) and not b.closure]
    c.sort(key=lambda b: (not b.root, len(b.path), b.key))
    return c[0] if c else None


# ------------------------------------------------------------------ roles of fields
def struct_fields(prog, short):
    for n, a in prog.adts.items():
        if n.split('::')[-1] == short and a['k'] == 'struct':
            return n, a['v'][0]['f']
    return None, None


def find_struct(prog, ts, pred, seen=()):
    """path of field names (with '*' for dereferences) from type string ts to a struct satisfying pred"""
    t = ts.strip()
    pre = []
    while True:
        m = re.match(r"&(?:'\w+ )?(?:mut )?(.*)$", t)
        if m:
            t = m.group(1)
            pre.append('*')
            continue
        m = re.match(r'std::boxed::Box<(.*)>$', t)
        if m:
            t = m.group(1)
            pre.append('*')
            continue
        break
    short = re.sub(r'<.*$', '', t).split('::')[-1]
    if short in seen:
        return None
    n, fs = struct_fields(prog, short)
    if fs is None:
        return None
    if pred(fs):
        return pre, fs
    for f in fs:
        r = find_struct(prog, f[1], pred, seen + (short,))
        if r:
            return pre + [f[0]] + r[0], r[1]
    return None


def is_cache(f):
    return re.match(r'std::boxed::Box<\[u8;', f[1]) is not None


def is_group(f):
    return f[1].replace(' ', '') == 'std::option::Option<u64>'


def crypt_state(prog, short):
    """(path from the stream struct to the struct holding the group cache, roles)"""
    r = find_struct(prog, short, lambda fs: any(is_cache(f) for f in fs) and any(is_group(f) for f in fs))
    if r is None:
        return None
    path, fs = r
    roles = {'cache': [f[0] for f in fs if is_cache(f)][0],
             'key': next((f[0] for f in fs if f[1] == '[u8; 16]'), None),
             'h3': next((f[0] for f in fs if re.match(r'std::option::Option<std::boxed::Box<\[u8;', f[1])), None)}
    gs = [f[0] for f in fs if is_group(f)]
    roles['group'] = 'current_group' if 'current_group' in gs else gs[0]
    bools = [f[0] for f in fs if f[1] == 'bool']
    roles['dirty'] = 'is_dirty' if 'is_dirty' in bools else (bools[0] if len(bools) == 1 else None)
    u64 = [f[0] for f in fs if f[1] == 'u64']
    pos = returned_field(prog, short)
    roles['pos'] = pos if pos in u64 else ('current_position' if 'current_position' in u64 else None)
    for nm in ('data_offset', 'data_size', 'filled_groups'):
        roles[nm] = nm if nm in u64 else None
    left = [x for x in u64 if x not in roles.values()]
    miss = [nm for nm in ('data_offset', 'data_size', 'filled_groups') if roles[nm] is None]
    if len(left) == 1 and 'data_offset' in miss:
        roles['data_offset'] = left[0]
    elif len(left) == 1 and roles['data_offset']:
        roles['data_size' if 'Reader' in short else 'filled_groups'] = left[0]
    op = next((f[0] for f in fs if 'OpenMode' in f[1]), None)
    roles['mode'] = op
    return path, roles


def returned_field(prog, short):
    """name of the field whose value stream_position returns"""
    b = impl_method(prog, short, 'Seek', 'stream_position')
    if b is None:
        return None
    for blk in b.blocks:
        for s in blk['s']:
            if s[0] == '=' and s[2][0] == 'use':
                p = s[2][1].get('c') or s[2][1].get('m')
                if p and len(p) > 1 and isinstance(p[-1], list) and p[-1][0] == 'f':
                    return p[-1][2]
    return None


def walk(e, st, v, steps):
    """(root, path) reached from pointer value v"""
    root, path = e.deref(st, v)
    for s in steps:
        if s == '*':
            x = e.read_any(st, root, path)
            root, path = e.deref(st, x)
        else:
            path = path + (s,)
    return root, path


# ------------------------------------------------------------------ functions that only compute (hash, encrypt) on memory
_pure = {}


def pure_crypto(prog):
    """paths of functions that (transitively) hash or encrypt memory and do no stream or file operation"""
    r = _pure.get(id(prog))
    if r is not None:
        return r
    crypt, io, cg = set(), set(), {}
    for b in prog.bodies.values():
        out = cg.setdefault(b.path, set())
        for blk in b.blocks:
            if blk['cl']:
                continue
            t = blk['t']
            if t[0] == 'call':
                c = t[1]
                p = str(c.get('rp') or c.get('p') or '') + '|' + str(c.get('p') or '')
                tr = c.get('tr') or ''
                if 'cipher::' in p or 'cipher::' in tr or 'sha1::' in p or 'Digest' in tr:
                    crypt.add(b.path)
                if tr in ('std::io::Read', 'std::io::Write', 'std::io::Seek') or 'std::fs' in p or 'binrw' in p:
                    io.add(b.path)
                if c.get('b') in prog.bodies:
                    out.add(prog.bodies[c['b']].path)
            for s in blk['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure' and s[2][1][2] in prog.bodies:
                    out.add(prog.bodies[s[2][1][2]].path)
    for st in (crypt, io):
        ch = True
        while ch:
            ch = False
            for a, bs in cg.items():
                if a not in st and bs & st:
                    st.add(a)
                    ch = True
    r = _pure[id(prog)] = crypt - io
    return r


def crypto_opaque(body, callee):
    return body.path in pure_crypto(body.prog) and not body.closure
