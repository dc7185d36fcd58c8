"""Forward data-flow analysis over an exploded supergraph.

A node is (frame, block, partition key); frames clone callees per calling node (virtual inlining).
The domain maps memory cells to interned terms (value numbering with phi terms at joins) plus a set
of branch facts (intersected at joins).  No path enumeration, no solver."""
import heapq
import sys
from terms import *
from program import program

sys.setrecursionlimit(100000)
UNDEF = mk('undef')
ZERO = mk('zero')
MAXITER = 2200
MAXPART = 48


class Unsupported(Exception):
    pass


class State:
    __slots__ = ('store', 'facts', 'dec', 'nou', 'dorig')

    def __init__(self):
        self.store = {}
        self.facts = set()
        self.dec = frozenset()
        self.nou = frozenset()
        self.dorig = {}

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.facts = set(self.facts)
        s.dec = self.dec
        s.nou = self.nou
        s.dorig = dict(self.dorig)
        return s

    def same(self, o):
        return self.store == o.store and self.facts == o.facts and self.dec == o.dec and self.nou == o.nou


class Frame:
    __slots__ = ('id', 'body', 'caller', 'cframe', 'citers', 'dest', 'target', 'chain', 'prio', 'cbb', 'onret')


class Node:
    __slots__ = ('id', 'frame', 'bb', 'iters', 'key', 'ins', 'st', 'sticky', 'out', 'events', 'prio', 'exits', 'panics', 'n', 'outv')


class Event:
    __slots__ = ('name', 'args', 'node', 'seq', 'info', 'file', 'line', 'fn', 'res', 'facts', 'callee', 'frame', 'st')

    def __repr__(self):
        return f'<{self.name} {self.file}:{self.line} {self.info}>'

    def where(self):
        return f'{self.file}:{self.line} in {self.fn}'


class Exit:
    __slots__ = ('node', 'ret', 'st', 'label')


class Panic:
    __slots__ = ('kind', 'node', 'cond', 'file', 'line', 'fn', 'facts', 'info', 'frame')


class Engine:
    def __init__(self, crate, models, opaque=None, memkeys=True, maxnodes=200000, unroll=True):
        self.prog = program(crate)
        self.models = models
        self.opaque = opaque or (lambda b, callee: False)
        self.ghostkeys = ()
        self.on_store = None
        self.hook = None         # called for every event with the state
        self.hook_out = None     # called for every outcome of a modelled call
        self.memkeys = memkeys
        self.unroll = unroll
        self.maxnodes = maxnodes
        self.frames = {}
        self.nodes = {}
        self.nlist = []
        self.heap = []
        self.exits = []
        self.unmodeled = {}
        self.partcount = {}
        self.steps = 0
        self.heapn = 0
        self.arrlen = {}
        self.adtcache = {}

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.prog.types[i]

    def enum_def(self, ty):
        if ty['k'] == 'adt':
            a = self.prog.adts.get(ty['n'])
            if a and a['k'] == 'enum':
                return a
        return None

    # ------------------------------------------------------------ memory
    def root_value(self, st, root):
        v = st.store.get(root)
        if v is None:
            if root[0] == 'D':
                v = mk('mem', root[1])
            elif root[0] == 'L':
                v = UNDEF
            elif root[0] == 'K':
                v = root[1]
            else:
                v = mk('heap0', root)
        return v

    def read(self, st, root, path):
        v = self.root_value(st, root)
        for k in path:
            v = self.proj(st, v, k)
        return v

    def proj(self, st, v, k):
        if k.__class__ is tuple and k[0] == 'idx':
            return self.elem(st, v, k[1])
        return proj(v, k)

    def elem(self, st, v, i):
        if v.__class__ is T:
            if v.op == 'cat':
                from models import cat_read, piece_byte
                if isint(i):
                    return piece_byte(cat_read(v, i, 1))
                return self.byte(mk('byte', v, i))
            if v.op == 'agg':
                if isint(i):
                    for kk, x in v.a[2]:
                        if kk == ('idx', i):
                            return x
                    rep = None
                    for kk, x in v.a[2]:
                        if kk == '#rep':
                            return x
                    if v.a[3] is not None:
                        return proj(v.a[3], ('idx', i))
                else:
                    for kk, x in v.a[2]:
                        if kk == ('idx', i):
                            return x
                    its = [kk for kk, _ in v.a[2] if kk.__class__ is tuple and kk[0] == 'idx']
                    for kk, x in v.a[2]:
                        if kk == '#rep' and not its:
                            return x
                    if v.a[3] is not None and not its:
                        return proj(v.a[3], ('idx', i))
                    return mk('fld', v, ('idx', i))
        return mk('fld', v, ('idx', i))

    def byte(self, t):
        NN.setdefault(t, 8)
        return t

    def write(self, st, root, path, val):
        if not path:
            st.store[root] = val
            return
        v = self.root_value(st, root)
        st.store[root] = self.upd(v, path, val)

    def upd(self, v, path, val):
        k = path[0]
        if k.__class__ is tuple and k[0] == 'idx':
            if v.__class__ is T and v.op == 'cat':
                from models import cat_write, byte_piece
                if isint(k[1]) and len(path) == 1:
                    return cat_write(v, k[1], 1, byte_piece(val))
                return mk('upd', v, k[1], val if len(path) == 1 else UNDEF)
            cur = self.elem(None, v, k[1])
            nv = val if len(path) == 1 else self.upd(cur, path[1:], val)
            if v.__class__ is T and v.op == 'agg':
                its = dict(v.a[2])
                if not isint(k[1]):
                    its = {a: b for a, b in its.items() if not (a.__class__ is tuple and a[0] == 'idx')}
                    if '#rep' in its or v.a[3] is None:
                        return mk('upd', v, k[1], nv)
                its[k] = nv
                return agg(v.a[0], v.a[1], its, v.a[3])
            return agg('?arr', None, {k: nv}, v)
        if v.__class__ is T and v.op == 'agg':
            cur = proj(v, k)
            nv = val if len(path) == 1 else self.upd(cur, path[1:], val)
            its = []
            done = False
            for a, b in v.a[2]:
                if a == k:
                    its.append((a, nv))
                    done = True
                else:
                    its.append((a, b))
            if not done:
                d = dict(v.a[2])
                d[k] = nv
                return agg(v.a[0], v.a[1], d, v.a[3])
            return mk('agg', v.a[0], v.a[1], tuple(its), v.a[3])
        cur = proj(v, k)
        nv = val if len(path) == 1 else self.upd(cur, path[1:], val)
        return agg('?', None, {k: nv}, v)

    def deref(self, st, v):
        """pointer value -> (root, path)"""
        if v.__class__ is T:
            if v.op == 'ref':
                return v.a[0], v.a[1]
            if v.op == 'slice':
                return ('S', v), ()
        return ('D', v), ()

    def place(self, st, fr, p):
        """-> (root, path)"""
        root = ('L', fr.id, p[0])
        path = ()
        var = None
        for e in p[1:]:
            if e == '*':
                v = self.read_any(st, root, path)
                root, path = self.deref(st, v)
            elif e[0] == 'f':
                nm = e[2] or str(e[1])
                path = path + (((var, nm),) if var else (nm,))
                var = None
                continue
            elif e[0] == 'd':
                var = e[2] or str(e[1])
                continue
            elif e[0] == 'i':
                ix = st.store.get(('L', fr.id, e[1]), UNDEF)
                root, path = self.index(st, root, path, ix)
            elif e[0] == 'ci':
                if e[2]:
                    n = self.seq_len(st, root, path)
                    root, path = self.index(st, root, path, sub(n, e[1]))
                else:
                    root, path = self.index(st, root, path, e[1])
            elif e[0] == 'ss':
                v = mk('subslice', self.read_any(st, root, path), e[1], e[2], e[3])
                root, path = ('D', v), ()
            else:
                v = self.read_any(st, root, path)
                root, path = ('D', mk('cast', v)), ()
            var = None
        if var:
            path = path + (('as', var),)
        return root, path

    def index(self, st, root, path, ix):
        if root[0] == 'S':
            s = root[1]
            return s.a[0], s.a[1] + (('idx', add(s.a[2], ix)),)
        return root, path + (('idx', ix),)

    def seq_len(self, st, root, path):
        if root[0] == 'S':
            return root[1].a[3]
        v = self.read(st, root, path)
        return self.value_len(v)

    def value_len(self, v):
        if v.__class__ is T:
            if v.op == 'cat':
                return v.a[1]
            if v.op == 'agg':
                for k, x in v.a[2]:
                    if k == '#len':
                        return x
        t = proj(v, '#len')
        if t.__class__ is T:
            NN.setdefault(t, 63)
        return t

    def read_any(self, st, root, path):
        if root[0] == 'S':
            s = root[1]
            return mk('view', self.read(st, s.a[0], s.a[1]), s.a[2], s.a[3])
        if path and path[-1].__class__ is tuple and path[-1][0] == 'as':
            path = path[:-1]
        return self.read(st, root, path)

    # ------------------------------------------------------------ operands
    def const(self, st, fr, k, node):
        ty = self.ty(k['t'])
        if 'int' in k:
            v = int(k['int'])
            if v == 0 and ty['k'] == 'adt' and ty['n'].endswith('option::Option'):
                p = self.ty(ty['a'][0])
                if p['k'] == 'ref' or (p['k'] == 'adt' and (p['n'].endswith('boxed::Box') or p['n'].endswith('NonNull'))):
                    return agg('std::option::Option', 'None', {})
            return v
        if 'str' in k:
            return mk('str', k['str'])
        if 'refbytes' in k:
            from models import lit
            t = lit(k['refbytes'])
            root = ('K', t)
            return self.slice_or_ref(ty, root, t)
        if 'fn' in k:
            return mk('fnv', FnBox(k['fn']))
        if 'promoted' in k:
            return self.promoted(fr, k, node)
        if 'zeros' in k:
            from models import zeros
            return zeros(k['zeros'])
        if 'bytes' in k:
            if ty['k'] == 'array' and self.ty(ty['e'])['k'] in ('uint', 'int') and self.ty(ty['e']).get('bits') == 8:
                from models import lit
                return lit(k['bytes'])
            e = self.enum_def(ty)
            return mk('constv', ty['s'], k['bytes'])
        if k.get('zst'):
            if ty['k'] == 'closure':
                return agg(ty['n'], None, {})
            if ty['k'] == 'tuple':
                return agg('tuple', None, {})
            if ty['k'] == 'adt':
                return agg(ty['n'], None, {})
            return mk('zst', ty['s'])
        if 'item' in k:
            return mk('item', k['item'], ty['s'])
        if 'static' in k:
            return mk('static', k['static'])
        if ty['k'] in ('uint', 'int') and ty['s'] in k.get('s', ''):
            x = k['s'].replace('_' + ty['s'], '').replace('const ', '').strip()
            if x.lstrip('-').isdigit():
                return int(x)
        return mk('constv', ty['s'], k.get('s', ''))

    def slice_or_ref(self, ty, root, content):
        if ty['k'] == 'ref' and self.ty(ty['e'])['k'] == 'slice':
            return mk('slice', root, (), 0, content.a[1])
        return mk('ref', root, ())

    def promoted(self, fr, k, node):
        body = fr.body
        pj = body.j.get('promoted')
        pk = k.get('pdef')
        owner = body
        if body.j.get('pkey') != pk and pk is not None:
            for b in self.prog.bodies.values():
                if b.j.get('pkey') == pk:
                    owner = b
                    pj = b.j.get('promoted')
                    break
        try:
            pb = pj[k['promoted']]
        except Exception:
            return mk('constv', 'promoted', str(k))
        ck = ('prom', owner.key, k['promoted'])
        c = self.adtcache.get(ck)
        if c is not None:
            return c
        # evaluate the straight-line promoted body with a private frame
        from program import Body
        pbody = Body(self.prog, dict(pb, key=owner.key + '::promoted', path=owner.path + '::promoted', file=owner.file,
                                     line=owner.line, name='promoted', promoted=None))
        f = Frame()
        f.id = ('prom', owner.key, k['promoted'])
        f.body = pbody
        f.caller = None
        f.chain = ()
        st = State()
        b = 0
        for _ in range(20):
            blk = pbody.blocks[b]
            for s in blk['s']:
                if s[0] == '=':
                    self.assign(st, f, s, None)
            t = blk['t']
            if t[0] == 'ret':
                break
            if t[0] in ('goto',):
                b = t[1]
                continue
            if t[0] == 'assert':
                b = t[4]
                continue
            self.adtcache[ck] = mk('constv', 'promoted', owner.key, k['promoted'])
            return self.adtcache[ck]
        v = st.store.get(('L', f.id, 0), UNDEF)
        # locals of the promoted frame become constants
        v = self.freeze(st, v)
        self.adtcache[ck] = v
        return v

    def freeze(self, st, v, d=0):
        """replace references to promoted locals by references to constant roots"""
        if v.__class__ is not T or d > 6:
            return v
        if v.op == 'ref' and v.a[0][0] == 'L':
            val = self.freeze(st, self.read(st, v.a[0], ()), d + 1)
            return mk('ref', ('K', val), v.a[1])
        if v.op == 'slice' and v.a[0][0] == 'L':
            val = self.freeze(st, self.read(st, v.a[0], ()), d + 1)
            return mk('slice', ('K', val), v.a[1], v.a[2], v.a[3])
        if v.op == 'agg':
            return mk('agg', v.a[0], v.a[1], tuple((k, self.freeze(st, x, d + 1)) for k, x in v.a[2]), v.a[3])
        return v

    def operand(self, st, fr, o, node=None):
        p = o.get('c') or o.get('m')
        if p is not None:
            root, path = self.place(st, fr, p)
            v = self.read_any(st, root, path)
            if v.__class__ is T and v.op in ('fld', 'mem', 'phi', 'fresh', 'sym', 'view'):
                self.note_type(v, self.place_ty(fr.body, p))
            return v
        if 'k' in o:
            return self.const(st, fr, o['k'], node)
        return mk('unk', fr.id)

    def note_type(self, v, ty):
        if ty is None:
            return
        if ty['k'] == 'uint':
            if v not in NN:
                NN[v] = ty['bits']
        elif ty['k'] == 'bool':
            if v not in NN:
                NN[v] = 1

    def place_ty(self, body, p):
        """type of a place when it is cheap to know: plain locals, derefs of refs"""
        t = body.lty(p[0])
        var = None
        for e in p[1:]:
            if e == '*':
                if t['k'] in ('ref', 'ptr'):
                    t = self.ty(t['e'])
                else:
                    return None
            elif e[0] == 'd':
                var = e[2]
            elif e[0] == 'f':
                t = self.field_ty(t, var, e)
                var = None
                if t is None:
                    return None
            elif e[0] in ('i', 'ci'):
                if t['k'] in ('array', 'slice'):
                    t = self.ty(t['e'])
                else:
                    return None
            else:
                return None
        return t

    PRIM = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}

    def field_ty(self, t, var, e):
        if t['k'] == 'tuple':
            return self.ty(t['a'][e[1]])
        if t['k'] == 'closure':
            return self.ty(t['up'][e[1]]) if e[1] < len(t['up']) else None
        if t['k'] == 'adt':
            a = self.prog.adts.get(t['n'])
            if not a:
                return None
            for v in a['v']:
                if var is None or v['n'] == var:
                    if e[1] < len(v['f']):
                        s = v['f'][e[1]][1]
                        if s in self.PRIM:
                            return {'k': 'uint', 'bits': self.PRIM[s], 's': s}
                        if s == 'bool':
                            return {'k': 'bool', 's': s}
                        if len(s) <= 2 and len(t['a']) == 1 and s in ('T', 'I', 'E', 'Idx'):
                            return self.ty(t['a'][0])
                        if t['n'] == 'std::result::Result':
                            i = 0 if v['n'] == 'Ok' else 1
                            if i < len(t['a']):
                                return self.ty(t['a'][i])
                        for x in self.tystr_index().get(s, ()):
                            return x
                        return None
                    return None
        return None

    def tystr_index(self):
        ix = self.adtcache.get('tystr')
        if ix is None:
            ix = {}
            for x in self.prog.types:
                ix.setdefault(x['s'], []).append(x)
            self.adtcache['tystr'] = ix
        return ix

    # ------------------------------------------------------------ rvalues
    def assign(self, st, fr, s, node):
        val = self.rvalue(st, fr, s[2], node, s)
        root, path = self.place(st, fr, s[1])
        if root[0] == 'S':
            return
        if path and path[-1].__class__ is tuple and path[-1][0] == 'as':
            path = path[:-1]
        if self.on_store is not None:
            self.on_store(st, root, path, val, node)
        self.write(st, root, path, val)
        if s[2][0] == 'discr' and val.__class__ is T and val.op == 'disc':
            r2, p2 = self.place(st, fr, s[2][1])
            st.dorig[val] = (r2, p2, s[2][2])

    def rvalue(self, st, fr, r, node, s=None):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1], node)
        if k == 'ref':
            root, path = self.place(st, fr, r[1])
            if root[0] == 'S':
                return root[1]
            if path and path[-1].__class__ is tuple and path[-1][0] == 'as':
                path = path[:-1]
            if root[0] == 'D' and not path:
                v = root[1]
                if v.__class__ is T and v.op == 'str':
                    return v
                return v          # reborrow of an opaque pointer
            return mk('ref', root, path)
        if k == 'bin':
            return self.binop(r[1], self.operand(st, fr, r[2], node), self.operand(st, fr, r[3], node), self.ty(r[4]), st)
        if k == 'un':
            v = self.operand(st, fr, r[2], node)
            if r[1] == 'Not':
                t = self.ty(r[3])
                if t['k'] == 'bool':
                    return tnot(self.as_bool(v))
                if isint(v):
                    return (~v) & ((1 << t.get('bits', 64)) - 1) if t['k'] == 'uint' else ~v
                if t['k'] == 'uint':
                    return sub((1 << t.get('bits', 64)) - 1, v)
                return mk('bnot', v)
            if r[1] == 'Neg':
                return neg(v)
            if r[1] == 'PtrMetadata':
                return self.ptr_len(st, v)
            return mk('un', r[1], v)
        if k == 'discr':
            root, path = self.place(st, fr, r[1])
            v = self.read_any(st, root, path)
            e = self.enum_def(self.ty(r[2]))
            d = disc_of(v, e)
            if d.__class__ is T:
                d = self.disc_fact(st, d, e)
            return d
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, fr, r[2], node), self.ty(r[3]), self.ty(r[4]))
        if k == 'agg':
            ops = [self.operand(st, fr, o, node) for o in r[2]]
            kk = r[1]
            if kk[0] == 'adt':
                names = kk[4]
                if kk[5]:
                    return agg(kk[1], kk[3], {(kk[3], n): o for n, o in zip(names, ops)})
                return agg(kk[1], None, dict(zip(names, ops)))
            if kk[0] == 'tuple':
                return agg('tuple', None, {str(i): o for i, o in enumerate(ops)})
            if kk[0] == 'array':
                t = self.ty(kk[1])
                if t.get('bits') == 8:
                    from models import cat_make, byte_piece
                    return cat_make([p for o in ops for p in byte_piece(o)])
                d = {('idx', i): o for i, o in enumerate(ops)}
                d['#len'] = len(ops)
                return agg('array', None, d)
            if kk[0] == 'closure':
                return agg(kk[1], None, dict({str(i): o for i, o in enumerate(ops)}, **{'#body': mk('str', kk[2])}))
            return mk('aggother', *ops)
        if k == 'repeat':
            v = self.operand(st, fr, r[1], node)
            n = r[2]
            o = r[1]
            tb = None
            if 'k' in o:
                tb = self.ty(o['k']['t'])
            else:
                p = o.get('c') or o.get('m')
                tb = self.place_ty(fr.body, p)
            if tb and tb.get('bits') == 8 and n is not None:
                from models import zeros, cat_make
                if v == 0:
                    return zeros(n)
                return mk('cat', ((mk('fill', v), 0, n),), n)
            return agg('array', None, {'#rep': v, '#len': n if n is not None else mk('unk', 'replen')})
        return mk('rv', k, node.id if node else 0, fr.id, s[3] if s else 0)

    def disc_fact(self, st, d, e):
        if e:
            for v in e['v']:
                if eq0(sub(d, v['d'])) in st.facts:
                    return v['d']
            left = [v['d'] for v in e['v'] if tnot(eq0(sub(d, v['d']))) not in st.facts]
            if len(left) == 1:
                return left[0]
        return d

    def as_bool(self, v):
        if isint(v):
            return v
        if v.op in BOOLOPS:
            return v
        return tnot(eq0(v))

    def ptr_len(self, st, v):
        if v.__class__ is T:
            if v.op == 'slice':
                return v.a[3]
            if v.op == 'str':
                return len(v.a[0].encode())
            if v.op == 'ref':
                return self.seq_len(st, v.a[0], v.a[1])
        t = mk('plen', v)
        NN.setdefault(t, 63)
        return t

    def binop(self, op, a, b, ty, st):
        ov = op.endswith('WithOverflow')
        base = op[:-12] if ov else op
        if base.endswith('Unchecked'):
            base = base[:-9]
        v = None
        signed = ty['k'] == 'int'
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if base in ('Eq', 'Ne'):
                if ty['k'] == 'bool':
                    a, b = self.as_bool(a), self.as_bool(b)
                    if isint(a):
                        a, b = b, a
                    if isint(b):
                        t = a if b else tnot(a)
                    else:
                        t = self.same(a, b)
                elif ty['k'] in ('int', 'uint', 'char', 'float'):
                    t = teq(a, b) if ty['k'] != 'float' else self.same(a, b)
                else:
                    t = self.same(a, b)
                return t if base == 'Eq' else tnot(t)
            if ty['k'] not in ('int', 'uint', 'char'):
                return mk('bool', base, a, b)
            return {'Lt': lambda: tlt(a, b), 'Le': lambda: tle(a, b), 'Gt': lambda: tlt(b, a), 'Ge': lambda: tle(b, a)}[base]()
        if ty['k'] == 'float':
            return mk('fop', base, a, b)
        bits = ty.get('bits', 64)
        if base == 'Add':
            v = add(a, b)
        elif base == 'Sub':
            v = sub(a, b)
        elif base == 'Mul':
            v = mul(a, b)
        elif base == 'Div':
            v = div(a, b) if isint(b) and b > 0 and not (signed and not self.known_nonneg(st, a)) else self.opq('divv', a, b, ty)
        elif base == 'Rem':
            v = mod(a, b) if isint(b) and b > 0 and not (signed and not self.known_nonneg(st, a)) else self.opq('modv', a, b, ty)
        elif base == 'BitAnd':
            v = self.bitand(a, b, bits, ty)
        elif base == 'BitOr':
            v = self.bitor(a, b, ty)
        elif base == 'BitXor':
            v = (a ^ b) if isint(a) and isint(b) else self.opq('xor', a, b, ty)
        elif base == 'Shl':
            v = mulc(a, 1 << b) if isint(b) and b < 128 else self.opq('shl', a, b, ty)
            if not ov and ty['k'] == 'uint':
                v = trunc(bits, v)
        elif base == 'Shr':
            v = div(a, 1 << b) if isint(b) and b < 128 else self.opq('shr', a, b, ty)
        elif base == 'Cmp':
            v = mk('cmp3', a, b)
        elif base == 'Offset':
            v = mk('ptroff', a, b)
        else:
            v = mk('bin', base, a, b)
        if ov:
            lo, hi = (0, (1 << bits) - 1) if not signed else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
            o = 0
            if isint(v):
                o = 0 if lo <= v <= hi else 1
            else:
                # overflow flag: kept symbolic; the successful branch tells lo <= v <= hi
                o = mk('bool', 'ovf', base, v, bits, 1 if signed else 0)
            return agg('tuple', None, {'0': v, '1': o})
        return v

    def known_nonneg(self, st, a):
        lo, _ = interval(a)
        return lo is not None and lo >= 0

    def opq(self, name, a, b, ty):
        t = mk(name, a, b)
        if ty['k'] == 'uint':
            NN.setdefault(t, ty['bits'])
        return t

    def same(self, a, b):
        if a is b:
            return 1
        if isint(a) and isint(b):
            return 1 if a == b else 0
        x, y = sorted((a, b), key=tkey)
        return mk('same', x, y)

    def bitand(self, a, b, bits, ty):
        if isint(a) and isint(b):
            return a & b
        if isint(a):
            a, b = b, a
        if ty['k'] == 'bool':
            return tand(self.as_bool(a), self.as_bool(b))
        if isint(b):
            b &= (1 << bits) - 1
            if b & (b + 1) == 0:
                return mod(a, b + 1)
            inv = ((1 << bits) - 1) ^ b
            if inv & (inv + 1) == 0:
                return mulc(div(a, inv + 1), inv + 1)
        return self.opq('band', a, b, ty)

    def bitor(self, a, b, ty):
        if isint(a) and isint(b):
            return a | b
        if ty['k'] == 'bool':
            return tor(self.as_bool(a), self.as_bool(b))
        if isint(a) and a == 0:
            return b
        if isint(b) and b == 0:
            return a
        # disjoint: multiple of 2^k  |  value < 2^k
        for x, y in ((a, b), (b, a)):
            lo, hi = interval(y)
            if lo is not None and hi is not None and lo >= 0:
                k = 1 << hi.bit_length()
                if not isint(x) or x % k == 0:
                    c, ts = lin_parts(x)
                    if c % k == 0 and all(co % k == 0 for _, co in ts):
                        return add(x, y)
        x, y = sorted((a, b), key=tkey)
        return self.opq('bor', x, y, ty)

    def cast(self, st, kind, v, ft, tt):
        if kind == 'int':
            if ft['k'] == 'bool':
                return v
            if tt['k'] == 'uint':
                b = tt['bits']
                if isint(v):
                    return v & ((1 << b) - 1)
                if ft['k'] in ('uint',) and ft['bits'] <= b:
                    return v
                if b >= 64 and ft.get('bits', 64) <= b:
                    return v
                return trunc(b, v)
            if tt['k'] == 'int':
                if isint(v):
                    b = tt['bits']
                    v &= (1 << b) - 1
                    return v - (1 << b) if v >> (b - 1) else v
                if tt['bits'] >= ft.get('bits', 64):
                    return v
                return mk('strunc', tt['bits'], v)
            if ft['k'] == 'adt':
                return mk('disc', v)
            return v
        if kind.startswith('coerce-Unsize'):
            # &[T;N] -> &[T]
            if v.__class__ is T and v.op == 'slice':
                return v
            if v.__class__ is T and v.op == 'ref' and ft['k'] in ('ref', 'ptr', 'adt'):
                e = self.ty(ft['e']) if ft['k'] in ('ref', 'ptr') else None
                if ft['k'] == 'adt' and ft.get('a'):
                    e = self.ty(ft['a'][0])
                if e and e['k'] == 'array':
                    if e.get('len') is not None and self.ty(e['e']).get('bits') == 8:
                        self.arrlen[(v.a[0], v.a[1])] = e['len']
                    return mk('slice', v.a[0], v.a[1], 0, e.get('len', mk('unk', 'arrlen')))
                return v
            e = self.ty(ft['e']) if ft['k'] in ('ref', 'ptr') else (self.ty(ft['a'][0]) if ft['k'] == 'adt' and ft.get('a') else None)
            if e and e['k'] == 'array':
                if e.get('len') is not None and self.ty(e['e']).get('bits') == 8:
                    self.arrlen[(('D', v), ())] = e['len']
                return mk('slice', ('D', v), (), 0, e.get('len', mk('unk', 'arrlen')))
            return v
        if kind == 'boxderef':
            if v.__class__ is T and v.op == 'fld':
                return v.a[0]
            return v
        if kind in ('PtrToPtr', 'transmute') or kind.startswith('coerce-'):
            if tt['k'] in ('uint', 'int') and ft['k'] in ('ptr', 'ref', 'adt'):
                t = mk('addr', v)
                RANGE[t] = (1, (1 << 63))
                return t
            if v.__class__ is T and v.op == 'str' and tt['k'] in ('ref', 'ptr') and self.ty(tt['e'])['k'] == 'slice':
                from models import lit
                t = lit(v.a[0].encode().hex())
                return mk('slice', ('K', t), (), 0, t.a[1])
            return v
        if kind.startswith('FloatToInt') or kind.startswith('IntToFloat'):
            t = mk('fcast', v)
            if tt['k'] == 'uint':
                NN.setdefault(t, tt['bits'])
            return t
        return mk('cast', v)

    # ------------------------------------------------------------ graph
    def frame(self, caller, cbb, body, cframe, citers, dest, target):
        k = (caller.id if caller else None, cbb, body.key)
        f = self.frames.get(k)
        if f is None:
            f = Frame()
            f.id = len(self.frames)
            f.body = body.prep()
            f.caller = caller
            f.cframe = cframe
            f.cbb = cbb
            f.chain = (cframe.chain if cframe else ()) + (body.path,)
            f.prio = caller.prio + ((cframe.body.rpo[cbb], 1),) if caller else ()
            self.frames[k] = f
        f.citers = citers
        f.dest = dest
        f.target = target
        f.onret = None
        return f

    def prio(self, fr, bb, iters):
        p = fr.prio
        for h in fr.body.inloops[bb]:
            it = iters.get(h, 0)
            p = p + ((fr.body.rpo[h], 0 if True else 0), (it if it != '*' else 1 << 30, 0))
        return p + ((fr.body.rpo[bb], 0),)

    def tag(self, v, d):
        if v.__class__ is int:
            return None
        if v.op == 'agg':
            if v.a[1] is not None:
                if d > 0:
                    sub_ = tuple((str(k), t) for k, x in v.a[2] for t in (self.tag(x, d - 1),) if t is not None)
                    return (v.a[1],) + sub_
                return (v.a[1],)
            if d > 0:
                sub_ = tuple((str(k), t) for k, x in v.a[2] if k != '#buf' for t in (self.tag(x, d - 1),) if t is not None)
                return sub_ or None
        return None

    def key(self, st, fr, bb):
        out = []
        body = fr.body
        live = body.live[bb]
        for l in sorted(live | body.addr):
            v = st.store.get(('L', fr.id, l))
            if v is None or l in body.dropflags:
                continue
            if v.__class__ is int:
                if body.lty(l)['k'] == 'bool':
                    out.append((l, v))
                continue
            t = self.tag(v, 2)
            if t is not None:
                out.append((l, t))
        if self.memkeys:
            for r, v in st.store.items():
                if r[0] == 'D' and v.__class__ is T:
                    t = self.tagmem(v, 4)
                    if t:
                        out.append(('D', r[1].id, t))
                elif r[0] == 'G' and v.__class__ is int and v in (0, 1) and r[1] in self.ghostkeys:
                    out.append(('G', r[1], v))
        return tuple(out)

    def tagmem(self, v, d):
        if v.__class__ is int:
            return None
        if v.op == 'agg':
            if v.a[1] is not None:
                return (v.a[1],)
            if d > 0:
                o = []
                for k, x in v.a[2]:
                    if x.__class__ is int:
                        if x in (0, 1) and k.__class__ is str and k[:1] != '#':
                            o.append((k, x))
                        continue
                    t = self.tagmem(x, d - 1)
                    if t:
                        o.append((str(k), t))
                return tuple(o) or None
        return None

    def edge(self, src, label, st, fr, bb, iters):
        """flow st to (fr, bb); label identifies the edge at src"""
        body = fr.body
        # leave loops that do not contain bb
        il = body.inloops[bb]
        iters = {h: iters[h] for h in il if h in iters}
        for h in il:
            if h not in iters:
                iters[h] = 0
        # forget dead locals
        live = body.live[bb]
        fid = fr.id
        dead = [r for r in st.store if r[0] == 'L' and r[1] == fid and r[2] not in live and r[2] not in body.addr and r[2] != 0]
        for r in dead:
            del st.store[r]
        if st.dorig:
            st.dorig = {}
        key = self.key(st, fr, bb)
        itk = tuple(iters[h] for h in il)
        pc = self.partcount.setdefault((fid, bb, itk), set())
        if key not in pc and len(pc) >= MAXPART:
            key = 'any'
        pc.add(key)
        nk = (fid, bb, itk, key)
        n = self.nodes.get(nk)
        if n is None:
            if len(self.nlist) >= self.maxnodes:
                raise Unsupported('node budget')
            n = Node()
            n.id = len(self.nlist)
            n.frame = fr
            n.bb = bb
            n.iters = iters
            n.key = key
            n.ins = {}
            n.st = None
            n.sticky = set()
            n.out = {}
            n.events = []
            n.exits = []
            n.panics = []
            n.outv = {}
            n.n = 0
            n.prio = self.prio(fr, bb, iters)
            self.nodes[nk] = n
            self.nlist.append(n)
        ek = (src.id if src else -1, label)
        old = n.ins.get(ek)
        if src is not None:
            src.out[label] = n
        if old is not None and old.same(st):
            return n
        n.ins[ek] = st
        j = self.join(n)
        if n.st is None or not j.same(n.st):
            n.st = j
            heapq.heappush(self.heap, (n.prio, n.id))
        return n

    def join(self, n):
        ins = list(n.ins.values())
        if len(ins) == 1 and not n.sticky:
            return ins[0].copy()
        s = State()
        f = set(ins[0].facts)
        for x in ins[1:]:
            f &= x.facts
        s.facts = f
        s.dec = frozenset.intersection(*[x.dec for x in ins])
        s.nou = frozenset.union(*[x.nou for x in ins])
        roots = set()
        for x in ins:
            roots.update(x.store)
        for r in roots:
            vs = []
            miss = False
            for x in ins:
                v = x.store.get(r)
                if v is None:
                    if r[0] == 'D':
                        v = mk('mem', r[1])
                    else:
                        miss = True
                        break
                vs.append(v)
            if miss:
                continue
            s.store[r] = self.joinv(n, vs, (r,))
        return s

    def joinv(self, n, vs, cell):
        v0 = vs[0]
        if cell not in n.sticky:
            if all(v is v0 or v == v0 for v in vs):
                # must also hold for sticky children
                if v0.__class__ is T and v0.op == 'agg' and any(c[:len(cell)] == cell for c in n.sticky):
                    pass
                else:
                    return v0
            # structural join of aggregates with the same shape
            if all(v.__class__ is T and (v.op == 'agg') for v in vs) and len(set((v.a[0], v.a[1]) for v in vs)) == 1:
                keys = []
                for v in vs:
                    for k, _ in v.a[2]:
                        if k not in keys:
                            keys.append(k)
                bases = [v.a[3] for v in vs]
                if all(b is bases[0] for b in bases) and len(keys) <= 64:
                    its = {}
                    for k in keys:
                        its[k] = self.joinv(n, [proj(v, k) for v in vs], cell + (k,))
                    return agg(v0.a[0], v0.a[1], its, bases[0])
            # aggregate over an opaque base versus that base itself
            shapes = [v for v in vs if v.__class__ is T and v.op == 'agg' and v.a[1] is None]
            if shapes:
                base = shapes[0].a[3]
                if base is not None and all((v is base) or (v.__class__ is T and v.op == 'agg' and v.a[1] is None and v.a[3] is base) for v in vs):
                    keys = []
                    for v in shapes:
                        for k, _ in v.a[2]:
                            if k not in keys:
                                keys.append(k)
                    if not any(k.__class__ is tuple and k[0] == 'idx' for k in keys):
                        its = {k: self.joinv(n, [proj(v, k) for v in vs], cell + (k,)) for k in keys}
                        return agg(shapes[0].a[0], None, its, base)
            # same-length slices / pointers of the same object
            if all(v.__class__ is T and v.op == 'slice' for v in vs) and len(set((v.a[0], v.a[1]) for v in vs)) == 1:
                return mk('slice', v0.a[0], v0.a[1], self.joinv(n, [v.a[2] for v in vs], cell + ('#off',)),
                          self.joinv(n, [v.a[3] for v in vs], cell + ('#slen',)))
            # pointers to elements of the same object
            if all(v.__class__ is T and v.op == 'ref' and len(v.a[1]) == len(v0.a[1]) and v.a[0] == v0.a[0] and v.a[2:] == v0.a[2:] for v in vs) \
                    and v0.a[1]:
                path = []
                for i, k in enumerate(v0.a[1]):
                    ks = [v.a[1][i] for v in vs]
                    if all(x == k for x in ks):
                        path.append(k)
                    elif all(x.__class__ is tuple and x[0] == 'idx' and len(x) == 2 for x in ks):
                        path.append(('idx', self.joinv(n, [x[1] for x in ks], cell + (('#ix', i),))))
                    else:
                        path = None
                        break
                if path is not None:
                    return mk('ref', v0.a[0], tuple(path), *v0.a[2:])
            n.sticky.add(cell)
        t = mk('phi', n.id, cell)
        bits = None
        for v in vs:
            if v is t:
                continue
            lo, hi = interval(v) if (v.__class__ is int or v.op in ('lin', 'phi', 'min', 'max', 'div', 'fld', 'fresh', 'trunc', 'sym', 'mem', 'mul', 'divv', 'modv', 'strunc', 'byte', 'fcast', 'plen', 'band', 'bor')) else (None, None)
            if v.__class__ is T and v.op == 'lin':
                # assume checked arithmetic keeps unsigned values unsigned
                if any(k in NN or k is t for k, _ in v.a[1]):
                    lo = 0 if lo is None else lo
            if lo is None or lo < 0:
                if v.__class__ is T and v.op == 'lin':
                    continue
                bits = False
                break
        if bits is None and t not in NN and self.numeric(vs):
            NN[t] = 64
        return t

    def numeric(self, vs):
        return any(v.__class__ is int or v.op in ('lin', 'div', 'min') or v in NN for v in vs)

    # ------------------------------------------------------------ run
    attach = False      # follow closures run under the interpreter lock

    def start(self, body, args=None, setup=None):
        body.prep()
        self.entry = body
        f = self.frame(None, None, body, None, {}, None, None)
        st = State()
        for i in range(1, body.argc + 1):
            nm = body.locals[i][1] or f'arg{i}'
            v = None
            if args is not None and i - 1 < len(args):
                v = args[i - 1]
            if v is None:
                v = self.param(nm, body.lty(i))
            st.store[('L', f.id, i)] = v
        if setup:
            setup(self, st, f)
        self.edge(None, 'start', st, f, 0, {})
        return self

    def param(self, nm, ty):
        v = mk('sym', nm)
        self.note_type(v, ty)
        if ty['k'] == 'ref':
            e = self.ty(ty['e'])
            if e['k'] == 'slice':
                ln = mk('plen', v)
                NN.setdefault(ln, 63)
                return mk('slice', ('D', v), (), 0, ln)
        return v

    def run(self):
        while self.heap:
            _, i = heapq.heappop(self.heap)
            n = self.nlist[i]
            while self.heap and self.heap[0][1] == i:
                heapq.heappop(self.heap)
            n.n += 1
            if n.n > 60:
                raise Unsupported('no convergence at node %d' % i)
            self.process(n)
        return self

    def process(self, n):
        self.steps += 1
        st = n.st.copy()
        n.events = []
        n.exits = []
        n.panics = []
        self.cur = n
        self.seq = 0
        oldout = n.out
        n.out = {}
        self.walk(n, st, n.frame, n.bb, dict(n.iters))
        for lab, dst in oldout.items():
            if lab not in n.out:
                dst.ins.pop((n.id, lab), None)
                if dst.ins:
                    j = self.join(dst)
                    if not j.same(dst.st):
                        dst.st = j
                        heapq.heappush(self.heap, (dst.prio, dst.id))

    def walk(self, n, st, fr, bb, iters):
        guard = 0
        while True:
            guard += 1
            body = fr.body
            blk = body.blocks[bb]
            for s in blk['s']:
                if s[0] == '=':
                    self.line = s[3]
                    self.assign(st, fr, s, n)
                elif s[0] == 'dead':
                    st.store.pop(('L', fr.id, s[1]), None)
                elif s[0] == 'sd':
                    root, path = self.place(st, fr, s[1])
                    self.write(st, root, path, mk('setdisc', n.id, s[2]))
            t = blk['t']
            k = t[0]
            nxt = None
            if k == 'goto':
                nxt = t[1]
            elif k == 'drop':
                nxt = t[3]
                self.models.on_drop(self, st, fr, t, blk)
            elif k == 'assert':
                if not self.do_assert(n, st, fr, t, blk):
                    return
                nxt = t[4]
            elif k == 'switch':
                r = self.do_switch(n, st, fr, bb, t, blk, iters)
                if r is None:
                    return
                nxt = r
            elif k == 'call':
                r = self.do_call(n, st, fr, bb, t, blk, iters)
                if r is None:
                    return
                nxt = r
            elif k == 'ret':
                self.do_ret(n, st, fr, bb, iters)
                return
            else:
                return
            if nxt in body.dead:
                return
            # continue inside the same node when possible
            if len(body.preds[nxt]) == 1 and nxt not in body.loops:
                il = body.inloops[nxt]
                if len(il) != len(iters):
                    iters = {h: iters.get(h, 0) for h in il}
                bb = nxt
                continue
            self.flow(n, ('b', bb, nxt), st, fr, bb, nxt, iters)
            return

    def flow(self, n, label, st, fr, bb, nxt, iters):
        """edge inside one frame, handling loop iteration labels"""
        body = fr.body
        if nxt in body.loops and bb in body.loops[nxt]:
            # back edge
            lid = (fr.id, nxt)
            it = iters.get(nxt, 0)
            if it == '*' or not self.unroll or lid not in st.dec or lid in st.nou or it + 1 >= MAXITER:
                it = '*'
            else:
                it = it + 1
            iters = dict(iters)
            iters[nxt] = it
        elif nxt in body.loops and nxt not in iters:
            iters = dict(iters)
            iters[nxt] = 0
        if nxt in body.loops:
            lid = (fr.id, nxt)
            st.dec = st.dec - {lid}
            st.nou = st.nou - {lid}
        self.edge(n, label, st, fr, nxt, iters)

    def do_assert(self, n, st, fr, t, blk):
        c = self.operand(st, fr, t[1], n)
        exp = t[2]
        kind = t[3][0]
        if not isint(c):
            c = self.as_bool(c)
        cond = c if exp else tnot(c)
        if isint(cond):
            if not cond:
                self.panic(n, st, fr, blk, kind, cond, t[3])
                return False
            return True
        if self.known(st, cond) is True:
            return True
        info = None
        if kind == 'bounds':
            info = (self.operand(st, fr, t[3][1], n), self.operand(st, fr, t[3][2], n))
        elif kind == 'overflow':
            info = (t[3][1], self.operand(st, fr, t[3][2], n), self.operand(st, fr, t[3][3], n))
        self.panic(n, st, fr, blk, kind, cond, info)
        self.assume(st, cond)
        return True

    def panic(self, n, st, fr, blk, kind, cond, info):
        p = Panic()
        p.kind = kind
        p.node = n
        p.cond = cond
        p.info = info
        p.file = blk['f']
        p.line = blk['l']
        p.fn = fr.body.short()
        p.frame = fr
        p.facts = frozenset(st.facts)
        n.panics.append(p)

    def known(self, st, c):
        if isint(c):
            return bool(c)
        if c in st.facts:
            return True
        if tnot(c) in st.facts:
            return False
        if c.op == 'and':
            a, b = self.known(st, c.a[0]), self.known(st, c.a[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
        if c.op == 'not' and c.a[0].__class__ is T and c.a[0].op == 'and':
            k = self.known(st, c.a[0])
            if k is not None:
                return not k
        return None

    def assume(self, st, c):
        if isint(c):
            return
        st.facts.add(c)
        if c.op == 'and':
            for x in c.a:
                self.assume(st, x)
        elif c.op == 'not' and c.a[0].__class__ is T and c.a[0].op == 'bool' and c.a[0].a[0] == 'ovf':
            _, _, v, bits, signed = c.a[0].a
            if not signed:
                lo = lt0(v)
                f = tnot(lo)
                if not isint(f):
                    st.facts.add(f)
        elif c.op == 'not' and c.a[0].__class__ is T and c.a[0].op == 'and':
            x, y = c.a[0].a
            if self.known(st, x) is True:
                self.assume(st, tnot(y))
            elif self.known(st, y) is True:
                self.assume(st, tnot(x))

    def do_switch(self, n, st, fr, bb, t, blk, iters):
        v = self.operand(st, fr, t[1], n)
        body = fr.body
        targets = [(int(a), b) for a, b in t[3] if b not in body.dead]
        other = t[4] if t[4] not in body.dead else None
        ty = self.ty(t[2])
        if not isint(v) and ty['k'] == 'bool':
            kn = self.known(st, self.as_bool(v))
            if kn is not None:
                v = 1 if kn else 0
        if not isint(v) and v.op not in BOOLOPS:
            for a, b in targets:
                if eq0(sub(v, a)) in st.facts:
                    v = a
                    break
        if isint(v):
            dst = None
            for a, b in [(int(a), b) for a, b in t[3]]:
                if a == v:
                    dst = b
                    break
            else:
                dst = t[4]
            if dst in body.dead:
                return None
            for h in body.inloops[bb] if self.bounding(body, bb, t) else ():
                alltg = [b for _, b in targets] + ([other] if other is not None else [])
                if any(x not in body.loops[h] for x in alltg):
                    st.dec = st.dec | {(fr.id, h)}
            return dst
        outs = []
        used = []
        for a, b in targets:
            if ty['k'] == 'bool':
                c = tnot(self.as_bool(v)) if a == 0 else self.as_bool(v)
            else:
                c = eq0(sub(v, a))
            used.append(c)
            if isint(c):
                if c == 0:
                    continue
            elif self.known(st, c) is False:
                continue
            outs.append((a, b, [c]))
        if other is not None:
            cs = [tnot(c) for c in used]
            if not any((isint(c) and c == 0) or (not isint(c) and self.known(st, c) is False) for c in cs):
                outs.append((None, other, cs))
        if len(outs) > 1 and body.inloops[bb] and self.bounding(body, bb, t):
            # an open decision about leaving the loop that comes first in an iteration: its trip count is not fixed
            for h in body.inloops[bb]:
                if (fr.id, h) not in st.dec and any(b not in body.loops[h] for _, b, _ in outs):
                    st.nou = st.nou | {(fr.id, h)}
        org = st.dorig.get(v) if v.op == 'disc' else None
        for a, b, cs in outs:
            s2 = st.copy()
            ok = True
            for c in cs:
                if isint(c):
                    continue
                self.assume(s2, c)
            if org:
                self.refine(s2, org, v, a, [x for x, _, _ in outs if x is not None])
            self.flow(n, ('s', bb, b, a), s2, fr, bb, b, iters)
        return None

    def bounding(self, body, bb, t):
        """may a constant decision of this switch bound a loop? (not the `?` on a Result)"""
        p = t[1].get('c') or t[1].get('m')
        if p and len(p) == 1:
            for s in reversed(body.blocks[bb]['s']):
                if s[0] == '=' and s[1] == p:
                    if s[2][0] == 'discr':
                        ty = self.ty(s[2][2])
                        return ty['k'] == 'adt' and ty['n'] == 'std::option::Option'
                    return True
        return True

    def refine(self, st, org, d, a, vals):
        root, path, tyi = org
        e = self.enum_def(self.ty(tyi))
        if not e or root[0] == 'S':
            return
        vn = None
        if a is None:
            left = [v for v in e['v'] if v['d'] not in vals]
            if len(left) == 1:
                vn = left[0]['n']
                self.assume(st, eq0(sub(d, left[0]['d'])))
        else:
            for v in e['v']:
                if v['d'] == a:
                    vn = v['n']
        if vn is None:
            return
        if path and path[-1].__class__ is tuple and path[-1][0] == 'as':
            path = path[:-1]
        if root[0] == 'K':
            return
        cur = self.read(st, root, path)
        if cur.__class__ is T and not (cur.op == 'agg' and cur.a[1] is not None):
            if disc_of(cur, None) is d:
                if any(k.__class__ is tuple and k[0] == 'idx' for k in path):
                    return
                self.write(st, root, path, mk('agg', self.ty(tyi)['n'], vn, (), cur))

    def do_ret(self, n, st, fr, bb, iters):
        ret = st.store.get(('L', fr.id, 0), UNDEF)
        if fr.caller is None:
            x = Exit()
            x.node = n
            x.ret = ret
            x.st = st
            x.label = bb
            n.exits.append(x)
            return
        fid = fr.id
        for r in [r for r in st.store if r[0] == 'L' and r[1] == fid]:
            del st.store[r]
        cf = fr.cframe
        if fr.onret is not None:
            ret = fr.onret(self, st, ret)
        if fr.dest is not None:
            root, path = self.place(st, cf, fr.dest)
            if root[0] != 'S':
                self.write(st, root, path, ret)
        if fr.target is None or fr.target in cf.body.dead:
            return
        self.flow(n, ('r', fid, bb), st, cf, fr.cbb, fr.target, dict(fr.citers))

    # ------------------------------------------------------------ calls
    def fresh(self, tag, ty=None, seq=None):
        t = mk('fresh', self.cur.id, self.seq if seq is None else seq, tag)
        if ty is not None:
            self.note_type(t, ty)
        return t

    def event(self, st_, fr, blk, name, args, callee=None, **info):
        e = Event()
        e.name = name
        e.args = args
        e.node = self.cur
        e.seq = self.seq
        self.seq += 1
        e.info = info
        e.file = blk['f']
        e.line = blk['l']
        e.fn = fr.body.short()
        e.facts = frozenset(st_.facts)
        e.callee = callee
        e.frame = fr
        e.res = None
        e.st = None
        self.cur.events.append(e)
        if self.hook is not None:
            self.hook(e, st_)
        return e

    def do_call(self, n, st, fr, bb, t, blk, iters):
        callee, ops, dest, target, dty, atys = t[1], t[2], t[3], t[4], t[5], t[6]
        args = [self.operand(st, fr, o, n) for o in ops]
        if callee.get('ctor'):
            names = [str(i) for i in range(len(args))]
            ad = self.prog.adts.get(callee['cadt'])
            if ad and ad['k'] == 'enum':
                vn = callee['cvn']
                v = agg(callee['cadt'], vn, {(vn, nm): a for nm, a in zip(names, args)})
            else:
                v = agg(callee['cadt'], None, dict(zip(names, args)))
            return self.finish_call(st, fr, dest, target, v)
        # closures through the Fn traits, by value
        bkey = callee.get('b')
        body = self.prog.bodies.get(bkey) if bkey else None
        tr = callee.get('tr', '')
        if body is None and tr in ('std::convert::Into', 'std::convert::TryInto') and len(ops) == 1:
            body = self.from_impl(tr, self.ty(atys[0]), self.ty(dty))
        isfn = tr in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn')
        if 'dyn' in callee:
            fv = self.operand(st, fr, callee['dyn'], n)
            r = self.call_value(n, st, fr, bb, fv, args, dest, target, iters, blk)
            if r != 'no':
                return r
        if self.attach and callee.get('m') in ('attach', 'with_gil') and callee['p'].startswith('pyo3::'):
            r = self.call_value(n, st, fr, bb, args[0], [mk('sym', '#py')], dest, target, iters, blk)
            if r != 'no':
                return r
        if isfn:
            tup = args[1] if len(args) > 1 else None
            cargs = []
            if tup is not None and tup.__class__ is T and tup.op == 'agg':
                d = dict(tup.a[2])
                i = 0
                while str(i) in d:
                    cargs.append(d[str(i)])
                    i += 1
            r = self.call_value(n, st, fr, bb, args[0], cargs, dest, target, iters, blk)
            if r != 'no':
                return r
        if body is not None and not isfn:
            m = self.models.override(self, callee, body)
            if m is None and body.path not in fr.chain and not self.opaque(body, callee) and len(fr.chain) < 40:
                if callee.get('rk') == 'closure_once' or body.closure:
                    r = self.call_value(n, st, fr, bb, args[0], args[1:], dest, target, iters, blk)
                    if r != 'no':
                        return r
                return self.inline(n, st, fr, bb, body, args, dest, target, iters)
        nev = len(n.events)
        outs = self.models.call(self, st, fr, bb, blk, callee, args, atys, dty, ops, body)
        return self.finish_outs(n, st, fr, bb, dest, target, iters, outs, nev)

    def from_impl(self, tr, ft, tt):
        """workspace From/TryFrom implementation behind a blanket Into/TryInto call"""
        m = 'from' if tr.endswith('::Into') else 'try_from'
        k = ('fromimpl', m)
        tab = self.adtcache.get(k)
        if tab is None:
            tab = {}
            for b in self.prog.bodies.values():
                if b.path.endswith('>::' + m) and ('::From<' in b.path or '::TryFrom<' in b.path) and b.argc == 1:
                    tab[(b.lty(1)['s'], b.lty(0)['s'])] = b
            self.adtcache[k] = tab
        return tab.get((ft['s'], tt['s']))

    def finish_outs(self, n, st, fr, bb, dest, target, iters, outs, nev=1 << 30):
        if outs is None:
            return None      # diverges
        if not isinstance(outs, list):
            return self.finish_call(st, fr, dest, target, outs)
        if target is None:
            return None
        feas = []
        for i, o in enumerate(outs):
            val, facts, eff = o
            s2 = st.copy()
            bad = False
            for c in facts:
                if isint(c):
                    if not c:
                        bad = True
                elif self.known(s2, c) is False:
                    bad = True
                else:
                    self.assume(s2, c)
            if bad:
                continue
            feas.append((i, val, s2, eff))
        for i, val, s2, eff in feas:
            if eff:
                eff(s2)
            if self.hook_out is not None:
                self.hook_out(s2, val, n.events[nev:])
            root, path = self.place(s2, fr, dest)
            if root[0] != 'S':
                self.write(s2, root, path, val)
            n.outv[('c', bb, i)] = val
            self.flow(n, ('c', bb, i), s2, fr, bb, target, iters)
        return None

    def finish_call(self, st, fr, dest, target, v):
        root, path = self.place(st, fr, dest)
        if root[0] != 'S':
            self.write(st, root, path, v)
        return target

    def inline(self, n, st, fr, bb, body, args, dest, target, iters, onret=None):
        body.prep()
        f = self.frame(n, bb, body, fr, dict(iters), dest, target)
        f.onret = onret
        if len(args) != body.argc:
            if len(args) == 2 and args[1].__class__ is T and args[1].op == 'agg' and args[1].a[0] == 'tuple' and body.closure:
                d = dict(args[1].a[2])
                args = [args[0]] + [d[str(i)] for i in range(len(d))]
        for i, a in enumerate(args):
            st.store[('L', f.id, i + 1)] = a
        self.edge(n, ('call', bb), st, f, 0, {})
        return None

    def closure_of(self, st, fv):
        """follow references to a closure aggregate -> (agg, ref or None)"""
        ref = None
        for _ in range(6):
            if fv.__class__ is not T:
                return None, None
            if fv.op == 'ref':
                ref = fv
                fv = self.read(st, fv.a[0], fv.a[1])
                continue
            if fv.op == 'agg':
                for k, x in fv.a[2]:
                    if k == '#body':
                        return fv, ref
                return None, None
            if fv.op == 'fnv':
                return fv, ref
            return None, None
        return None, None

    def call_value(self, n, st, fr, bb, fv, cargs, dest, target, iters, blk):
        c, ref = self.closure_of(st, fv)
        if c is None:
            return 'no'
        if c.op == 'fnv':
            cal = c.a[0].c
            if cal.get('ctor'):
                ad = self.prog.adts.get(cal['cadt'])
                if ad and ad['k'] == 'enum':
                    v = agg(cal['cadt'], cal['cvn'], {(cal['cvn'], str(i)): a for i, a in enumerate(cargs)})
                else:
                    v = agg(cal['cadt'], None, {str(i): a for i, a in enumerate(cargs)})
                return self.finish_call(st, fr, dest, target, v)
            b = self.prog.bodies.get(cal.get('b'))
            if b is not None and b.path not in fr.chain and not self.opaque(b, cal) and self.models.override(self, cal, b) is None:
                return self.inline(n, st, fr, bb, b, cargs, dest, target, iters)
            dty = None
            body = fr.body
            t = body.blocks[bb]['t']
            outs = self.models.call(self, st, fr, bb, blk, cal, cargs, None, t[5], [None] * len(cargs), b)
            return self.finish_outs(n, st, fr, bb, dest, target, iters, outs)
        bk = dict(c.a[2])['#body'].a[0]
        b = self.prog.bodies.get(bk)
        if b is None or b.path in fr.chain:
            return 'no'
        b.prep()
        if b.lty(1)['k'] == 'ref':
            if ref is None:
                root = ('C', n.id, bb)
                st.store[root] = c
                ref = mk('ref', root, ())
            a0 = ref
        else:
            a0 = c
        return self.inline(n, st, fr, bb, b, [a0] + list(cargs), dest, target, iters)

    # ------------------------------------------------------------ pure sub-evaluation of closures
    def inline_eval(self, st, fv, cargs, fr, blk, depth=0):
        """evaluates a small loop-free closure; returns [(facts, value)] or None"""
        c, ref = self.closure_of(st, fv)
        if c is None:
            return None
        if c.op == 'fnv':
            b = self.prog.bodies.get(c.a[0].c.get('b'))
            args = list(cargs)
            if b is None:
                return None
        else:
            b = self.prog.bodies.get(dict(c.a[2])['#body'].a[0])
            if b is None:
                return None
            if b.lty(1)['k'] == 'ref':
                if ref is None:
                    root = ('C', self.cur.id, 'ie', self.seq)
                    st.store[root] = c
                    ref = mk('ref', root, ())
                args = [ref] + list(cargs)
            else:
                args = [c] + list(cargs)
        return self.eval_body(st, b, args, fr, blk, depth)

    def eval_body(self, st, b, args, fr, blk, depth):
        b.prep()
        if depth > 5 or b.loops or b.path in fr.chain:
            return None
        f = Frame()
        self.evn = getattr(self, 'evn', 0) + 1
        f.id = ('ev', self.cur.id, self.seq, depth, b.key)
        f.body = b
        f.caller = self.cur
        f.cframe = fr
        f.chain = fr.chain + (b.path,)
        s0 = st.copy()
        if len(args) != b.argc and len(args) == 2 and args[1].__class__ is T and args[1].op == 'agg':
            d = dict(args[1].a[2])
            args = [args[0]] + [d[str(i)] for i in range(len(d)) if str(i) in d]
        for i, a in enumerate(args):
            s0.store[('L', f.id, i + 1)] = a
        out = []
        work = [(s0, 0)]
        base = st.facts
        while work:
            s, bb = work.pop()
            if len(out) + len(work) > 24:
                return None
            blk2 = b.blocks[bb]
            for x in blk2['s']:
                if x[0] == '=':
                    self.assign(s, f, x, self.cur)
            t = blk2['t']
            k = t[0]
            if k == 'goto':
                work.append((s, t[1]))
            elif k == 'drop':
                work.append((s, t[3]))
            elif k == 'assert':
                c = self.operand(s, f, t[1], self.cur)
                if not isint(c):
                    c = self.as_bool(c)
                    self.assume(s, c if t[2] else tnot(c))
                work.append((s, t[4]))
            elif k == 'ret':
                out.append((s.facts - base, s.store.get(('L', f.id, 0), UNDEF), s))
            elif k == 'switch':
                v = self.operand(s, f, t[1], self.cur)
                ty = self.ty(t[2])
                if not isint(v) and ty['k'] == 'bool':
                    kn = self.known(s, self.as_bool(v))
                    if kn is not None:
                        v = int(kn)
                if isint(v):
                    dst = t[4]
                    for a, bx in t[3]:
                        if int(a) == v:
                            dst = bx
                    if dst not in b.dead:
                        work.append((s, dst))
                    continue
                neg_ = []
                org = s.dorig.get(v) if v.op == 'disc' else None
                tg = [(int(a), bx) for a, bx in t[3]]
                for a, bx in tg:
                    c = (tnot(self.as_bool(v)) if a == 0 else self.as_bool(v)) if ty['k'] == 'bool' else eq0(sub(v, a))
                    neg_.append(tnot(c))
                    if bx in b.dead or (isint(c) and not c) or (not isint(c) and self.known(s, c) is False):
                        continue
                    s2 = s.copy()
                    self.assume(s2, c)
                    if org:
                        self.refine(s2, org, v, a, [x for x, _ in tg])
                    work.append((s2, bx))
                if t[4] not in b.dead:
                    s2 = s.copy()
                    if not any(isint(c) and not c for c in neg_):
                        for c in neg_:
                            self.assume(s2, c)
                        if org:
                            self.refine(s2, org, v, None, [x for x, _ in tg])
                        work.append((s2, t[4]))
            elif k == 'call':
                callee = t[1]
                a = [self.operand(s, f, o, self.cur) for o in t[2]]
                if callee.get('ctor'):
                    ad = self.prog.adts.get(callee['cadt'])
                    if ad and ad['k'] == 'enum':
                        v = agg(callee['cadt'], callee['cvn'], {(callee['cvn'], str(i)): x for i, x in enumerate(a)})
                    else:
                        v = agg(callee['cadt'], None, {str(i): x for i, x in enumerate(a)})
                    root, path = self.place(s, f, t[3])
                    self.write(s, root, path, v)
                    work.append((s, t[4]))
                    continue
                cb = self.prog.bodies.get(callee.get('b')) if callee.get('b') else None
                sub_ = None
                if cb is not None and self.models.override(self, callee, cb) is None and not self.opaque(cb, callee):
                    if callee.get('tr', '').startswith('std::ops::Fn'):
                        tup = a[1]
                        d = dict(tup.a[2]) if tup.__class__ is T and tup.op == 'agg' else {}
                        sub_ = self.inline_eval(s, a[0], [d[str(i)] for i in range(len(d))], f, blk2, depth + 1)
                    else:
                        sub_ = self.eval_body(s, cb, a, f, blk2, depth + 1)
                    if sub_ is None:
                        return None
                    for facts, v, s3 in sub_:
                        root, path = self.place(s3, f, t[3])
                        self.write(s3, root, path, v)
                        if t[4] is not None and t[4] not in b.dead:
                            work.append((s3, t[4]))
                    continue
                outs = self.models.call(self, s, f, bb, blk2, callee, a, t[6], t[5], t[2], cb)
                if outs is None:
                    continue
                if not isinstance(outs, list):
                    outs = [(outs, [], None)]
                for v, facts, eff in outs:
                    s2 = s.copy()
                    bad = False
                    for c in facts:
                        if isint(c):
                            bad = bad or not c
                        elif self.known(s2, c) is False:
                            bad = True
                        else:
                            self.assume(s2, c)
                    if bad:
                        continue
                    if eff:
                        eff(s2)
                    root, path = self.place(s2, f, t[3])
                    self.write(s2, root, path, v)
                    if t[4] is not None and t[4] not in b.dead:
                        work.append((s2, t[4]))
            else:
                pass
        return out

    # ------------------------------------------------------------ results
    def all_events(self):
        for n in self.nlist:
            for e in n.events:
                yield e

    def all_exits(self):
        for n in self.nlist:
            for x in n.exits:
                yield x

    def all_panics(self):
        for n in self.nlist:
            for p in n.panics:
                yield p


class FnBox:
    """hashable wrapper of a callee record"""
    _t = {}

    def __new__(cls, c):
        k = repr(sorted((a, str(b)) for a, b in c.items()))
        o = cls._t.get(k)
        if o is None:
            o = object.__new__(cls)
            o.c = c
            cls._t[k] = o
        return o

    def __repr__(self):
        return 'fn ' + str(self.c.get('p'))
