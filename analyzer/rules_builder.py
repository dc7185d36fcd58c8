"""Rules about building a partition and finishing an image: C14, C15, C16 and the builder side of C17."""
import re
from terms import *
from engine import Engine, UNDEF, Unsupported
from models import StdModels, ZERO
from prover import Prover
from common import *
from report import TCTX as CTX

GD, GS = 0x1F0000, 0x200000
CW = 'WiiEncryptedReadWriteStream'


def adt(t):
    return t['n'].split('::')[-1] if t and t['k'] == 'adt' else None


def where_body(b):
    return f'{b.file}:{b.line} in {b.short()}'


def rd4(x):
    """value that survives storing a byte offset or size divided by 4"""
    return mulc(div(x, 4), 4)


def fld(v, *names):
    for n in names:
        v = proj(v, n)
    return v


def sh(v, name):
    """payload of a shifted field"""
    return rd4(fld(v, name, '0'))


class BuilderRun:
    """add_partition from an arbitrary builder state. Ghost variables:
    files (the file data has been written), fst/dh (table / header written after that), flushed (nothing pending in the
    encrypted stream), end (position behind the last file), and for the buffer that is written as TMD: hash, size, zeroed,
    fresh (hashed since its last change) and digest."""

    def __init__(self, body, tmdroot=None):
        self.body = body
        self.tmdroot = tmdroot
        e = self.e = Engine(body.prog.crate, StdModels(STREAMS), opaque=fst_opaque())
        e.hook = self.hook
        e.hook_out = self.hook_out
        e.on_store = self.on_store if tmdroot else None
        e.ghostkeys = ('files', 'fst', 'dh', 'flushed', 'exh', 'pushed', 'ph', 'tmdw')
        self.closures = []
        self.croots = set()
        self.zruns = []
        cs = crypt_state(body.prog, CW)
        self.h3path = tuple(cs[0]) + (cs[1]['h3'],) if cs and '*' not in cs[0] and cs[1]['h3'] else None
        self.doff = tuple(cs[0]) + (cs[1]['data_offset'],) if cs and '*' not in cs[0] and cs[1]['data_offset'] else None
        self.keyp = tuple(cs[0]) + (cs[1]['key'],) if cs and '*' not in cs[0] and cs[1]['key'] else None
        e.start(body, setup=self.setup)
        e.run()
        CTX.clear()
        self.p = Prover(e)

    def setup(self, e, st, f):
        for k, v in dict(files=0, fst=0, dh=0, flushed=0, end=0, exh=0, pushed=0, ph=0, tmdw=0, hash=0, size=-1, zlo=-1, zhi=-1, fresh=0, digest=-1, zf=-1,
                         h3=-1, fstpos=-1, fstend=-1).items():
            st.store[('G', k)] = v
        sv = st.store[('L', f.id, 1)]
        self.selfat = e.deref(st, sv)
        self.f = f
        n, fs = struct_fields(self.body.prog, 'WiiDiscBuilder')
        u = [x[0] for x in fs if x[1] == 'u64']
        self.offname = 'current_data_offset' if 'current_data_offset' in u else (u[0] if len(u) == 1 else None)
        self.vecname = next((x[0] for x in fs if 'Vec<' in x[1]), None)
        self.off0 = self.selff(st, self.offname) if self.offname else None
        self.params = {i: st.store[('L', f.id, i)] for i in range(1, self.body.argc + 1)}
        self.len0 = e.read(st, self.selfat[0], self.selfat[1] + (self.vecname, '#len')) if self.vecname else None
        if self.off0 is not None:
            NN.setdefault(self.off0, 62)

    def selff(self, st, name):
        return self.e.read(st, self.selfat[0], self.selfat[1] + (name,))

    def stream(self, st, v):
        """(type name, root, path) of the stream a value points to"""
        return self.e.deref(st, v)

    def touch(self, st, lo, n, content, ev):
        """bytes [lo, lo+n) of the metadata buffer change"""
        G = st.store
        if isint(lo) and isint(n) and lo + n <= 0x140:
            pass
        else:
            G[('G', 'fresh')] = 0
        if isint(lo) and isint(n):
            if lo < 0x208 and lo + n > 0x1F4:
                G[('G', 'hash')] = 0
                if lo == 0x1F4 and n == 20 and content and len(content) == 1:
                    G[('G', 'hash')] = content[0][0]
            if lo < 0x1F4 and lo + n > 0x1EC:
                G[('G', 'size')] = -1
                if lo == 0x1EC and n == 8 and content and len(content) == 1:
                    c = content[0][0]
                    if c.__class__ is T and c.op == 'tob' and c.a[0] == 'be' and c.a[1] == 64:
                        G[('G', 'size')] = c.a[2]
        zero = content is not None and all(p[0] is ZERO for p in content)
        if isint(lo) and lo >= 0x104:
            return
        if zero:
            if G[('G', 'zhi')] != -1:
                self.zruns.append((self.e.cur, frozenset(st.facts), sub(lo, G[('G', 'zhi')])))
            else:
                G[('G', 'zlo')] = lo
            G[('G', 'zhi')] = add(lo, n)
        elif isint(lo) and isint(n) and lo < 0x104 and lo + n > 4:
            G[('G', 'zlo')] = mk('sym', 'overwritten')

    def on_store(self, st, root, path, val, node):
        if (root, path[:1]) == (self.tmdroot[0], self.tmdroot[1][-1:]) and len(path) == 2 and path[1].__class__ is tuple and path[1][0] == 'idx':
            self.touch(st, path[1][1], 1, ((ZERO, 0, 1),) if val == 0 else ((mk('byte', val), 0, 1),), None)

    def hook(self, ev, st):
        G = st.store
        t = adt(ev.info.get('st'))
        ev.info['g'] = {k[1]: v for k, v in G.items() if k[0] == 'G'}
        if t == CW and ev.args and ev.args[0].__class__ is T and ev.args[0].op == 'ref':
            self.croots.add((ev.args[0].a[0], ev.args[0].a[1]))
            if self.doff and self.keyp:
                ev.info['doff'] = self.e.read(st, ev.args[0].a[0], ev.args[0].a[1] + self.doff)
                ev.info['key'] = self.e.read(st, ev.args[0].a[0], ev.args[0].a[1] + self.keyp)
        if t == CW and ev.name == 'stream.flush' and self.h3path:
            r = ev.args[0]
            ev.info['h3v'] = self.e.read(st, r.a[0], r.a[1] + self.h3path)
        if ev.name.startswith('call:'):
            ev.info['callee'] = ev.name[5:]
            todo = list(ev.args)
            for a in ev.args:
                c, ref = self.e.closure_of(st, a)
                if c is not None and c.op == 'agg':
                    self.closures.append((ev, c))
                    todo += [x for k, x in c.a[2]]
            for x in todo:
                for _ in range(3):
                    if not (x.__class__ is T and x.op == 'ref'):
                        break
                    if (x.a[0], x.a[1]) in self.croots:
                        ev.info['crypt'] = (x.a[0], x.a[1])
                        ev.info['pos'] = self.e.read(st, x.a[0], x.a[1] + ('#pos',))
                        break
                    x = self.e.read(st, x.a[0], x.a[1])
        elif t == CW and (ev.name.startswith('stream.write') or ev.name == 'io.copy'):
            G[('G', 'flushed')] = 0
        if self.tmdroot:
            if ev.name in ('copy', 'fill') and (ev.args[0].a[0], ev.args[0].a[1]) == self.tmdroot:
                d = ev.args[0]
                self.touch(st, d.a[2], d.a[3], ev.info['content'], ev)
            elif ev.name == 'copy_within' and (ev.args[0].a[0], ev.args[0].a[1]) == self.tmdroot:
                self.touch(st, mk('sym', '?'), 1, None, ev)
            elif ev.name == 'sha1':
                h = ev.args[0]
                c = h.a[0] if h.op == 'h' else ()
                if len(c) == 1 and c[0][0].__class__ is T:
                    x = c[0][0]
                    cur = self.e.read(st, *self.tmdroot)
                    ln = self.e.read(st, self.tmdroot[0], self.tmdroot[1][:-1] + ('#len',))
                    if x is cur or (x.op == 'view' and x.a[0] is cur):
                        lo = add(x.a[1], c[0][1]) if x.op == 'view' else c[0][1]
                        ev.info['fs'] = (lo, c[0][2], ln)
                        G[('G', 'fresh')] = 1
                        d = ev.info['digest']
                        G[('G', 'digest')] = d
                        G[('G', 'zf')] = self.e.elem(st, d, 0) if d.__class__ is T else -1
                        G[('G', 'fslo')] = lo
                        G[('G', 'fsend')] = sub(add(lo, c[0][2]), ln)

    def hook_out(self, st, val, evs):
        k = val.a[1] if val.__class__ is T and val.op == 'agg' else None
        G = st.store
        for ev in evs:
            t = adt(ev.info.get('st'))
            if ev.name == 'iter.step':
                it = ev.args[1]
                if it.__class__ is T and it.op == 'agg' and 'Range' in str(it.a[0]) and k == 'None':
                    end = proj(it, 'end')
                    if isint(end) and end >= (1 << 32) - 1:
                        G[('G', 'exh')] = 1
            if k != 'Ok':
                continue
            if ev.name.startswith('call:'):
                c = ev.info['callee']
                if c.endswith('callback_all_files_mut'):
                    G[('G', 'files')] = 1
                    G[('G', 'fst')] = 0
                    if 'crypt' in ev.info:
                        r, p = ev.info['crypt']
                        x = self.e.read(st, r, p + ('#pos',))
                        NN.setdefault(x, 62)
                        G[('G', 'end')] = x
                        ev.info['pos_after'] = x
                elif 'FstToBytes' in c and c.endswith('::write_to'):
                    if 'crypt' in ev.info:
                        r, p = ev.info['crypt']
                        x = self.e.read(st, r, p + ('#pos',))
                        NN.setdefault(x, 62)
                        ev.info['pos_after'] = x
                        st.facts.add(tle(ev.info['pos'], x))
                        G[('G', 'fstpos')] = ev.info['pos']
                        if G[('G', 'fstend')] == -1:
                            G[('G', 'fstend')] = x
                    G[('G', 'flushed')] = 0
                    G[('G', 'fst')] = G[('G', 'files')]
            elif ev.name == 'stream.write_be' and adt(ev.info['ty']) == 'DiscHeader':
                G[('G', 'dh')] = 1
            elif ev.name == 'stream.write_be' and adt(ev.info['ty']) == 'WiiPartitionHeader':
                G[('G', 'ph')] = 1
            elif ev.name == 'stream.write_all' and self.tmdroot and ev.args[1].op == 'slice' and (ev.args[1].a[0], ev.args[1].a[1]) == self.tmdroot:
                G[('G', 'tmdw')] = 1
            elif ev.name == 'stream.flush' and t == CW:
                G[('G', 'flushed')] = 1


def source_call(run, ev):
    """method of the definition whose returned bytes an event writes"""
    s = ev.args[1] if len(ev.args) > 1 else None
    if not (s.__class__ is T and s.op == 'slice' and s.a[0][0] == 'D'):
        return None
    x = s.a[0][1]
    if x.__class__ is T and x.op == 'cowdata':
        x = x.a[0]
    while x.__class__ is T and x.op in ('fld', 'proj'):
        x = x.a[0]
    return x


def add_partition():
    from rules_layout import all_layouts
    prog = all_layouts()
    b = inherent(prog, 'WiiDiscBuilder', 'add_partition')
    if b is None:
        raise Unsupported('WiiDiscBuilder::add_partition not found')
    run = BuilderRun(b)
    # the buffer that carries the serialised TMD into the image
    roots = set()
    for ev in run.e.all_events():
        if ev.name == 'stream.write_be' and adt(ev.info['ty']) == 'TMD':
            d = ev.info['dst']
            if d.__class__ is T and d.op == 'agg' and d.a[0] == 'Cursor':
                i = proj(d, '#inner')
                if i.__class__ is T and i.op == 'ref':
                    roots.add((i.a[0], i.a[1]))
    if len(roots) == 1:
        r = roots.pop()
        run = BuilderRun(b, (r[0], r[1] + ('#buf',)))
    return run


def stored(run, name):
    return [ev for ev in run.e.all_events() if ev.name == 'stream.write_be' and adt(ev.info['ty']) == name]


def on(evs, t):
    return [ev for ev in evs if adt(ev.info.get('st')) == t]


def defcall(run):
    """result term -> method name, for the calls of the partition definition"""
    out = {}
    for ev in run.e.all_events():
        if ev.name.startswith('call:') and 'WiiPartitionDefinition' in ev.name:
            out[ev.seq] = ev.name.split('::')[-1]
    return out


def written_by(run, m):
    """write events on the encrypted stream that write the bytes method m of the definition returned"""
    out = []
    for ev in run.e.all_events():
        if ev.name not in ('stream.write_all', 'stream.write') or adt(ev.info.get('st')) != CW:
            continue
        x = source_call(run, ev)
        if x is not None and call_of(run, x) == m:
            out.append(ev)
    return out


def call_of(run, x):
    """method whose result term x is derived from"""
    names = {}
    for ev in run.e.all_events():
        if ev.name.startswith('call:') and 'WiiPartitionDefinition' in ev.name:
            names[(ev.node.id, ev.seq + 1)] = ev.name.split('::')[-1]
    hit = set()
    for t in list(atoms(x)) + [x]:
        s = t
        while s.__class__ is T:
            if s.op == 'fresh' and (s.a[0], s.a[1]) in names:
                hit.add(names[(s.a[0], s.a[1])])
            k = [y for y in s.a if y.__class__ is T]
            if not k:
                break
            s = k[0]
    return hit.pop() if len(hit) == 1 else None


def ok_exits(run):
    return [x for x in run.e.all_exits() if x.ret.__class__ is T and x.ret.op == 'agg' and x.ret.a[1] == 'Ok']


def flag(rep, rule, where, v, good, bad):
    """ghost flag: definite 1 is fine, definite 0 a violation"""
    if v == 1:
        rep.ok(rule, where, good)
    elif v == 0:
        rep.viol(rule, where, bad)
    else:
        rep.undecided(rule, where, good + ': ' + show(v, 3))


def c14_layout(rep):
    run = add_partition()
    rep.entry(run.e)
    P = run.p
    dhs = on(stored(run, 'DiscHeader'), CW)
    dols = written_by(run, 'get_dol')
    apps = written_by(run, 'get_apploader')
    calls = [ev for ev in run.e.all_events() if ev.name.startswith('call:')]
    fsts = [ev for ev in calls if 'FstToBytes' in ev.name and ev.name.endswith('write_to') and 'crypt' in ev.info]
    files = [ev for ev in calls if ev.name.endswith('callback_all_files_mut') and 'crypt' in ev.info]
    if not (dhs and dols and fsts and files):
        rep.undecided('C14.layout', where_body(run.body), f'{len(dhs)} header, {len(dols)} executable, {len(fsts)} table, {len(files)} file writes recognised')
        return
    rep.ok('C14.layout', where_body(run.body), 'writes of header, executable, table and files recognised')
    for ev in dhs:
        w, v, N, F = ev.where(), ev.info['val'], ev.node, ev.facts
        g = ev.info['g']
        for d in dols:
            rep.oblige(P, 'C14.dol-offset', 'eq', sub(sh(v, 'dol_off'), d.info['pos']), N, F, w, 'recorded offset of the executable is where it was written')
        for f in fsts:
            rep.oblige(P, 'C14.fst-offset', 'eq', sub(sh(v, 'fst_off'), f.info['pos']), N, F, w, f'recorded offset of the table is where it was written ({f.line})')
        for f in files:
            rep.oblige(P, 'C14.overlap', 'ge', sub(f.info['pos'], add(sh(v, 'fst_off'), sh(v, 'fst_sz'))), N, F, w, 'files start behind the recorded extent of the table')
        if g['fstend'] != -1:
            ln = sub(g['fstend'], fsts[0].info['pos'])
            for nm in ('fst_sz', 'fst_max_sz'):
                rep.oblige(P, 'C14.fst-size', 'ge', sub(sh(v, nm), ln), N, F, w, nm + ' covers the whole table')
                rep.oblige(P, 'C14.fst-size', 'ge', sub(add(ln, 0x100), sh(v, nm)), N, F, w, nm + ' is the size of the table and its padding')
        flag(rep, 'C14.final', w, g['fst'], 'the header is written after the final table', 'header written although the table has not been written after the files')
        rep.oblige(P, 'C14.header-place', 'eq', ev.info['pos'], N, F, w, 'the partition disc header lies at position 0')
    last = {}
    for x in ok_exits(run):
        w = where_body(run.body)
        g = {k[1]: v for k, v in x.st.store.items() if k[0] == 'G'}
        if g['exh'] == 1:
            continue
        for nm, t in (('files', 'file data'), ('fst', 'final table'), ('dh', 'partition disc header'), ('ph', 'partition header'), ('flushed', 'flushed encrypted data')):
            flag(rep, 'C14.complete', w, g[nm], f'success implies {t} written', f'success is reported without {t} (written after the data is final)')
    # order and overlap
    for d in dols:
        for a in apps:
            rep.oblige(P, 'C14.overlap', 'ge', sub(d.info['pos'], add(a.info['pos'], a.info['n'])), d.node, d.facts, d.where(), 'executable starts behind the apploader')
        rep.oblige(P, 'C14.align', 'eq', mod(d.info['pos'], 0x20), d.node, d.facts, d.where(), 'executable is aligned to 0x20')
        f = fsts[0]
        rep.oblige(P, 'C14.overlap', 'ge', sub(f.info['pos'], add(d.info['pos'], d.info['n'])), f.node, f.facts, f.where(), 'table starts behind the executable')
    rep.oblige(P, 'C14.align', 'eq', mod(fsts[0].info['pos'], 0x20), fsts[0].node, fsts[0].facts, fsts[0].where(), 'table is aligned to 0x20')
    for f in files:
        g = f.info['g']
        if g['fstend'] != -1:
            rep.oblige(P, 'C14.overlap', 'ge', sub(f.info['pos'], g['fstend']), f.node, f.facts, f.where(), 'files start behind the table')
        elif P.query('ge', sub(fsts[0].info['pos'], f.info['pos']), fsts[0].node, fsts[0].facts, 2):
            rep.viol('C14.overlap', f.where(), 'files are written before room was made for the table')
        else:
            rep.undecided('C14.overlap', f.where(), 'room left for the table not recognised')
        rep.oblige(P, 'C14.align', 'eq', mod(f.info['pos'], 0x40), f.node, f.facts, f.where(), 'first file is aligned to 0x40')
    # partition header records
    for ev in on(stored(run, 'WiiPartitionHeader'), 'IOWindow'):
        v, N, F, w, g = ev.info['val'], ev.node, ev.facts, ev.where(), ev.info['g']
        if g['exh'] == 1:
            continue
        sz = sh(v, 'data_size')
        rep.oblige(P, 'C14.data-size', 'ge', sub(sz, g['end']), N, F, w, 'recorded data size covers all written data')
        rep.oblige(P, 'C14.data-size', 'eq', mod(sz, GD), N, F, w, 'recorded data size is a whole number of groups')
        rep.oblige(P, 'C14.data-size', 'ge', sub(add(g['end'], GD - 1), sz), N, F, w, 'recorded data size has no surplus group')
    for ev, c in {c: (ev, c) for ev, c in run.closures if ev in files}.values():
        file_closure(rep, run, ev, c)


def c07_finish(rep):
    """adding a partition reports success only with nothing pending in the encrypting writer"""
    run = add_partition()
    rep.entry(run.e)
    w = where_body(run.body)
    ws = [ev for ev in run.e.all_events() if ev.name in ('stream.write_all', 'stream.write_be') and adt(ev.info['st']) == CW]
    if not ws:
        rep.undecided('C07.finish', w, 'no write to the encrypting writer recognised')
        return
    for x in ok_exits(run):
        g = {k[1]: v for k, v in x.st.store.items() if k[0] == 'G'}
        if g['exh'] == 1:
            continue
        flag(rep, 'C07.finish', w, g['flushed'], 'success implies that the last modified group was written back',
             'success is reported although the last modified group may not have been flushed')


def file_closure(rep, run, at, c):
    prog = run.body.prog
    key = next(x for k, x in c.a[2] if k == '#body')
    b = prog.bodies.get(key.a[0])
    if b is None:
        rep.undecided('C14.file', at.where(), 'callback not found')
        return
    e = Engine(prog.crate, StdModels(STREAMS), opaque=fst_opaque())
    e.ghostkeys = ('nd', 'odd')
    S = {}

    def setup(e, st, f):
        st.store[('G', 'nd')] = 0
        st.store[('G', 'd0')] = 0
        st.store[('G', 'dn')] = 0
        st.store[('G', 'odd')] = 0
        for i in range(2, b.argc + 1):
            t = b.lty(i)['s'].replace('&mut ', '&')
            r = e.deref(st, st.store[('L', f.id, i)])
            if t.endswith('&u64') or t == '&u64' or re.match(r"&('\w+ )?u64$", t):
                S['offset'] = r
            elif re.match(r"&('\w+ )?u32$", t):
                S['size'] = r
        t = b.lty(1)
        env = st.store[('L', f.id, 1)]
        while t['k'] in ('ref', 'ptr'):
            t = e.ty(t['e'])
            env = e.read_any(st, *e.deref(st, env))
        for i, u in enumerate(t.get('up') or []):
            u = e.ty(u)
            v = proj(env, str(i))
            while u['k'] in ('ref', 'ptr'):
                u = e.ty(u['e'])
                r = e.deref(st, v)
                if adt(u) == CW:
                    q = mk('sym', 'Q')
                    NN.setdefault(q, 50)
                    e.write(st, r[0], r[1] + ('#pos',), mulc(q, 0x40))
                    S['stream'] = r
                v = e.read_any(st, *r)

    def hook(ev, st):
        G = st.store
        ev.info['g'] = {k[1]: v for k, v in G.items() if k[0] == 'G'}
        if adt(ev.info.get('st')) == CW and ev.name.startswith('stream.write'):
            s = ev.args[1]
            if ev.name == 'stream.write_all' and s.__class__ is T and s.op == 'slice' and s.a[0][0] == 'D' and s.a[0][1].op == 'cowdata':
                ev.info['data'] = s
                if G[('G', 'nd')] == 0:
                    G[('G', 'd0')] = sub(ev.info['pos'], s.a[2])
                G[('G', 'nd')] = 1
                G[('G', 'dn')] = add(s.a[2], s.a[3])
                S['root'] = s.a[0][1]
            elif ev.name == 'stream.write_all' and ev.info.get('content') is not None and all(p[0] is ZERO for p in ev.info['content']):
                pass
            else:
                G[('G', 'odd')] = 1
    e.hook = hook
    e.start(b, setup=setup)
    e.run()
    rep.entry(e)
    CTX.clear()
    P = Prover(e)
    W = where_body(b)
    if 'offset' not in S or 'size' not in S or 'stream' not in S or 'root' not in S:
        rep.undecided('C14.file', W, 'roles of the callback not recognised: ' + ' '.join(sorted(S)))
        return
    cow = S['root'].a[0]
    ln = proj(cow, '#len')
    for ev in e.all_events():
        d = ev.info.get('data')
        if d is None or ev.info['g']['odd'] == 1:
            continue
        g = ev.info['g']
        if g['nd'] == 0:
            rep.oblige(P, 'C14.file-data', 'eq', d.a[2], ev.node, ev.facts, ev.where(), 'first piece of a file starts at its first byte')
        else:
            rep.oblige(P, 'C14.file-data', 'eq', sub(sub(ev.info['pos'], d.a[2]), g['d0']), ev.node, ev.facts, ev.where(), 'pieces of a file are contiguous in the image')
            rep.oblige(P, 'C14.file-data', 'eq', sub(d.a[2], g['dn']), ev.node, ev.facts, ev.where(), 'pieces of a file are contiguous in the source')
    for x in e.all_exits():
        if not (x.ret.__class__ is T and x.ret.op == 'agg' and x.ret.a[1] == 'Ok'):
            continue
        g = {k[1]: v for k, v in x.st.store.items() if k[0] == 'G'}
        if g['odd'] == 1:
            rep.undecided('C14.file', W, 'write of unknown content')
            continue
        N, F = x.node, frozenset(x.st.facts)
        off, sz = e.read(x.st, *S['offset']), e.read(x.st, *S['size'])
        pos = e.read(x.st, S['stream'][0], S['stream'][1] + ('#pos',))
        if g['nd'] == 1:
            rep.oblige(P, 'C14.file-offset', 'eq', sub(off, g['d0']), N, F, W, 'recorded file offset is where its first byte was written')
        rep.oblige(P, 'C14.file-data', 'eq', sub(ln, g['dn']), N, F, W, 'the whole file is written')
        rep.oblige(P, 'C14.file-size', 'eq', sub(sz, ln), N, F, W, 'recorded size is the number of bytes')
        rep.oblige(P, 'C14.file-align', 'eq', mod(off, 0x40), N, F, W, 'recorded offset is aligned to 0x40')
        rep.oblige(P, 'C14.file-align', 'eq', mod(pos, 0x40), N, F, W, 'next file starts aligned to 0x40')
        rep.oblige(P, 'C14.overlap', 'ge', sub(pos, add(off, ln)), N, F, W, 'next file starts behind this one')


# ------------------------------------------------------------------ C15
def c15_add(rep):
    run = add_partition()
    rep.entry(run.e)
    P = run.p
    W = where_body(run.body)
    pushes = [ev for ev in run.e.all_events() if ev.name == 'vec.push' and run.vecname and
              ev.args[0].__class__ is T and ev.args[0].op == 'ref' and (ev.args[0].a[0], ev.args[0].a[1]) == (run.selfat[0], run.selfat[1] + (run.vecname,))]
    if not pushes or run.off0 is None:
        rep.undecided('C15.listed', W, 'no addition to the partition list recognised')
        return
    tparam = next((i for i in range(1, run.body.argc + 1) if 'WiiPartType' in run.body.lty(i)['s']), None)
    entry = None
    phs = on(stored(run, 'WiiPartitionHeader'), 'IOWindow')
    for ev in pushes:
        v, N, F, w = ev.args[1], ev.node, ev.facts, ev.where()
        rep.oblige(P, 'C15.offset', 'eq', sub(fld(v, 'part_data_off', '0'), run.off0), N, F, w, 'listed offset is where the partition was placed')
        pt = fld(v, 'part_type')
        if tparam is not None:
            want = run.params.get(tparam)
            if pt is want:
                rep.ok('C15.type', w, 'listed type is the requested one')
            elif pt.__class__ is T and pt.op == 'agg':
                rep.viol('C15.type', w, f'listed type is {show(pt, 3)}, not the requested one')
            else:
                rep.undecided('C15.type', w, show(pt, 3))
    for ev in phs:
        d = ev.info['dst']
        st = proj(d, 'start')
        rep.oblige(P, 'C15.offset', 'eq', sub(st, run.off0), ev.node, ev.facts, ev.where(), 'the partition is written at the listed offset')
        rep.oblige(P, 'C15.offset', 'eq', ev.info['pos'], ev.node, ev.facts, ev.where(), 'the partition header is the first thing in the partition')
    len0 = run.len0
    for x in run.e.all_exits():
        k = x.ret.a[1] if x.ret.__class__ is T and x.ret.op == 'agg' else None
        g = {kk[1]: v for kk, v in x.st.store.items() if kk[0] == 'G'}
        n = run.e.read(x.st, run.selfat[0], run.selfat[1] + (run.vecname, '#len'))
        F = frozenset(x.st.facts)
        if k == 'Ok':
            rep.oblige(P, 'C15.listed', 'eq', sub(n, add(len0, 1)), x.node, F, W, 'a partition added successfully is listed once')
            if g['exh'] == 1:
                continue
            off1 = run.selff(x.st, run.offname)
            end = g['end']
            adv = sub(off1, run.off0)
            d0 = None
            for ev in phs:
                d0 = sh(ev.info['val'], 'data_off')
            if d0 is not None and end != 0:
                need = add(d0, mulc(div(add(end, GD - 1), GD), GS))
                rep.oblige(P, 'C15.overlap', 'ge', sub(adv, need), x.node, F, W, 'the next partition starts behind all encrypted groups of this one')
            rep.oblige(P, 'C15.align', 'eq', mod(adv, 4), x.node, F, W, 'partition offsets stay multiples of 4')
        elif k == 'Err':
            rep.oblige(P, 'C15.listed', 'eq', sub(n, len0), x.node, F, W, 'a partition whose addition failed is not listed')
            off1 = run.selff(x.st, run.offname)
            rep.oblige(P, 'C15.overlap', 'ge', sub(off1, run.off0), x.node, F, W, 'a failed addition does not move the next partition back')


def c15_create(rep):
    prog = program('disc_riider')
    b = inherent(prog, 'WiiDiscBuilder', 'create')
    if b is None:
        return
    e = Engine(prog.crate, StdModels(STREAMS))
    e.start(b)
    e.run()
    rep.entry(e)
    n, fs = struct_fields(prog, 'WiiDiscBuilder')
    u = [x[0] for x in fs if x[1] == 'u64']
    vec = next((x[0] for x in fs if 'Vec<' in x[1]), None)
    for x in e.all_exits():
        W = where_body(b)
        if len(u) == 1:
            v = proj(x.ret, u[0])
            if isint(v):
                if v >= 0x4E020 and v % 4 == 0:
                    rep.ok('C15.start', W, 'the first partition starts behind the fixed structures')
                else:
                    rep.viol('C15.start', W, f'the first partition starts at {v:#x}, inside the structures at 0x40000 and 0x4E000')
        if vec:
            l = proj(proj(x.ret, vec), '#len')
            if isint(l):
                (rep.ok if l == 0 else rep.viol)('C15.start', W, 'the list of partitions starts empty')


def finish_run():
    from rules_layout import all_layouts
    prog = all_layouts()
    b = inherent(prog, 'WiiDiscBuilder', 'finish')
    if b is None:
        raise Unsupported('WiiDiscBuilder::finish not found')
    e = Engine(prog.crate, StdModels(STREAMS))
    S = {}

    def setup(e, st, f):
        S['self'] = e.deref(st, st.store[('L', f.id, 1)])
        n, fs = struct_fields(prog, 'WiiDiscBuilder')
        S['vec'] = next((x[0] for x in fs if 'Vec<' in x[1]), None)
        S['hdr'] = next((x[0] for x in fs if x[1].endswith('DiscHeader')), None)
        S['region'] = next((x[0] for x in fs if x[1] == '[u8; 32]'), None)
        r, p = S['self']
        S['len'] = e.read(st, r, p + (S['vec'], '#len'))
        NN[S['len']] = 32
        S['hdrv'] = e.read(st, r, p + (S['hdr'],))
        S['regv'] = e.read(st, r, p + (S['region'],))
        for k in ('count', 'off', 'region', 'header', 'entries', 'flush', 'odd'):
            st.store[('G', k)] = 0
        st.store[('G', 'count')] = -1

    def hook(ev, st):
        G = st.store
        if ev.name == 'stream.flush':
            G[('G', 'flush')] = 1
        elif ev.name.startswith('stream.write'):
            G[('G', 'flush')] = 0
        if ev.name == 'stream.write_be':
            t = ev.info['ty']
            if t and t['k'] in ('uint', 'int'):
                if ev.info['pos'] == 0x40000:
                    G[('G', 'count')] = 1
                elif ev.info['pos'] == 0x40004:
                    G[('G', 'off')] = 1
            elif adt(t) == 'DiscHeader':
                G[('G', 'header')] = 1
            elif adt(t) == 'WiiPartTableEntry':
                G[('G', 'entries')] = add(G[('G', 'entries')], 1)
                ev.info['k'] = sub(G[('G', 'entries')], 1)
        elif ev.name == 'stream.write_all' and ev.info['pos'] == 0x4E000:
            G[('G', 'region')] = 1
    e.ghostkeys = ('count', 'off', 'region', 'header', 'flush')
    e.hook = hook
    e.start(b, setup=setup)
    e.run()
    CTX.clear()
    return b, e, S, Prover(e)


def c15_finish(rep):
    b, e, S, P = finish_run()
    rep.entry(e)
    W = where_body(b)
    base = {}
    ents = [ev for ev in e.all_events() if ev.name == 'stream.write_be' and adt(ev.info['ty']) == 'WiiPartTableEntry']
    nums = [ev for ev in e.all_events() if ev.name == 'stream.write_be' and ev.info['ty'] and ev.info['ty']['k'] == 'uint']
    for ev in nums:
        if ev.info['ty']['bits'] != 32:
            rep.undecided('C15.table', ev.where(), 'number of unexpected width')
            continue
        if ev.info['pos'] == 0x40000:
            rep.oblige(P, 'C15.count', 'eq', sub(ev.info['val'], S['len']), ev.node, ev.facts, ev.where(), 'recorded count is the number of listed partitions')
        elif ev.info['pos'] == 0x40004:
            base[ev.where()] = (ev, mulc(ev.info['val'], 4))
    if not ents or not base:
        rep.undecided('C15.table', W, f'{len(ents)} entry writes, {len(base)} table offsets recognised')
        return
    for ev in ents:
        for be, bo in base.values():
            rep.oblige(P, 'C15.entries', 'eq', sub(ev.info['pos'], add(bo, mulc(ev.info['k'], 8))), ev.node, ev.facts, ev.where(), 'entries lie one after the other from the recorded offset')
        v = ev.info['val']
        r, p = S['self']
        want = ('idx', ev.info['k'])
        src = ev.args[1]
        i = elem_index(e, v, S)
        if i is not None:
            rep.oblige(P, 'C15.entries', 'eq', sub(i, ev.info['k']), ev.node, ev.facts, ev.where(), 'entries are written in order, none left out')
    for x in e.all_exits():
        k = x.ret.a[1] if x.ret.__class__ is T and x.ret.op == 'agg' else None
        if k != 'Ok':
            continue
        g = {kk[1]: v for kk, v in x.st.store.items() if kk[0] == 'G'}
        F = frozenset(x.st.facts)
        rep.oblige(P, 'C15.entries', 'eq', sub(g['entries'], S['len']), x.node, F, W, 'every listed partition is written')
        if any(ev.name == 'stream.write_be' and ev.info['pos'] == 0x40000 for ev in nums):
            flag(rep, 'C15.count', W, g['count'], 'the count is written', 'success without writing the partition count')
        flag(rep, 'C15.flushed', W, g['flush'], 'finishing flushes the image', 'finishing reports success without flushing what it wrote')


def elem_index(e, v, S):
    """index of the partition-list element a value is"""
    for t in [v] + list(atoms(v) if v.__class__ is T else ()):
        s = t
        for _ in range(6):
            if s.__class__ is not T:
                break
            if s.op in ('elem', 'fld', 'proj') and len(s.a) > 1:
                k = s.a[1]
                if k.__class__ is tuple and k and k[0] == 'idx':
                    return k[1]
                if s.op == 'elem':
                    return k
                s = s.a[0]
            else:
                break
    return None


# ------------------------------------------------------------------ C16
def c16_seal(rep):
    run = add_partition()
    rep.entry(run.e)
    P = run.p
    W = where_body(run.body)
    if run.tmdroot is None:
        rep.undecided('C16.tmd', W, 'buffer of the title metadata not recognised')
        return
    evs = list(run.e.all_events())
    ws = [ev for ev in evs if ev.name == 'stream.write_all' and adt(ev.info['st']) == 'IOWindow']
    tmdw = [ev for ev in ws if ev.args[1].op == 'slice' and (ev.args[1].a[0], ev.args[1].a[1]) == run.tmdroot and ev.info['g']['exh'] != 1]
    h3w = [ev for ev in ws if ev.args[1].op == 'slice' and ev.info['n'] == 0x18000]
    phs = [ev for ev in on(stored(run, 'WiiPartitionHeader'), 'IOWindow') if ev.info['g']['exh'] != 1]
    if not tmdw or not h3w:
        rep.undecided('C16.tmd', W, f'{len(tmdw)} metadata and {len(h3w)} hash table writes recognised')
        return
    for ev in h3w:
        flag(rep, 'C16.final', ev.where(), ev.info['g']['flushed'], 'the hash table is stored after all groups are written back',
             'the hash table is stored while encrypted data may still be pending')
    for ev in [x for x in evs if x.name == 'stream.flush' and adt(x.info['st']) == CW]:
        h = ev.info.get('h3v')
        if h is not None and h.__class__ is T and h.op == 'agg' and h.a[1] == 'None':
            rep.viol('C16.final', ev.where(), 'the hash table is taken away before the last group is written back')
    for ev in tmdw:
        w, g, N, F = ev.where(), ev.info['g'], ev.node, ev.facts
        d = ev.args[1]
        ln = ev.info['want']
        # digest
        good = [h for h in h3w if g['hash'].__class__ is T and g['hash'].op == 'sha1' and g['hash'].a[0] is tcontent(h.info['content'])]
        if good:
            rep.ok('C16.digest', w, 'content hash is the SHA-1 of the hash table as stored')
        elif g['hash'] == 0 or (g['hash'].__class__ is T and g['hash'].op == 'sha1'):
            rep.viol('C16.digest', w, f'at 0x1F4 the metadata carries {show(g["hash"], 4)}, not the SHA-1 of the stored hash table')
        else:
            rep.undecided('C16.digest', w, show(g['hash'], 4))
        # size
        if g['size'] == -1:
            rep.viol('C16.size', w, 'no big-endian content size at 0x1EC')
        else:
            for ph in phs:
                rep.oblige(P, 'C16.size', 'eq', sub(sh(ph.info['val'], 'data_size'), g['size']), ph.node, ph.facts, w, 'content size is the recorded data size')
        # signature
        if g['zhi'] == -1:
            rep.viol('C16.signature', w, 'the signature is not cleared')
        else:
            rep.oblige(P, 'C16.signature', 'ge', sub(4, g['zlo']), N, F, w, 'clearing starts at the signature')
            rep.oblige(P, 'C16.signature', 'ge', sub(g['zhi'], 0x104), N, F, w, 'the whole signature is cleared')
        # fake signature
        if g['fresh'] == 0:
            rep.viol('C16.fakesign', w, 'the metadata changed after it was hashed (or was never hashed)')
        elif g['fresh'] == 1:
            rep.oblige(P, 'C16.fakesign', 'eq', sub(g['fslo'], 0x140), N, F, w, 'the signed part of the metadata is hashed from 0x140')
            rep.oblige(P, 'C16.fakesign', 'eq', g['fsend'], N, F, w, 'the signed part of the metadata is hashed to its end')
            zero_first(rep, run, ev, g)
        else:
            rep.undecided('C16.fakesign', w, show(g['fresh'], 3))
    for node, facts, x in run.zruns:
        rep.oblige(P, 'C16.signature', 'eq', x, node, facts, W, 'the signature is cleared without gaps')
    for x in ok_exits(run):
        g = {k[1]: v for k, v in x.st.store.items() if k[0] == 'G'}
        if g['exh'] != 1:
            flag(rep, 'C16.stored', W, g['tmdw'], 'success implies that the sealed metadata was stored', 'success without storing the sealed metadata')


def tcontent(ps):
    from models import content_term
    return content_term(list(ps))


def zero_first(rep, run, ev, g):
    if g['zf'] == -1:
        rep.undecided('C16.fakesign', ev.where(), 'digest not recognised')
        return
    rep.oblige(run.p, 'C16.fakesign', 'eq', g['zf'], ev.node, ev.facts, ev.where(), 'the hash of the stored metadata starts with a zero byte')
