"""Layout of the binary records, from the code binrw generates for reading and writing them (C17)."""
from terms import *
from engine import Engine, Unsupported
from models import StdModels, SIZES, MINSIZES
from prover import Prover
from report import TCTX as CTX
import models
from common import *

_lay = {}


class Layout:
    """fields: name -> [(event, offset, size)] relative to the start of the record; totals: [(exit, size)]"""


def layout(prog, name, kind):
    k = (id(prog), name, kind)
    if k in _lay:
        return _lay[k]
    _lay[k] = None
    b = impl_method(prog, name, 'Bin' + kind, kind.lower() + '_options')
    if b is None:
        return None
    # nested records first
    n, fs = struct_fields(prog, name)
    for f in fs or ():
        for m in re.findall(r'(?:^|[\[<:])([A-Z]\w+)', f[1]):
            if m != name and m != 'Vec':
                layout(prog, m, kind)
    e = Engine(prog.crate, StdModels(), opaque=lambda x, c: x.path != b.path and re.search(r'Bin(Read|Write)>::(read|write)_options$', x.path) is not None)
    S = {}

    def setup(e, st, f):
        i = 2 if kind == 'Write' else 1
        r = e.deref(st, st.store[('L', f.id, i)])
        S['cell'] = (r[0], r[1] + ('#pos',))
        S['p0'] = mk('sym', 'P0')
        NN.setdefault(S['p0'], 60)
        e.write(st, r[0], r[1] + ('#pos',), S['p0'])
        S['self'] = e.deref(st, st.store[('L', f.id, 1)]) if kind == 'Write' else None
        S['endian'] = st.store[('L', f.id, 3 if kind == 'Write' else 2)]
    e.start(b, setup=setup)
    e.run()
    L = Layout()
    L.name, L.kind, L.e, L.b, L.S = name, kind, e, b, S
    L.fields = {}
    L.evs = [ev for ev in e.all_events() if ev.name == 'rec.' + kind.lower()]
    L.exits = [x for x in e.all_exits() if x.ret.__class__ is T and x.ret.op == 'agg' and x.ret.a[1] == 'Ok']
    L.totals = [(x, sub(e.read(x.st, *S['cell']), S['p0'])) for x in L.exits]
    L.fnames = [f[0] for f in fs or ()]
    if kind == 'Write':
        for ev in L.evs:
            q = path_of(ev.args[0], S['self'])
            if q == '?':
                # mapped values: the one field the written value is made from
                used = [f for f in L.fnames if mentions(ev.info['val'], f)]
                q = used[0] if len(used) == 1 else '?'
                if any(path_of(o.args[0], S['self']) == q for o in L.evs):
                    q = '?'
            L.fields.setdefault(q, []).append((ev, sub(ev.info['pos'], S['p0']), ev.info['n']))
    else:
        for x in L.exits:
            v = proj(x.ret, ('Ok', '0'))
            for f in L.fnames:
                fv = proj(v, f)
                for ev in L.evs:
                    if uses(fv, ev.info['val']) and not any(y[0] is ev for y in L.fields.get(f, ())):
                        L.fields.setdefault(f, []).append((ev, sub(ev.info['pos'], S['p0']), ev.info['n']))
    L.p = Prover(e)
    t = set(x for _, x in L.totals)
    L.total = t.pop() if len(t) == 1 else None
    if L.total is not None:
        for full in ('structs::' + name, name, 'fst::' + name):
            if isint(L.total):
                SIZES.setdefault(full, L.total)
            else:
                lo, _ = interval(L.total)
                if lo is not None and lo > 0:
                    MINSIZES.setdefault(full, lo)
    _lay[k] = L
    return L


def mentions(v, f):
    """does a term read field f of self?"""
    if v.__class__ is not T:
        return False
    if v.op in ('fld', 'proj', 'init') and f in [y for y in v.a if y.__class__ is str]:
        return True
    s = show(v, 8)
    return re.search(r'self\.' + f + r'\b', s) is not None


def uses(v, x):
    if v is x:
        return True
    if v.__class__ is not T:
        return False
    if v.op == 'agg':
        return any(uses(y, x) for _, y in v.a[2])
    return any(uses(y, x) for y in v.a if y.__class__ is T)


def path_of(a, selfat):
    if a.__class__ is T and a.op == 'ref' and (a.a[0], a.a[1][:len(selfat[1])]) == selfat:
        rest = a.a[1][len(selfat[1]):]
        return str(rest[0]) if rest else '*'
    return '?'


RECORDS = ['TMDContent', 'TicketTimeLimit', 'WiiPartTableEntry', 'Ticket', 'TMD', 'Certificate', 'WiiPartitionHeader', 'DiscHeader', 'DOLHeader', 'ApploaderHeader', 'RawFstNode']


def all_layouts(prog=None):
    """makes the record sizes known to the models"""
    prog = prog or program('disc_riider')
    for r in RECORDS:
        for k in ('Read', 'Write'):
            layout(prog, r, k)
    return prog


# offsets prescribed by the disc format: record -> ({field: offset}, total)
FORMAT = {
    'Ticket': ({'sig_type': 0, 'sig': 4, 'sig_issuer': 0x140, 'ecdh': 0x180, 'ticket_id': 0x1D0, 'console_id': 0x1D8, 'title_id': 0x1DC, 'ticket_version': 0x1E6,
                'permitted_titles_mask': 0x1E8, 'permit_mask': 0x1EC, 'title_export_allowed': 0x1F0, 'common_key_idx': 0x1F1, 'content_access_permissions': 0x222,
                'time_limits': 0x264}, 0x2A4),
    'TMD': ({'sig_type': 0, 'sig': 4, 'sig_issuer': 0x140, 'version': 0x180, 'ca_crl_version': 0x181, 'signer_crl_version': 0x182, 'ios_id_major': 0x184, 'ios_id_minor': 0x188,
             'title_id_major': 0x18C, 'title_id_minor': 0x190, 'title_type': 0x194, 'group_id': 0x198, 'fakesign_padding': 0x19A, 'access_flags': 0x1D8, 'title_version': 0x1DC,
             'boot_idx': 0x1E0, 'contents': 0x1E4}, None),
    'TMDContent': ({'id': 0, 'index': 4, 'content_type': 6, 'size': 8, 'hash': 0x10}, 0x24),
    'WiiPartitionHeader': ({'ticket': 0, 'tmd_size': 0x2A4, 'tmd_off': 0x2A8, 'cert_chain_size': 0x2AC, 'cert_chain_off': 0x2B0, 'global_hash_table_off': 0x2B4, 'data_off': 0x2B8,
                            'data_size': 0x2BC}, 0x2C0),
    'DiscHeader': ({'game_id': 0, 'disc_num': 6, 'disc_version': 7, 'audio_streaming': 8, 'audio_stream_buf_size': 9, 'wii_magic': 0x18, 'gcn_magic': 0x1C, 'game_title': 0x20,
                    'disable_hash_verification': 0x60, 'disable_disc_enc': 0x61, 'debug_mon_off': 0x400, 'debug_load_addr': 0x404, 'dol_off': 0x420, 'fst_off': 0x424, 'fst_sz': 0x428,
                    'fst_max_sz': 0x42C, 'fst_memory_address': 0x430, 'user_position': 0x434, 'user_sz': 0x438}, 0x440),
    'WiiPartTableEntry': ({'part_data_off': 0, 'part_type': 4}, 8),
    'DOLHeader': ({'text_off': 0, 'data_off': 0x1C, 'text_starts': 0x48, 'data_starts': 0x64, 'text_sizes': 0x90, 'data_sizes': 0xAC, 'bss_start': 0xD8, 'bss_size': 0xDC, 'entry_point': 0xE0}, 0xE4),
    'ApploaderHeader': ({'size1': 0x14, 'size2': 0x18}, 0x1C),
    'RawFstNode': ({'offset': 4, 'length': 8}, 12),
    'Certificate': ({'sig_type': 0, 'sig': 4}, None),
}


def c17_records(rep):
    prog = all_layouts()
    for name in RECORDS:
        both = {k: layout(prog, name, k) for k in ('Read', 'Write')}
        for k, L in both.items():
            if L is None:
                rep.undecided('C17.record', name, f'no Bin{k} implementation found')
                continue
            rep.entry(L.e)
            CTX.clear()
            W = f'{L.b.file}:{L.b.line} in record {name} (Bin{k})'
            want, total = FORMAT.get(name, ({}, None))
            for f, off in want.items():
                at = L.fields.get(f)
                if not at:
                    if f in L.fnames and L.exits:
                        rep.undecided('C17.record', W, f'field {f} not recognised')
                    continue
                if k == 'Read':
                    # a field may be made from several reads (title key); the first one made for it alone counts
                    own = [y for y in at if sum(1 for g in L.fields.values() for z in g if z[0] is y[0]) == 1]
                    at = own or at
                for ev, o, n in at[:1] if f == 'contents' else at:
                    rep.oblige(L.p, 'C17.record', 'eq', sub(o, off), ev.node, ev.facts, W, f'{f} lies at {off:#x}')
            if total is not None:
                for x, t in L.totals:
                    rep.oblige(L.p, 'C17.record', 'eq', sub(t, total), x.node, frozenset(x.st.facts), W, f'the record takes {total:#x} bytes')
            if name == 'Ticket':
                at = [(ev, o) for f, l in L.fields.items() for ev, o, n in l if n == 16 and (f in ('?', 'title_key'))]
                for ev, o in at:
                    rep.oblige(L.p, 'C17.record', 'eq', sub(o, 0x1BF), ev.node, ev.facts, W, 'the encrypted title key lies at 0x1bf')
            if name == 'Certificate':
                certificate(rep, L, k, W)
            if name == 'TMD':
                at = [(ev, o) for f, l in L.fields.items() for ev, o, n in l if n == 2 and f in ('?', 'num_contents')]
                if k == 'Write':
                    at = [(ev, o) for ev, o in at if any(y.__class__ is T for y in (ev.info['val'],))]
                for ev, o in at:
                    rep.oblige(L.p, 'C17.record', 'eq', sub(o, 0x1DE), ev.node, ev.facts, W, 'the number of contents lies at 0x1de')
            for ev in L.evs:
                en = ev.info.get('endian')
                if en.__class__ is T and en.op == 'agg' and en.a[1] == 'Little':
                    rep.viol('C17.endian', W, f'a field is stored little-endian ({ev.line})')
        R, Wr = both['Read'], both['Write']
        if R and Wr:
            # every stored field is read from where it is written
            for f in R.fnames:
                a, b = R.fields.get(f), Wr.fields.get(f)
                if not a or not b or f in ('title_key',):
                    continue
                own = [y for y in a if sum(1 for g in R.fields.values() for z in g if z[0] is y[0]) == 1] or a
                W = f'{R.b.file}:{R.b.line} in record {name}'
                for ev, o, n in b[:1]:
                    for ev2, o2, n2 in own[:1]:
                        # read offsets are constants except behind variable-size fields
                        if isint(o2):
                            CTX.clear()
                            rep.oblige(Wr.p, 'C17.agree', 'eq', sub(o, o2), ev.node, ev.facts, W, f'{f} is read where it is written')
                        if isint(n) and isint(n2):
                            (rep.ok if n == n2 else rep.viol)('C17.agree', W, f'{f} is read with the size it is written ({n} and {n2} bytes)')
    enums(rep, prog)
    shifted(rep, prog)


# Certificate: what lies behind the signature and behind the key, and how long both are
CERT = (('issuer', 0x40, 0), ('key_type', 0x80, 0), ('subject', 0x84, 0), ('key', 0xC4, 0), ('modulus', 0xC4, 1), ('pub_exp', 0xC8, 1))
CERTLEN = (('sig', 'sig_type', (('Rsa4096', 512), ('Rsa2048', 256))), ('key', 'key_type', (('Rsa4096', 512), ('Rsa2048', 256))))


def certificate(rep, L, k, W):
    one = lambda f: L.fields[f][0] if len(L.fields.get(f, ())) == 1 else None
    sig, key = one('sig'), one('key')
    if not sig or not key:
        rep.undecided('C17.record', W, 'signature or key not recognised')
        return
    for f, off, behind in CERT:
        y = one(f)
        if y:
            want = add(add(off, sig[2]), key[2] if behind else 0)
            rep.oblige(L.p, 'C17.record', 'eq', sub(y[1], want), y[0].node, y[0].facts, W, f'{f} lies {off:#x} behind the signature' + (' and the key' if behind else ''))
    for x, t in L.totals:
        rep.oblige(L.p, 'C17.record', 'eq', sub(t, add(add(0x100, sig[2]), key[2])), x.node, frozenset(x.st.facts), W, 'the record ends 0x100 behind signature and key')
    if k != 'Read':
        return
    evs = list(L.e.all_events())
    for f, by, sizes in CERTLEN:
        y, t = one(f), one(by)
        fin = y and y[0].info.get('extra')
        fe = next((ev for ev in evs if ev.name.startswith('call:') and 'VecArgs' in ev.name and ev.res is fin), None)
        ce = next((ev for ev in evs if ev.name.startswith('call:') and 'VecArgs' in ev.name and ev.name.endswith('::count') and fe is not None and ev.res is fe.args[0]), None)
        if ce is None or t is None:
            rep.undecided('C17.record', W, f'number of bytes of {f} not recognised')
            continue
        vs = ENUMS['SigType' if by == 'sig_type' else 'KeyType']
        for v, n in sizes:
            f2 = frozenset(ce.facts) | {eq0(sub(mk('disc', t[0].info['val']), vs[v]))}
            rep.oblige(L.p, 'C17.record', 'eq', sub(ce.args[1], n), ce.node, f2, W, f'{f} has {n} bytes for {by} {v}')


ENUMS = {'WiiPartType': {'Data': 0, 'Update': 1, 'Channel': 2},
         'SigType': {'Rsa4096': 0x10000, 'Rsa2048': 0x10001, 'EllipticalCurve': 0x10002},
         'KeyType': {'Rsa4096': 0, 'Rsa2048': 1}}


def enums(rep, prog):
    for name, vals in ENUMS.items():
        a = next((a for n, a in prog.adts.items() if n.split('::')[-1] == name), None)
        names = {v['d']: v['n'] for v in a['v'] if v['n'] in vals} if a else {}
        L = layout(prog, name, 'Read')
        W = f'enum {name}'
        if L:
            W = f'{L.b.file}:{L.b.line} in enum {name} (BinRead)'
            reads = [ev for ev in L.evs]
            for x in L.exits:
                v = proj(x.ret, ('Ok', '0'))
                if v.__class__ is T and v.op == 'agg' and v.a[1] in vals and len(reads) == 1:
                    d = sub(reads[0].info['val'], vals[v.a[1]])
                    rep.oblige(L.p, 'C17.enum', 'eq', d, x.node, frozenset(x.st.facts), W, f'{v.a[1]} is read from {vals[v.a[1]]:#x}')
        L = layout(prog, name, 'Write')
        if L:
            W = f'{L.b.file}:{L.b.line} in enum {name} (BinWrite)'
            for ev in L.evs:
                v = ev.info['val']
                d = discriminant(ev)
                if isint(v) and d in names:
                    nm = names[d]
                    (rep.ok if v == vals[nm] else rep.viol)('C17.enum', W, f'{nm} is written as {v:#x}' + ('' if v == vals[nm] else f' instead of {vals[nm]:#x}'))


def discriminant(ev):
    for f in ev.facts:
        if f.__class__ is T and f.op == 'eq0':
            m = re.match(r'(?:disc\([^()]*\)|\(disc\([^()]*\) \+ -(\w+)\))$', show(f.a[0], 6))
            if m:
                return int(m.group(1), 0) if m.group(1) else 0
    return None


def shifted(rep, prog):
    R, Wr = layout(prog, 'ShiftedU64', 'Read'), layout(prog, 'ShiftedU64', 'Write')
    if R:
        W = f'{R.b.file}:{R.b.line} in record ShiftedU64 (BinRead)'
        for x in R.exits:
            v = proj(proj(x.ret, ('Ok', '0')), '0')
            for ev in R.evs:
                rep.oblige(R.p, 'C17.shift', 'eq', sub(v, mulc(ev.info['val'], 4)), x.node, frozenset(x.st.facts), W, 'a stored word w means w*4')
    if Wr:
        W = f'{Wr.b.file}:{Wr.b.line} in record ShiftedU64 (BinWrite)'
        for ev in Wr.evs:
            v = ev.info['val']
            r, q = Wr.S['self']
            x = Wr.e.read(Wr.exits[0].st, r, q + ('0',)) if Wr.exits else None
            if x is None:
                rep.undecided('C17.shift', W, show(v, 4))
                continue
            rep.oblige(Wr.p, 'C17.shift', 'eq', sub(v, trunc(32, div(x, 4))), ev.node, ev.facts, W, 'an offset x is stored as x/4')


# ------------------------------------------------------------------ places of the builder
def c17_builder(rep):
    from rules_builder import add_partition, finish_run, stored, on, sh, fld, where_body, adt, CW, written_by
    prog = all_layouts()
    run = add_partition()
    rep.entry(run.e)
    P = run.p
    W = where_body(run.body)
    evs = [ev for ev in run.e.all_events()]
    phs = [ev for ev in on(stored(run, 'WiiPartitionHeader'), 'IOWindow') if ev.info['g']['exh'] != 1]
    certs = [ev for ev in evs if ev.name == 'stream.write_be' and adt(ev.info.get('st')) == 'IOWindow' and 'Certificate' in (ev.info['ty'] or {}).get('s', '')]
    ws = [ev for ev in evs if ev.name == 'stream.write_all' and adt(ev.info['st']) == 'IOWindow' and ev.info['g']['exh'] != 1]
    tmdw = [ev for ev in ws if run.tmdroot and ev.args[1].op == 'slice' and (ev.args[1].a[0], ev.args[1].a[1]) == run.tmdroot]
    h3w = [ev for ev in ws if ev.info['n'] == 0x18000]
    if not phs:
        rep.undecided('C17.place', W, 'write of the partition header not recognised')
    for ev in phs:
        v, N, F, w = ev.info['val'], ev.node, ev.facts, ev.where()
        def o(e, msg, k='eq'):
            rep.oblige(P, 'C17.place', k, e, N, F, w, msg)
        for x in tmdw:
            o(sub(sh(v, 'tmd_off'), x.info['pos']), 'recorded TMD offset is where it was written')
            o(sub(fld(v, 'tmd_size'), trunc(32, x.info['want'])), 'recorded TMD size is its size')
            o(sub(sh(v, 'tmd_off'), 0x2C0), 'the TMD lies behind the partition header', 'ge')
        for x in certs:
            o(sub(sh(v, 'cert_chain_off'), x.info['pos']), 'recorded certificate offset is where they were written')
            o(sub(fld(v, 'cert_chain_size'), trunc(32, x.info['n'])), 'recorded certificate size is their size')
            for y in tmdw:
                o(sub(x.info['pos'], add(y.info['pos'], y.info['want'])), 'certificates lie behind the TMD', 'ge')
        for x in h3w:
            o(sub(sh(v, 'global_hash_table_off'), x.info['pos']), 'recorded hash table offset is where it was written')
            o(sub(sh(v, 'data_off'), add(x.info['pos'], 0x18000)), 'the data starts behind the hash table', 'ge')
        if not tmdw or not certs or not h3w:
            rep.undecided('C17.place', w, f'{len(tmdw)} TMD, {len(certs)} certificate, {len(h3w)} hash table writes recognised')
    # the encrypted stream: start and key
    seen = 0
    for ev in evs:
        if adt(ev.info.get('st')) == CW and ev.name.startswith('stream.') and run.doff and ev.args[0].__class__ is T and ev.args[0].op == 'ref':
            do, key = ev.info.get('doff'), ev.info.get('key')
            if do is None or '.hv' in show(do, 5):      # opaque callees only get the stream through its trait methods
                continue
            seen += 1
            for ph in phs:
                rep.oblige(P, 'C17.data-start', 'eq', sub(sh(ph.info['val'], 'data_off'), do), ph.node, ph.facts, ev.where(), 'encrypted data is written at the recorded data offset')
                tk = fld(ph.info['val'], 'ticket', 'title_key')
                if key is tk:
                    rep.ok('C17.key', ev.where(), 'data is encrypted with the title key of the stored ticket')
                elif key.__class__ is T and key.op in ('cat', 'lit', 'agg'):
                    rep.viol('C17.key', ev.where(), f'data is encrypted with {show(key, 4)}, not with the title key of the stored ticket')
                else:
                    rep.undecided('C17.key', ev.where(), show(key, 4))
    if not seen:
        rep.undecided('C17.data-start', W, 'encrypted stream not recognised')
    for m, off in (('get_bi2', 0x440), ('get_apploader', 0x2440)):
        l = written_by(run, m)
        if not l:
            rep.undecided('C17.place', W, m + ' is not seen to be written')
        for ev in l:
            rep.oblige(P, 'C17.place', 'eq', sub(ev.info['pos'], off), ev.node, ev.facts, ev.where(), f'{m[4:]} is written at {off:#x}')
    for ev in on(stored(run, 'DiscHeader'), CW):
        rep.oblige(P, 'C17.place', 'eq', ev.info['pos'], ev.node, ev.facts, ev.where(), 'the partition disc header is written at 0')
    for ev in evs:
        if ev.name == 'stream.write_be' and ev.info.get('endian') in ('write_le', 'write_ne'):
            rep.viol('C17.endian', ev.where(), 'a record is stored little-endian')


def from_region(content, regv):
    if not content or len(content) != 1:
        return False
    x = content[0][0]
    while x.__class__ is T and x.op == 'view':
        x = x.a[0]
    return x is regv


def c17_finish(rep):
    from rules_builder import finish_run, where_body, adt
    all_layouts()
    b, e, S, P = finish_run()
    rep.entry(e)
    W = where_body(b)
    hdr = reg = 0
    for ev in e.all_events():
        if ev.name == 'stream.write_be':
            if ev.info.get('endian') in ('write_le', 'write_ne'):
                rep.viol('C17.endian', ev.where(), 'stored little-endian')
            if adt(ev.info['ty']) == 'DiscHeader':
                hdr = 1
                rep.oblige(P, 'C17.place', 'eq', ev.info['pos'], ev.node, ev.facts, ev.where(), 'the disc header is written at 0')
        elif ev.name == 'stream.write_all' and from_region(ev.info.get('content'), S['regv']):
            reg = 1
            rep.oblige(P, 'C17.place', 'eq', sub(ev.info['pos'], 0x4E000), ev.node, ev.facts, ev.where(), 'the region is written at 0x4e000')
    for x in e.all_exits():
        if x.ret.__class__ is T and x.ret.op == 'agg' and x.ret.a[1] == 'Ok':
            g = {k[1]: v for k, v in x.st.store.items() if k[0] == 'G'}
            if hdr:
                (rep.ok if g['header'] == 1 else rep.viol)('C17.place', W, 'finishing writes the disc header')
            if reg:
                (rep.ok if g['region'] == 1 else rep.viol)('C17.place', W, 'finishing writes the region')
    ents = [ev for ev in e.all_events() if ev.name == 'stream.write_be' and adt(ev.info['ty']) == 'WiiPartTableEntry']
    base = [ev for ev in e.all_events() if ev.name == 'stream.write_be' and ev.info['pos'] == 0x40004]
    for ev in ents:
        for be in base:
            rep.oblige(P, 'C17.place', 'eq', sub(ev.info['pos'], add(mulc(be.info['val'], 4), mulc(ev.info['k'], 8))), ev.node, ev.facts, ev.where(),
                       'the entries of the partition table lie where the recorded (shifted) offset leads the reader')
    if not ents or not base:
        rep.undecided('C17.place', W, 'write of the partition table not recognised')
    if not hdr or not reg:
        rep.undecided('C17.place', W, 'write of header or region not recognised')


# ------------------------------------------------------------------ places of the reader
def run_entry(b, opaque=None, hook=None, setup=None):
    e = Engine(b.prog.crate, StdModels(STREAMS), opaque=opaque or fst_opaque())
    e.hook = hook
    e.start(b, setup=setup)
    e.run()
    CTX.clear()
    return e, Prover(e)


def adt_(t):
    return t['n'].split('::')[-1] if t and t['k'] == 'adt' else None


def c17_reader(rep):
    prog = all_layouts()
    from rules_builder import where_body, fld

    def reads(e, pred):
        return [ev for ev in e.all_events() if ev.name in ('stream.read_be', 'stream.read_exact', 'stream.read_to_end', 'stream.read') and pred(ev)]

    def endian(e):
        for ev in e.all_events():
            if ev.name == 'stream.read_be' and ev.info.get('endian') in ('read_le', 'read_ne'):
                rep.viol('C17.endian', ev.where(), 'read little-endian')
    b = inherent(prog, 'WiiIsoReader', 'open')
    if b is not None:
        e, P = run_entry(b)
        rep.entry(e)
        endian(e)
        for nm, pred, off in (('disc header', lambda ev: adt_(ev.info.get('ty')) == 'DiscHeader', 0), ('region', lambda ev: ev.name == 'stream.read_exact' and ev.info['want'] == 32, 0x4E000)):
            l = reads(e, pred)
            if not l:
                rep.undecided('C17.read', where_body(b), f'read of the {nm} not recognised')
            for ev in l:
                rep.oblige(P, 'C17.read', 'eq', sub(ev.info['pos'], off), ev.node, ev.facts, ev.where(), f'the {nm} is read at {off:#x}')
        table(rep, e, P, b)
    n, fs = struct_fields(prog, 'WiiPartitionReadInfo')
    ent = next((f[0] for f in fs or () if f[1].endswith('WiiPartTableEntry')), None)
    phf = next((f[0] for f in fs or () if f[1].endswith('WiiPartitionHeader')), None)
    for m, off, ty in (('read_tmd', 'tmd_off', 'TMD'), ('read_certificates', 'cert_chain_off', 'Certificate')):
        b = inherent(prog, 'WiiPartitionReadInfo', m)
        if b is None or not ent or not phf:
            rep.undecided('C17.read', m, 'not found')
            continue
        S = {}

        def setup(e, st, f):
            r, p = e.deref(st, st.store[('L', f.id, 1)])
            S['want'] = add(e.read(st, r, p + (ent, 'part_data_off', '0')), e.read(st, r, p + (phf, off, '0')))
        e, P = run_entry(b, setup=setup)
        rep.entry(e)
        endian(e)
        l = reads(e, lambda ev: ty in (ev.info.get('ty') or {}).get('s', ''))
        if not l:
            rep.undecided('C17.read', where_body(b), f'read of {ty} not recognised')
        for ev in l:
            rep.oblige(P, 'C17.read', 'eq', sub(ev.info['pos'], S['want']), ev.node, ev.facts, ev.where(), f'{ty} is read at the recorded {off}')
    for m, off in (('read_bi2', 0x440), ('read_apploader', 0x2440)):
        b = inherent(prog, 'WiiPartitionReadInfo', m)
        if b is None:
            continue
        e, P = run_entry(b, opaque=lambda x, c: fst_opaque()(x, c) or x.path.endswith('::read_into_vec'))
        rep.entry(e)
        endian(e)
        k = 0
        for ev in e.all_events():
            if ev.name.startswith('call:') and ev.name.endswith('read_into_vec'):
                k += 1
                o = [a for a, t in zip(ev.args, ev.info.get('atys') or [None] * 9) if a.__class__ is not T or a.op not in ('ref', 'agg')]
                rep.oblige(P, 'C17.read', 'eq', sub(o[0], off), ev.node, ev.facts, ev.where(), f'{m[5:]} is read at {off:#x}')
                if m == 'read_bi2' and isint(o[1]):
                    (rep.ok if o[1] == 0x2000 else rep.viol)('C17.read', ev.where(), f'bi2 is read with its fixed size 0x2000 (here {o[1]:#x})')
                if m == 'read_apploader':
                    h = next((x.info['val'] for x in e.all_events() if x.name == 'stream.read_be' and adt_(x.info['ty']) == 'ApploaderHeader'), None)
                    if h is not None:
                        rep.oblige(P, 'C17.read', 'eq', sub(o[1], add(32, add(fld(h, 'size1'), fld(h, 'size2')))), ev.node, ev.facts, ev.where(), 'the apploader has the size its header says')
            if ev.name == 'stream.read_be' and adt_(ev.info['ty']) == 'ApploaderHeader':
                rep.oblige(P, 'C17.read', 'eq', sub(ev.info['pos'], off), ev.node, ev.facts, ev.where(), 'the apploader header is read at 0x2440')
        if not k:
            rep.undecided('C17.read', where_body(b), 'no random access read recognised')
    open_partition(rep, prog)


def table(rep, e, P, b):
    """partition table: four (count, offset) pairs at 0x40000, entries one after the other at the offset"""
    from rules_builder import where_body
    nums = [ev for ev in e.all_events() if ev.name == 'stream.read_be' and ev.info['ty'] and ev.info['ty']['k'] == 'uint']
    ents = [ev for ev in e.all_events() if ev.name == 'stream.read_be' and adt_(ev.info['ty']) == 'WiiPartTableEntry']
    if not nums or not ents:
        rep.undecided('C17.table', where_body(b), f'{len(nums)} numbers, {len(ents)} entries recognised')
        return
    for ev in nums:
        if ev.info['ty']['bits'] != 32:
            rep.viol('C17.table', ev.where(), 'count and offset are 32-bit words')
        rep.oblige(P, 'C17.table', 'eq', mod(ev.info['pos'], 4), ev.node, ev.facts, ev.where(), 'words of the table are aligned')
        rep.oblige(P, 'C17.table', 'ge', sub(ev.info['pos'], 0x40000), ev.node, ev.facts, ev.where(), 'the table starts at 0x40000')
        rep.oblige(P, 'C17.table', 'ge', sub(0x4001C, ev.info['pos']), ev.node, ev.facts, ev.where(), 'the table has four groups')


def open_partition(rep, prog):
    from rules_builder import where_body, fld
    b = inherent(prog, 'WiiIsoReader', 'open_partition')
    if b is None:
        rep.undecided('C17.read', 'open_partition', 'not found')
        return
    S = {}
    pi = next((i for i in range(1, b.argc + 1) if 'WiiPartTableEntry' in b.lty(i)['s']), None)

    def setup(e, st, f):
        v = st.store[('L', f.id, pi)]
        if v.__class__ is T and v.op == 'ref':
            v = e.read_any(st, v.a[0], v.a[1])
        S['off'] = fld(v, 'part_data_off', '0')
    cs = crypt_state(prog, 'CryptPartReader')

    def hook(ev, st):
        if adt_(ev.info.get('st')) == 'CryptPartReader' and cs and cs[1]['pos'] and ev.args[0].__class__ is T and ev.args[0].op == 'ref':
            r, q = ev.args[0].a[0], ev.args[0].a[1]
            for x in cs[0]:
                if x == '*':
                    r, q = e0.deref(st, e0.read(st, r, q))
                else:
                    q = q + (x,)
            ev.info['start'] = e0.read(st, r, q + (cs[1]['pos'],))
    e0 = Engine(b.prog.crate, StdModels(STREAMS), opaque=fst_opaque())
    e0.hook = hook
    e0.start(b, setup=setup)
    e0.run()
    CTX.clear()
    e, P = e0, Prover(e0)
    rep.entry(e)
    W = where_body(b)
    hs = [ev for ev in e.all_events() if ev.name == 'stream.read_be' and adt_(ev.info['ty']) == 'WiiPartitionHeader']
    ds = [ev for ev in e.all_events() if ev.name == 'stream.read_be' and adt_(ev.info['ty']) == 'DiscHeader']
    fs = [ev for ev in e.all_events() if ev.name.startswith('call:') and ev.name.endswith('Fst::read')]
    if not hs or not ds or not fs:
        rep.undecided('C17.read', W, f'{len(hs)} partition headers, {len(ds)} disc headers, {len(fs)} tables read')
        return
    for ev in hs:
        rep.oblige(P, 'C17.read', 'eq', sub(ev.info['pos'], S['off']), ev.node, ev.facts, ev.where(), 'the partition header is read at the listed offset')
    for ev in ds:
        pos = ev.info['pos']
        if pos.__class__ is T and pos.op == 'undef':
            pos = ev.info.get('start', pos)
        if pos.__class__ is T and pos.op == 'undef':
            rep.undecided('C17.read', ev.where(), 'position of the new partition reader')
        else:
            rep.oblige(P, 'C17.read', 'eq', pos, ev.node, ev.facts, ev.where(), 'the partition disc header is read at 0')
        if adt_(ev.info.get('st')) != 'CryptPartReader':
            rep.undecided('C17.read', ev.where(), 'stream of the partition disc header')
    for ev in fs:
        o = [a for a in ev.args if a.__class__ is not T or a.op not in ('ref', 'agg')]
        rep.oblige(P, 'C17.read', 'eq', sub(o[0], fld(ds[0].info['val'], 'fst_off', '0')), ev.node, ev.facts, ev.where(), 'the table is read at the recorded offset')
    h = hs[0].info['val']
    n, fields = struct_fields(prog, 'WiiPartitionReadInfo')
    stf = next((f[0] for f in fields if 'PartState' in f[1] or f[1].split('::')[-1] not in ('WiiPartTableEntry', 'WiiPartitionHeader', 'DiscHeader', 'Fst')), None)
    for x in e.all_exits():
        if not (x.ret.__class__ is T and x.ret.op == 'agg' and x.ret.a[1] == 'Ok'):
            continue
        v = proj(proj(x.ret, ('Ok', '0')), stf)
        r = cs[1]
        F = frozenset(x.st.facts)
        rep.oblige(P, 'C17.read', 'eq', sub(proj(v, r['data_offset']), add(S['off'], fld(h, 'data_off', '0'))), x.node, F, W, 'encrypted data is read from the recorded data offset')
        rep.oblige(P, 'C17.read', 'eq', sub(proj(v, r['data_size']), fld(h, 'data_size', '0')), x.node, F, W, 'the data ends at the recorded size')
        k = proj(v, r['key'])
        t = fld(h, 'ticket', 'title_key')
        if k is t:
            rep.ok('C17.key', W, 'data is decrypted with the title key of the ticket')
        elif k.__class__ is T and k.op in ('lit', 'cat', 'agg'):
            rep.viol('C17.key', W, f'data is decrypted with {show(k, 4)}, not with the title key of the ticket')
        else:
            rep.undecided('C17.key', W, show(k, 4))
