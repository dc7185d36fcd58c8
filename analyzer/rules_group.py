"""Rules about the encrypted group streams (reader and writer): C05, C06, C07, C08, C09."""
from terms import *
from engine import Engine, UNDEF, Unsupported
from models import StdModels, cat_read
from prover import Prover
from common import *

GS, GD, BS, BD, HDR = 0x200000, 0x1F0000, 0x8000, 0x7C00, 0x400
from report import TCTX as CTX


BROKEN = mk('sym', 'BROKEN')      # the memory holds no group at all


class GroupRun:
    """one public method of a group stream, analysed from an arbitrary entry state that satisfies the class invariant:
    a group number stored as current means that the memory holds this group.

    Ghost variables: holds (group the memory content belongs to), sealed (hashed and encrypted since it was last changed),
    modified (user bytes not yet in the image), slot (offset in the H3 table of the last digest), filled (caller buffer progress)."""

    def __init__(self, body, short, modified=None, memkeys=False, opaque=crypto_opaque):
        prog = body.prog
        self.body = body
        r = crypt_state(prog, short)
        if r is None:
            raise Unsupported('no group state found in ' + short)
        self.steps, self.roles = r
        self.modified = modified
        self.e = Engine(prog.crate, StdModels(), opaque=opaque, memkeys=memkeys)
        self.e.on_copy = self.on_copy
        self.e.hook = self.hook
        self.e.hook_out = self.hook_out
        self.e.ghostkeys = ('modified', 'sealed')
        self.seals = set()
        self.e.start(body, setup=self.setup)
        self.e.run()
        CTX.clear()
        CTX.update(self.ctx)
        self.p = Prover(self.e)
        self.p.templates.append(self.cached_group)
        if self.roles['filled_groups']:
            self.p.templates.append(self.fg_grows)

    def at(self, st, role):
        """(root, path) of a role in a state"""
        return self.root, self.path + (self.roles[role],)

    def val(self, st, role):
        r, p = self.at(st, role)
        return self.e.read(st, r, p)

    def setup(self, e, st, f):
        selfv = st.store[('L', f.id, 1)]
        self.root, self.path = walk(e, st, selfv, self.steps)
        self.ctx = {}
        for r in ('pos', 'data_offset', 'data_size', 'filled_groups'):
            if self.roles[r]:
                v = self.val(st, r)
                NN.setdefault(v, 64)
                self.ctx[{'pos': 'p0', 'data_offset': 'd0', 'data_size': 'size', 'filled_groups': 'fg0'}[r]] = v
        g = self.val(st, 'group')
        self.ctx['grp0'] = g
        self.ctx['g0'] = proj(g, ('Some', '0'))
        NN.setdefault(self.ctx['g0'], 64)
        if self.modified == 1:
            # user bytes are pending: the stream must know about them
            r, p = self.at(st, 'group')
            e.write(st, r, p, agg('std::option::Option', 'Some', {('Some', '0'): self.ctx['g0']}))
            if self.roles['dirty']:
                r, p = self.at(st, 'dirty')
                e.write(st, r, p, 1)
        self.ctx['key0'] = mk('sym', 'KEY')
        e.write(st, self.root, self.path + (self.roles['key'],), mk('cat', ((self.ctx['key0'], 0, 16),), 16))
        box = self.val(st, 'cache')
        self.croot, self.cpath = e.deref(st, box)
        self.ctx['cache0'] = mk('sym', 'CACHE')
        e.write(st, self.croot, self.cpath, mk('cat', ((self.ctx['cache0'], 0, GS),), GS))
        self.h3root = None
        if self.roles['h3']:
            self.ctx['h3v'] = self.val(st, 'h3')
            h3 = proj(self.val(st, 'h3'), ('Some', '0'))
            self.h3root = e.deref(st, h3)
        CTX.clear()
        CTX.update(self.ctx)
        # parameter buffers
        self.bufs = {}
        for i in range(2, self.body.argc + 1):
            v = st.store[('L', f.id, i)]
            if v.__class__ is T and v.op == 'slice':
                self.bufs[v.a[0]] = v
                self.buf = v
        G = st.store
        G[('G', 'filled')] = 0
        G[('G', 'holds')] = self.ctx['g0']
        G[('G', 'sealed')] = 0
        G[('G', 'modified')] = 1 if self.modified else 0
        G[('G', 'slot')] = -1
        G[('G', 'lastwrite')] = -1

    # ---- ghost updates
    def snap(self, ev, st):
        for k in ('holds', 'sealed', 'modified', 'slot', 'filled'):
            ev.info['g_' + k] = st.store[('G', k)]
        ev.info['label'] = self.val(st, 'group')
        if self.roles['filled_groups']:
            ev.info['fg'] = self.val(st, 'filled_groups')

    def on_copy(self, c, d, s):
        st = c.st
        ev = c.e.cur.events[-1]
        user = next((x for x in (d, s) if x.a[0] in self.bufs), None)
        if self.is_cache(d) or user is not None:
            self.snap(ev, st)
        if user is not None:
            st.store[('G', 'filled')] = add(user.a[2], user.a[3])
        if self.is_cache(d) and user is not None:
            lab = ev.info['label']
            st.store[('G', 'holds')] = proj(lab, ('Some', '0'))
            st.store[('G', 'modified')] = 1
            st.store[('G', 'sealed')] = 0
        if self.h3root is not None and (d.a[0], d.a[1]) == self.h3root:
            st.store[('G', 'slot')] = d.a[2]
            ev.info['h3'] = True
            self.snap(ev, st)

    def hook(self, ev, st):
        G = st.store
        if ev.name == 'vec.extend':
            self.snap(ev, st)
        elif ev.name.startswith('stream.read') and 'buf' in ev.info and self.is_cache(ev.info['buf']):
            self.snap(ev, st)
            x = sub(ev.info['pos'], self.ctx['d0'])
            c, ts = lin_parts(x)
            b = ev.info['buf']
            if c % GS == 0 and all(v % GS == 0 for _, v in ts) and b.a[2] == 0 and b.a[3] == GS and ev.name == 'stream.read_exact':
                G[('G', 'holds')] = div(x, GS)
            else:
                G[('G', 'holds')] = BROKEN
            ev.info['load'] = x
            G[('G', 'sealed')] = 0
            G[('G', 'modified')] = 0
        elif ev.name == 'crypt' and self.is_cache(ev.args[0]):
            if ev.info['mode'] == 'aesenc':
                if G[('G', 'sealed')] != 1:
                    self.snap(ev, st)
                    ev.info['seal'] = True
                G[('G', 'sealed')] = 1
        elif ev.name.startswith('call:') and ev.info.get('body') is not None and ev.info['body'].path in pure_crypto(self.body.prog):
            hit = False
            for a in ev.args:
                if self.points(st, a, (self.croot, self.cpath)) is not None:
                    hit = True
            if hit:
                self.snap(ev, st)
                if encrypts(self.body.prog, ev.info['body'].path):
                    ev.info['seal'] = True
                    self.seals.add(ev.info['body'].path)
                    G[('G', 'sealed')] = 1
                    if self.h3root is not None:
                        for a in ev.args:
                            o = self.points(st, a, self.h3root)
                            if o is not None:
                                G[('G', 'slot')] = o
                else:
                    G[('G', 'sealed')] = 0
        elif ev.name in ('stream.write_all', 'stream.write') and self.is_cache(ev.args[1]):
            self.snap(ev, st)
            ev.info['store'] = True

    def hook_out(self, st, val, evs):
        k = val.a[1] if val.__class__ is T and val.op == 'agg' else None
        for ev in evs:
            if ev.info.get('load') is not None and k == 'Err':
                st.store[('G', 'holds')] = BROKEN
            if ev.info.get('store') and k == 'Ok':
                st.store[('G', 'modified')] = 0
                st.store[('G', 'lastwrite')] = st.store[('G', 'holds')]

    def points(self, st, v, target, d=0):
        """offset when v (a pointer, or an Option of one) points into the memory at target"""
        if v.__class__ is not T or d > 3:
            return None
        if v.op == 'slice':
            return v.a[2] if (v.a[0], v.a[1]) == target else None
        if v.op == 'agg':
            for k, x in v.a[2]:
                r = self.points(st, x, target, d + 1)
                if r is not None:
                    return r
            return None
        if v.op == 'ref':
            if (v.a[0], v.a[1]) == target:
                return 0
            if v.a[0].__class__ is tuple and v.a[0][0] == 'S':
                return self.points(st, v.a[0][1], target, d + 1)
            return None
        return 0 if self.e.deref(st, v) == target else None

    def cached_group(self, node):
        """template: whenever the stream says group g is in memory, the memory holds group g"""
        g = self.val(node.st, 'group')
        some = teq(disc_of(g, ENUMS.get('core::option::Option') or ENUMS.get('std::option::Option')), 1)
        x = sub(node.st.store[('G', 'holds')], proj(g, ('Some', '0')))
        if isint(x):
            return None
        if isint(some):
            return (frozenset(), 'eq', x) if some else None
        return frozenset([some]), 'eq', x

    def fg_grows(self, node):
        x = sub(self.val(node.st, 'filled_groups'), self.ctx['fg0'])
        return None if isint(x) else (frozenset(), 'ge', x)

    def is_cache(self, s):
        return s.__class__ is T and s.op == 'slice' and (s.a[0], s.a[1]) == (self.croot, self.cpath)

    def cache(self, st):
        return self.e.read(st, self.croot, self.cpath)


def encrypts(prog, path, seen=None):
    """does the function (or one it calls) encrypt?"""
    seen = seen if seen is not None else set()
    if path in seen:
        return False
    seen.add(path)
    for b in prog.bodies.values():
        if b.path == path:
            for blk in b.blocks:
                t = blk['t']
                if t[0] == 'call' and 'encrypt' in str(t[1].get('m') or '') + str(t[1].get('p') or ''):
                    return True
    return any(encrypts(prog, x, seen) for x in prog.cg.get(path, ()))


def view_of(content):
    """the (underlying content, off, len) of a copied piece list"""
    if len(content) == 1:
        a, o, l = content[0]
        if a.op == 'view' and o == 0:
            return a.a[0]
        if a.op != 'view':
            return mk('whole', a)
    return None


def addr_obligations(rep, run, rule, ev, r, n, logical):
    """cache offset r holds logical position `logical`"""
    p = run.p
    g = ev.info['g_holds']
    q = div(r, BS)
    w = ev.where()
    e = sub(add(mulc(g, GD), sub(sub(r, mulc(q, HDR)), HDR)), logical)
    rep.oblige(p, rule, 'eq', e, ev.node, ev.facts, w, 'memory offset and group correspond to the logical position')
    inb = sub(r, mulc(q, BS))
    rep.oblige(p, rule, 'ge', sub(inb, HDR), ev.node, ev.facts, w, 'transfer starts behind the block header')
    rep.oblige(p, rule, 'ge', sub(sub(BS, inb), n), ev.node, ev.facts, w, 'transfer stays inside one block')


def oblige_cond(rep, p, rule, cond, node, facts, where, msg):
    if isint(cond):
        if cond:
            rep.ok(rule, where, msg)
        else:
            rep.oblige(p, rule, 'eq', 1, node, facts, where, msg)
    elif cond.op == 'lt0':
        rep.oblige(p, rule, 'ge', sub(neg(cond.a[0]), 1), node, facts, where, msg)
    elif cond.op == 'eq0':
        rep.oblige(p, rule, 'eq', cond.a[0], node, facts, where, msg)


def bounds_obligations(rep, run, rule):
    """no access to the group memory or the caller buffer fails its bounds check (a panic in the middle of a transfer)"""
    for p in run.e.all_panics():
        if p.kind not in ('slice-index', 'split_at', 'copy_from_slice'):
            continue
        ss = [x for x in p.info if x.__class__ is T and x.op == 'slice']
        if any(run.is_cache(s) or s.a[0] in run.bufs for s in ss):
            oblige_cond(rep, run.p, rule, p.cond, p.node, p.facts, f'{p.file}:{p.line} in {p.fn}', 'the access lies inside the buffer')


def run_exits(run):
    for x in run.e.all_exits():
        v = x.ret
        k = v.a[1] if v.__class__ is T and v.op == 'agg' else None
        yield x, k


def where_exit(x):
    n = x.node
    return f'{n.frame.body.file}:{n.frame.body.line} in {n.frame.body.short()}'


def rule_read(rep, prog):
    """C05, sequential reads"""
    b = impl_method(prog, 'CryptPartReader', 'Read', 'read')
    if b is None:
        rep.viol('api', 'CryptPartReader', 'Read::read is missing')
        return
    run = GroupRun(b, 'CryptPartReader')
    rep.entry(run.e)
    p0, size = CTX['p0'], CTX.get('size')
    n = 0
    for ev in run.e.all_events():
        if ev.name == 'copy' and ev.args[0].a[0] in run.bufs:
            d, s = ev.args
            n += 1
            if not run.is_cache(s):
                rep.undecided('C05.source', ev.where(), 'destination filled from something other than the group memory')
                continue
            addr_obligations(rep, run, 'C05.addr', ev, s.a[2], s.a[3], add(p0, d.a[2]))
            rep.oblige(run.p, 'C05.contiguous', 'eq', sub(d.a[2], ev.info['g_filled']), ev.node, ev.facts, ev.where(), 'pieces are laid down without gap or overlap')
            if size is not None:
                rep.oblige(run.p, 'C05.end', 'ge', sub(sub(size, add(p0, d.a[2])), 1), ev.node, ev.facts, ev.where(), 'nothing is read at or behind the end of the data')
    bounds_obligations(rep, run, 'C05.bounds')
    if not n:
        rep.undecided('C05.addr', where_body(b), 'no transfer into the caller buffer recognised')
    for x, k in run_exits(run):
        if k == 'Ok':
            ret = proj(x.ret, ('Ok', '0'))
            fill = x.st.store[('G', 'filled')]
            pos = run.val(x.st, 'pos')
            rep.oblige(run.p, 'C05.count', 'eq', sub(ret, fill), x.node, x.st.facts, where_body(b), 'the returned count is the number of bytes delivered')
            rep.oblige(run.p, 'C05.advance', 'eq', sub(sub(pos, p0), fill), x.node, x.st.facts, where_body(b), 'the position advances by the delivered count')
            if size is not None:
                f2 = set(x.st.facts) | {tle(1, run.buf.a[3]), tlt(p0, size)}
                rep.oblige(run.p, 'C05.progress', 'ge', sub(ret, 1), x.node, f2, where_body(b), 'a read inside the data delivers at least one byte')
        elif k is None:
            rep.undecided('C05.count', where_body(b), 'exit with unknown result')


def where_body(b):
    return f'{b.file}:{b.line} in {b.short()}'


def rule_read_vec(rep, prog):
    b = inherent(prog, 'CryptPartReader', 'read_into_vec')
    if b is None:
        rep.viol('api', 'CryptPartReader', 'read_into_vec is missing')
        return
    run = GroupRun(b, 'CryptPartReader')
    rep.entry(run.e)
    off = mk('sym', b.locals[2][1])
    ln = mk('sym', b.locals[3][1])
    size = CTX.get('size')
    vec = mk('sym', b.locals[4][1])
    n = 0
    for ev in run.e.all_events():
        if ev.name == 'vec.extend' and ev.args[0].a[0] == ('D', vec):
            n += 1
            s = ev.args[1]
            if not run.is_cache(s):
                rep.undecided('C05.source', ev.where(), 'vector filled from something other than the group memory')
                continue
            addr_obligations(rep, run, 'C05.addr', ev, s.a[2], s.a[3], add(off, ev.info['before']))
            if size is not None:
                rep.oblige(run.p, 'C05.end', 'ge', sub(sub(size, add(off, ev.info['before'])), 1), ev.node, ev.facts, ev.where(), 'nothing is read at or behind the end of the data')
    # bytes that come from nowhere: the vector is lengthened although it is only ever filled by appending
    slices = any(a.__class__ is T and a.op == 'slice' and a.a[0] == ('D', vec) for ev in run.e.all_events() for a in ev.args)
    for ev in run.e.all_events():
        if ev.name == 'vec.resize' and ev.args[0].a[0] == ('D', vec) and n and not slices:
            if run.p.query('ge', sub(ev.info['before'], ev.args[1]), ev.node, ev.facts, 2):
                rep.ok('C05.pad', ev.where(), 'the vector is not lengthened')
            elif run.p.query('ge', sub(sub(ev.args[1], ev.info['before']), 1), ev.node, ev.facts, 2):
                rep.viol('C05.pad', ev.where(), 'the vector is lengthened by bytes that are not from the data')
            else:
                rep.undecided('C05.pad', ev.where(), 'the vector may be lengthened')
    bounds_obligations(rep, run, 'C05.bounds')
    if not n:
        rep.undecided('C05.addr', where_body(b), 'no transfer into the vector recognised')
    for x, k in run_exits(run):
        pos = run.val(x.st, 'pos')
        rep.oblige(run.p, 'C05.random-access', 'eq', sub(pos, CTX['p0']), x.node, x.st.facts, where_body(b), 'random-access reads leave the position alone')
        if k == 'Ok':
            l = run.e.value_len(run.e.read(x.st, ('D', vec), ()))
            rep.oblige(run.p, 'C05.count', 'eq', sub(l, ln), x.node, x.st.facts, where_body(b), 'the vector holds exactly the requested number of bytes')


def rule_seek(rep, prog, short, rule):
    b = impl_method(prog, short, 'Seek', 'seek')
    if b is None:
        rep.viol('api', short, 'Seek::seek is missing')
        return
    run = GroupRun(b, short)
    rep.entry(run.e)
    arg = mk('sym', b.locals[2][1] or 'arg2')
    p0 = CTX['p0']
    disc = mk('disc', arg)
    for x, k in run_exits(run):
        if k != 'Ok':
            if k == 'Err':
                continue
            rep.undecided(rule, where_body(b), 'exit with unknown result')
            continue
        ret = proj(x.ret, ('Ok', '0'))
        pos = run.val(x.st, 'pos')
        rep.oblige(run.p, rule, 'eq', sub(ret, pos), x.node, x.st.facts, where_body(b), 'seek returns the new position')
        for nm, d, want in (('Start', 0, proj(arg, ('Start', '0'))), ('Current', 2, add(p0, proj(arg, ('Current', '0'))))):
            f2 = set(x.st.facts) | {eq0(sub(disc, d)), tle(0, want)}
            rep.oblige(run.p, rule, 'eq', sub(pos, want), x.node, f2, where_body(b), f'SeekFrom::{nm} selects the corresponding position')
    b = impl_method(prog, short, 'Seek', 'stream_position')
    if b is not None:
        run = GroupRun(b, short)
        rep.entry(run.e)
        for x, k in run_exits(run):
            if k == 'Ok':
                rep.oblige(run.p, rule, 'eq', sub(proj(x.ret, ('Ok', '0')), CTX['p0']), x.node, x.st.facts, where_body(b), 'stream_position returns the position')
            rep.oblige(run.p, rule, 'eq', sub(run.val(x.st, 'pos'), CTX['p0']), x.node, x.st.facts, where_body(b), 'stream_position leaves the position alone')


def c05_read(rep):
    rule_read(rep, program('disc_riider'))


def c05_read_vec(rep):
    rule_read_vec(rep, program('disc_riider'))


def c05_seek(rep):
    rule_seek(rep, program('disc_riider'), 'CryptPartReader', 'C05.seek')


# ------------------------------------------------------------------ C06
WR = 'WiiEncryptedReadWriteStream'


def rule_write(rep, prog):
    b = impl_method(prog, WR, 'Write', 'write')
    if b is None:
        rep.viol('api', WR, 'Write::write is missing')
        return
    run = GroupRun(b, WR)
    rep.entry(run.e)
    p0 = CTX['p0']
    n = 0
    blen = run.buf.a[3]
    for ev in run.e.all_events():
        if ev.name != 'copy' or not run.is_cache(ev.args[0]) or ev.args[1].a[0] not in run.bufs:
            continue
        d, s = ev.args
        n += 1
        lab = ev.info.get('label')
        g = proj(lab, ('Some', '0'))
        w = ev.where()
        if not (lab.__class__ is T and lab.op == 'agg' and lab.a[1] == 'Some'):
            rep.undecided('C06.addr', w, 'the group label is not known when the memory is modified')
            continue
        r, cnt = d.a[2], d.a[3]
        src = sub(s.a[2], run.buf.a[2])
        logical = add(p0, src)
        q = div(r, BS)
        rep.oblige(run.p, 'C06.addr', 'eq', sub(add(mulc(g, GD), sub(sub(r, mulc(q, HDR)), HDR)), logical), ev.node, ev.facts, w,
                   'memory offset and group correspond to the logical position')
        inb = sub(r, mulc(q, BS))
        rep.oblige(run.p, 'C06.hash-area', 'ge', sub(inb, HDR), ev.node, ev.facts, w, 'transfer starts behind the block header')
        rep.oblige(run.p, 'C06.hash-area', 'ge', sub(sub(BS, inb), cnt), ev.node, ev.facts, w, 'transfer stays inside one block')
        rep.oblige(run.p, 'C06.contiguous', 'eq', sub(s.a[2], ev.info['g_filled']), ev.node, ev.facts, w, 'source bytes are taken without gap or repetition')
        rep.oblige(run.p, 'C06.contiguous', 'eq', sub(s.a[3], cnt), ev.node, ev.facts, w, 'as many bytes are taken as stored')
        fg = ev.info.get('fg')
        if fg is not None:
            base = frozenset(ev.facts) | {tlt(g, fg)}
            x = sub(ev.info['g_holds'], g)
            # not a whole-group overwrite: the group begins before the write or ends behind it
            for nm, extra in (('begins before the write', tlt(mulc(g, GD), p0)), ('ends behind the write', tlt(add(p0, blen), mulc(add(g, 1), GD)))):
                if isint(extra) and not extra:
                    continue
                rep.oblige(run.p, 'C06.keep', 'eq', x, ev.node, base | ({extra} if not isint(extra) else set()), w,
                           f'a group that exists and is not overwritten whole ({nm}) is in memory when modified')
    bounds_obligations(rep, run, 'C06.bounds')
    if not n:
        rep.undecided('C06.addr', where_body(b), 'no transfer into the group memory recognised')
    for x, k in run_exits(run):
        if k == 'Ok':
            ret = proj(x.ret, ('Ok', '0'))
            fill = sub(x.st.store[('G', 'filled')], run.buf.a[2])
            pos = run.val(x.st, 'pos')
            rep.oblige(run.p, 'C06.count', 'eq', sub(ret, fill), x.node, x.st.facts, where_body(b), 'the returned count is the number of bytes stored')
            rep.oblige(run.p, 'C06.advance', 'eq', sub(sub(pos, p0), fill), x.node, x.st.facts, where_body(b), 'the position advances by the stored count')
        elif k is None:
            rep.undecided('C06.count', where_body(b), 'exit with unknown result')


def c06_write(rep):
    rule_write(rep, program('disc_riider'))


def c06_seek(rep):
    rule_seek(rep, program('disc_riider'), WR, 'C06.seek')


# ------------------------------------------------------------------ C07
def false_at(rep, run, rule, ev_or_exit, facts, where, msg):
    """the point must be unreachable"""
    rep.oblige(run.p, rule, 'eq', 1, ev_or_exit.node, facts, where, msg)


def ghost_is(rep, run, rule, v, want, x, facts, where, msg):
    if isint(v):
        if v == want:
            rep.ok(rule, where, msg)
        else:
            false_at(rep, run, rule, x, facts, where, msg)
    else:
        rep.oblige(run.p, rule, 'eq', sub(v, want), x.node, facts, where, msg)


def rule_writeback(rep, prog, m, modified, final=False):
    b = impl_method(prog, WR, 'Write', m)
    if b is None:
        rep.viol('api', WR, f'Write::{m} is missing')
        return
    run = GroupRun(b, WR, modified=modified, memkeys=True)
    rep.entry(run.e)
    stores = 0
    for ev in run.e.all_events():
        w = ev.where()
        F = frozenset(ev.facts)
        if ev.info.get('load') is not None:
            ghost_is(rep, run, 'C07.before-load', ev.info['g_modified'], 0, ev, F, w, 'pending bytes are written back before another group is loaded over them')
        if ev.name == 'copy' and run.is_cache(ev.args[0]) and ev.args[1].a[0] in run.bufs and ev.info['g_modified'] != 0:
            lab = ev.info['label']
            if lab.__class__ is T and lab.op == 'agg' and lab.a[1] == 'Some':
                f2 = F
                if not isint(ev.info['g_modified']):
                    f2 = F | {teq(ev.info['g_modified'], 1)}
                rep.oblige(run.p, 'C07.before-relabel', 'eq', sub(proj(lab, ('Some', '0')), ev.info['g_holds']), ev.node, f2, w,
                           'memory with pending bytes is not given to another group')
        if ev.info.get('seal'):
            ghost_is(rep, run, 'C07.seal-once', ev.info['g_sealed'], 0, ev, F, w, 'a group is hashed and encrypted once per write-back')
        if ev.info.get('store'):
            stores += 1
            s = ev.args[1]
            holds = ev.info['g_holds']
            ghost_is(rep, run, 'C07.sealed', ev.info['g_sealed'], 1, ev, F, w, 'only hashed and encrypted groups are written')
            rep.oblige(run.p, 'C07.whole', 'eq', s.a[2], ev.node, F, w, 'the group is written from its first byte')
            rep.oblige(run.p, 'C07.whole', 'eq', sub(s.a[3], GS), ev.node, F, w, 'the group is written whole')
            if ev.name != 'stream.write_all':
                rep.viol('C07.whole', w, 'a single write may store only a part of the group')
            rep.oblige(run.p, 'C07.place', 'eq', sub(sub(ev.info['pos'], CTX['d0']), mulc(holds, GS)), ev.node, F, w, 'the group is written at its own position')
            if run.h3root is not None:
                f2 = F | {teq(mk('disc', run.ctx['h3v']), 1)}
                rep.oblige(run.p, 'C07.h3-slot', 'eq', sub(ev.info['g_slot'], mulc(holds, 20)), ev.node, f2, w, 'the digest of the group goes to its own slot of the H3 table')
    if not stores and modified:
        rep.undecided('C07.place', where_body(b), 'no write-back recognised')
    for x, k in run_exits(run):
        if k != 'Ok':
            continue
        G = x.st.store
        F = frozenset(x.st.facts)
        w = where_body(b)
        md = G[('G', 'modified')]
        lw = G[('G', 'lastwrite')]
        if final:
            ghost_is(rep, run, 'C07.flush', md, 0, x, F, w, 'flush reports success only when nothing is pending')
        elif md != 0:
            f2 = F if isint(md) else F | {teq(md, 1)}
            if run.roles['dirty']:
                d = run.val(x.st, 'dirty')
                if isint(d):
                    if d != 1:
                        false_at(rep, run, 'C07.remember', x, f2, w, 'pending bytes are remembered')
                    else:
                        rep.ok('C07.remember', w, 'pending bytes are remembered')
            g = run.val(x.st, 'group')
            if g.__class__ is T and g.op == 'agg':
                if g.a[1] == 'Some':
                    rep.oblige(run.p, 'C07.remember', 'eq', sub(proj(g, ('Some', '0')), G[('G', 'holds')]), x.node, f2, w, 'the group of pending bytes is remembered')
                else:
                    false_at(rep, run, 'C07.remember', x, f2, w, 'the group of pending bytes is remembered')
        sealed = G[('G', 'sealed')]
        g = run.val(x.st, 'group')
        if sealed != 0 and g.__class__ is T and g.op == 'agg' and g.a[1] == 'Some':
            # what the memory holds now is ciphertext: nobody may take it for the plain bytes of that group
            f2 = F if isint(sealed) else F | {teq(sealed, 1)}
            false_at(rep, run, 'C07.stale', x, f2, w, 'memory that was encrypted for write-back is not kept as the plain content of its group')
        if run.roles['filled_groups'] and lw != -1:
            fg = run.val(x.st, 'filled_groups')
            rep.oblige(run.p, 'C07.exists', 'ge', sub(sub(fg, lw), 1), x.node, F, w, 'written groups count as existing')
            rep.oblige(run.p, 'C07.exists', 'ge', sub(fg, CTX['fg0']), x.node, F, w, 'existing groups stay existing')


def c07_write(rep):
    rule_writeback(rep, program('disc_riider'), 'write', 1)


def c07_write_clean(rep):
    rule_writeback(rep, program('disc_riider'), 'write', 0)


def c07_flush(rep):
    rule_writeback(rep, program('disc_riider'), 'flush', 1, True)


# ------------------------------------------------------------------ C09
def rule_poison(rep, b, short, modified=None):
    run = GroupRun(b, short, modified=modified)
    rep.entry(run.e)
    n = 0
    w = where_body(b)
    loads = [ev for ev in run.e.all_events() if ev.info.get('load') is not None]
    for x in run.e.all_exits():
        v = x.ret
        k = v.a[1] if v.__class__ is T and v.op == 'agg' else None
        g = run.val(x.st, 'group')
        F = frozenset(x.st.facts)
        if g.__class__ is T and g.op == 'agg':
            if g.a[1] == 'None':
                n += 1
                rep.ok('C09.label', w, f'after {k or "return"} no group counts as loaded')
                continue
        else:
            f = teq(disc_of(g, ENUMS.get('std::option::Option') or ENUMS.get('core::option::Option')), 1)
            if isint(f):
                if not f:
                    continue
            else:
                F = F | {f}
        n += 1
        rep.oblige(run.p, 'C09.label', 'eq', sub(x.st.store[('G', 'holds')], proj(g, ('Some', '0'))), x.node, F, w,
                   f'after {k or "return"}, a group marked as loaded is the one in memory')
    for ev in loads:
        rep.ok('C09.load', ev.where(), 'load of the group memory analysed')


def c09_reader(rep):
    prog = program('disc_riider')
    for b in (impl_method(prog, 'CryptPartReader', 'Read', 'read'), inherent(prog, 'CryptPartReader', 'read_into_vec')):
        if b is not None:
            rule_poison(rep, b, 'CryptPartReader')
            rep.flush()


def c09_writer(rep):
    prog = program('disc_riider')
    for m in ('write', 'flush'):
        b = impl_method(prog, WR, 'Write', m)
        if b is not None:
            rule_poison(rep, b, WR)
            rep.flush()

