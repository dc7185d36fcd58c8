"""Rules about IOWindow: C10."""
from terms import *
from engine import Engine, UNDEF, Unsupported
from models import StdModels
from prover import Prover
from common import *
from report import TCTX as CTX, subtractions
from rules_group import run_exits, where_body, false_at

W = 'IOWindow'


def field_constants(prog, short, name):
    """values stored to a bool field of a struct anywhere: set of 0, 1, None (unknown)"""
    out = set()
    for b in prog.bodies.values():
        for blk in b.blocks:
            if blk['cl']:
                continue
            for s in blk['s']:
                if s[0] != '=':
                    continue
                p, rv = s[1], s[2]
                if len(p) > 1 and p[-1].__class__ is list and p[-1][0] == 'f' and p[-1][2] == name:
                    k = rv[1].get('k') if rv[0] == 'use' else None
                    out.add(int(k['int']) if k and 'int' in k else None)
                if rv[0] == 'agg' and rv[1][0] == 'adt' and str(rv[1][1]).split('::')[-1] == short:
                    n, fs = struct_fields(prog, short)
                    i = [f[0] for f in fs].index(name)
                    o = rv[2][i]
                    k = o.get('k')
                    out.add(int(k['int']) if k and 'int' in k else None)
    return out


class WinRun:
    def __init__(self, body, flag, length):
        """flag: value of the 'must seek' flag on entry (None: no such field); length: is the window limited?"""
        prog = body.prog
        self.body = body
        n, fs = struct_fields(prog, W)
        if fs is None:
            raise Unsupported('IOWindow not found')
        u64 = [f[0] for f in fs if f[1] == 'u64']
        pos = returned_field(prog, W)
        self.posf = pos if pos in u64 else 'pos'
        left = [x for x in u64 if x != self.posf]
        self.startf = 'start' if 'start' in left else left[0]
        self.lenf = next(f[0] for f in fs if f[1].replace(' ', '') == 'std::option::Option<u64>')
        self.flagf = next((f[0] for f in fs if f[1] == 'bool'), None)
        self.srcf = next(f[0] for f in fs if f[1] in ('R', 'S', 'T') or f[0] == 'source')
        self.flag, self.length = flag, length
        e = self.e = Engine(prog.crate, StdModels())
        e.ghostkeys = ('srcfail',)
        e.hook = self.hook
        e.hook_out = self.hook_out
        e.start(body, setup=self.setup)
        e.run()
        CTX.clear()
        CTX.update(self.ctx)
        self.p = Prover(e)

    def val(self, st, f):
        return self.e.read(st, self.root, self.path + (f,))

    def srcpos(self, st):
        return self.e.read(st, self.root, self.path + (self.srcf, '#pos'))

    def setup(self, e, st, f):
        selfv = st.store[('L', f.id, 1)]
        self.root, self.path = e.deref(st, selfv)
        self.ctx = {}
        for k, r in (('p0', self.posf), ('start', self.startf)):
            v = self.val(st, r)
            NN.setdefault(v, 64)
            self.ctx[k] = v
        l = self.val(st, self.lenf)
        if self.length:
            ln = mk('sym', 'LENGTH')
            NN.setdefault(ln, 64)
            self.ctx['len'] = ln
            e.write(st, self.root, self.path + (self.lenf,), agg('std::option::Option', 'Some', {('Some', '0'): ln}))
        else:
            e.write(st, self.root, self.path + (self.lenf,), agg('std::option::Option', 'None', {}))
        if self.flagf is not None:
            e.write(st, self.root, self.path + (self.flagf,), self.flag)
        if not self.flag:
            e.write(st, self.root, self.path + (self.srcf, '#pos'), add(self.ctx['p0'], self.ctx['start']))
        self.bufs = {}
        self.buf = None
        for i in range(2, self.body.argc + 1):
            v = st.store[('L', f.id, i)]
            if v.__class__ is T and v.op == 'slice':
                self.bufs[v.a[0]] = v
                self.buf = v
        st.store[('G', 'filled')] = 0
        st.store[('G', 'srcfail')] = 0

    def hook(self, ev, st):
        if ev.name.startswith('stream.') or ev.name in ('seek', 'stream_position'):
            ev.info['srcop'] = True
            ev.info['g_filled'] = st.store[('G', 'filled')]
            ev.info['winpos'] = self.val(st, self.posf)

    def hook_out(self, st, val, evs):
        k = val.a[1] if val.__class__ is T and val.op == 'agg' else None
        for ev in evs:
            if ev.info.get('srcop'):
                if k == 'Err':
                    st.store[('G', 'srcfail')] = 1
                elif k == 'Ok' and ev.name.startswith('stream.') and 'n' in ev.info:
                    st.store[('G', 'filled')] = add(ev.info['g_filled'], ev.info['n'])


def modes(prog):
    n, fs = struct_fields(prog, W)
    if fs is None:
        raise Unsupported('IOWindow not found')
    flagf = next((f[0] for f in fs if f[1] == 'bool'), None)
    flags = [1]
    if flagf is not None:
        c = field_constants(prog, W, flagf)
        flags = [1] if c == {1} else [1, 0]
    return [(f, l) for f in flags for l in (True, False)]


def rest(run):
    return sub(run.ctx['len'], run.ctx['p0'])


def rule_transfer(rep, prog, trait, m):
    b = impl_method(prog, W, trait, m)
    if b is None:
        if m in ('read', 'write'):
            rep.viol('api', W, f'{trait}::{m} is missing')
        return
    for flag, limited in modes(prog):
        run = WinRun(b, flag, limited)
        rep.entry(run.e)
        p0, start = run.ctx['p0'], run.ctx['start']
        blen = run.buf.a[3]
        n = 0
        for ev in run.e.all_events():
            if not ev.info.get('srcop') or not ev.name.startswith('stream.') or 'n' not in ev.info:
                continue
            n += 1
            w = ev.where()
            F = frozenset(ev.facts)
            s = ev.args[1]
            g = ev.info['g_filled']
            rep.oblige(run.p, 'C10.place', 'eq', sub(ev.info['pos'], add(add(start, p0), g)), ev.node, F, w, 'the source is accessed at start + window position')
            if s.__class__ is T and s.op == 'slice':
                rep.oblige(run.p, 'C10.buffer', 'eq', sub(sub(s.a[2], run.buf.a[2]), g), ev.node, F, w, 'the caller buffer is used from its beginning')
                rep.oblige(run.p, 'C10.buffer', 'ge', sub(sub(blen, sub(s.a[2], run.buf.a[2])), s.a[3]), ev.node, F, w, 'the caller buffer is not exceeded')
                if limited:
                    # a request of length 0 touches nothing
                    rep.oblige(run.p, 'C10.inside', 'ge', sub(sub(rest(run), g), s.a[3]), ev.node, F | {tle(1, s.a[3])}, w, 'the source is not accessed behind the window')
        if not n:
            rep.undecided('C10.place', where_body(b), 'no source access recognised')
        subtractions(rep, run, 'C10.range')
        for x, k in run_exits(run):
            w = where_body(b)
            F = frozenset(x.st.facts)
            G = x.st.store
            adv = sub(run.val(x.st, run.posf), p0)
            if k == 'Ok':
                if m in ('read', 'write'):
                    ret = proj(x.ret, ('Ok', '0'))
                    rep.oblige(run.p, 'C10.count', 'eq', sub(ret, G[('G', 'filled')]), x.node, F, w, 'the returned count is the number of bytes transferred')
                    f2 = F | {tle(1, blen)}
                    if limited:
                        f2 = f2 | {tle(1, rest(run))}
                else:
                    rep.oblige(run.p, 'C10.whole', 'eq', sub(G[('G', 'filled')], blen), x.node, F, w, 'success means that the whole buffer was transferred')
                rep.oblige(run.p, 'C10.advance', 'eq', sub(adv, G[('G', 'filled')]), x.node, F, w, 'the window position advances by the transferred count')
                if run.flagf is not None and run.val(x.st, run.flagf) == 0:
                    rep.oblige(run.p, 'C10.in-step', 'eq', sub(run.srcpos(x.st), add(start, run.val(x.st, run.posf))), x.node, F, w, 'without a pending seek the source stands at the window position')
            elif k == 'Err':
                if G[('G', 'srcfail')] == 0:
                    f2 = F
                    if limited:
                        f2 = F | {tle(blen, rest(run))}
                    rep.oblige(run.p, 'C10.fits', 'eq', 1, x.node, f2, w, 'a transfer that fits the window is not refused')
                elif run.flagf is not None and run.val(x.st, run.flagf) == 0:
                    rep.oblige(run.p, 'C10.in-step', 'eq', sub(run.srcpos(x.st), add(start, run.val(x.st, run.posf))), x.node, F, w, 'after a failure the next access seeks again')
            elif k is None and not (x.ret.__class__ is T and x.ret.op == 'phi'):
                rep.undecided('C10.count', w, 'exit with unknown result')
        # how much is requested from the source
        if m in ('read', 'write') and n == 1:
            for ev in run.e.all_events():
                if ev.info.get('srcop') and ev.name.startswith('stream.') and 'n' in ev.info:
                    F = frozenset(ev.facts) | {tle(1, blen)}
                    if limited:
                        F = F | {tle(1, rest(run))}
                    rep.oblige(run.p, 'C10.progress', 'ge', sub(ev.info['want'], 1), ev.node, F, ev.where(), 'inside the window at least one byte is asked for')
        rep.flush()


def rule_seek(rep, prog):
    b = impl_method(prog, W, 'Seek', 'seek')
    if b is None:
        rep.viol('api', W, 'Seek::seek is missing')
        return
    for flag, limited in modes(prog):
        run = WinRun(b, flag, limited)
        rep.entry(run.e)
        p0, start = run.ctx['p0'], run.ctx['start']
        arg = mk('sym', b.locals[2][1] or 'arg2')
        d = mk('disc', arg)
        wants = [('Start', 0, proj(arg, ('Start', '0'))), ('Current', 2, add(p0, proj(arg, ('Current', '0'))))]
        if limited:
            wants.append(('End', 1, add(run.ctx['len'], proj(arg, ('End', '0')))))
        w = where_body(b)
        for x, k in run_exits(run):
            F = frozenset(x.st.facts)
            pos = run.val(x.st, run.posf)
            if k == 'Ok':
                ret = proj(x.ret, ('Ok', '0'))
                rep.oblige(run.p, 'C10.seek', 'eq', sub(ret, pos), x.node, F, w, 'seek returns the new window position')
                for nm, i, want in wants:
                    f2 = F | {eq0(sub(d, i)), tle(0, want), tle(add(want, start), (1 << 64) - 1)}
                    rep.oblige(run.p, 'C10.seek', 'eq', sub(pos, want), x.node, f2, w, f'SeekFrom::{nm} selects the corresponding window position' + (' (limited window)' if limited else ''))
                if run.flagf is not None and run.val(x.st, run.flagf) == 0:
                    rep.oblige(run.p, 'C10.in-step', 'eq', sub(run.srcpos(x.st), add(start, pos)), x.node, F, w, 'without a pending seek the source stands at the window position')
            elif k == 'Err' and x.st.store[('G', 'srcfail')] == 0:
                for nm, i, want in wants:
                    f2 = F | {eq0(sub(d, i)), tle(0, want), tle(add(want, start), (1 << 64) - 1)}
                    rep.oblige(run.p, 'C10.seek-fits', 'eq', 1, x.node, f2, w, f'SeekFrom::{nm} to a valid position is not refused')
        for pn in run.e.all_panics():
            if pn.kind == 'overflow' and pn.info[0] == 'Sub' and pn.file.startswith('src/') and pn.cond.__class__ is T and pn.cond.op == 'not':
                o = pn.cond.a[0]
                if o.__class__ is T and o.op == 'bool' and len(o.a) == 5 and o.a[0] == 'ovf' and o.a[4] == 0:
                    rep.oblige(run.p, 'C10.seek-before', 'ge', sub(pn.info[1], pn.info[2]), pn.node, pn.facts, f'{pn.file}:{pn.line} in {pn.fn}',
                               'a seek before the start of the window is clamped or refused, not an arithmetic underflow')
        rep.flush()
    b = impl_method(prog, W, 'Seek', 'stream_position')
    if b is not None:
        for flag, limited in modes(prog):
            run = WinRun(b, flag, limited)
            rep.entry(run.e)
            for x, k in run_exits(run):
                w = where_body(b)
                if k == 'Ok':
                    rep.oblige(run.p, 'C10.position', 'eq', sub(proj(x.ret, ('Ok', '0')), run.ctx['p0']), x.node, x.st.facts, w, 'stream_position returns the window position')
                rep.oblige(run.p, 'C10.position', 'eq', sub(run.val(x.st, run.posf), run.ctx['p0']), x.node, x.st.facts, w, 'stream_position leaves the position alone')
            rep.flush()


def rule_new(rep, prog):
    b = inherent(prog, W, 'new')
    if b is None:
        rep.viol('api', W, 'new is missing')
        return
    e = Engine(prog.crate, StdModels())
    e.start(b)
    e.run()
    p = Prover(e)
    rep.entry(e)
    n, fs = struct_fields(prog, W)
    u64 = [f[0] for f in fs if f[1] == 'u64']
    pos = returned_field(prog, W) or 'pos'
    startf = 'start' if 'start' in u64 else [x for x in u64 if x != pos][0]
    lenf = next(f[0] for f in fs if f[1].replace(' ', '') == 'std::option::Option<u64>')
    flagf = next((f[0] for f in fs if f[1] == 'bool'), None)
    for x in e.all_exits():
        w = where_body(b)
        v = x.ret
        if not (v.__class__ is T and v.op == 'agg'):
            rep.undecided('C10.new', w, 'result not understood')
            continue
        a = [mk('sym', b.locals[i][1] or f'arg{i}') for i in (2, 3)]
        rep.oblige(p, 'C10.new', 'eq', proj(v, pos), x.node, x.st.facts, w, 'a new window stands at its beginning')
        rep.oblige(p, 'C10.new', 'eq', sub(proj(v, startf), a[0]), x.node, x.st.facts, w, 'the window starts at the given position')
        l = proj(v, lenf)
        if l is a[1]:
            rep.ok('C10.new', w, 'the window has the given length')
        elif l.__class__ is T and l.op in ('agg', 'sym'):
            if l.op == 'agg' and l.a[1] == 'Some':
                rep.oblige(p, 'C10.new', 'eq', sub(proj(l, ('Some', '0')), proj(a[1], ('Some', '0'))), x.node, x.st.facts, w, 'the window has the given length')
            else:
                f = frozenset(x.st.facts) | {teq(mk('disc', a[1]), 1)}
                rep.oblige(p, 'C10.new', 'eq', 1, x.node, f, w, 'a limited window stays limited')
        if flagf is not None:
            f = proj(v, flagf)
            if isint(f) and f == 0:
                rep.viol('C10.new', w, 'a new window must not assume that the source stands at its start')
            elif isint(f):
                rep.ok('C10.new', w, 'the first access seeks')


def c10_new(rep):
    rule_new(rep, program('disc_riider'))


def c10_read(rep):
    p = program('disc_riider')
    rule_transfer(rep, p, 'Read', 'read')
    rule_transfer(rep, p, 'Read', 'read_exact')


def c10_write(rep):
    p = program('disc_riider')
    rule_transfer(rep, p, 'Write', 'write')
    rule_transfer(rep, p, 'Write', 'write_all')


def c10_seek(rep):
    rule_seek(rep, program('disc_riider'))
