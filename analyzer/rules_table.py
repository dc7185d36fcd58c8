"""Writing a file tree as a file system table and parsing it back (C11).

Both directions are recursive functions over one list of entries. Each is run by the abstract interpreter with the recursive call as an event
(induction hypothesis: the call handles the children correctly and leaves the running index one past them) and the state graph is multiplied
with an automaton over the events of one entry. The automata of the two directions describe the same table, so together they give the round trip."""
from rules_tree import *
from rules_tree import atoms_phi
from rules_section import subterms
import rules_layout


class Ex:
    """place of an exit, for reports"""

    def __init__(self, body):
        self.b = body

    def where(self):
        return f'{self.b.file}:{self.b.line} in {self.b.short()}'


def rootof(body, i):
    return ('D', mk('sym', pname(body, i)))


def by_type(body, rx):
    return [i for i in range(1, body.argc + 1) if re.search(rx, body.lty(i)['s'])]


def clean(p):
    return tuple(x for x in p if x != '#buf')


OLD = mk('sym', '#earlier')


def renamed(t, m):
    """a term carried into the join m, whose merged values now mean the next round"""
    return OLD if t.__class__ is T and any(p.a[0] == m.id for p in atoms_phi(t)) else t


class Auto:
    def __init__(self, rep, run, rule):
        self.rep, self.run, self.rule = rep, run, rule
        self.bad, self.unk, self.seen, self.lost = [], [], {}, []

    def fail(self, fl, ev, msg):
        (self.unk if 'unk' in fl else self.bad).append((ev.where(), msg))

    def note(self, k, ev):
        self.seen.setdefault(k, set()).add((ev.file, ev.line))

    def is_root(self, v, root):
        return v.__class__ is T and all(l[0] == root and clean(l[1]) == () for l in self.run.ptrs(v))

    def touches(self, v, root):
        return v.__class__ is T and any(l[0] == root for l in self.run.ptrs(v))

    def drops(self, ev):
        low = lossy_next(self.run, ev, self.nroot)
        if low:
            self.lost.append((ev.where(), f'not all entries are taken in order ({", ".join(low)})'))

    def done(self, need, texts):
        if self.lost:
            for w, m in dict.fromkeys(self.lost):
                self.rep.viol(self.rule, w, m)
            return
        if any(k not in self.seen for k in need):
            if self.bad:
                pass
            else:
                self.rep.undecided(self.rule, where_body(self.run.body), 'shape not recognised: no ' + ', '.join(k for k in need if k not in self.seen))
                return
        for w, m in dict.fromkeys(self.bad):
            self.rep.viol(self.rule, w, m)
        for w, m in dict.fromkeys(self.unk):
            self.rep.undecided(self.rule, w, m)
        if not self.bad and not self.unk:
            for k, t in texts.items():
                for f, l in sorted(self.seen.get(k, ())):
                    self.rep.ok(self.rule, f'{f}:{l} in {self.run.body.short()}', t)


# ------------------------------------------------------------------ names
class Names(Auto):
    """one offset and one terminated name per entry, parents before children.
    state: (entry, what was added to the names, number of offsets, length of the names before the entry, recursions, kind, flags)"""

    def __init__(self, rep, run, rule):
        super().__init__(rep, run, rule)
        b = run.body
        n = param_roles(b)['nodes']
        o = by_type(b, r'^&(?:\'\w+ )?mut std::vec::Vec<u32>$')
        s = by_type(b, r'^&(?:\'\w+ )?mut std::vec::Vec<u8>$')
        if len(n) != 1 or len(o) != 1 or len(s) != 1:
            raise Unsupported('parameters not recognised')
        self.n, self.o, self.s = n[0], o[0], s[0]
        self.nroot, self.oroot, self.sroot = (rootof(b, i) for i in (self.n, self.o, self.s))
        self.el = Elem(run, self.nroot)

    def name_of(self, t, i):
        """the term is the name of entry i / certainly something made from it / unknown"""
        r = self.el.is_name(t, i)
        if r is None and t.__class__ is T and t.op == 'app':
            if any(y is not t and y.__class__ is T and self.el.is_name(y, i) for y in subterms(t)):
                return False
        return r

    def finish(self, s, ev):
        i, ops, offs, S, r, k, fl = s
        if i is None or i[0] != 'at':
            return
        if ops != ('name', 'nul'):
            self.fail(fl, ev, 'the name of an entry is not put into the names followed by a single zero' if ops else 'the name of an entry can be left out')
        if offs != 1:
            self.fail(fl, ev, 'no offset is recorded for an entry' if not offs else 'two offsets are recorded for one entry')
        if k != 'File' and r != 1:
            self.fail(fl, ev, 'the names below a directory can be left out' if not r else 'the names below a directory are put in twice')
        if 'checked' not in fl and 'name' in ops:
            self.fail(fl, ev, 'a name that Shift-JIS cannot express is stored changed instead of being refused')

    def onevent(self, s, ev):
        i, ops, offs, S, r, k, fl = s
        st = step_of(self.run, ev, self.nroot)
        if st is not None:
            self.finish(s, ev)
            self.note('steps', ev)
            idx, ad, whole = st
            low = [a for a in ad if a in LOSSY]
            if low or not whole or isint(idx) and idx != 0:
                self.fail(fl, ev, 'not all entries are taken in order')
            return (('pend', idx), (), 0, None, 0, None, fl - {'checked'})
        self.drops(ev)
        nm = ev.name
        at = i[1] if i and i[0] == 'at' else None
        if nm == 'encoding':
            e = show(ev.info.get('enc'), 6)
            if 'static(' in e and 'SHIFT_JIS' not in e:
                self.fail(fl, ev, 'names are not encoded as Shift-JIS')
            return s
        if nm.startswith('vec.') and ev.args and self.touches(ev.args[0], self.sroot):
            if not self.is_root(ev.args[0], self.sroot) or at is None:
                return (i, ops, offs, S, r, k, fl | {'unk'})
            if not ops:
                S = ev.info.get('before', S)
            if nm == 'vec.push':
                if ev.args[1] == 0:
                    return (i, (ops + ('nul',))[:4], offs, S, r, k, fl)
                if isint(ev.args[1]):
                    return (i, (ops + ('byte',))[:4], offs, S, r, k, fl)
            elif nm == 'vec.extend':
                o = self.source(ev, at)
                if o is not None:
                    if o == 'name':
                        self.note('name', ev)
                    elif o != 'nul':
                        self.fail(fl, ev, o)
                        o = 'name'
                    return (i, (ops + (o,))[:4], offs, S, r, k, fl)
            return (i, ops, offs, S, r, k, fl | {'unk'})
        if nm.startswith('vec.') and ev.args and self.touches(ev.args[0], self.oroot):
            if nm != 'vec.push' or not self.is_root(ev.args[0], self.oroot) or at is None:
                return (i, ops, offs, S, r, k, fl | {'unk'})
            self.note('offset', ev)
            if not ops:
                S = self.run.e.read(ev.st, self.sroot, ('#len',))
            v = ev.args[1]
            if S is None:
                fl = fl | {'unk'}
            elif v is not S and v != S and v != trunc(32, S):
                w = v.a[1] if v.__class__ is T and v.op == 'trunc' else v
                known = isint(v) or v.__class__ is T and v.op == 'trunc' and v.a[0] < 24 or self.linear(sub(w, S), S)
                if known:
                    self.fail(fl, ev, 'the offset recorded for an entry is not where its name begins')
                else:
                    fl = fl | {'unk'}
            if r:
                self.fail(fl, ev, 'the offset of a directory is recorded after those of its entries')
            return (i, ops, min(offs + 1, 2), S, r, k, fl)
        if nm == 'rec':
            if at is None or ev.info['body'].path != self.run.body.path:
                return (i, ops, offs, S, r, k, fl | {'unk'})
            self.note('rec', ev)
            a = ev.args
            if not self.el.is_field(a[self.n - 1], at, 'Directory', 'files') or not self.is_root(a[self.o - 1], self.oroot) or not self.is_root(a[self.s - 1], self.sroot):
                fl = fl | {'unk'}
            if not offs:
                self.fail(fl, ev, 'the names below a directory get their offsets before the directory')
            if ops and ops != ('name', 'nul'):
                self.fail(fl, ev, 'the names below a directory are put between its name and the terminator')
            return (i, ops, offs, S, min(r + 1, 2), k, fl)
        if nm.startswith(('call:', 'slice.', 'stream.', 'mem.')) and any(self.touches(x, q) for x in ev.args for q in (self.sroot, self.oroot)):
            return (i, ops, offs, S, r, k, fl | {'unk'})
        return s

    def linear(self, d, S):
        """a difference that certainly is not zero for some tree: constants, lengths"""
        if isint(d):
            return d != 0
        c, ps = lin_parts(d)
        return all(y.__class__ is T and y.op == 'fld' and y.a[1] == '#len' and y.a[0].__class__ is T and y.a[0].op in ('app', 'cowdata') for y, _ in ps)

    def source(self, ev, at):
        """'name', 'nul', a complaint, or None for something not known"""
        a = ev.args[1]
        if not (a.__class__ is T and a.op == 'slice'):
            return None
        r, off, n = a.a[0], a.a[2], a.a[3]
        if r[0] == 'D' and r[1].__class__ is T and r[1].op == 'cowdata':
            enc = r[1].a[0]
            if not (enc.__class__ is T and enc.op == 'app' and enc.a[0] == 'sjis.encode'):
                return None
            t = self.name_of(enc.a[1], at)
            if t is None:
                return None
            if t is False:
                return 'something other than the name of the entry is stored'
            if off != 0 or n != proj(enc, '#len') and n != proj(mk('cowdata', enc), '#len'):
                return 'the name of an entry is stored cut'
            return 'name'
        if r[0] == 'D' and r[1].__class__ is T and r[1].op == 'app' and r[1].a[0] == 'strbytes' and self.el.is_name(r[1].a[1], at):
            return 'the name of an entry is stored without encoding it'
        rl = [self.el.rel(l) for l in self.run.ptrs(a)]
        if all(x is not None and x[0] == at and len(x[1]) == 1 and x[1][0].__class__ is tuple and x[1][0][1] == 'name' for x in rl):
            return 'the name of an entry is stored without encoding it'
        return None

    def onedge(self, s, n, lab, m, st):
        i, ops, offs, S, r, k, fl = s
        if i and i[0] == 'pend':
            if ret_variant(n.outv.get(lab)) == 'None':
                return (None, (), 0, None, 0, None, fl)
            i = ('at', i[1])
        if i and i[0] == 'at' and lab[0] == 's':
            new = st.facts - (n.st.facts if n.st is not None else frozenset())
            kk = self.el.kind(new, i[1])
            if kk is not None:
                if k is not None and kk != k:
                    return None
                k = kk
            for f in new:
                if f.__class__ is T and f.op == 'not' and f.a[0].__class__ is T and f.a[0].op == 'app' and f.a[0].a[0] == 'sjis.bad.encode':
                    if self.name_of(f.a[0].a[1], i[1]) is not False:
                        fl = fl | {'checked'}
        return (i, ops, offs, S, r, k, fl)

    def onexit(self, s, x):
        if 'unk' in s[6]:
            self.unk.append((Ex(self.run.body).where(), 'a step was not followed'))
        if ret_variant(x.ret) == 'Err':
            return
        self.finish(s, Ex(self.run.body))
        if s[0] is not None:
            self.fail(s[6], Ex(self.run.body), 'success is possible before the last entry')

    def go(self):
        explore(self.run, (None, (), 0, None, 0, None, frozenset()), self.onevent, self.onedge, self.onexit)
        self.done(('steps', 'name', 'offset', 'rec'), {'steps': 'every entry of the list in order', 'name': 'whole encoded name, one zero', 'offset': 'offset = start of the name',
                                                      'rec': 'names of the children after that of the directory'})


def c11_names(rep):
    prog = program('disc_riider')
    b = next((x for x in prog.bodies.values() if re.search(r'FstToBytes as .*TryFrom<.*Fst>>::try_from$', x.path)), None)
    if b is None:
        rep.undecided('C11.names', 'FstToBytes', 'conversion not found')
        return
    full, rec = recursive_part(b)
    rep.entry(full.e)
    if len(rec) != 1:
        rep.undecided('C11.names', where_body(b), 'recursion not recognised')
        return
    R = rec[0]
    run = TRun(R)
    rep.entry(run.e)
    N = Names(rep, run, 'C11.names')
    N.go()
    # start: the root has an (empty) name and an offset of its own
    top = TRun(b, opaque=lambda x, c: x.path == R.path)
    rep.entry(top.e)
    evs = [ev for ev in top.e.all_events() if ev.info.get('body') is not None and ev.info['body'].path == R.path]
    if len(evs) != 1:
        rep.undecided('C11.root', where_body(b), 'start not recognised')
        return
    ev = evs[0]

    def content(pos):
        ls = list(top.ptrs(ev.args[pos - 1]))
        return top.e.read(ev.st, *ls[0]) if len(ls) == 1 and ls[0][0] is not None else None
    o, s = content(N.o), content(N.s)
    lo, ls = (top.e.value_len(v) if v is not None else None for v in (o, s))
    if isint(lo) and lo != 1:
        rep.viol('C11.root', ev.where(), f'{lo} offsets are recorded before those of the entries; entry n finds its name at position n')
    elif lo == 1:
        v = top.e.elem(ev.st, proj(o, '#buf'), 0)
        rep.ok('C11.root', ev.where(), f'one offset ({show(v, 3)}) for the root, {show(ls, 3) if ls is not None else "?"} bytes of names')
    else:
        rep.undecided('C11.root', ev.where(), 'offsets at the start not known')
    # what is kept is what was filled
    for x in top.e.all_exits():
        if ret_variant(x.ret) != 'Ok':
            continue
        v = proj(x.ret, ('Ok', '0'))
        if not (v.__class__ is T and v.op == 'agg'):
            rep.undecided('C11.root', where_body(b), 'result not recognised')
            continue
        for f in ('str_offsets', 'str_bytes'):
            t = dict(v.a[2]).get(f)
            if t is None:
                rep.undecided('C11.root', where_body(b), f'field {f} not found')
            elif t.__class__ is T and t.op == 'fresh' and 'hv' in str(t.a[2]):
                rep.ok('C11.root', where_body(b), f'{f}: as left by the walk')
            elif any(y.__class__ is T and y.op == 'fresh' and 'hv' in str(y.a[2]) for y in subterms(t)):
                rep.viol('C11.root', where_body(b), f'{f} is changed after the walk: {show(t, 3)}')
            else:
                rep.undecided('C11.root', where_body(b), f'{f} is {show(t, 4)}')


# ------------------------------------------------------------------ entries, written
def untrunc(t):
    """drops truncations to 32 bits of values that are 32 bits wide"""
    if t.__class__ is T and t.op == 'trunc' and t.a[0] == 32:
        return untrunc(t.a[1])
    if t.__class__ is T and t.op == 'lin':
        r = t.a[0]
        for y, c in t.a[1]:
            r = add(r, mul(c, untrunc(y)))
        return r
    return t


class Rows(Auto):
    """one record per entry. state: (entry, records pushed, recursions, kind, index before the entry, last record's end field, flags)"""

    def __init__(self, rep, run, rule):
        super().__init__(rep, run, rule)
        b = run.body
        n = param_roles(b)['nodes']
        o = by_type(b, r'^&(?:\'\w+ )?(?:mut )?(?:std::vec::Vec<u32>|\[u32\])$')
        w = by_type(b, r'^&(?:\'\w+ )?mut std::vec::Vec<(?:[\w:]*::)?RawFstNode>$')
        x = by_type(b, r'^&(?:\'\w+ )?mut u32$')
        if len(n) != 1 or len(o) != 1 or len(w) != 1 or len(x) != 1:
            raise Unsupported('parameters not recognised')
        self.n, self.o, self.w, self.x = n[0], o[0], w[0], x[0]
        self.nroot, self.oroot, self.wroot, self.xroot = (rootof(b, i) for i in (self.n, self.o, self.w, self.x))
        self.el = Elem(run, self.nroot)
        self.x0 = mk('mem', self.xroot[1])

    def idx(self, st):
        return self.run.e.read(st, self.xroot, ())

    def rows(self, st):
        return self.run.e.read(st, self.wroot, ('#len',))

    def this(self, t, X):
        """is the term the index of the current entry? (X: value of the running index and number of records at its start)"""
        return t == X[0] or t == X[1]

    def finish(self, s, ev):
        i, c, r, k, X, end, fl = s
        if i is None or i[0] != 'at':
            return
        if c != 1:
            self.fail(fl, ev, 'an entry can be left out of the table' if not c else 'an entry is written twice')
        if k != 'File' and r != 1:
            self.fail(fl, ev, 'the entries below a directory can be left out' if not r else 'the entries below a directory are written twice')
        if k != 'File' and r == 1 and end != 'ok':
            if end in ('other', 'none'):
                self.fail(fl, ev, 'a directory does not record the index one past its last descendant')
            else:
                self.unk.append((ev.where(), 'end of a directory not known'))
        if 'adv' not in fl and not r:
            self.fail(fl, ev, 'the running index does not go up by one per entry')

    def onevent(self, s, ev):
        i, c, r, k, X, end, fl = s
        st = step_of(self.run, ev, self.nroot)
        if st is not None:
            self.finish(s, ev)
            self.note('steps', ev)
            ix, ad, whole = st
            if [a for a in ad if a in LOSSY] or not whole or isint(ix) and ix != 0:
                self.fail(fl, ev, 'not all entries are taken in order')
            return (('pend', ix), 0, 0, None, (self.idx(ev.st), self.rows(ev.st)), None, fl - {'adv'})
        self.drops(ev)
        if i and i[0] == 'at':
            s = i, c, r, k, X, end, fl = self.look(s, ev.st)
        nm = ev.name
        at = i[1] if i and i[0] == 'at' else None
        if nm.startswith('vec.') and ev.args and self.touches(ev.args[0], self.wroot):
            if nm == 'vec.insert' and self.is_root(ev.args[0], self.wroot):
                self.fail(fl, ev, 'an entry is not put at the end of the table')
            if nm != 'vec.push' or not self.is_root(ev.args[0], self.wroot) or at is None:
                return (i, c, r, k, X, end, fl | {'unk'})
            self.note('push', ev)
            self.record(s, ev, at)
            if r:
                self.fail(fl, ev, 'a directory is written after its entries')
            return (i, min(c + 1, 2), r, k, X, end, fl)
        if nm == 'rec':
            if at is None or ev.info['body'].path != self.run.body.path:
                return (i, c, r, k, X, end, fl | {'unk'})
            self.note('rec', ev)
            a = ev.args
            if not self.el.is_field(a[self.n - 1], at, 'Directory', 'files'):
                fl = fl | {'unk'}
            for p, q in ((self.w, self.wroot), (self.x, self.xroot), (self.o, self.oroot)):
                if not self.is_root(a[p - 1], q):
                    fl = fl | {'unk'}
            d = sub(self.idx(ev.st), X[0])
            if isint(d) and d != 1:
                self.fail(fl, ev, f'the running index is {d:+d} instead of +1 when the entries of a directory are written')
            elif not isint(d):
                fl = fl | {'unk'}
            return (i, c, min(r + 1, 2), k, X, 'none', fl)
        if nm.startswith(('call:', 'stream.')) and any(self.touches(y, q) for y in ev.args for q in (self.wroot, self.xroot)):
            return (i, c, r, k, X, end, fl | {'unk'})
        if nm == 'slice.get' and self.touches(ev.args[0], self.wroot) and at is not None and r:
            if self.this(ev.args[1], X):
                return (i, c, r, k, X, end, fl | {'get'})
        return s

    def record(self, s, ev, at):
        i, c, r, k, X, end, fl = s
        v = ev.args[1]
        if not (v.__class__ is T and v.op == 'agg'):
            self.unk.append((ev.where(), 'record not known'))
            return
        d = dict(v.a[2])

        def chk(f, good, wrong, msg):
            if good:
                return
            if wrong:
                self.fail(fl, ev, msg)
            else:
                self.unk.append((ev.where(), f'{f} of the record is {show(d.get(f), 4)}'))
        isd = d.get('is_directory')
        if k is not None:
            w = int(k == 'Directory')
            chk('is_directory', isd == w, isint(isd) and isd != w, 'a file is written as directory or the other way round')
        # name
        no = d.get('name_offset')
        ls = self.run.conts(no)
        good = all(l[0] == self.oroot and len(clean(l[1])) == 1 and clean(l[1])[0].__class__ is tuple and self.this(clean(l[1])[0][1], X) for l in ls)
        wrong = isint(no) or all(l[0] == self.oroot and len(clean(l[1])) == 1 and isint(sub(clean(l[1])[0][1], X[0])) for l in ls)
        chk('name_offset', good, wrong, 'an entry gets the name of another one')
        if k == 'File' or isd == 0:
            ln = d.get('length')
            chk('length', self.field(ln, at, 'length'), isint(ln) or self.made_of(ln, at), 'the length of a file is not kept')
            of = d.get('offset')
            q = None
            for y in subterms(of) if of.__class__ is T else ():
                if y.__class__ is T and y.op == 'div' and y.a[1] == 4 and self.field(y.a[0], at, 'offset'):
                    q = y
            chk('offset', q is not None and of in (q, trunc(32, q)), isint(of) or self.made_of(of, at), 'the offset of a file is not kept (offset / 4)')
        elif k == 'Directory' or isd == 1:
            of = d.get('offset')
            al = [untrunc(y) for y in self.run.alts(of)]
            good = all(isint(sub(y, self.x0)) and (sub(y, self.x0) + 1) % (1 << 32) == 0 for y in al)
            wrong = any(isint(sub(y, self.x0)) and (sub(y, self.x0) + 1) % (1 << 32) for y in al) or any(self.mine(y, X) for y in al)
            chk('offset', good, wrong, 'a directory does not record the index of its parent')

    def mine(self, y, X):
        """derived from the running index at the current entry"""
        return X[0] != self.x0 and isint(sub(y, X[0])) or y == X[0] and X[0] != self.x0

    def field(self, t, at, f):
        return t is not None and all(self.el.rel(l) == (at, (('File', f),)) for l in self.run.conts(t))

    def made_of(self, t, at):
        """arithmetic over fields of the entry only"""
        if t.__class__ is not T:
            return True
        if t.op in ('fld', 'mem'):
            return all(l[0] is not None and self.el.rel(l) is not None and self.el.rel(l)[0] == at for l in self.run.conts(t))
        if t.op == 'lin':
            return all(self.made_of(y, at) for y, _ in t.a[1])
        if t.op in ('div', 'trunc', 'min', 'max', 'band', 'bor', 'mul'):
            return all(self.made_of(y, at) for y in t.a)
        return False

    def onedge(self, s, n, lab, m, st):
        i, c, r, k, X, end, fl = s
        if i and i[0] == 'pend':
            if ret_variant(n.outv.get(lab)) == 'None':
                return (None, 0, 0, None, None, None, fl)
            i = ('at', i[1])
        if not (i and i[0] == 'at'):
            return s
        if 'get' in fl and lab[0] == 'c':
            fl = fl - {'get'}
            if ret_variant(n.outv.get(lab)) == 'None':
                return None
        new = st.facts - (n.st.facts if n.st is not None else frozenset())
        kk = self.el.kind(new, i[1])
        if kk is not None:
            if k is not None and kk != k:
                return None
            k = kk
        i, c, r, k, X, end, fl = self.look((i, c, r, k, X, end, fl), st)
        return (i, c, r, k, (renamed(X[0], m), renamed(X[1], m)), end, fl)

    def look(self, s, st):
        """running index and end of the directory as the state has them"""
        i, c, r, k, X, end, fl = s
        if not r:
            d = sub(self.idx(st), X[0])
            if d == 1:
                fl = fl | {'adv'}
            elif isint(d):
                fl = fl - {'adv'}
        elif end != 'ok':
            cur = self.idx(st)
            for y in X:
                v = self.run.e.read(st, self.wroot, ('#buf', ('idx', y), 'length'))
                if v in (cur, self.rows(st), trunc(32, self.rows(st))):
                    end = 'ok'
                    self.seen.setdefault('end', set()).add((self.run.body.file, self.run.body.line))
                elif v.__class__ is T and v.op == 'phi':
                    end = end if end == 'other' else '?'
                elif isint(v) or isint(sub(v, cur)):
                    end = 'other'
                elif not any(y.__class__ is T and (y.op == 'fresh' or y.op == 'phi' and y not in X) for y in subterms(v)):
                    end = 'other'
                elif not (v.__class__ is T and v.op in ('fld', 'mem')):
                    end = '?'
        return (i, c, r, k, X, end, fl)

    def onexit(self, s, x):
        if 'unk' in s[6]:
            self.unk.append((Ex(self.run.body).where(), 'a step was not followed'))
        if s[0] and s[0][0] == 'at':
            s = self.look(s, x.st)
        self.finish(s, Ex(self.run.body))
        if s[0] is not None:
            self.fail(s[6], Ex(self.run.body), 'the table can end before the last entry')

    def go(self):
        explore(self.run, (None, 0, 0, None, None, None, frozenset()), self.onevent, self.onedge, self.onexit)
        self.done(('steps', 'push', 'rec'), {'steps': 'every entry of the list in order', 'push': 'kind, name, offset / parent and length of the entry', 'rec': 'children right after their directory',
                                            'end': 'directories end one past their last descendant'})


def c11_rows(rep):
    prog = program('disc_riider')
    b = inherent(prog, 'FstToBytes', 'write_to')
    if b is None:
        rep.undecided('C11.rows', 'FstToBytes::write_to', 'not found')
        return
    full, rec = recursive_part(b)
    rep.entry(full.e)
    if len(rec) != 1:
        rep.undecided('C11.rows', where_body(b), 'recursion not recognised')
        return
    R = rec[0]
    run = TRun(R)
    rep.entry(run.e)
    A = Rows(rep, run, 'C11.rows')
    A.go()
    top = TRun(b, opaque=lambda x, c: x.path == R.path)
    rep.entry(top.e)
    evs = [ev for ev in top.e.all_events() if ev.info.get('body') is not None and ev.info['body'].path == R.path]
    rule = 'C11.table'
    if len(evs) != 1:
        rep.undecided(rule, where_body(b), 'start not recognised')
        return
    ev = evs[0]
    self_ = ('D', mk('sym', 'self'))

    def loc(pos):
        l = list(top.ptrs(ev.args[pos - 1]))
        return l[0] if len(l) == 1 and l[0][0] is not None else None
    W, X = loc(A.w), loc(A.x)
    if W is None or X is None or loc(A.n) != (self_, ('fst', 'entries')) or loc(A.o) != (self_, ('str_offsets',)):
        rep.undecided(rule, ev.where(), 'start not recognised')
        return
    x = top.e.read(ev.st, *X)
    n = top.e.read(ev.st, W[0], W[1] + ('#len',))
    if x == 1 and n == 1:
        d = {f: top.e.read(ev.st, W[0], W[1] + ('#buf', ('idx', 0), f)) for f in ('is_directory', 'name_offset', 'offset')}
        if d == {'is_directory': 1, 'name_offset': 0, 'offset': 0}:
            rep.ok(rule, ev.where(), 'the root comes first, the entries start at index 1')
        elif all(isint(v) for v in d.values()):
            rep.viol(rule, ev.where(), f'the first record is not a nameless directory: {d}')
        else:
            rep.undecided(rule, ev.where(), 'first record not known')
    elif isint(x) and isint(n):
        rep.viol(rule, ev.where(), f'the entries start at index {x} with {n} records before them')
    else:
        rep.undecided(rule, ev.where(), 'start of the entries not known')
    # after the entries: root closed, records, then names
    bad, unk, oks = [], [], {}
    def closed(cl, st):
        if cl != 'ok':
            v = top.e.read(st, W[0], W[1] + ('#buf', ('idx', 0), 'length'))
            cur = top.e.read(st, *X)
            ln = top.e.read(st, W[0], W[1] + ('#len',))
            if v in (cur, ln, trunc(32, ln)):
                cl = 'ok'
            elif isint(v) or isint(sub(v, cur)) or v.__class__ is T and v.op in ('fld', 'mem'):
                cl = 'other'
            else:
                cl = cl if cl == 'other' else '?'
        return cl

    def onevent(s, e):
        ph, cl = s
        if ph == 'rows':
            cl = closed(cl, e.st)
            s = ph, cl
        if e is ev:
            return ('rows', cl)
        if e.name.startswith('stream.write') or e.name.startswith('stream.') and 'write' in e.name:
            if e.name == 'stream.write_be' and 'RawFstNode' in e.info['ty']['s']:
                if ph != 'rows':
                    bad.append((e.where(), 'the records are not written right after they were made'))
                if cl != 'ok':
                    (bad if cl == 'other' else unk).append((e.where(), 'the root does not record the number of entries'))
                oks['records'] = e
                return ('names', cl)
            if e.name == 'stream.write_all' and all(l[0] == self_ and clean(l[1]) == ('str_bytes',) for l in top.ptrs(e.args[1])):
                if ph != 'names':
                    bad.append((e.where(), 'the names do not follow the records'))
                sl = e.args[1]
                ln = proj(proj(mk('mem', self_[1]), 'str_bytes'), '#len')
                if not (sl.__class__ is T and sl.op == 'slice' and sl.a[2] == 0 and sl.a[3] == ln):
                    (bad if sl.__class__ is T and sl.op == 'slice' else unk).append((e.where(), 'not all names are written'))
                oks['names'] = e
                return ('end', cl)
            if isint(e.info.get('n')) and e.info.get('n') == 0:
                return s
            unk.append((e.where(), 'write not recognised'))
            return ('?', cl)
        if e.name == 'seek':
            unk.append((e.where(), 'seek'))
        if e.name.startswith('vec.') and ph == 'rows' and e.args and any(l == W for l in top.ptrs(e.args[0])):
            unk.append((e.where(), 'records changed'))
        if e.name == 'slice.get' and any(l[0] == W[0] for l in top.ptrs(e.args[0])) and e.args[1] == 0:
            return (ph, 'get' if cl != 'ok' else cl)
        return s

    def onedge(s, n, lab, m, st):
        ph, cl = s
        if ph != 'rows':
            return s
        if cl == 'get' and lab[0] == 'c':
            if ret_variant(n.outv.get(lab)) == 'None':
                return None
        cl = closed(cl, st)
        return (ph, cl)

    def onexit(s, x):
        if ret_variant(x.ret) == 'Err':
            return
        if s[0] not in ('end', '?'):
            bad.append((Ex(b).where(), 'success without writing records and names'))
    explore(top, ('start', 'other'), onevent, onedge, onexit)
    if unk:
        for w, m in dict.fromkeys(unk + bad):
            rep.undecided(rule, w, m)
    else:
        for w, m in dict.fromkeys(bad):
            rep.viol(rule, w, m)
        if not bad:
            rep.ok(rule, oks['records'].where(), 'root closed with the number of entries, all records written')
            rep.ok(rule, oks['names'].where(), 'all names right behind the records')


# ------------------------------------------------------------------ entries, read back
def raw_field(run, t, root):
    """(index, field) of a term that is a field of a record"""
    ls = run.conts(t)
    if len(ls) != 1:
        return None
    r, p = next(iter(ls))
    p = clean(p) if r is not None else ()
    if r == root and len(p) == 2 and p[0].__class__ is tuple and p[0][0] == 'idx':
        return p[0][1], p[1]
    return None


class Parse(Auto):
    """state: (index of the record, parsed name, recursion result, pushed, kind, where the running index is, flags)"""

    def __init__(self, rep, run, rule):
        super().__init__(rep, run, rule)
        b = run.body
        w = by_type(b, r'^&(?:\'\w+ )?(?:std::vec::Vec<|\[)(?:[\w:]*::)?RawFstNode[>\]]')
        x = by_type(b, r'^&(?:\'\w+ )?mut u32$')
        e = by_type(b, r'^u32$')
        o = by_type(b, r'^u64$')
        if len(w) != 1 or len(x) != 1 or len(e) != 1 or len(o) != 1:
            raise Unsupported('parameters not recognised')
        self.w, self.x, self.end, self.o = w[0], x[0], e[0], o[0]
        self.wroot, self.xroot = rootof(b, self.w), rootof(b, self.x)
        self.endt, self.base = mk('sym', pname(b, self.end)), mk('sym', pname(b, self.o))
        self.dep = [mk('sym', pname(b, i)) for i in by_type(b, r'^usize$')]
        self.list = None
        self.p = Prover(run.e)

    def idx(self, st):
        return self.run.e.read(st, self.xroot, ())

    def lastword(self, s, ev, d=0):
        X, nm, rc, pushed, k, at, fl = s
        if X is None:
            return
        if pushed != 1:
            self.fail(fl, ev, 'an entry of the table can be left out of the tree' if not pushed else 'an entry of the table is put into the tree twice')
        if at not in (('pre',) if d == -1 else ('next', 'rec') if rc is None else ('rec',)):
            if at == 'at':
                self.fail(fl, ev, 'the running index does not move past an entry')
            else:
                (self.bad if at in ('off', 'pre', 'next', 'rec') and 'unk' not in fl else self.unk).append((ev.where(), 'running index after an entry'))

    def onevent(self, s, ev):
        X, nm, rc, pushed, k, at, fl = s
        fl = fl - {f for f in fl if f.__class__ is tuple}
        n = ev.name
        if n == 'encoding' and ev.info['kind'] != 'encode':
            e = show(ev.info.get('enc'), 6)
            if 'static(' in e and 'SHIFT_JIS' not in e:
                self.fail(fl, ev, 'names are not decoded as Shift-JIS')
            return (X, nm, rc, pushed, k, at, fl)
        if n == 'stream.read_be' or n == 'stream.read_le':
            if 'NullString' not in ev.info['ty']['s']:
                return (X, nm, rc, pushed, k, at, fl | {'unk'})
            d = sub(ev.info['pos'], self.base)
            rf = raw_field(self.run, d, self.wroot)
            if rf is None:
                c = None
                if d.__class__ is T and d.op == 'lin':
                    fs = [raw_field(self.run, t, self.wroot) for t, _ in d.a[1]]
                    if fs and all(f is not None for f in fs):
                        c = True
                if isint(d) or c:
                    self.fail(fl, ev, 'the name of an entry is not read at the offset recorded for it')
                else:
                    fl = fl | {'unk'}
                return (X, ev.info['val'], rc, pushed, k, at, fl | {'unk'})
            i, f = rf
            if f != 'name_offset':
                self.fail(fl, ev, f'the name of an entry is looked up by its {f}')
            self.note('name', ev)
            d = sub(i, self.idx(ev.st))
            if isint(d):
                self.lastword(s, ev, d)
            fl = fl - {'ended', 'early'}
            a2 = None
            if d == 0:
                a2 = 'at'
            elif d == -1:
                a2 = 'next'
            elif isint(d):
                self.fail(fl, ev, f'the record read is {d:+d} from the running index')
            else:
                fl = fl | {'unk'}
            # inside the directory
            left = sub(i, self.endt)
            if a2 is not None and not self.holds(ev, ('lt', left)):
                if self.about(ev.facts if ev.facts is not None else ev.st.facts, i):
                    self.fail(fl, ev, 'entries past the end of a directory are taken as its children')
                else:
                    self.unk.append((ev.where(), 'entry below the end of the directory'))
            return (i, ev.info['val'], None, 0, None, a2, fl)
        if n == 'rec':
            if ev.info['body'].path != self.run.body.path or X is None:
                return (X, nm, rc, pushed, k, at, fl | {'unk'})
            self.note('rec', ev)
            a = ev.args
            rf = raw_field(self.run, a[self.end - 1], self.wroot)
            if rf != (X, 'length'):
                if rf is not None or isint(sub(a[self.end - 1], self.endt)) or a[self.end - 1].__class__ is T and a[self.end - 1].op == 'lin' and all(raw_field(self.run, t, self.wroot) for t, _ in a[self.end - 1].a[1]):
                    self.fail(fl, ev, 'the end of a directory is not the one recorded for it')
                else:
                    fl = fl | {'unk'}
            if a[self.o - 1] != self.base:
                if isint(sub(a[self.o - 1], self.base)):
                    self.fail(fl, ev, 'the names of the children are looked up from another start')
                else:
                    fl = fl | {'unk'}
            d = sub(self.idx(ev.st), X)
            if isint(d) and d != 1:
                self.fail(fl, ev, f'the children of a directory are taken from record {d:+d} instead of the next one')
            elif not isint(d):
                fl = fl | {'unk'}
            if not self.is_root(a[self.x - 1], self.xroot):
                fl = fl | {'unk'}
            return (X, nm, mk('fresh', ev.node.id if hasattr(ev.node, 'id') else ev.node, ev.seq, 'ret'), pushed, k, 'rec?', fl)
        if n.startswith('vec.'):
            v = ev.args[1] if len(ev.args) > 1 else None
            isn = v.__class__ is T and v.op == 'agg' and str(v.a[0]).split('::')[-1] == 'FstNode'
            if n in ('vec.push', 'vec.insert') and (isn or n == 'vec.insert'):
                if n == 'vec.insert':
                    self.unk.append((ev.where(), 'insert'))
                    return (X, nm, rc, min(pushed + 1, 2), k, at, fl | {'unk'})
                self.note('push', ev)
                if X is None:
                    return (X, nm, rc, pushed, k, at, fl | {'unk'})
                self.entry(s, ev, v)
                return (X, nm, rc, min(pushed + 1, 2), k, at, fl)
            return (X, nm, rc, pushed, k, at, fl)
        return (X, nm, rc, pushed, k, at, fl)

    def entry(self, s, ev, v):
        X, nm, rc, pushed, k, at, fl = s
        d = {(f[1] if f.__class__ is tuple else f): y for f, y in v.a[2]}

        def chk(good, wrong, msg):
            if good:
                return
            if wrong:
                self.fail(fl, ev, msg)
            else:
                self.unk.append((ev.where(), msg + ' (not known)'))
        if k is not None:
            chk(v.a[1] == k, v.a[1] != k, 'a directory is read as file or the other way round')
        else:
            self.unk.append((ev.where(), 'kind of the entry'))
        name = d.get('name')
        good = wrong = False
        t = name
        if t.__class__ is T and t.op == 'cowdata':
            t = t.a[0]
        if t.__class__ is T and t.op == 'app' and t.a[0] == 'sjis.decode':
            inp = t.a[1]
            for y in subterms(inp):
                if y is nm:
                    good = True
            if good and inp.__class__ is T and inp.op == 'pcs':
                whole = mk('view', proj(nm, '#buf'), 0, proj(nm, '#len'))
                if not any(y == whole for y in subterms(inp)):
                    wrong, good = True, False
            wrong = wrong or not good and any(y.__class__ is T and y.op == 'fresh' and y.a[2] == 'parsed' for y in subterms(inp))
        elif name.__class__ is T and any(y is nm for y in subterms(name)):
            wrong = t.op == 'app'
        chk(good, wrong, 'an entry does not get its own name')
        if v.a[1] == 'Directory':
            f = d.get('files')
            good = rc is not None and f.__class__ is T and any(y.__class__ is T and y.op == 'fresh' and y.a[0] == rc.a[0] for y in subterms(f)) and f.op in ('fld', 'fresh')
            chk(good, self.run.e.value_len(f) == 0, 'a directory does not get its entries')
        else:
            for f, c in (('length', 1), ('offset', 4)):
                t = d.get(f)
                base = t.a[1][0][0] if t.__class__ is T and t.op == 'lin' and t.a[0] == 0 and len(t.a[1]) == 1 else t
                co = t.a[1][0][1] if base is not t else 1
                rf = raw_field(self.run, base, self.wroot) if base.__class__ is T else None
                chk(rf == (X, f) and co == c, isint(t) or rf is not None or base.__class__ is T and base.op in ('trunc', 'div', 'lin'), f'the {f} of a file is not the one recorded for it')

    def holds(self, ev, q):
        fs = ev.facts if ev.facts is not None else ev.st.facts
        t = q[1]
        if isint(t):
            return t < 0
        return any(self.implies(f, t) for f in fs)

    def implies(self, f, t):
        """fact f => t < 0"""
        if not (f.__class__ is T and f.op in ('lt0', 'eq0')):
            return False
        d = sub(t, f.a[0])
        if f.op == 'lt0':
            return isint(d) and d <= 0
        return isint(d) and d < 0 or isint(add(t, f.a[0])) and add(t, f.a[0]) < 0

    def about(self, facts, i):
        """a fact relates the index and the end of the directory, and nothing else"""
        d = sub(i, self.endt)
        for f in facts:
            g = f.a[0] if f.__class__ is T and f.op in ('lt0', 'eq0', 'not') else None
            if g.__class__ is T and g.op in ('lt0', 'eq0'):
                g = g.a[0]
            if g.__class__ is T and (isint(sub(g, d)) or isint(add(g, d))):
                return True
        return False

    def own(self, d):
        """made of fields of records"""
        ys = [y for y in subterms(d) if y.__class__ is T and y.op in ('phi', 'fresh', 'sym', 'mem')]
        return any(raw_field(self.run, y, self.wroot) for y in subterms(d) if y.__class__ is T and y.op == 'fld') and not any(y.op == 'fresh' for y in ys)

    def onedge(self, s, n, lab, m, st):
        X, nm, rc, pushed, k, at, fl = s
        new = st.facts - (n.st.facts if n.st is not None else frozenset())
        c = self.idx(st)
        left = sub(self.endt, c)
        for f in new:
            if f.__class__ is T and f.op in ('lt0', 'eq0'):
                q = sub(f.a[0], left)
                if f.op == 'eq0' and (q == 0 or add(f.a[0], left) == 0):
                    fl = fl - {'early'} | {'ended'}
                elif f.op == 'lt0' and isint(q):
                    fl = fl | {'ended'} if q >= -1 else fl | {'early'}
            if f.__class__ is T and f.op == 'lt0':
                for dp in self.dep:
                    c = add(f.a[0], dp)
                    if isint(c):
                        fl = fl | {('deep', c)}
        if X is None:
            return (X, nm, rc, pushed, k, at, fl)
        for f in new:
            g, pos = (f.a[0], False) if f.__class__ is T and f.op == 'not' else (f, True)
            if g.__class__ is T and g.op == 'eq0' and g.a[0].__class__ is T:
                g0 = g.a[0]
                c = 0
                if g0.op == 'lin' and len(g0.a[1]) == 1:
                    c = -g0.a[0] * g0.a[1][0][1]
                    g0 = g0.a[1][0][0]
                if raw_field(self.run, g0, self.wroot) == (X, 'is_directory'):
                    isd = (c != 0) == pos
                    kk = 'Directory' if isd else 'File'
                    if k is not None and k != kk:
                        return None
                    k = kk
        c = self.idx(st)
        if at == 'rec?' and lab[0] == 'c':
            at = 'rec'
        else:
            d = sub(c, X)
            if d == 0:
                at = 'at'
            elif d == 1:
                at = 'next'
            elif d == 2 and rc is None:
                at = 'pre'
            elif isint(d):
                at = 'off'
            elif c.__class__ is T and c.op in ('phi', 'fresh'):
                pass
            elif c.__class__ is T and c.op == 'lin' and len(c.a[1]) == 1 and c.a[0] and at in ('rec', 'next', 'pre'):
                at = 'pre' if c.a[0] == 1 else 'off'
            elif d.__class__ is T and d.op == 'lin' and self.own(d):
                at = 'off'
            elif at != 'off':
                at = '?'
        return (renamed(X, m), nm, rc, pushed, k, at, fl)

    def onexit(self, s, x):
        if 'unk' in s[6]:
            self.unk.append((Ex(self.run.body).where(), 'a step was not followed'))
        X, nm, rc, pushed, k, at, fl = s
        if ret_variant(x.ret) == 'Err':
            for f in fl:
                if f.__class__ is tuple and f[0] == 'deep' and f[1] < 256:
                    self.fail(fl, Ex(self.run.body), f'directories nested more than {f[1]} deep are refused')
            return
        self.lastword(s, Ex(self.run.body))
        c = self.idx(x.st)
        t = sub(self.endt, c)
        ok = any(f.__class__ is T and (f.op == 'eq0' and (f.a[0] == t or f.a[0] == sub(0, t)) or f.op == 'lt0' and isint(sub(sub(t, 1), f.a[0])) and sub(sub(t, 1), f.a[0]) <= 0) for f in x.st.facts)
        if not ok and 'ended' not in fl:
            if 'early' in fl or self.about(x.st.facts, c):
                self.fail(fl, Ex(self.run.body), 'the entries of a directory can end before the recorded end')
            else:
                self.unk.append((Ex(self.run.body).where(), 'end of the entries'))
        else:
            self.seen.setdefault('exit', set()).add((self.run.body.file, self.run.body.line))

    def go(self):
        explore(self.run, (None, None, None, 0, None, None, frozenset()), self.onevent, self.onedge, self.onexit)
        self.done(('name', 'rec', 'push', 'exit'), {'name': 'name of the record at the running index', 'rec': 'children: next record up to the recorded end', 'push': 'kind, name, entries, offset and length of the record',
                                                   'exit': 'ends at the recorded end'})


def c11_parse(rep):
    prog = program('disc_riider')
    b = inherent(prog, 'Fst', 'read')
    if b is None:
        rep.undecided('C11.parse', 'Fst::read', 'not found')
        return
    full, rec = recursive_part(b)
    rep.entry(full.e)
    if len(rec) != 1:
        rep.undecided('C11.parse', where_body(b), 'recursion not recognised')
        return
    R = rec[0]
    run = TRun(R)
    rep.entry(run.e)
    P = Parse(rep, run, 'C11.parse')
    P.go()
    # the start: records in order, names right behind them
    rule = 'C11.open'
    top = TRun(b, opaque=lambda x, c: x.path == R.path)
    rep.entry(top.e)
    ev = [e for e in top.e.all_events() if e.info.get('body') is not None and e.info['body'].path == R.path]
    if len(ev) != 1:
        rep.undecided(rule, where_body(b), 'start not recognised')
        return
    ev = ev[0]
    off = [mk('sym', pname(b, i)) for i in by_type(b, r'^u64$')]
    evs = list(top.e.all_events())
    reads = [e for e in evs if e.name == 'stream.read_be' and 'RawFstNode' in e.info['ty']['s']]
    roots = [e for e in reads if len(off) == 1 and e.info['pos'] == off[0]]
    if len(roots) != 1:
        if len(reads) and len(off) == 1 and all(isint(sub(e.info['pos'], off[0])) for e in reads):
            rep.viol(rule, reads[0].where(), 'the first record is not read at the start of the table')
        else:
            rep.undecided(rule, where_body(b), 'first record not recognised')
        return
    root = roots[0].info['val']
    ln = proj(root, 'length')
    bad, unk, ok = [], [], []

    def loc(pos):
        l = list(top.ptrs(ev.args[pos - 1]))
        return l[0] if len(l) == 1 and l[0][0] is not None else None
    W, X = loc(P.w), loc(P.x)
    x = top.e.read(ev.st, *X) if X is not None else None
    for v, want, what in ((x, 1, 'first entry'), (ev.args[P.end - 1], ln, 'end of the entries')):
        if v == want:
            ok.append((ev.where(), f'{what}: {show(want, 3)}'))
        elif v is not None and isint(sub(v, want)):
            bad.append((ev.where(), f'{what} is {show(v, 3)}'))
        else:
            unk.append((ev.where(), what))
    # state: (records in the list, where the stream is)

    def onevent(s, e):
        last, cnt, sp, fl = s
        if e.name == 'iter.step':
            it, ad = iter_base(e.args[1])
            d = dict(it.a[2]) if it.__class__ is T and it.op == 'agg' else {}
            if 'start' in d and 'end' in d and isint(d['start']):
                c = add(sub(d['end'], d['start']), int('Inclusive' in str(it.a[0])))
                if c == sub(ln, 1):
                    ok.append((e.where(), 'as many records as the root says'))
                    return (last, 'loop', sp, fl)
                if isint(sub(c, ln)):
                    bad.append((e.where(), f'{show(c, 3)} records are read after the root'))
                    return (last, 'loop', sp, fl)
                return (last, '?', sp, fl | {'unk'})
            return s
        if e.name.startswith('stream.read') or e.name == 'seek':
            if e.name == 'stream.read_be' and e in reads:
                return (e.info['val'], cnt, False, fl)
            return (last, cnt, False, fl)
        if e.name.startswith('vec.') and W is not None and e.args and any(l == W for l in top.ptrs(e.args[0])):
            if e.name == 'vec.push':
                v = e.args[1]
                if last is None:
                    bad.append((e.where(), 'a record is put into the list twice'))
                elif v != last:
                    (bad if v == root else unk).append((e.where(), 'the list does not hold the records in the order read'))
                return (None, cnt, sp, fl)
            if e.name == 'vec.insert':
                bad.append((e.where(), 'the list does not hold the records in the order read'))
                return (None, cnt, sp, fl)
            return (last, cnt, sp, fl | {'unk'})
        if e.name == 'stream_position':
            if cnt != 'done':
                (unk if cnt == '?' or 'unk' in fl else bad).append((e.where(), 'the start of the names is taken before all records are read'))
            return (last, cnt, True, fl)
        if e is ev:
            if last is not None:
                (unk if last == root else bad).append((e.where(), 'a record is read but not put into the list'))
            o = e.args[P.o - 1]
            if sub(o, off[0]) == mul(12, ln):
                ok.append((e.where(), 'names start right behind the records'))
            elif isint(sub(sub(o, off[0]), mul(12, ln))):
                bad.append((e.where(), 'the names are not looked for right behind the records'))
            elif sp and all(any(y == q.info['pos'] for q in evs if q.name == 'stream_position') for y in top.alts(o)):
                ok.append((e.where(), 'names start right behind the records'))
            elif sp and all(any(isint(sub(y, q.info['pos'])) for q in evs if q.name == 'stream_position') for y in top.alts(o)):
                bad.append((e.where(), 'the names are not looked for right behind the records'))
            else:
                unk.append((e.where(), 'start of the names'))
        return s

    def onedge(s, n, lab, m, st):
        last, cnt, sp, fl = s
        if cnt == 'loop' and lab[0] == 'c' and any(e.name == 'iter.step' for e in n.events) and ret_variant(n.outv.get(lab)) == 'None':
            cnt = 'done'
        if lab[0] == 'c' and last is not None and ret_variant(n.outv.get(lab)) == 'Err':
            last = None
        return (last, cnt, sp, fl)
    explore(top, (None, None, False, frozenset()), onevent, onedge, lambda s, x: None)
    # the entries are what the walk returned
    for y in top.e.all_exits():
        if ret_variant(y.ret) == 'Ok':
            v = proj(proj(y.ret, ('Ok', '0')), 'entries')
            if v.__class__ is T and any(z.__class__ is T and z.op == 'fresh' and 'ret' in str(z.a[2]) for z in subterms(v)) and v.op in ('fld', 'fresh'):
                ok.append((Ex(b).where(), 'entries as parsed'))
            else:
                unk.append((Ex(b).where(), f'entries {show(v, 4)}'))
    if unk:
        for w, m in dict.fromkeys(unk + bad):
            rep.undecided(rule, w, m)
    else:
        for w, m in dict.fromkeys(bad):
            rep.viol(rule, w, m)
        if not bad:
            for w, m in dict.fromkeys(ok):
                rep.ok(rule, w, m)


# ------------------------------------------------------------------ first word of a record
def c11_word(rep):
    prog = program('disc_riider')
    rule = 'C11.word'
    M = 1 << 24
    W = rules_layout.layout(prog, 'RawFstNode', 'Write')
    R = rules_layout.layout(prog, 'RawFstNode', 'Read')
    if W is None or R is None:
        rep.undecided(rule, 'RawFstNode', 'not found')
        return
    rep.entry(W.e)
    rep.entry(R.e)
    me = mk('mem', W.S['self'][0][1])
    no, isd = proj(me, 'name_offset'), proj(me, 'is_directory')
    evs = [ev for ev in W.evs if sub(ev.info['pos'], W.S['p0']) == 0]
    for ev in evs:
        v = ev.info['val']
        cases = {0: set(), 1: set()}
        ph = set(atoms_phi(v))
        if len(ph) > 1:
            rep.undecided(rule, ev.where(), show(v, 5))
            continue
        for p in ph:
            for st in W.e.nlist[p.a[0]].ins.values():
                y = phi_in(p.a[1], st)
                for d in (0, 1):
                    f = mk('eq0', isd)
                    if (mk('not', f) if d == 0 else f) not in st.facts:
                        cases[d].add(subst(v, {p: y}))
        if not ph:
            cases = {0: {v}, 1: {v}}
        for d in (0, 1):
            for t in cases[d]:
                w = word(subst(t, {isd: d}), no)
                if w == (d * M, 1):
                    rep.ok(rule, ev.where(), f'written: type {d} in the top byte, name offset below')
                elif w is None:
                    rep.undecided(rule, ev.where(), show(t, 6))
                else:
                    rep.viol(rule, ev.where(), f'the first word of a {"directory" if d else "file"} is written as {show(t, 6)}')
    if not evs:
        rep.undecided(rule, where_body(W.b), 'first word not found')
    evs = [ev for ev in R.evs if sub(ev.info['pos'], R.S['p0']) == 0]
    n = mk('sym', 'name24')
    NN.setdefault(n, 24)
    if len(evs) != 1:
        rep.undecided(rule, where_body(R.b), 'first word not found')
        return
    w = evs[0].info['val']
    for x in R.exits:
        v = proj(x.ret, ('Ok', '0'))
        for d in (0, 1):
            m = {mk('div', w, M): d}
            a = subst(subst(proj(v, 'name_offset'), m), {w: add(n, d * M)})
            if a == n:
                rep.ok(rule, evs[0].where(), f'read: name offset of a {"directory" if d else "file"} from the lower 24 bits')
            elif pure(proj(v, 'name_offset'), w) and not any(y.__class__ is T and y.op == 'trunc' for y in subterms(a)):
                rep.viol(rule, evs[0].where(), f'the name offset of a {"directory" if d else "file"} is read as {show(proj(v, "name_offset"), 6)}')
            else:
                rep.undecided(rule, evs[0].where(), show(a, 6))
            b = truth(subst(subst(proj(v, 'is_directory'), m), {w: add(n, d * M)}))
            if b == d:
                rep.ok(rule, evs[0].where(), f'read: type {d}')
            elif b is not None:
                rep.viol(rule, evs[0].where(), f'a {"directory" if d else "file"} is read as the other kind')
            elif boolean_of(proj(v, 'is_directory'), w):
                rep.viol(rule, evs[0].where(), f'whether an entry is a directory depends on its name offset: {show(proj(v, "is_directory"), 6)}')
            else:
                rep.undecided(rule, evs[0].where(), show(proj(v, 'is_directory'), 6))


def truth(t):
    if isint(t):
        return int(t != 0)
    if t.__class__ is T and t.op == 'not':
        b = truth(t.a[0])
        return None if b is None else 1 - b
    if t.__class__ is T and t.op == 'eq0' and isint(t.a[0]):
        return int(t.a[0] == 0)
    if t.__class__ is T and t.op == 'eq0':
        lo, hi = interval(t.a[0])
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return 0
    if t.__class__ is T and t.op == 'lt0':
        lo, hi = interval(t.a[0])
        if lo is not None and lo >= 0:
            return 0
        if hi is not None and hi < 0:
            return 1
    return None


def boolean_of(t, w):
    while t.__class__ is T and t.op in ('not', 'eq0', 'lt0'):
        t = t.a[0]
    return pure(t, w) and not any(y.__class__ is T and y.op == 'trunc' for y in subterms(t))


def pure(t, w):
    """arithmetic over the word only"""
    if isint(t) or t is w:
        return True
    if t.__class__ is T and t.op == 'lin':
        return all(pure(y, w) for y, _ in t.a[1])
    return t.__class__ is T and t.op in ('div', 'trunc', 'band') and all(pure(y, w) for y in t.a)


def word(t, no):
    """(constant, coefficient of the name offset) of a value, names below 2^24"""
    if isint(t):
        return t, 0
    if t == no:
        return 0, 1
    if t.__class__ is T and t.op == 'trunc' and t.a[0] == 32:
        r = word(t.a[1], no)
        return r if r is not None and r[0] < 1 << 32 and r[1] in (0, 1) else None
    if t.__class__ is T and t.op == 'bor':
        a, b = word(t.a[0], no), word(t.a[1], no)
        if a is None or b is None or a[1] and b[1]:
            return None
        c = a[0] | b[0]
        if (a[1] or b[1]) and c % (1 << 24):
            return c, 'overlapping'
        return c, a[1] + b[1]
    if t.__class__ is T and t.op == 'lin':
        c, k = t.a[0], 0
        for y, m in t.a[1]:
            r = word(y, no)
            if r is None:
                return None
            c, k = c + m * r[0], k + m * r[1]
        return c, k
    return None
