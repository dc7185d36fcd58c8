"""C22: every file of the source folder becomes an entry of the image, or rebuilding fails."""
import re
from engine import Unsupported
from program import program
from terms import *
from common import inherent, function
from rules_extract import where_body
from rules_tree import TRun, explore, iter_base, param_roles, pname, disc_of, ret_variant, LOSSY
from rules_section import subterms

RULE = 'C22.folder'


def mentions(t, x):
    return any(y == x for y in subterms(t))


class Folder:
    """state = (entry, names pushed, last name pushed is that of the entry?, known about its kind, descents, insertions, result of the insertion, flags)"""

    def __init__(self, rep, run):
        self.rep, self.run = rep, run
        b = run.body
        r = param_roles(b)
        self.ppos = r['path'][0] if len(r['path']) == 1 else None
        self.fpos = self.dpos = None
        for i in r['other']:
            s = b.lty(i)['s']
            if re.match(r"^&(?:'\w+ )?mut (?:[\w:]*::)?Fst$", s):
                self.fpos = i
            elif 'Path' in s or '/#' in s or re.match(r"^&(?:'\w+ )?\w+$", s):
                self.dpos = i
        if None in (self.ppos, self.fpos, self.dpos):
            raise Unsupported('parameters of the folder walk not recognised')
        self.proot = ('D', mk('sym', pname(b, self.ppos)))
        self.dparam = mk('sym', pname(b, self.dpos))
        self.fparam = mk('sym', pname(b, self.fpos))
        self.bad, self.unk = [], []
        self.counts = {'steps': set(), 'rec': set(), 'add': set()}

    def fail(self, s, ev, msg):
        (self.unk if 'unk' in s[7] else self.bad).append((ev.where(), msg))

    # ---------------------------------------------------------------- values
    def entries(self, t, depth=0):
        """folder entries a value can stand for (merged locals resolved)"""
        if depth > 12 or t.__class__ is not T:
            return {t}
        if t.op == 'phi':
            return set(self.run.alts(t))
        if t.op == 'fld':
            out = set()
            for v in self.entries(t.a[0], depth + 1):
                if v.__class__ is T and v.op == 'agg' and v.a[1] is not None and t.a[1].__class__ is tuple and v.a[1] != t.a[1][0]:
                    continue
                out |= self.entries(proj(v, t.a[1]), depth + 1) if v is not t.a[0] else {t}
            return out
        return {t}

    def same(self, t, x):
        a, b = self.entries(t), self.entries(x)
        if a == b and len(a) == 1:
            return True
        if t == x:
            return True
        return None if a & b or any(v.__class__ is not T or v.op == 'phi' for v in a | b) else False

    def is_name(self, t, x):
        """name of the entry x: True / False (certainly another) / None"""
        while t.__class__ is T and (t.op == 'cowdata' or t.op == 'app' and t.a[0] in ('utf8', 'to_string', 'clone', 'from', 'cowdata')):
            t = t.a[0] if t.op == 'cowdata' else t.a[1]
        if t.__class__ is T and t.op == 'app' and t.a[0] == 'dirent.file_name':
            return self.same(t.a[1], x)
        if t.__class__ is T and t.op == 'app' and t.a[0] == 'lossy' and self.is_name(t.a[1], x):
            return False
        if t.__class__ is T and t.op == 'app' and t.a[0] in ('upper', 'lower', 'upperU', 'lowerU', 'str.trim') and mentions(t, x):
            return False
        if t.__class__ is T and t.op == 'str':
            return False
        return None

    def is_file_path(self, t, x):
        for v in self.run.alts(t):
            if v.__class__ is T and v.op == 'ref':
                v = self.run.e.read(self.cur_st, v.a[0], v.a[1])
            if v.__class__ is T and v.op == 'app' and v.a[0] == 'dirent.path':
                r = self.same(v.a[1], x)
                if not r:
                    return r
                continue
            if v.__class__ is T and v.op == 'app' and v.a[0] == 'join' and self.is_name(v.a[-1], x) and mentions(v.a[1], self.dparam):
                continue
            if v == self.dparam or v == mk('mem', self.dparam):
                return False
            return None
        return True

    def step(self, ev):
        """(adapters, item is what?) when an iterator over the folder moves on"""
        if ev.name not in ('iter.next', 'iter.step') or len(ev.args) < 2:
            return None
        it, ad = iter_base(ev.args[1])
        if it.__class__ is T and it.op == 'agg' and it.a[0] == 'iter:readdir':
            return ad
        if any(y.op == 'agg' and y.a[0] == 'iter:readdir' for y in subterms(ev.args[1])):
            return ad + ['?']
        return None

    # ---------------------------------------------------------------- automaton
    def finish(self, s, ev):
        cur, d, top, kind, nr, na, res, fl = s
        if cur is None:
            return
        if 'dir' in kind:
            if nr != 1:
                self.fail(s, ev, 'a folder can be passed over' if nr == 0 else 'a folder can be taken in twice')
            return
        if 'notfile' in kind and ('notdir' in kind):
            return
        if nr and not na:
            return
        if na != 1:
            what = 'a file' if 'notdir' in kind or 'file' in kind else 'an entry of the folder'
            self.fail(s, ev, f'{what} can be passed over without an error' if na == 0 else f'{what} can be added twice')
        elif res == 'some':
            self.fail(s, ev, 'a file whose name is taken silently replaces the other')
        elif res == 'err':
            self.fail(s, ev, 'a file that cannot be added is passed over')
        elif res != 'none':
            self.fail(s, ev, 'nothing is done about a file that replaces another of the same name')

    def onevent(self, s, ev):
        cur, d, top, kind, nr, na, res, fl = s
        self.cur_st = ev.st
        ad = self.step(ev)
        if ad is not None:
            self.finish(s, ev)
            self.counts['steps'].add((ev.file, ev.line))
            low = [a for a in ad if a in LOSSY and a != 'rev' or a == 'flatten']
            if low:
                self.bad.append((ev.where(), f'not every entry of the folder is taken in ({", ".join(low)})'))
            if '?' in ad:
                fl = fl | {'unk'}
            return (('pend',), d, None, frozenset(), 0, 0, None, fl)
        nm = ev.name
        x = cur[1] if cur and cur[0] == 'at' else None
        touched = [a for a in ev.args if a.__class__ is T and any(l[0] == self.proot for l in self.run.ptrs(a))] if nm.startswith(('vec.', 'call:')) else []
        if nm.startswith('vec.') and touched and touched[0] is ev.args[0]:
            if nm == 'vec.push':
                t = self.is_name(ev.args[1], x) if x is not None else None
                if t is False:
                    self.fail(s, ev, 'the name added to the path is not that of the folder')
                if t is None:
                    fl = fl | {'unk'}
                return (cur, min(d + 1, 3), True, kind, nr, na, res, fl)
            if nm == 'vec.pop':
                return (cur, max(d - 1, -2), None, kind, nr, na, res, fl)
            if nm == 'vec.truncate':
                n = ev.args[1]
                if n == proj(mk('mem', self.proot[1]), '#len'):
                    return (cur, min(d, 0), None, kind, nr, na, res, fl)
                if n == sub(ev.info.get('before', 0), 1):
                    return (cur, max(d - 1, -2), None, kind, nr, na, res, fl)
            return (cur, d, top, kind, nr, na, res, fl | {'unk'})
        if nm == 'rec':
            self.counts['rec'].add((ev.file, ev.line))
            if x is None or ev.info['body'].path != self.run.body.path:
                return (cur, d, top, kind, nr, na, res, fl | {'unk'})
            a = ev.args
            t = self.is_file_path(a[self.dpos - 1], x)
            s2 = s
            if t is None or not all(l == (self.proot, ()) for l in self.run.ptrs(a[self.ppos - 1])) or a[self.fpos - 1] != self.fparam:
                fl = fl | {'unk'}
                s2 = (cur, d, top, kind, nr, na, res, fl)
            if t is False:
                self.fail(s2, ev, 'the walk does not descend into the folder it found')
            if d != 1 or top is not True:
                self.fail(s2, ev, f'the files of a folder are not added below its name ({d} names added)')
            if 'notdir' in kind or 'file' in kind:
                self.fail(s2, ev, 'a file is treated as a folder')
            return (cur, d, top, kind, min(nr + 1, 2), na, res, fl)
        if nm.startswith('call:') and nm.endswith('::add_node_iter'):
            self.counts['add'].add((ev.file, ev.line))
            if x is None:
                return (cur, d, top, kind, nr, na, res, fl | {'unk'})
            it, ad = iter_base(ev.args[1])
            whole = it.__class__ is T and it.op == 'agg' and it.a[0] == 'iter:slice' and all(l[0] == self.proot and not [y for y in l[1] if y != '#buf'] for l in self.run.ptrs(dict(it.a[2])['ptr']))
            low = [y for y in ad if y in LOSSY]
            node = ev.args[2]
            if not whole:
                fl = fl | {'unk'}
            elif low:
                self.fail(s, ev, f'the file is not added at its full path ({", ".join(low)})')
            elif dict(it.a[2])['i'] != 0:
                self.fail(s, ev, 'the file is not added at its full path')
            s2 = (cur, d, top, kind, nr, na, res, fl)
            if d != 0:
                self.fail(s2, ev, f'the file is not added in its own folder ({d:+d} names)')
            if node.__class__ is T and node.op == 'agg' and node.a[1] is not None:
                if node.a[1] != 'File':
                    if 'dir' not in kind:
                        self.fail(s2, ev, 'the entry added for a file is not a file')
                    return (cur, d, top, kind, nr, na, res, fl)         # an entry for the folder itself
                t = self.is_name(proj(node, ('File', 'name')), x)
                if t is False:
                    self.fail(s2, ev, 'the entry does not have the name of the file')
                elif t is None:
                    fl = fl | {'unk'}
            else:
                fl = fl | {'unk'}
            return (cur, d, top, kind, nr, min(na + 1, 2), ('call', ev.node.id), fl)
        if touched or nm.startswith('call:') and self.fparam in ev.args:
            return (cur, d, top, kind, nr, na, res, fl | {'unk'})
        return s

    def meta_of(self, t, x):
        """what a metadata value is about: 'stat', 'lstat' or None"""
        if t.__class__ is not T or not (mentions(t, x) or any(y.op == 'app' and str(y.a[0]).startswith('dirent.') and self.same(y.a[1], x) for y in subterms(t))):
            return None
        for y in subterms(t):
            if y.op == 'app' and y.a[0] in ('dirent.metadata', 'dirent.file_type', 'lmetadata'):
                return 'lstat'
        return 'stat'

    def onedge(self, s, n, lab, m, st):
        cur, d, top, kind, nr, na, res, fl = s
        v = n.outv.get(lab)
        va = ret_variant(v)
        if cur == ('pend',):
            if va == 'None':
                cur = None
            elif va == 'Some':
                x = proj(v, ('Some', '0'))
                cur = ('at', proj(x, ('Ok', '0')))
                if x.__class__ is T and x.op == 'agg' and ret_variant(x) == 'Err':
                    cur = ('at', x)
            else:
                return (None, d, top, kind, nr, na, res, fl | {'unk'})
        if res.__class__ is tuple and res[0] == 'call' and res[1] == n.id and lab[0] == 'c':
            if va == 'Err':
                res = 'err'
            elif va == 'Ok':
                o = proj(v, ('Ok', '0'))
                res = {'Some': 'some', 'None': 'none'}.get(ret_variant(o), ('ok', o))
        new = st.facts - (n.st.facts if n.st is not None else frozenset())
        if cur and cur[0] == 'at':
            x = cur[1]
            for f in new:
                dd = disc_of(f)
                if dd is not None and res.__class__ is tuple and res[0] == 'ok' and dd[0] == res[1]:
                    res = 'none' if dd[1] == 0 else 'some'
                    continue
                pos = True
                g = f
                if g.__class__ is T and g.op == 'not':
                    pos, g = False, g.a[0]
                if g.__class__ is T and g.op == 'app' and g.a[0] in ('meta.is_dir', 'meta.is_file', 'is_dir', 'is_file', 'path.is_dir', 'path.is_file'):
                    w = self.meta_of(g.a[1], x)
                    if w is None:
                        continue
                    k = g.a[0].split('_')[-1]
                    if w == 'lstat' and not pos:
                        kind = kind | {'l' + k}
                        if {'ldir', 'lfile'} <= kind:
                            kind = kind | {'notfile', 'notdir'}
                    kk = k if pos else 'not' + k
                    kind = kind | {kk}
                    if {'dir', 'file'} <= kind or {'dir', 'notdir'} <= kind or {'file', 'notfile'} <= kind:
                        return None
        return (cur, d, top, kind, nr, na, res, fl)

    def onexit(self, s, x):
        run = self.run

        class W:
            def where(_):
                return where_body(run.body)
        if ret_variant(x.ret) == 'Err':
            return
        self.finish(s, W())
        if s[0] is not None:
            self.fail(s, W(), 'the walk can end with success before the last entry of the folder')
        if s[1] != 0:
            self.fail(s, W(), f'the path has {s[1]:+d} names when a folder is done')

    def go(self):
        explore(self.run, (None, 0, None, frozenset(), 0, 0, None, frozenset()), self.onevent, self.onedge, self.onexit, phis=True)
        w0 = where_body(self.run.body)
        for ev in self.run.e.all_events():
            if ev.name in ('iter.flatten', 'iter.filter_map', 'iter.flat_map') and ev.args and any(y.op == 'agg' and y.a[0] == 'iter:readdir' for y in subterms(ev.args[0])):
                self.rep.viol(RULE, ev.where(), 'an entry that cannot be read is passed over')
        if not self.counts['steps'] or not self.counts['add'] or not self.counts['rec']:
            self.rep.undecided(RULE, w0, 'shape of the folder walk not recognised')
            return
        for w, m in dict.fromkeys(self.bad):
            self.rep.viol(RULE, w, m)
        for w, m in dict.fromkeys(self.unk):
            self.rep.undecided(RULE, w, m)
        if not self.bad and not self.unk:
            txt = {'steps': 'every entry of the folder in turn, none passed over', 'add': 'a file is added once, under its own name in its own folder; a taken name is an error',
                   'rec': 'a folder is descended into once, under its own name'}
            for k in ('steps', 'add', 'rec'):
                for f, l in sorted(self.counts[k]):
                    self.rep.ok(RULE, f'{f}:{l} in {self.run.body.short()}', txt[k])


def c22_folder(rep):
    prog = program('disc_riider')
    b = function(prog, 'build_fst_from_directory_tree')
    if b is None:
        rep.undecided(RULE, 'src/dir_reader.rs', 'folder walk not found')
        return
    full = TRun(b, opaque=lambda x, c: x.path.endswith('::add_node_iter'))
    rep.entry(full.e)
    rec = []
    for ev in full.e.all_events():
        if ev.name == 'rec' and ev.info['body'] not in rec:
            rec.append(ev.info['body'])
    if len(rec) != 1:
        rep.undecided(RULE, where_body(b), 'recursion not recognised')
        return
    R = rec[0]
    run = TRun(R, opaque=lambda x, c: x.path.endswith('::add_node_iter'))
    rep.entry(run.e)
    F = Folder(rep, run)
    F.go()
    if R.path == b.path:
        return
    # ------------------------------------------------ the start
    top = TRun(b, opaque=lambda x, c: x.path == R.path)
    evs = [ev for ev in top.e.all_events() if ev.info.get('body') is not None and ev.info['body'].path == R.path]
    if len(evs) != 1:
        rep.undecided('C22.start', where_body(b), 'start of the folder walk not recognised')
        return
    ev = evs[0]

    def rd(t):
        v = None
        for l in top.ptrs(t):
            if l[0] is not None:
                v = top.e.read(ev.st, l[0], l[1])
        return v
    p = rd(ev.args[F.ppos - 1])
    ln = top.e.value_len(p) if p is not None else None
    if isint(ln) and ln:
        rep.viol('C22.start', ev.where(), 'the walk starts with names already in the path')
    elif ln == 0 and mentions(ev.args[F.dpos - 1], mk('sym', pname(b, 1))):
        rep.ok('C22.start', ev.where(), 'starts at the given folder with an empty path')
    else:
        rep.undecided('C22.start', ev.where(), 'start not recognised')

    def onev(s, e):
        return True if e is ev or (e.info.get('body') is not None and e.info['body'].path == R.path) else s

    def onexit(s, x):
        if ret_variant(x.ret) == 'Ok' and not s:
            rep.viol('C22.start', where_body(b), 'success without the folder being walked')
    explore(top, False, onev, lambda s, n, lab, m, st: s, onexit)


def c22_source(rep):
    """the tree that was read from the folder is the one the partition source reports"""
    prog = program('disc_riider')
    for bb in prog.bodies.values():
        if bb.root and not bb.closure and re.search(r'DirPartitionBuilder as .*WiiPartitionDefinition<.*>::get_fst$', bb.path):
            r = TRun(bb)
            rep.entry(r.e)
            w = where_body(bb)
            for x in r.e.all_exits():
                if ret_variant(x.ret) != 'Ok':
                    continue
                v = proj(x.ret, ('Ok', '0'))
                me = mk('mem', mk('sym', 'self'))
                plain = v.__class__ is T and v.op == 'agg' and v.a[2] and all(y.__class__ is T and y.op == 'fld' and y.a[1] == k and mentions(y, me) for k, y in v.a[2])
                if plain or v.__class__ is T and v.op == 'fld' and v.a[0] == me or v.__class__ is T and v.op == 'app' and v.a[0] == 'clone' and mentions(v, me):
                    rep.ok('C22.source', w, 'the tree is handed out as it is')
                elif v.__class__ is T and v.op == 'agg' and not mentions(v, me):
                    rep.viol('C22.source', w, 'the tree handed out is not the one read from the folder')
                else:
                    rep.undecided('C22.source', w, f'tree not recognised: {show(v, 4)}')
