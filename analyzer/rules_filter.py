"""C23: filtering by callback removes exactly the files the callback selects."""
import re
from engine import Unsupported
from program import program
from terms import *
from rules_extract import where_body
from rules_tree import TRun, explore, param_roles, pname, disc_of, ret_variant, node_variants
from rules_section import subterms

RULE = 'C23.filter'


class Filter:
    """one entry of the list: state = (names pushed, last is the entry's own?, questions, descents, kind, path texts, asked, flags)"""

    def __init__(self, rep, R, outer, ev):
        self.rep, self.R, self.outer = rep, R, outer
        clo, _ = outer.e.closure_of(ev.st, ev.args[1])
        if clo is None:
            raise Unsupported('what decides about an entry is not recognised')
        if clo.op == 'fnv':
            raise Unsupported('what decides about an entry is not a closure')
        prog = R.prog
        cb = prog.bodies.get(dict(clo.a[2])['#body'].a[0])
        if cb is None:
            raise Unsupported('closure not found')

        def setup(e, st, f):
            env = {}
            for k, v in clo.a[2]:
                if v.__class__ is T and v.op == 'ref' and v.a[0][0] != 'D':
                    root = ('D', mk('sym', 'cap:' + str(k)))
                    st.store[root] = outer.e.read(ev.st, v.a[0], v.a[1])
                    v = mk('ref', root, ())
                env[k] = v
            a1 = st.store[('L', f.id, 1)]
            c = agg(clo.a[0], clo.a[1], env)
            if cb.lty(1)['k'] == 'ref':
                st.store[('D', a1)] = c
            else:
                st.store[('L', f.id, 1)] = c
        r = param_roles(R)
        if len(r['nodes']) != 1 or len(r['path']) != 1:
            raise Unsupported('parameters of the filter not recognised')
        self.npos, self.ppos = r['nodes'][0], r['path'][0]
        self.cb = cb
        self.run = TRun(cb, opaque=lambda x, c: x.path == R.path, setup=setup, attach=True)
        rep.entry(self.run.e)
        self.proot = ('D', mk('sym', pname(R, self.ppos)))
        self.node = mk('sym', pname(cb, 2))
        self.nroot = ('D', self.node)
        self.var = node_variants(prog)
        self.bad, self.unk = [], []
        self.good = set()

    def fail(self, s, w, msg):
        (self.unk if 'unk' in s[7] else self.bad).append((w if w.__class__ is str else w.where(), msg))

    def is_name(self, v):
        res = set()
        for l in self.run.conts(v):
            if l[0] is None:
                res.add(False if l[1].__class__ is T and l[1].op == 'str' else None)
            else:
                p = [x for x in l[1] if x != '#buf']
                res.add(l[0] == self.nroot and len(p) == 1 and p[0].__class__ is tuple and p[0][1] == 'name')
        return True if res == {True} else None if None in res else False

    def onevent(self, s, ev):
        d, top, nq, nr, kind, texts, asked, fl = s
        nm = ev.name
        if nm == 'str.join':
            sl = ev.args[0]
            sep = ev.args[1]
            if sl.__class__ is T and sl.op in ('slice', 'ref') and all(l[0] == self.proot for l in self.run.ptrs(sl)):
                t = sep.a[0] if sep.__class__ is T and sep.op == 'str' else None
                whole = sl.op == 'slice' and sl.a[2] == 0 and sl.a[3] == self.run.e.value_len(self.run.e.read(ev.st, self.proot, ()))
                if t is None or not whole:
                    return (d, top, nq, nr, kind, texts | {(ev.info['res'], None)}, asked, fl)
                w = 'ok' if t == '/' and d == 1 and top else f'the callback gets a path whose parts are separated by "{t}"' if t != '/' else \
                    f'the callback does not get the full path of the file ({d} names of its own)'
                return (d, top, nq, nr, kind, texts | {(ev.info['res'], w)}, asked, fl)
            return s
        touched = nm.startswith(('vec.', 'call:')) and [a for a in ev.args if a.__class__ is T and any(l[0] == self.proot for l in self.run.ptrs(a))]
        if nm.startswith('vec.') and touched and touched[0] is ev.args[0]:
            if nm == 'vec.push':
                t = self.is_name(ev.args[1])
                if t is False:
                    self.fail(s, ev, 'a name that is not that of the entry is added to the path')
                if t is None:
                    fl = fl | {'unk'}
                return (min(d + 1, 3), True, nq, nr, kind, texts, asked, fl)
            if nm == 'vec.pop':
                return (max(d - 1, -2), False, nq, nr, kind, texts, asked, fl)
            if nm == 'vec.truncate':
                n = ev.args[1]
                if n == proj(mk('mem', self.proot[1]), '#len'):
                    return (min(d, 0), False, nq, nr, kind, texts, asked, fl)
                if n == sub(ev.info.get('before', 0), 1):
                    return (max(d - 1, -2), False, nq, nr, kind, texts, asked, fl)
            return (d, top, nq, nr, kind, texts, asked, fl | {'unk'})
        if nm.startswith('py.call'):
            a = ev.info.get('arg')
            x = proj(a, '0') if a.__class__ is T and a.op == 'agg' else None
            w = dict(texts).get(x, '?') if x is not None else '?'
            if w in ('?', None):
                y = x
                while y.__class__ is T and y.op == 'app' and len(y.a) > 1 and y.a[0] in ('upper', 'lower', 'upperU', 'lowerU', 'trim'):
                    y = y.a[1]
                if y is not x and dict(texts).get(y) is not None:
                    self.fail(s, ev, 'the callback gets an altered path (' + str(x.a[0]) + '), not the path of the file')
                elif x is not None and self.is_name(x):
                    self.fail(s, ev, 'the callback gets only the name of the file, not its path')
                else:
                    self.note(s, ev.where(), 'the path the callback gets is not recognised')
            elif w != 'ok':
                self.fail(s, ev, w)
            if kind == 'Directory':
                self.fail(s, ev, 'the callback is asked about a directory')
            else:
                self.good.add((ev.where(), 'asked once per file, with its full path'))
            return (d, top, min(nq + 1, 2), nr, kind, texts, ('call', ev.node.id, ev.info['res']), fl)
        if nm.startswith('call:') and ev.info.get('body') is not None and ev.info['body'].path == self.R.path:
            a = ev.args
            ls = self.run.ptrs(a[self.npos - 1])
            if not all(l == (self.nroot, (('Directory', 'files'),)) for l in ls) or not all(l == (self.proot, ()) for l in self.run.ptrs(a[self.ppos - 1])):
                fl = fl | {'unk'}
            elif d != 1 or not top:
                self.fail(s, ev, f'the files of a directory are not asked about below its name ({d} names added)')
            self.good.add((ev.where(), 'the entries of a directory, below its name'))
            return (d, top, nq, min(nr + 1, 2), kind, texts, asked, fl)
        if touched:
            return (d, top, nq, nr, kind, texts, asked, fl | {'unk'})
        return s

    def onedge(self, s, n, lab, m, st):
        d, top, nq, nr, kind, texts, asked, fl = s
        if asked.__class__ is tuple and asked[0] == 'call' and asked[1] == n.id and lab[0] == 'c':
            va = ret_variant(n.outv.get(lab))
            if va == 'Err':
                asked = 'err'
            elif va == 'Ok':
                asked = ('ok', asked[2])
        if lab[0] == 'c' and any(ev.name == 'py.is_truthy' for ev in n.events) and ret_variant(n.outv.get(lab)) == 'Err':
            asked = 'err'
        for f in st.facts - (n.st.facts if n.st is not None else frozenset()):
            dd = disc_of(f)
            if dd is not None and any(l == (self.nroot, ()) for l in self.run.conts(dd[0])) and dd[1] < len(self.var):
                k = self.var[dd[1]]
                if kind is not None and k != kind:
                    return None
                kind = k
            if asked.__class__ is tuple and asked[0] == 'ok':
                pos, g = True, f
                if g.__class__ is T and g.op in ('not', 'eq0'):
                    pos, g = False, g.a[0]
                if g.__class__ is T and g.op == 'not':
                    pos, g = not pos, g.a[0]
                if g.__class__ is T and g.op == 'eq0':
                    pos, g = not pos, g.a[0]
                if g == mk('app', 'truthy', asked[1]):
                    asked = 'yes' if pos else 'no'
        return (d, top, nq, nr, kind, texts, asked, fl)

    def onexit(self, s, x):
        d, top, nq, nr, kind, texts, asked, fl = s
        w = where_body(self.cb)
        r = x.ret
        if d:
            self.fail(s, w, f'the path has {d:+d} names when an entry is done')
        node = any(y == self.node for y in subterms(r)) if r.__class__ is T else False
        if kind == 'Directory':
            if r == 0:
                self.fail(s, w, 'a directory is removed')
            elif not isint(r):
                plain = r.__class__ is T and r.op in ('eq0', 'lt0', 'not') and not any(y.op == 'phi' and y.a[1][0][0] != 'D' for y in subterms(r))
                (self.fail if plain and (node or nr == 1 and not nq) else self.note)(s, w, 'a directory can be removed')
            if nr != 1:
                self.fail(s, w, 'the files of a directory are not asked about' if nr == 0 else 'the files of a directory are asked about twice')
            if r == 1 and nr == 1:
                self.good.add((w, 'directories stay'))
            return
        what = 'a file' if kind == 'File' else 'an entry'
        if nq != 1:
            self.fail(s, w, f'{what} is kept or removed without asking the callback' if nq == 0 else f'the callback is asked twice about {what}')
            return
        if asked == 'err' or asked == 'no':
            if r == 0:
                self.fail(s, w, 'a file is removed although the callback ' + ('failed' if asked == 'err' else 'answered false'))
            elif r != 1:
                self.note(s, w, 'answer not recognised')
            else:
                self.good.add((w, 'kept unless the callback answered true'))
        elif asked == 'yes':
            if r == 1:
                self.fail(s, w, 'a file is kept although the callback answered true')
            elif r != 0 and node and not any(y.op == 'phi' for y in subterms(r)):
                self.fail(s, w, 'whether a file is removed depends on more than the answer')
            elif r != 0:
                self.note(s, w, 'answer not recognised')
            else:
                self.good.add((w, 'removed when the callback answered true'))
        elif asked.__class__ is tuple and asked[0] == 'ok':
            t = mk('app', 'truthy', asked[1])
            if r in (mk('not', t), eq0(t)):
                self.good.add((w, 'removed exactly when the callback answered true'))
            elif r == t:
                self.fail(s, w, 'the files the callback selects are kept and the others removed')
            elif isint(r) and not any(ev.name == 'py.is_truthy' for ev in self.run.e.all_events()):
                self.note(s, w, 'answer not recognised')
            elif isint(r):
                self.fail(s, w, f'a file is {"kept" if r else "removed"} whatever the callback answered')
            elif any(y == t for y in subterms(r)) and node:
                self.fail(s, w, 'whether a file is removed depends on more than the answer')
            else:
                self.note(s, w, 'answer not recognised')
        else:
            self.note(s, w, 'answer not recognised')

    def note(self, s, w, msg):
        self.unk.append((w, msg))

    def go(self):
        explore(self.run, (0, False, 0, 0, None, frozenset(), None, frozenset()), self.onevent, self.onedge, self.onexit, phis=True)
        for w, m in dict.fromkeys(self.bad):
            self.rep.viol(RULE, w, m)
        for w, m in dict.fromkeys(self.unk):
            self.rep.undecided(RULE, w, m)
        if not self.bad and not self.unk:
            for w, m in sorted(self.good):
                self.rep.ok(RULE, w, m)


def c23_filter(rep):
    prog = program('disc_riider_py')
    n = 0
    for b in sorted(prog.bodies.values(), key=lambda b: b.path):
        if not b.path.startswith('disc_riider_py') or b.closure or '__py' in b.path:
            continue
        r = param_roles(b)
        if len(r['nodes']) != 1:
            continue
        if b.path in [x.path for x in prog.bodies.values() if x is not b and x.root and x.path == b.path]:
            pass
        run = TRun(b, attach=True)
        rep.entry(run.e)
        nroot = ('D', mk('sym', pname(b, r['nodes'][0])))
        for ev in run.e.all_events():
            if ev.name in ('vec.swap_remove',) and all(l[0] == nroot for l in run.ptrs(ev.args[0])):
                rep.viol(RULE, ev.where(), 'removing an entry changes the order of the others')
            if ev.name in ('vec.retain', 'vec.retain_mut') and all(l[0] == nroot for l in run.ptrs(ev.args[0])):
                n += 1
                if ev.args[0].op == 'slice' and ev.args[0].a[2] != 0:
                    rep.undecided(RULE, ev.where(), 'only a part of the list is filtered')
                Filter(rep, b, run, ev).go()
        if n:
            start(rep, prog, b, r)
    if not n:
        rep.undecided(RULE, 'disc-riider-py/src/lib.rs', 'no filter recognised')


def start(rep, prog, R, roles):
    """who calls the filter: an empty path and the entries of the section itself"""
    for b in sorted(prog.bodies.values(), key=lambda b: b.path):
        if not b.path.startswith('disc_riider_py') or b.closure or '__py' in b.path or b.path == R.path or not b.path == R.path.rsplit('::', 1)[0] and not b.path.endswith('remove_files_by_callback'):
            continue
        top = TRun(b, opaque=lambda x, c: x.path == R.path)
        rep.entry(top.e)
        seen = set()
        for ev in top.e.all_events():
            if ev.info.get('body') is None or ev.info['body'].path != R.path:
                continue
            p = None
            for l in top.ptrs(ev.args[roles['path'][0] - 1]):
                if l[0] is not None:
                    p = top.e.read(ev.st, l[0], l[1])
            ln = top.e.value_len(p) if p is not None else None
            ls = top.ptrs(ev.args[roles['nodes'][0] - 1])
            seen.add(ev.where())
            if isint(ln) and ln:
                rep.viol('C23.start', ev.where(), 'the paths handed to the callback do not start at the partition root')
            elif ln == 0 and all(l[0] is not None and l[0][0] == 'D' and l[1] and l[1][-1] == 'entries' for l in ls):
                rep.ok('C23.start', ev.where(), 'all entries of the section, paths from its root')
            elif any(l[0] is not None and l[0][0] == 'L' and l[1] and l[1][-1] == 'entries' for l in ls):
                rep.undecided('C23.start', ev.where(), 'the filtered tree may be a copy')
            else:
                rep.undecided('C23.start', ev.where(), f'start not recognised: {ls}')

        def onev(s, e):
            return True if e.info.get('body') is not None and e.info['body'].path == R.path else s

        def onexit(s, x):
            if ret_variant(x.ret) == 'Ok' and not s:
                rep.viol('C23.start', where_body(b), 'success without the filter being applied')
        if seen:
            explore(top, False, onev, lambda s, n, lab, m, st: s, onexit)
