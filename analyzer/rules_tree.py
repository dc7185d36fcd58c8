"""Rules over the code that walks, searches, changes and serialises file trees (C11, C12, C13) and that feeds it from folders and filters (C22, C23).

Every rule runs the abstract interpreter over one step of a recursive function (the recursive call is an event; what it does is the induction
hypothesis) and explores the product of the resulting state graph with a small automaton over the events of one list entry."""
import copy
import re
from engine import Engine, Unsupported
from models import StdModels
from program import program
from terms import *
from prover import phi_in, Prover
from common import STREAMS, inherent, function, impl_method
from rules_builder import where_body


class TRun:
    """abstract run of one body; everything of the crate is inlined except what `opaque` names"""

    def __init__(self, body, opaque=None, setup=None, attach=False, **opt):
        self.body = body
        e = self.e = Engine(body.prog.crate, StdModels(STREAMS), opaque=opaque or (lambda b, c: False), **opt)
        e.attach = attach
        e.hook = self.hook
        e.start(body, setup=setup)
        e.run()
        self.edges = {}
        for n in e.nlist:
            for (s, lab), st in n.ins.items():
                if s >= 0:
                    self.edges.setdefault(s, []).append((lab, n, st))

    def hook(self, ev, st):
        ev.st = st.copy()

    # -------------------------------------------------------------- where a value lives
    def alts(self, t):
        """values a merged local can stand for"""
        out, todo, seen = [], [t], set()
        while todo and len(seen) < 200:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.__class__ is T and x.op == 'phi' and x.a[1][0][0] != 'D':
                for st in self.e.nlist[x.a[0]].ins.values():
                    v = phi_in(x.a[1], st)
                    todo.append(v) if v is not None else out.append(x)
            else:
                out.append(x)
        return out

    def ptrs(self, t, depth=0):
        """locations a pointer can refer to: set of (root, path); (None, t) for an unknown one"""
        out = set()
        for x in self.alts(t):
            if x.__class__ is T and x.op == 'ref':
                if x.a[0][0] == 'D' and x.a[0][1].__class__ is T and x.a[0][1].op == 'phi':
                    for r, p in (self.ptrs(x.a[0][1], depth + 1) if depth < 20 else ((None, x),)):
                        out.add((r, p + x.a[1]) if r is not None else (None, x))
                else:
                    out.add((x.a[0], x.a[1]))
            elif x.__class__ is T and x.op == 'slice':
                out.add((x.a[0], x.a[1]))
            elif x.__class__ is T and x.op in ('sym', 'fld'):
                out.add((('D', x), ()))
            else:
                out.add((None, x))
        return out

    def conts(self, t, depth=0):
        """locations whose content a value is"""
        out = set()
        for x in self.alts(t):
            if depth > 12 or x.__class__ is not T:
                out.add((None, x))
            elif x.op == 'mem':
                for r, p in self.ptrs(x.a[0]):
                    out.add((r, p) if r is not None else (None, x))
            elif x.op == 'fld':
                for r, p in self.conts(x.a[0], depth + 1):
                    out.add((r, p + (x.a[1],)) if r is not None else (None, x))
            elif x.op == 'phi' and x.a[1][0][0] == 'D':
                out.add((x.a[1][0], tuple(x.a[1][1:])))
            else:
                out.add((None, x))
        return out


def phi_of_fact(f):
    """(phi, value, equal?) of a branch on a merged local"""
    pos = True
    if f.__class__ is T and f.op == 'not':
        pos, f = False, f.a[0]
    if not (f.__class__ is T and f.op == 'eq0'):
        return None
    m, c = f.a[0], 0
    if m.__class__ is T and m.op == 'lin' and len(m.a[1]) == 1 and m.a[1][0][1] in (1, -1):
        c = -m.a[0] * m.a[1][0][1]
        m = m.a[1][0][0]
    d = False
    if m.__class__ is T and m.op == 'disc':
        d, m = True, m.a[0]
    if m.__class__ is T and m.op == 'phi' and m.a[1][0][0] == 'L':
        return m, d, c, pos
    return None


def atoms_phi(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if x.__class__ is T:
            if x.op == 'phi':
                yield x
            else:
                todo.extend(x.a)
        elif x.__class__ is tuple:
            todo.extend(x)


class Phis:
    """remembers which constant (or variant) a merged local got on the way into the join, as far as later branches ask for it"""

    def __init__(self, run):
        self.run = run
        self.want = {}
        for out in run.edges.values():
            for lab, m, st in out:
                for f in st.facts:
                    p = phi_of_fact(f)
                    if p is not None:
                        self.add(p[0])

        self.wantv = {}
        for n in run.e.nlist:
            for x in n.exits:
                self.addv(x.ret)

    def addv(self, v):
        """the values merged into what is returned"""
        todo = [v]
        while todo:
            v = todo.pop()
            if v.__class__ is not T:
                continue
            if v.op == 'agg':
                todo.extend(y for _, y in v.a[2])
            elif v.op == 'not':
                todo.append(v.a[0])
            elif v.op == 'phi' and v.a[1][0][0] == 'L' and v not in self.wantv.setdefault(v.a[0], set()):
                self.wantv[v.a[0]].add(v)
                for st in self.run.e.nlist[v.a[0]].ins.values():
                    todo.append(phi_in(v.a[1], st))

    def resolve(self, ph, v):
        m = {k[1]: y for k, y in ph if k.__class__ is tuple}
        return subst(v, m) if m and v.__class__ is T else v

    def add(self, p):
        if p in self.want.setdefault(p.a[0], set()):
            return
        self.want[p.a[0]].add(p)
        for st in self.run.e.nlist[p.a[0]].ins.values():
            v = phi_in(p.a[1], st)
            if v.__class__ is T and v.op == 'phi' and v.a[1][0][0] == 'L':
                self.add(v)

    def edge(self, ph, n, m, st):
        """records after the edge; None: the edge contradicts what is known"""
        for f in st.facts - (n.st.facts if n.st is not None else frozenset()):
            p = phi_of_fact(f)
            if p is None:
                continue
            t, d, c, pos = p
            for k, v in ph:
                if k.__class__ is tuple:
                    continue
                if k is t and v[0] == d and (v[1] == c) != pos:
                    return None
        w = self.want.get(m.id, ())
        wv = self.wantv.get(m.id, ())
        if not w and not wv:
            return ph
        old = dict(ph)
        new = {k: v for k, v in ph if k not in w and not (k.__class__ is tuple and k[1] in wv)}
        for p in wv:
            v = self.resolve(ph, phi_in(p.a[1], st))
            if isint(v) or v.__class__ is T and v.op in ('sym', 'mem', 'eq0', 'lt0', 'not', 'same') and not any(y in wv for y in atoms_phi(v)):
                new['v', p] = v
        for p in w:
            v = phi_in(p.a[1], st)
            if isint(v):
                new[p] = (False, v)
            elif v.__class__ is T and v.op == 'agg' and v.a[1] is not None:
                ad = self.run.e.prog.adts.get(v.a[0])
                for x in ad['v'] if ad and ad['k'] == 'enum' else ():
                    if x['n'] == v.a[1]:
                        new[p] = (True, x['d'])
            elif v in old:
                new[p] = old[v]
        return frozenset(new.items())


def explore(run, init, onevent, onedge, onexit, phis=False):
    """all (node, state) pairs of the product of the state graph with an automaton"""
    seen = set()
    P = Phis(run) if phis else None
    todo = [(0, init, frozenset())]
    while todo:
        i, s, ph = todo.pop()
        if (i, s, ph) in seen:
            continue
        seen.add((i, s, ph))
        if len(seen) > 60000:
            raise Unsupported('too many states')
        n = run.e.nlist[i]
        cur = s
        for ev in n.events:
            cur = onevent(cur, ev)
            if cur is None:
                break
        if cur is None:
            continue
        for x in n.exits:
            if P and ph:
                y = copy.copy(x)
                y.ret = P.resolve(ph, x.ret)
                x = y
            onexit(cur, x)
        for lab, m, st in run.edges.get(i, ()):
            p2 = P.edge(ph, n, m, st) if P else ph
            if p2 is None:
                continue
            t = onedge(cur, n, lab, m, st)
            if t is not None:
                todo.append((m.id, t, p2))
    return len(seen)


def node_variants(prog):
    for n, a in prog.adts.items():
        if n.split('::')[-1] == 'FstNode' and a['k'] == 'enum':
            return [v['n'] for v in a['v']]
    raise Unsupported('FstNode not found')


def disc_of(f):
    """(term, value) of a fact disc(term) == value"""
    if f.__class__ is T and f.op == 'eq0':
        m = f.a[0]
        if m.__class__ is T and m.op == 'disc':
            return m.a[0], 0
        if m.__class__ is T and m.op == 'lin' and len(m.a[1]) == 1:
            t, k = m.a[1][0]
            if t.__class__ is T and t.op == 'disc' and k in (1, -1):
                return t.a[0], -m.a[0] * k
    return None


def ret_variant(v):
    return v.a[1] if v.__class__ is T and v.op == 'agg' else None


def param_roles(body):
    """positions of the list of entries, the list of names and the rest among the parameters"""
    r = {'nodes': [], 'path': [], 'other': []}
    for i in range(1, body.argc + 1):
        s = body.lty(i)['s']
        if re.match(r"^&(?:'\w+ )?(?:mut )?(?:std::vec::Vec<|\[)(?:[\w:]*::)?FstNode[>\]]", s):
            r['nodes'].append(i)
        elif re.match(r"^&(?:'\w+ )?mut std::vec::Vec<(?:&(?:'\w+ )?str|std::string::String)>", s):
            r['path'].append(i)
        else:
            r['other'].append(i)
    return r


def pname(body, i):
    return body.locals[i][1] or f'arg{i}'


def iter_base(it):
    """(innermost iterator aggregate, names of the adapters around it)"""
    ad = []
    while it.__class__ is T and it.op == 'agg' and str(it.a[0]).startswith('iter:') and it.a[0] not in ('iter:slice', 'iter:range'):
        ad.append(it.a[0][5:])
        d = dict(it.a[2])
        nx = None
        for k in ('in', 'src', 'it', 'a'):
            if k in d:
                nx = d[k]
                break
        if nx is None:
            break
        it = nx
    return it, ad


LOSSY = {'rev', 'skip', 'take', 'step_by', 'filter', 'skip_while', 'take_while', 'filter_map', 'map_while'}


class Elem:
    """recognises the entry a loop is at, from the list parameter `root`"""

    def __init__(self, run, root, namef='name'):
        self.run = run
        self.root = root
        self.var = node_variants(run.body.prog)
        self.namef = namef

    def rel(self, loc):
        """(index term, rest of the path) of a location below the list"""
        r, p = loc
        if r != self.root:
            return None
        p = tuple(x for x in p if x != '#buf')
        if p and p[0].__class__ is tuple and p[0][0] == 'idx':
            return p[0][1], p[1:]
        return None

    def is_elem(self, ptr, i):
        ls = self.run.ptrs(ptr)
        return all(self.rel(l) == (i, ()) for l in ls)

    def is_field(self, ptr, i, variant, field):
        return all(self.rel(l) == (i, ((variant, field),)) for l in self.run.ptrs(ptr))

    def is_name(self, val, i):
        """True: content of the name of entry i; False: certainly something else; None: unknown"""
        res = set()
        for l in self.run.conts(val):
            if l[0] is None:
                x = l[1]
                res.add(False if x.__class__ is T and x.op == 'str' else None)
                continue
            r = self.rel(l)
            res.add(r is not None and r[0] == i and len(r[1]) == 1 and r[1][0].__class__ is tuple and r[1][0][1] == self.namef)
        if res == {True}:
            return True
        return None if None in res else False

    def kind(self, facts, i):
        for f in facts:
            d = disc_of(f)
            if d is not None:
                for l in self.run.conts(d[0]):
                    r = self.rel(l)
                    if r == (i, ()) and d[1] < len(self.var):
                        return self.var[d[1]]
        return None


def step_of(run, ev, root):
    """for a step of an iterator over the list at `root`: (index term, adapters, whole list?)"""
    if ev.name not in ('iter.step',):
        return None
    it, ad = iter_base(ev.args[1])
    if not (it.__class__ is T and it.op == 'agg'):
        return None
    d = dict(it.a[2])
    if it.a[0] == 'iter:slice':
        ls = run.ptrs(d['ptr'])
        if not all(l[0] == root and tuple(x for x in l[1] if x != '#buf') == () for l in ls):
            return None
        n = d['n']
        p = d['ptr']
        off = p.a[2] if p.__class__ is T and p.op == 'slice' else 0
        return d['i'], ad, off == 0
    return None


def lossy_next(run, ev, root):
    """adapters that drop or reorder entries, for a step of an iterator over the list at `root` that is not followed element by element"""
    if ev.name != 'iter.next' or len(ev.args) < 2:
        return None
    it, ad = iter_base(ev.args[1])
    low = [a for a in ad if a in LOSSY]
    if not low or not (it.__class__ is T and it.op == 'agg' and it.a[0] == 'iter:slice'):
        return None
    ls = run.ptrs(dict(it.a[2])['ptr'])
    if all(l[0] == root and tuple(x for x in l[1] if x != '#buf') == () for l in ls):
        return low
    return None


class Walk:
    """automaton of one callback walk: state = (index, depth, top, calls, recursions, kind, flags)"""

    def __init__(self, rep, run, files_only, mutable, rule):
        self.rep, self.run, self.files_only, self.mutable, self.rule = rep, run, files_only, mutable, rule
        b = run.body
        r = param_roles(b)
        if len(r['nodes']) != 1 or len(r['path']) != 1:
            raise Unsupported('parameters of the walk not recognised')
        self.npos, self.ppos = r['nodes'][0], r['path'][0]
        self.nroot = ('D', mk('sym', pname(b, self.npos)))
        self.proot = ('D', mk('sym', pname(b, self.ppos)))
        self.el = Elem(run, self.nroot)
        self.bad = []
        self.unk = []
        self.lost = []
        self.counts = {'call': set(), 'rec': set(), 'steps': set()}

    def fail(self, s, ev, msg):
        (self.unk if 'unk' in s[6] else self.bad).append((ev.where(), msg))

    def is_path(self, v):
        return all(l == (self.proot, ()) for l in self.run.ptrs(v))

    def touches_path(self, v):
        return v.__class__ is T and any(l[0] == self.proot for l in self.run.ptrs(v))

    def finish(self, s, ev):
        """the entry is left behind"""
        i, d, top, c, r, k, fl = s
        if i is None:
            return
        if self.files_only:
            if c != 1 and k != 'Directory':
                self.fail(s, ev, f'a file entry can be passed over ({c} callback calls)' if c == 0 else 'the callback can be called twice for one entry')
            if c > 0 and k == 'Directory':
                self.fail(s, ev, 'the callback is called for a directory')
        elif c != 1:
            self.fail(s, ev, 'an entry can be passed over without calling the callback' if c == 0 else 'the callback can be called twice for one entry')
        if k != 'File' and r != 1:
            self.fail(s, ev, 'the entries of a directory can be passed over' if r == 0 else 'the entries of a directory can be visited twice')

    def onevent(self, s, ev):
        i, d, top, c, r, k, fl = s
        st = step_of(self.run, ev, self.nroot)
        if st is not None:
            if 'err' in fl:
                self.fail(s, ev, 'the walk goes on after the callback failed')
            else:
                self.finish(s, ev)
            self.counts['steps'].add((ev.file, ev.line))
            idx, ad, whole = st
            low = [a for a in ad if a in LOSSY]
            if low or not whole:
                self.bad.append((ev.where(), f'the walk does not take all entries in order ({", ".join(low) or "partial list"})'))
            if self.run.e.__class__ and isint(idx) and idx != 0:
                self.bad.append((ev.where(), f'the walk starts at entry {idx}'))
            return (('pend', idx), d, None, 0, 0, None, fl - {'err'})
        low = lossy_next(self.run, ev, self.nroot)
        if low:
            self.lost.append((ev.where(), f'the walk does not take all entries in order ({", ".join(low)})'))
        nm = ev.name
        if nm.startswith('vec.') and ev.args and self.touches_path(ev.args[0]):
            if not self.is_path(ev.args[0]):
                return (i, d, top, c, r, k, fl | {'unk'})
            if nm == 'vec.push':
                t = self.el.is_name(ev.args[1], i[1]) if i and i[0] == 'at' else None
                if t is False:
                    self.fail(s, ev, 'a name that is not that of the entry is added to the path')
                    return (i, min(d + 1, 3), 'cur', c, r, k, fl)
                if t is None:
                    fl = fl | {'unk'}
                return (i, min(d + 1, 3), 'cur', c, r, k, fl)
            if nm == 'vec.pop':
                return (i, max(d - 1, -2), None, c, r, k, fl)
            if nm == 'vec.truncate':
                n = ev.args[1]
                if n == proj(mk('mem', self.proot[1]), '#len'):
                    return (i, min(d, 0), None, c, r, k, fl)
                if n == sub(ev.info.get('before', 0), 1):
                    return (i, max(d - 1, -2), None, c, r, k, fl)
                return (i, d, top, c, r, k, fl | {'unk'})
            if nm == 'vec.clear':
                self.fail(s, ev, 'the path of the parents is thrown away')
                return (i, d, top, c, r, k, fl | {'unk'})
            return (i, d, top, c, r, k, fl | {'unk'})
        if nm.startswith('call:') and 'FnMut' in nm or nm.startswith('call:') and nm.endswith(('::call', '::call_once', '::call_mut')):
            tup = ev.args[1] if len(ev.args) > 1 else None
            a = []
            if tup.__class__ is T and tup.op == 'agg':
                dd = dict(tup.a[2])
                a = [dd[str(x)] for x in range(len(dd)) if str(x) in dd]
            if not any(self.touches_path(x) for x in a):
                return s
            self.counts['call'].add((ev.file, ev.line))
            if not (i and i[0] == 'at'):
                return (i, d, top, c, r, k, fl | {'unk'})
            self.at_path(s, ev, 'the callback')
            if self.files_only:
                if len(a) == 3 and not (self.el.is_field(a[1], i[1], 'File', 'offset') and self.el.is_field(a[2], i[1], 'File', 'length')):
                    self.fail(s, ev, 'the callback does not get offset and length of the entry itself')
            elif len(a) == 2 and not self.el.is_elem(a[1], i[1]):
                ls = self.run.ptrs(a[1])
                if any(l[0] is None for l in ls):
                    fl = fl | {'unk'}
                else:
                    self.fail(s, ev, 'the callback does not get the entry the path belongs to')
            if r:
                self.fail(s, ev, 'the children of a directory are visited before the directory')
            if 'err' in fl:
                self.fail(s, ev, 'the walk goes on after the callback failed')
            return (i, d, 'stale' if self.mutable and not self.files_only else top, min(c + 1, 2), r, None if self.mutable and not self.files_only else k, (fl | {'called'}) - {'cond'})
        if nm == 'rec':
            self.counts['rec'].add((ev.file, ev.line))
            if not (i and i[0] == 'at') or ev.info['body'].path != self.run.body.path:
                return (i, d, top, c, r, k, fl | {'unk'})
            a = ev.args
            if not self.el.is_field(a[self.npos - 1], i[1], 'Directory', 'files'):
                ls = self.run.ptrs(a[self.npos - 1])
                rl = [self.el.rel(l) for l in ls]
                if any(x is None for x in rl):
                    fl = fl | {'unk'}
                else:
                    self.fail(s, ev, 'the walk does not descend into the entries of the directory')
            if not self.is_path(a[self.ppos - 1]):
                fl = fl | {'unk'}
            s2 = (i, d, top, c, r, k, fl)
            self.at_path(s2, ev, 'the walk of the children')
            if not self.files_only and not c:
                self.fail(s2, ev, 'the children of a directory are visited before the directory')
            if 'err' in fl:
                self.fail(s2, ev, 'the walk goes on after the callback failed')
            return (i, d, top, c, min(r + 1, 2), k, fl | {'called'})
        if nm.startswith('call:') and any(self.touches_path(x) for x in ev.args if x.__class__ is T):
            return (i, d, top, c, r, k, fl | {'unk'})
        return s

    def at_path(self, s, ev, who):
        i, d, top, c, r, k, fl = s
        if d != 1:
            self.fail(s, ev, f'{who} does not get exactly the names up to the entry ({d - 1:+d} names)')
            return
        if top == 'cur':
            return
        v = ev.st.store.get(self.proot)
        if v is not None:
            n = proj(v, '#len')
            last = self.run.e.elem(ev.st, proj(v, '#buf'), sub(n, 1))
            t = self.el.is_name(last, i[1])
            buf = proj(v, '#buf')
            if t or buf.__class__ is T and buf.op == 'agg' and any(self.el.is_name(x, i[1]) for _, x in buf.a[2]):
                return
        if top == 'stale':
            if 'cond' in fl:
                self.unk.append((ev.where(), 'name after the callback'))
            else:
                self.fail(s, ev, f'{who} gets the old name of an entry the callback renamed')
        else:
            self.unk.append((ev.where(), 'last name of the path not known'))

    def onedge(self, s, n, lab, m, st):
        i, d, top, c, r, k, fl = s
        if i and i[0] == 'pend':
            v = n.outv.get(lab)
            va = ret_variant(v)
            if va == 'None':
                return (None, d, top, 0, 0, None, fl)
            i = ('at', i[1])
        if lab[0] == 'c' and 'called' in fl:
            va = ret_variant(n.outv.get(lab))
            fl = fl - {'called'}
            if va == 'Err':
                fl = fl | {'err'}
        if i and i[0] == 'at' and lab[0] == 's':
            src = n.st.facts if n.st is not None else frozenset()
            new = st.facts - src
            kk = self.el.kind(new, i[1])
            if kk is not None:
                if k is not None and kk != k:
                    return None
                k = kk
            if top == 'stale':
                for f in new:
                    if disc_of(f) is not None:
                        continue
                    if f.__class__ is T and f.op == 'same':
                        if any(self.el.is_name(x, i[1]) for x in f.a):
                            top = 'cur'
                    elif not (f.__class__ is T and f.op in ('lt0', 'eq0') or f.__class__ is T and f.op == 'not' and f.a[0].op in ('eq0', 'lt0', 'same')):
                        fl = fl | {'cond'}
        return (i, d, top, c, r, k, fl)

    def onexit(self, s, x):
        class W:
            def where(_):
                b = self.run.body
                return f'{b.file}:{b.line} in {b.short()}'
        if 'unk' in s[6]:
            self.unk.append((W().where(), 'a step of the walk was not followed'))
        if ret_variant(x.ret) == 'Err':
            return
        if 'err' in s[6]:
            if ret_variant(x.ret) == 'Ok':
                self.fail(s, W(), 'the walk ends with success although the callback failed')
            return
        self.finish(s, W())
        if s[0] is not None:
            self.fail(s, W(), 'the walk can end with success before the last entry')
        if s[1] != 0 and 'unk' not in s[6]:
            self.fail(s, W(), f'the path has {s[1]:+d} names when the walk of a list is over')

    def go(self):
        explore(self.run, (None, 0, None, 0, 0, None, frozenset()), self.onevent, self.onedge, self.onexit)
        where = where_body(self.run.body)
        if self.lost:
            for w, m in dict.fromkeys(self.lost):
                self.rep.viol(self.rule, w, m)
            return
        if not self.counts['steps'] or not self.counts['call'] or not self.counts['rec']:
            self.rep.undecided(self.rule, where, 'shape of the walk not recognised')
            return
        for w, m in dict.fromkeys(self.bad):
            self.rep.viol(self.rule, w, m)
        for w, m in dict.fromkeys(self.unk):
            self.rep.undecided(self.rule, w, m)
        if not self.bad and not self.unk:
            for k in ('steps', 'call', 'rec'):
                for f, l in sorted(self.counts[k]):
                    self.rep.ok(self.rule, f'{f}:{l} in {self.run.body.short()}', {'steps': 'every entry of the list in order', 'call': 'callback: once per entry, full path',
                                                                              'rec': 'children: once, after the parent, path restored'}[k])


def recursive_part(entry):
    """bodies the entry recurses through"""
    r = TRun(entry)
    out = []
    for ev in r.e.all_events():
        if ev.name == 'rec' and ev.info['body'] not in out:
            out.append(ev.info['body'])
    return r, out


def c12_walks(rep):
    prog = program('disc_riider')
    for ty, m, files_only, mutable in (('Fst', 'callback_all_files', False, False), ('Fst', 'callback_all_files_mut', False, True),
                                       ('FstToBytes', 'callback_all_files_mut', True, True)):
        b = inherent(prog, ty, m)
        if b is None:
            rep.undecided('C12.walk', m, 'walk not found')
            continue
        full, rec = recursive_part(b)
        rep.entry(full.e)
        if len(rec) != 1:
            rep.undecided('C12.walk', where_body(b), 'recursion not recognised')
            continue
        R = rec[0]
        run = TRun(R)
        rep.entry(run.e)
        Walk(rep, run, files_only, mutable, 'C12.walk').go()
        # the entry hands over all entries and an empty path
        top = TRun(b, opaque=lambda x, c: x.path == R.path)
        evs = [ev for ev in top.e.all_events() if ev.info.get('body') is not None and ev.info['body'].path == R.path]
        roles = param_roles(R)
        if not evs:
            rep.undecided('C12.entry', where_body(b), 'start of the walk not recognised')
        for ev in evs:
            n = ev.args[roles['nodes'][0] - 1]
            p = ev.args[roles['path'][0] - 1]
            okn = all(l[0] == ('D', mk('sym', 'self')) and l[1] and l[1][-1] == 'entries' for l in top.ptrs(n))
            v = None
            for l in top.ptrs(p):
                if l[0] is not None:
                    v = top.e.read(ev.st, l[0], l[1])
            ln = top.e.value_len(v) if v is not None else None
            if isint(ln) and ln != 0:
                rep.viol('C12.entry', ev.where(), 'the walk starts with names already in the path')
            elif ln == 0 and okn:
                rep.ok('C12.entry', ev.where(), 'starts with all entries of the root and an empty path')
            else:
                rep.undecided('C12.entry', ev.where(), f'start not recognised ({show(n, 4)}, {show(v, 4) if v is not None else None})')
