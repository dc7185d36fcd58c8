"""C13: insertion keeps siblings sorted and unique; lookup and removal are exact."""
import re
from engine import Unsupported
from program import program
from terms import *
from common import inherent, function
from rules_extract import where_body
from prover import phi_in
from rules_tree import TRun, explore, Phis, disc_of, ret_variant, node_variants, pname, iter_base, LOSSY
from rules_section import subterms, fold_of, text_of

RULE = 'C13.path'
OPT = dict(memkeys=False, unroll=False, maxnodes=3000)


def ordering_fn(b):
    """an own function comparing two names"""
    return b.argc == 2 and b.lty(0)['s'].endswith('cmp::Ordering') and all('str' in b.lty(i)['s'].lower() for i in (1, 2))


def key(t):
    """location a pointer refers to"""
    if t.__class__ is not T:
        return None
    if t.op in ('ref', 'slice'):
        return norm(t.a[0], t.a[1])
    if t.op in ('sym', 'phi', 'fld', 'fresh', 'mem'):
        return (('D', t), ())
    return None


def norm(root, path):
    return (root, tuple(x for x in path if x != '#buf'))


def loc_terms(k):
    r, p = k
    if r[0] == 'D':
        yield r[1]
    for x in p:
        if x.__class__ is tuple and len(x) > 1 and x[0] == 'idx':
            yield x[1]


def of_node(t, nid):
    """mentions a value made or merged at node nid"""
    if t.__class__ is not T:
        return False
    return any(y.op in ('phi', 'fresh') and y.a[0] == nid for y in subterms(t))


def place(t):
    """location a value was read from, as written (merged pointers stay as they are)"""
    p = []
    while t.__class__ is T and t.op == 'fld':
        p.insert(0, t.a[1])
        t = t.a[0]
    if t.__class__ is T and t.op == 'mem':
        k = key(t.a[0])
        return norm(k[0], k[1] + tuple(p)) if k is not None else None
    if t.__class__ is T and t.op == 'phi' and t.a[1][0][0] == 'D':
        return norm(t.a[1][0], tuple(t.a[1][1:]) + tuple(p))
    return None


def any_same(facts):
    return any(y.op == 'same' for f in facts if f.__class__ is T for y in subterms(f))


FILES = (('Directory', 'files'),)


class Path:
    """follows one path through the tree.
    state = (current list, entry found, current name, position found, search, kind of the entry, ended?, removed/stored, flags)
    lists, entries, names and positions are sets of equivalent terms, renamed at joins"""

    def __init__(self, rep, body, what, node=None):
        self.rep, self.body, self.what = rep, body, what
        self.run = TRun(body, opaque=lambda b, c: ordering_fn(b), **OPT)
        rep.entry(self.run.e)
        self.var = node_variants(body.prog)
        self.bad, self.unk, self.good = [], [], set()
        self.kinds = set()
        self.list0 = frozenset({(('D', mk('sym', 'self')), ('entries',))})
        self.node = mk('sym', node) if node else None
        self.maps = {}
        self.other = self.own_search()
        self.sorts = any(ev.name.startswith('vec.sort') for ev in self.run.e.all_events())

    def own_search(self):
        """names are compared by other means than the recognised searches"""
        for n in self.run.e.nlist:
            search = False
            for ev in n.events:
                if ev.name in ('iter.step', 'iter.next') and self.node_iter(ev):
                    return True
                if ev.name.startswith('iter.') and ev.name not in ('iter.step', 'iter.next', 'iter.peek', 'iter.find', 'iter.position'):
                    return True
                if ev.name in ('iter.find', 'iter.position', 'search'):
                    search = True
            if not search:
                if any(ev.name.startswith('call:') for ev in n.events):
                    return True
                for lab, m, st in self.run.edges.get(n.id, ()):
                    for f in st.facts - (n.st.facts if n.st is not None else frozenset()):
                        if any(y.op == 'same' for y in subterms(f)):
                            return True
        return False

    def fail(self, s, w, msg):
        w = w if w.__class__ is str else w.where()
        (self.unk if 'unk' in s[8] or self.other else self.bad).append((w, msg))

    # ------------------------------------------------------------ renaming at joins
    def leaves(self, st):
        out = {}
        for r, v in st.store.items():
            if r[0] != 'L':
                continue
            todo = [((r,), v)]
            while todo:
                c, x = todo.pop()
                if x.__class__ is T and x.op == 'agg' and len(c) < 6:
                    todo.extend((c + (k,), y) for k, y in x.a[2])
                elif x.__class__ is T:
                    out[c] = x
        return out

    def mapping(self, st, m):
        a, b = self.leaves(st), self.leaves(m.st)
        ptr, val = {}, {}
        for c, y in b.items():
            x = a.get(c)
            if x is None:
                # a merged aggregate seen through one variant
                continue
            if x is y:
                continue
            kx, ky = key(x), key(y)
            if kx is not None and ky is not None:
                ptr.setdefault(kx, set()).add(ky)
            val.setdefault(x, set()).add(y)
        return ptr, val

    def rename(self, s, n, lab, m, st):
        lst, ent, nam, pos, se, kind, ended, rm, fl = s
        if m.st is None:
            return s
        k = (n.id, lab, m.id)
        if k not in self.maps:
            self.maps[k] = self.mapping(st, m)
        ptr, val = self.maps[k]

        def locs(fs):
            if fs is None:
                return None
            out = set()
            for l in fs:
                if not any(of_node(t, m.id) for t in loc_terms(l)):
                    out.add(l)
                for kx, kys in ptr.items():
                    if kx[0] == l[0] and l[1][:len(kx[1])] == kx[1]:
                        out |= {(ky[0], ky[1] + l[1][len(kx[1]):]) for ky in kys}
            # positions inside the path
            for l in list(out) + list(fs):
                for i, x in enumerate(l[1]):
                    if x.__class__ is tuple and x[0] == 'idx' and x[1] in val:
                        out |= {(l[0], l[1][:i] + (('idx', y),) + l[1][i + 1:]) for y in val[x[1]]}
            return frozenset(sorted(out, key=lambda l: (len(l[1]), str(l)))[:24])

        def vals(fs):
            if fs is None:
                return None
            out = {t for t in fs if not of_node(t, m.id)}
            for t in fs:
                out |= val.get(t, set())
            return frozenset(out)
        if self.node is not None:
            # merged values that are the new entry on this way
            mine = set(self.news()) | {f[1] for f in fl if f.__class__ is tuple and f[0] == 'new'}
            fl = frozenset(f for f in fl if not (f.__class__ is tuple and f[0] == 'new' and of_node(f[1], m.id))) | \
                {('new', y) for x in mine for y in val.get(x, ()) if y.op == 'phi'}
        return (locs(lst), locs(ent), vals(nam), vals(pos), se, kind, ended, rm, fl)

    # ------------------------------------------------------------ recognising
    def list_of(self, t):
        k = key(t)
        if t.__class__ is T and t.op == 'slice' and t.a[2] != 0:
            return None
        return k

    def is_name_of(self, v, el):
        """v is the name of the entry at el"""
        k = place(v)
        if k is not None and k[1] and (k[0], k[1][:-1]) == el and k[1][-1].__class__ is tuple and k[1][-1][1] == 'name':
            return True
        ls = self.run.conts(v)
        r = set()
        for l in ls:
            if l[0] is None:
                r.add(None)
                continue
            a, p = norm(*l)
            r.add((a, p[:-1]) == el and bool(p) and p[-1].__class__ is tuple and p[-1][1] == 'name')
        return True if r == {True} else False if r == {False} else None

    def who(self, v, s, el):
        """what a compared text is: 'item', 'new', 'elem' or None"""
        if s[2] is not None and v in s[2]:
            return 'item'
        if self.is_name_of(v, el):
            return 'elem'
        if self.node is not None:
            x = v
            if x.__class__ is T and x.op == 'fld' and x.a[1].__class__ is tuple and x.a[1][1] == 'name' and x.a[0] in self.news():
                return 'new'
        return None

    def news(self):
        return (self.node, mk('mem', self.node))

    def preds(self, s, ev, el):
        """kind of comparison of a linear search, None: not recognised"""
        ks = set()
        for facts, v in ev.info.get('preds') or [((), None)]:
            if isint(v):
                if v:
                    if not any_same(facts):
                        self.fail(s, ev, 'any entry is taken for the one of that name')
                    ks.add(None)
                else:
                    dk = None
                    for f in facts:
                        dd = disc_of(f)
                        if dd is not None and dd[1] < len(self.var):
                            dk = self.var[dd[1]]
                    if dk == 'File' and 'more' in s[8]:
                        continue
                    if dk is not None and not any_same(facts):
                        self.fail(s, ev, f'entries that are a {dk} are never found')
                    else:
                        ks.add(None)
                continue
            neg = False
            if v.__class__ is T and v.op == 'not':
                neg, v = True, v.a[0]
            if v.__class__ is T and v.op == 'same':
                a, b = v.a
                fa, xa = fold_of(a)
                fb, xb = fold_of(b)
                w = {self.who(xa, s, el), self.who(xb, s, el)}
                if w == {'item', 'elem'}:
                    if neg:
                        self.fail(s, ev, 'entries of another name are taken')
                    elif (fa is None) != (fb is None):
                        self.fail(s, ev, 'only one of the compared names is folded to one letter case')
                    else:
                        ks.add('exact' if fa is None else 'fold')
                    continue
                ks.add(None)
                continue
            if v.__class__ is T and v.op == 'app' and str(v.a[0]).split('.')[-1] in ('starts_with', 'ends_with', 'contains'):
                self.fail(s, ev, 'an entry is taken by a part of its name')
                continue
            ks.add(None)
        if None in ks:
            return None
        if len(ks) == 1:
            return next(iter(ks))
        return 'mixed' if ks else None

    def cmp_of(self, s, ev, el):
        """('item' or 'new') when a binary search orders by the names, None: not recognised"""
        rows = ev.info.get('cmp')
        if not rows:
            return None
        ws = set()
        for row in rows:
            v = row[1]
            call = None
            rev = False
            for e2 in ev.node.events:
                if e2.name.startswith('call:') and e2.res is v:
                    call = e2
            if call is None and v.__class__ is T and v.op == 'app' and v.a[0] == 'cmp':
                a, b = v.a[1], v.a[2]
                folded = fold_of(a)[0], fold_of(b)[0]
                if self.who(a, s, el) == 'elem' and self.who(b, s, el) in ('item', 'new'):
                    self.fail(s, ev, 'the list is searched with regard to letter case')
                    ws.add(self.who(b, s, el))
                    continue
                return None
            if call is None:
                return None
            a, b = (self.text(call, i) for i in (0, 1))
            wa, wb = self.who(a, s, el), self.who(b, s, el)
            if wa in ('item', 'new') and wb == 'elem':
                self.fail(s, ev, 'the order of the list is searched the wrong way round')
                ws.add(wa)
            elif wa == 'elem' and wb in ('item', 'new'):
                ws.add(wb)
            else:
                return None
        return next(iter(ws)) if len(ws) == 1 else None

    def text(self, ev, i):
        v = ev.args[i]
        if v.__class__ is T and v.op == 'ref':
            v = self.run.e.read(ev.st, v.a[0], v.a[1])
        return v

    # ------------------------------------------------------------ automaton
    def descend(self, s, ev):
        """the entry found for a name becomes the current one"""
        lst, ent, nam, pos, se, kind, ended, rm, fl = s
        if se == 'hit:item':
            lst = frozenset((r, p + FILES) for r, p in ent) if ent else frozenset()
            return (lst, ent, nam, pos, None, kind, ended, rm, fl)
        return s

    def onevent(self, s, ev):
        nm = ev.name
        lst, ent, nam, pos, se, kind, ended, rm, fl = s
        if nm in ('iter.next', 'iter.step') and not self.node_iter(ev):
            _, ad = iter_base(ev.args[1])
            if ended and 'peeked' not in fl:
                return s
            if set(ad) & LOSSY:
                (self.note if 'filter' in ad else self.fail)(s, ev, 'names of the path are passed over')
            if se == 'miss:item':
                self.fail(s, ev, 'the path goes on although a name was not found')
            elif nam is not None and se is None:
                self.fail(s, ev, 'a name of the path is passed over')
            s = self.descend(s, ev)
            lst, ent, nam, pos, se, kind, ended, rm, fl = s
            it = ev.args[1]
            pk = proj(it, 'pk') if it.__class__ is T and it.op == 'agg' and it.a[0] == 'iter:peekable' else None
            if pk is not None and ret_variant(pk) == 'Some':
                x = proj(pk, ('Some', '0'))
                if ret_variant(x) == 'Some':
                    # peeked before: no step of its own
                    return (lst, ent, frozenset({proj(x, ('Some', '0'))}), pos, None, kind, ended, rm, fl - {'more', 'knownmore', 'peeked'})
                if ret_variant(x) == 'None':
                    return (lst, ent, None, pos, None, kind, True, rm, fl - {'more', 'knownmore', 'peeked'})
            return (lst, ent, None, pos, None, kind, ended, rm, (fl | {('next', ev.node.id)}) - {'more', 'peeked'})
        if nm == 'iter.peek':
            return (lst, ent, nam, pos, se, kind, ended, rm, fl | {('peek', ev.node.id)})
        if nm in ('iter.find', 'iter.position') and ev.info.get('src') is not None and ev.info.get('elem') is not None:
            l = self.list_of(ev.info['src'])
            el = key(ev.info['elem'])
            if se in ('hit:item',):
                s = self.descend(s, ev)
                lst = s[0]
            if kind == 'File':
                self.fail(s, ev, 'the path goes on below a file')
            if l is None or not lst:
                return (lst, ent, nam, pos, ('?', ev.node.id), kind, ended, rm, fl | {'unk'})
            if l not in lst:
                if l in self.list0 and lst:
                    self.fail(s, ev, 'a name is looked up in the root instead of its own directory')
                else:
                    fl = fl | {'unk'}
            if nam is None:
                fl = fl | {'unk'}
            s2 = (lst, ent, nam, pos, se, kind, ended, rm, fl)
            k = self.preds(s2, ev, el)
            if k is None:
                fl = fl | {'unk'}
            else:
                self.kinds.add(k)
            self.good.add((ev.where(), 'the entry of exactly that name, in the current directory'))
            return (lst, frozenset({el}), nam, frozenset({ev.info['idx']}), ('find', ev.node.id), None, ended, rm, fl)
        if nm == 'search':
            l = self.list_of(ev.args[0])
            if se == 'hit:item':
                s = self.descend(s, ev)
                lst = s[0]
            if kind == 'File':
                self.fail(s, ev, 'the path goes on below a file')
            el = (l[0], l[1] + (('idx', ev.info['res']),)) if l is not None else None
            if l is None or not lst or ev.info.get('kind') != 'binary_search_by':
                return (lst, ent, nam, pos, ('?', ev.node.id), kind, ended, rm, fl | {'unk'})
            if l not in lst:
                if l in self.list0:
                    self.fail(s, ev, 'a name is looked up in the root instead of its own directory')
                else:
                    fl = fl | {'unk'}
            s2 = (lst, ent, nam, pos, se, kind, ended, rm, fl)
            w = self.cmp_of(s2, ev, el)
            if w is None:
                fl = fl | {'unk'}
                w = 'item' if nam is not None else 'new'
            if w == 'new' and not ended:
                self.fail(s2, ev, 'the new entry is placed before the path is at its end')
            if w == 'item':
                self.kinds.add('order')
            self.good.add((ev.where(), 'searched by the case-insensitive order of the names'))
            return (lst, frozenset({el}), nam, None, ('bs', ev.node.id, w, ev.info['res'], ev.info.get('resi')), None, ended, rm, fl)
        if nm == 'vec.insert':
            l = key(ev.args[0])
            if not lst or l not in lst:
                if self.tree_loc(l):
                    return (lst, ent, nam, pos, se, kind, ended, rm, fl | {'unk'})
                return s
            p, v = ev.args[1], ev.args[2]
            if se in ('hit:item', 'hit:new'):
                self.fail(s, ev, 'a second entry of the same name is inserted')
            elif se not in ('miss:item', 'miss:new'):
                fl = fl | {'unk'}
            elif pos is None or p not in pos:
                if isint(p) or p.__class__ is T and p.op in ('lin', 'min', 'max') or p.__class__ is T and p.op == 'fld' and p.a[1] == '#len' or p == ev.info.get('before'):
                    self.fail(s, ev, 'the entry is not inserted at the place the order demands')
                else:
                    fl = fl | {'unk'}
            s2 = (lst, ent, nam, pos, se, kind, ended, rm, fl)
            if se == 'miss:item':
                if v in self.news():
                    self.fail(s2, ev, 'the new entry is inserted instead of a missing directory')
                elif v.__class__ is T and v.op == 'agg' and v.a[1] is not None:
                    if v.a[1] != 'Directory':
                        self.fail(s2, ev, 'a missing directory is created as a file')
                    else:
                        x = proj(v, ('Directory', 'name'))
                        if nam is None or x not in nam:
                            (self.fail if text_of(x) is not None or fold_of(x)[0] is not None else self.note)(s2, ev, 'a missing directory does not get the name from the path')
                        ln = self.run.e.value_len(proj(v, ('Directory', 'files')))
                        if isint(ln) and ln:
                            self.fail(s2, ev, 'a missing directory is created with entries')
                else:
                    fl = fl | {'unk'}
                se = 'down'
            elif se == 'miss:new':
                if v not in self.news():
                    (self.fail if v.__class__ is T and v.op == 'agg' and v.a[1] is not None and not any(y == self.node for y in subterms(v)) else self.note)(s2, ev, 'what is inserted is not the new entry')
                se = 'ins:new'
            self.good.add((ev.where(), 'inserted where the order demands, only when no entry of that name exists'))
            ent = frozenset({(r, q + (('idx', p),)) for r, q in lst})
            if se == 'down':
                return (frozenset((r, q + FILES) for r, q in ent), ent, nam, pos, se, 'Directory', ended, rm, fl)
            return (lst, ent, nam, pos, se, kind, ended, rm, fl)
        if nm == 'vec.push' and lst and key(ev.args[0]) in lst:
            if self.sorts:
                return (lst, ent, nam, pos, se, kind, ended, rm, fl | {'unk'})
            self.fail(s, ev, 'an entry is appended without regard to the order')
            return (lst, ent, nam, pos, 'ins:new', kind, ended, rm, fl)
        if nm == 'vec.swap_remove' and self.tree_loc(key(ev.args[0])):
            self.fail(s, ev, 'removing an entry changes the order of the others')
            return (lst, ent, nam, pos, se, kind, ended, 'removed', fl)
        if nm == 'vec.remove':
            l = key(ev.args[0])
            mine = l is not None and ent and (l[0], l[1] + (('idx', ev.args[1]),)) in ent
            if mine and se == 'down':
                se = 'hit:item'
            if not mine and (not lst or l not in lst):
                if self.tree_loc(l):
                    return (lst, ent, nam, pos, se, kind, ended, rm, fl | {'unk'})
                return s
            if rm == 'removed':
                self.fail(s, ev, 'a second entry is removed')
            if self.what != 'remove':
                self.fail(s, ev, 'an entry is removed')
            if se not in ('hit:item',):
                fl = fl | {'unk'}
            elif pos is None or ev.args[1] not in pos:
                i = ev.args[1]
                (self.fail if isint(i) or i.__class__ is T and i.op == 'lin' else self.note)((lst, ent, nam, pos, se, kind, ended, rm, fl), ev, 'the entry removed is not the one found')
            if not ended:
                self.fail((lst, ent, nam, pos, se, kind, ended, rm, fl), ev, 'an entry is removed before the path is at its end')
            self.good.add((ev.where(), 'only the entry found for the last name'))
            return (lst, ent, nam, pos, se, kind, ended, 'removed', fl)
        if nm == 'swap':
            a, b = ev.args
            for x, y, v in ((a, b, ev.info['vb']), (b, a, ev.info['va'])):
                l = key(y)
                xv = ev.info['va'] if x is a else ev.info['vb']
                if xv in self.news() and l is not None and ent and l in ent or xv in self.news() and l is not None and lst and pos and l in {(r, p + (('idx', q),)) for r, p in lst for q in pos}:
                    if se != 'hit:new':
                        self.fail(s, ev, 'an entry is replaced that does not have the name of the new one')
                    self.good.add((ev.where(), 'the entry of the same name is replaced and returned'))
                    return (lst, ent, nam, pos, 'rep:new', kind, ended, ('old', v), fl)
            if any(self.tree_loc(key(x)) for x in (a, b)):
                return (lst, ent, nam, pos, se, kind, ended, rm, fl | {'unk'})
            return s
        if nm.startswith('vec.') and ev.args and self.tree_loc(key(ev.args[0])) and nm not in ('vec.with_capacity',):
            return (lst, ent, nam, pos, se, kind, ended, rm, fl | {'unk'})
        return s

    def note(self, s, w, msg):
        self.unk.append((w if w.__class__ is str else w.where(), msg))

    def tree_loc(self, l):
        return l is not None and (l[0] == ('D', mk('sym', 'self')) or l[0][0] == 'D' and l[0][1].__class__ is T and l[0][1].op == 'phi')

    def node_iter(self, ev):
        """iteration over entries, not over names"""
        it, ad = iter_base(ev.args[1])
        return it.__class__ is T and it.op == 'agg' and it.a[0] == 'iter:slice'

    def onedge(self, s, n, lab, m, st):
        lst, ent, nam, pos, se, kind, ended, rm, fl = s
        v = n.outv.get(lab)
        va = ret_variant(v)
        if lab[0] == 'c':
            if ('next', n.id) in fl:
                fl = fl - {('next', n.id)}
                if va == 'Some':
                    nam = frozenset({proj(v, ('Some', '0'))})
                    if ended:
                        return None
                elif va == 'None':
                    if 'knownmore' in fl:
                        return None
                    ended = True
                else:
                    fl = fl | {'unk'}
                fl = fl - {'knownmore'}
            if ('peek', n.id) in fl:
                fl = fl - {('peek', n.id)}
                if va == 'Some':
                    fl = fl | {'more', 'knownmore'}
                elif va == 'None':
                    ended = True
                else:
                    fl = fl | {'unk'}
            if se.__class__ is tuple and se[1] == n.id:
                if se[0] == 'find':
                    se = 'hit:item' if va == 'Some' else 'miss:item' if va == 'None' else '?'
                elif se[0] == 'bs':
                    se, pos = (('hit:' + se[2], frozenset({se[3]})) if va == 'Ok' else ('miss:' + se[2], frozenset({se[4]})) if va == 'Err' else ('?', None))
                else:
                    se = '?'
                if se == '?':
                    fl = fl | {'unk'}
        new = st.facts - (n.st.facts if n.st is not None else frozenset())
        if ent and (se is None or se.__class__ is str and se[:3] in ('hit', 'dow')):
            for f in new:
                dd = disc_of(f)
                if dd is None or dd[1] >= len(self.var):
                    continue
                if any(l[0] is not None and norm(*l) in ent for l in self.run.conts(dd[0])) or self.content_of(dd[0], ent):
                    k = self.var[dd[1]]
                    if kind is not None and kind != k:
                        return None
                    kind = k
            if kind == 'Directory' and se == 'hit:item':
                lst = frozenset((r, q + FILES) for r, q in ent)
                se = 'down'
        if self.what == 'add' and ent and kind == 'File' and se == 'hit:item' and lab[0] != 'c' and self.overwritten(st, ent):
            self.fail(s, where_body(self.body), 'a file on the path is replaced by a directory instead of refusing the insertion')
        return self.rename((lst, ent, nam, pos, se, kind, ended, rm, fl), n, lab, m, st)

    def overwritten(self, st, ent):
        """an entry known to be a file has become a directory"""
        for r, p in ent:
            q = []
            for x in p:
                if x.__class__ is tuple and x[0] == 'idx':
                    q.append('#buf')
                q.append(x)
            try:
                v = self.run.e.read(st.copy(), r, tuple(q))
            except Exception:
                continue
            if v.__class__ is T and v.op == 'agg' and v.a[1] == 'Directory':
                return True
        return False

    def content_of(self, t, ent):
        """value read through a merged pointer"""
        return place(t) in ent

    def onexit(self, s, x):
        lst, ent, nam, pos, se, kind, ended, rm, fl = s
        w = where_body(self.body)
        r = x.ret
        va = ret_variant(r)
        if any(f.__class__ is tuple and f[0] in ('next', 'peek') for f in fl):
            return
        if va is None:
            self.note(s, w, 'result not recognised')
            return
        if 'unk' in fl:
            self.note(s, w, 'a step on the way was not recognised')
            return
        if self.what in ('find', 'remove'):
            if va == 'None':
                if rm == 'removed':
                    self.fail(s, w, 'an entry is removed but not returned')
                elif se == 'miss:item' or ended and se is None and nam is None and ent is None:
                    self.good.add((w, 'nothing is found only when a name is missing or the path is empty'))
                elif se is None and nam is not None and ent is not None and kind == 'File':
                    self.good.add((w, 'nothing is found below a file'))
                elif se == 'hit:item' and kind == 'File' and not ended:
                    self.good.add((w, 'nothing is found below a file'))
                elif se is None and nam is not None and ent is None:
                    self.fail(s, w, 'the first name of the path is not looked up')
                else:
                    (self.fail if se == 'hit:item' or kind == 'Directory' else self.note)(s, w, 'an existing entry is reported as not found')
                return
            if self.what == 'remove':
                if rm != 'removed':
                    self.fail(s, w, 'success without removing the entry')
                return
            p = proj(r, ('Some', '0'))
            if nam is not None and se is None:
                self.fail(s, w, 'the last name of the path is not looked up')
            elif not ended:
                self.fail(s, w, 'an entry is returned before the path is at its end')
            elif ent is None:
                self.fail(s, w, 'an entry is returned although none was looked up')
            elif key(p) not in ent:
                self.note(s, w, 'the returned entry is not recognised')
            else:
                self.good.add((w, 'the entry found for the last name is returned'))
            return
        # insertion
        if va == 'Err':
            if se == 'hit:item' and kind == 'File':
                self.good.add((w, 'refused below a file'))
            elif kind == 'Directory' or se in ('ins:new', 'rep:new', 'down', 'hit:new'):
                self.fail(s, w, 'an insertion that is possible is refused')
            else:
                self.note(s, w, 'refusal not recognised')
            return
        o = proj(r, ('Ok', '0'))
        ov = ret_variant(o)
        if not ended:
            self.fail(s, w, 'success before the path is at its end')
        elif se == 'ins:new':
            if ov == 'Some':
                self.fail(s, w, 'an entry is returned although none was replaced')
            elif ov == 'None':
                self.good.add((w, 'nothing returned for a new name'))
            else:
                self.note(s, w, 'result not recognised')
        elif se == 'rep:new':
            if ov == 'None':
                self.fail(s, w, 'the replaced entry is not returned')
            elif ov == 'Some':
                y = proj(o, ('Some', '0'))
                if y in self.news() or ('new', y) in fl:
                    self.fail(s, w, 'the new entry is returned instead of the replaced one')
        elif se == 'hit:new' and ov == 'None':
            self.fail(s, w, 'an entry of the same name exists but is not returned')
        elif se == 'hit:new' and ov == 'Some':
            y = proj(o, ('Some', '0'))
            if y in self.news() or ('new', y) in fl:
                self.fail(s, w, 'the new entry is returned instead of the replaced one')
            else:
                self.note(s, w, 'replacement not recognised')
        elif se in ('miss:new', 'miss:item', 'down', 'hit:item', None):
            self.fail(s, w, 'success without the new entry being inserted')
        else:
            self.note(s, w, 'result not recognised')

    def go(self):
        init = (self.list0, None, None, None, None, None, False, None, frozenset())
        n = explore(self.run, init, self.onevent, self.onedge, self.onexit, phis=True)
        for w, m in dict.fromkeys(self.bad):
            self.rep.viol(RULE, w, m)
        for w, m in dict.fromkeys(self.unk):
            self.rep.undecided(RULE, w, m)
        if not self.bad and not self.unk:
            for w, m in sorted(self.good):
                self.rep.ok(RULE, w, m)


def c13_paths(rep):
    prog = program('disc_riider')
    kinds = {}
    for m, what in (('find_node_iter', 'find'), ('find_node_iter_mut', 'find'), ('remove_node_iter', 'remove'), ('add_node_iter', 'add')):
        b = inherent(prog, 'Fst', m)
        if b is None:
            rep.undecided(RULE, m, 'function not found')
            continue
        node = None
        if what == 'add':
            ns = [pname(b, i) for i in range(1, b.argc + 1) if b.lty(i)['s'].endswith('FstNode')]
            if len(ns) != 1:
                rep.undecided(RULE, where_body(b), 'parameters not recognised')
                continue
            node = ns[0]
        p = Path(rep, b, what, node)
        p.go()
        # a search by the order of the names finds names that differ in letter case
        kinds[m] = p.kinds - {'order'} | ({'fold'} if what != 'add' and 'order' in p.kinds else set())
    ks = {k: v for k, v in kinds.items() if v}
    vals = set().union(*ks.values()) if ks else set()
    if len(vals) > 1:
        for m, v in sorted(ks.items()):
            if v != {'exact'}:
                rep.viol(RULE, where_body(inherent(prog, 'Fst', m)), 'the functions that resolve paths do not compare names alike')


# ------------------------------------------------------------------ paths given as text
def closure_body(prog, f):
    x = dict(f.a[2]).get('#body') if f.__class__ is T and f.op == 'agg' else None
    return prog.bodies.get(x.a[0]) if x.__class__ is T and x.op == 'str' else None


def nonempty_filter(prog, f):
    """True: keeps exactly the non-empty parts; a text: what is wrong; None: not recognised"""
    b = closure_body(prog, f)
    if b is None:
        return None
    run = TRun(b, **OPT)
    for n in run.e.nlist:
        for x in n.exits:
            r = x.ret
            neg = False
            if r.__class__ is T and r.op == 'not':
                neg, r = True, r.a[0]
            if r.__class__ is T and r.op == 'same' and any(text_of(y) == '' for y in r.a):
                if not neg:
                    return 'only empty parts of the path are kept'
                continue
            if r.__class__ is T and r.op == 'same' and any(text_of(y) is not None for y in r.a):
                return 'empty parts of the path are not passed over, or others are'
            if isint(r):
                return 'parts of the path are kept or dropped without regard to whether they are empty' if not n.st or not n.st.facts else None
            if r.__class__ is T and r.op in ('lt0', 'eq0') and r.a[0].__class__ is T and r.a[0].op == 'lin' and len(r.a[0].a[1]) == 1:
                t, k = r.a[0].a[1][0]
                if t.__class__ is T and t.op == 'app' and t.a[0] == 'strlen' and k == -1 and r.op == 'lt0' and not neg:
                    # c - len < 0: kept when longer than c
                    if r.a[0].a[0] != 0:
                        return f'parts of the path of up to {r.a[0].a[0]} characters are passed over'
                    continue
            return None
    return True


def c13_text_paths(rep):
    prog = program('disc_riider')
    R = 'C13.text'
    for m, inner in (('find_node_path', 'find_node_iter'), ('find_node_path_mut', 'find_node_iter_mut'), ('remove_node_path', 'remove_node_iter'), ('add_node_path', 'add_node_iter')):
        b = inherent(prog, 'Fst', m)
        if b is None:
            rep.undecided(R, m, 'function not found')
            continue
        run = TRun(b, opaque=lambda x, c: x.name.endswith('_iter') or x.name.endswith('_iter_mut'), **OPT)
        rep.entry(run.e)
        w = where_body(b)
        sp = [mk('sym', pname(b, i)) for i in range(1, b.argc + 1) if re.match(r"^&(?:'\w+ )?str$", b.lty(i)['s'])]
        node = [mk('sym', pname(b, i)) for i in range(1, b.argc + 1) if b.lty(i)['s'].endswith('FstNode')]
        evs = [ev for ev in run.e.all_events() if ev.name.startswith('call:')]
        unk = False
        for ev in evs:
            nm = ev.name.split('::')[-1]
            if nm != inner:
                if not (nm.replace('_mut', '') == inner.replace('_mut', '')):
                    rep.viol(R, ev.where(), f'{m} carries out {nm}')
                    continue
            its = [a for a in ev.args if a.__class__ is T and a.op == 'agg' and str(a.a[0]).startswith('iter:')]
            if len(its) != 1 or len(sp) != 1:
                unk = True
                continue
            it = its[0]
            filt = 0
            while it.__class__ is T and it.op == 'agg' and str(it.a[0]).startswith('iter:') and it.a[0] != 'iter:split':
                d = dict(it.a[2])
                k = it.a[0][5:]
                if k == 'filter':
                    r = nonempty_filter(prog, d.get('f'))
                    if r is None:
                        unk = True
                    elif r is not True:
                        rep.viol(R, ev.where(), r)
                    filt += 1
                elif k in ('skip', 'take', 'step_by', 'rev', 'skip_while', 'take_while'):
                    rep.viol(R, ev.where(), f'not all parts of the path are followed in order ({k})')
                elif k not in ('peekable', 'fuse', 'copied'):
                    unk = True
                it = d.get('in')
            if not (it.__class__ is T and it.op == 'agg' and it.a[0] == 'iter:split'):
                unk = True
                continue
            d = dict(it.a[2])
            f, x = fold_of(d.get('s'))
            if x not in (sp[0], mk('mem', sp[0])):
                unk = True
            elif f is not None:
                rep.viol(R, ev.where(), 'the path is folded to one letter case before it is followed')
            sep = d.get('sep')
            if isint(sep):
                if sep != 47:
                    rep.viol(R, ev.where(), 'the path is not taken apart at /')
            elif text_of(sep) is not None:
                if text_of(sep) != '/':
                    rep.viol(R, ev.where(), 'the path is not taken apart at /')
            else:
                unk = True
            if not filt and not unk:
                rep.viol(R, ev.where(), 'empty parts of the path are not passed over')
            if node and not unk and not any(a in (node[0], mk('mem', node[0])) for a in ev.args):
                unk = True
            if not unk:
                rep.ok(R, ev.where(), 'every non-empty part between slashes, in order')
        for n in run.e.nlist:
            for x in n.exits:
                p = x.ret
                if p.__class__ is T and p.op == 'agg' and evs and len(run.e.nlist) == 3:
                    v = ret_variant(p)
                    if v == 'None' and n.st is not None and any(ret_variant(o.outv.get(l)) == 'Some' for o in run.e.nlist for l, k, _ in run.edges.get(o.id, ()) if k is n):
                        rep.viol(R, w, 'an entry that was found is not returned')
        if not evs or unk:
            rep.undecided(R, w, 'how the path is followed was not recognised')


# ------------------------------------------------------------------ the order itself
def side(run, t, syms):
    """(which name, how folded, raw byte?) of a compared byte; ('end',) for the terminator"""
    out = set()
    for x in run.alts(t):
        if isint(x):
            out.add(('end', x))
            continue
        f = None
        if x.__class__ is T and x.op == 'app' and x.a[0] in ('to_ascii_lowercase', 'to_ascii_uppercase'):
            f, x = x.a[0], x.a[1]
        if x.__class__ is T and x.op == 'app' and x.a[0] == 'charat' and x.a[1] in syms:
            out.add((syms.index(x.a[1]), f))
        else:
            out.add(None)
    return out


def sign_of(f, a, b):
    """'lt'/'gt'/'eq' when the fact compares a with b"""
    if not (f.__class__ is T and f.op in ('lt0', 'eq0')):
        return None
    m = f.a[0]
    if f.op == 'eq0':
        return 'eq' if m == sub(a, b) or m == sub(b, a) else None
    if m == sub(a, b):
        return 'lt'
    if m == sub(b, a):
        return 'gt'
    return None


def c13_order(rep):
    prog = program('disc_riider')
    R = 'C13.order'
    fs = [b for b in prog.bodies.values() if ordering_fn(b) and not b.closure]
    if len(fs) != 1:
        rep.undecided(R, 'src/fst.rs', 'comparison of names not recognised')
        return
    b = fs[0]
    w = where_body(b)
    run = TRun(b)
    rep.entry(run.e)
    syms = [mk('sym', pname(b, 1)), mk('sym', pname(b, 2))]
    bad, unk, good = [], [], 0
    first = None
    for n in run.e.nlist:
        for ev in n.events:
            if ev.name == 'iter.step' and first is None:
                first = (n, ev)
    whole = []
    for n in run.e.nlist:
        for x in n.exits:
            r = x.ret
            if r.__class__ is T and r.op == 'app' and r.a[0] == 'cmp':
                whole.append(r)
    if first is None:
        # compared as a whole
        for r in whole:
            (fa, xa), (fb, xb) = fold_of(r.a[1]), fold_of(r.a[2])
            if [xa, xb] == syms[::-1]:
                bad.append('the order of the names is reversed')
            elif [xa, xb] != syms:
                unk.append('comparison not recognised')
            elif fa is None and fb is None:
                bad.append('names are ordered with regard to letter case')
            elif fa != fb:
                bad.append('only one of the compared names is folded to one letter case')
            elif fa in ('lowerU', 'upperU'):
                bad.append('letters outside ASCII are folded')
            elif fa != 'lower':
                bad.append('names are ordered by their upper-case letters')
            else:
                good += 1
        if not whole:
            unk.append('comparison not recognised')
    else:
        n, ev = first
        outs = [(lab, m, st) for lab, m, st in run.edges.get(n.id, ()) if lab[0] == 'c']
        for lab, m, st in outs:
            v = n.outv.get(lab)
            if ret_variant(v) == 'Some':
                t = proj(v, ('Some', '0'))
                if not (t.__class__ is T and t.op == 'agg' and t.a[0] == 'tuple' and len(t.a[2]) == 2):
                    unk.append('steps of the comparison not recognised')
                    continue
                sa, sb = (side(run, proj(t, k), syms) for k in ('0', '1'))
                if None in sa | sb:
                    unk.append('compared bytes not recognised')
                    continue
                for i, ss in ((0, sa), (1, sb)):
                    for x in ss:
                        if x[0] == 'end':
                            if x[1] != 0:
                                bad.append('a name that ends does not come first')
                        elif x[0] != i:
                            bad.append('the order of the names is reversed')
                        elif x[1] is None:
                            bad.append('names are ordered with regard to letter case')
                        elif x[1] != 'to_ascii_lowercase':
                            bad.append('names are ordered by their upper-case letters')
                        else:
                            good += 1
        # every verdict agrees with the compared bytes
        rel = {'lt': 'Less', 'gt': 'Greater', 'eq': 'Equal'}

        def onevent(s, ev):
            if ev.name in ('iter.step', 'iter.next'):
                return ('at', ev.node.id)
            return s

        def onedge(s, n, lab, m, st):
            if s.__class__ is tuple and s[0] == 'at' and s[1] == n.id and lab[0] == 'c':
                v = n.outv.get(lab)
                if ret_variant(v) == 'Some':
                    t = proj(v, ('Some', '0'))
                    s = ('pair', proj(t, '0'), proj(t, '1')) if t.__class__ is T and t.op == 'agg' else '?'
                else:
                    s = 'end'
                    if n is first[0] and not all(lt0(add(mk('app', 'strlen', y), -1)) in st.facts for y in syms):
                        s = 'cut'
                    return s
                if s.__class__ is tuple and s[1] == s[2]:
                    return 'same'
            if s == 'cut' and any(y.op == 'app' and y.a[0] == 'strlen' for f in st.facts - (n.st.facts if n.st is not None else frozenset()) for y in subterms(f)):
                return 'end'
            if s.__class__ is tuple and s[0] == 'pair':
                for f in st.facts - (n.st.facts if n.st is not None else frozenset()):
                    g = sign_of(f, s[1], s[2])
                    if g:
                        return ('is', g)
                # merged values that stand for the two
                ab = [[p for p in phis if p.a[0] == m.id and phi_in(p.a[1], st) == t] for t in s[1:3]]
                if ab[0] and ab[1]:
                    x = [p for p in ab[0] if str(p.a[1][-1]) == '0'] or ab[0]
                    y = [p for p in ab[1] if str(p.a[1][-1]) == '1'] or ab[1]
                    return ('pair', x[0], y[0])
            return s

        phis = {y for nn in run.e.nlist if nn.st is not None for f in nn.st.facts for y in subterms(f) if y.op == 'phi'}

        def onexit(s, x):
            v = ret_variant(x.ret)
            if v is None:
                unk.append('result not recognised')
            elif s.__class__ is tuple and s[0] == 'is':
                if rel[s[1]] != v:
                    if s[1] == 'eq':
                        bad.append('the comparison ends at the first equal letter')
                    else:
                        bad.append('the order of the names is reversed')
            elif s == 'cut':
                if v == 'Equal':
                    bad.append('a name that is the beginning of another is equal to it')
            elif s in ('end', 'same'):
                pass
            else:
                unk.append('result not recognised')
        explore(run, 'start', onevent, onedge, onexit)
    for m in dict.fromkeys(bad):
        rep.viol(R, w, m)
    if not bad:
        for m in dict.fromkeys(unk):
            rep.undecided(R, w, m)
        if not unk and good:
            rep.ok(R, w, 'bytes compared in order after ASCII folding, a name before its extensions')


# ------------------------------------------------------------------ sorting
def c13_sort(rep):
    prog = program('disc_riider')
    R = 'C13.sort'
    top = inherent(prog, 'Fst', 'fix_ordering')
    if top is None:
        rep.undecided(R, 'src/fst.rs', 'fix_ordering not found')
        return
    rec = [b for b in prog.bodies.values() if 'fix_ordering' in b.path and b is not top and not b.closure]
    run = TRun(top, opaque=lambda x, c: x in rec, **OPT)
    rep.entry(run.e)
    calls = [ev for ev in run.e.all_events() if ev.name.startswith('call:')]
    root = (('D', mk('sym', 'self')), ('entries',))
    if len(rec) != 1 or not calls:
        rep.undecided(R, where_body(top), 'recursion not recognised')
        return
    if not any(any(key(a) == root for a in ev.args) for ev in calls):
        rep.undecided(R, where_body(top), 'the list handed on is not recognised')
        return
    b = rec[0]
    run = TRun(b, **OPT)
    rep.entry(run.e)
    var = node_variants(prog)
    w = where_body(b)
    bad, unk = [], []
    nodes = mk('sym', pname(b, 1))
    me = (('D', nodes), ())

    def cmp_ok(ev):
        f = ev.args[1] if len(ev.args) > 1 else None
        s = str(f)
        if ev.name not in ('vec.sort_by', 'vec.sort_unstable_by'):
            unk.append('sorting not recognised')
            return
        if 'node_compare' in s and 'closure' not in s:
            return
        body = closure_body(prog, f)
        if body is None:
            unk.append('sorting not recognised')
            return
        r2 = TRun(body, opaque=lambda x, c: x.name == 'node_compare' or ordering_fn(x), **OPT)
        ps = [mk('sym', pname(body, i)) for i in (body.argc - 1, body.argc)]
        cs = [e2 for e2 in r2.e.all_events() if e2.name.startswith('call:')]
        for n in r2.e.nlist:
            for x in n.exits:
                r = x.ret
                if not cs and r.__class__ is T and r.op == 'app' and r.a[0] == 'cmp' and all(fold_of(y) == (None, y) and y.__class__ is T and y.op in ('fld', 'mem', 'phi') for y in r.a[1:3]):
                    bad.append('the entries are sorted with regard to letter case')
                    return
        xs = [x for n in r2.e.nlist for x in n.exits]
        if len(cs) != 1 or any(x.ret is not cs[0].res for x in xs):
            unk.append('sorting not recognised')
            return
        ends = []
        for a in cs[0].args:
            ls = {l[0] for l in r2.ptrs(a)}
            ends.append(next(iter(ls)) if len(ls) == 1 else None)
        if ends == [('D', ps[0]), ('D', ps[1])]:
            return
        if ends == [('D', ps[1]), ('D', ps[0])]:
            bad.append('the entries are sorted in reverse')
        else:
            unk.append('sorting not recognised')

    sorts = set()

    def onevent(s, ev):
        so, idx, kind, done, fl = s
        if ev.name.startswith('vec.sort'):
            if key(ev.args[0]) == me and ev.args[0].a[2:3] in ((), (0,)):
                if ev.node.id not in sorts:
                    sorts.add(ev.node.id)
                    cmp_ok(ev)
                return (True, idx, kind, done, fl)
            return (so, idx, kind, done, fl | {'childsort'})
        if ev.name in ('iter.step', 'iter.next'):
            it, ad = iter_base(ev.args[1])
            if it.__class__ is T and it.op == 'agg' and it.a[0] == 'iter:slice' and key(dict(it.a[2])['ptr']) == me:
                if set(ad) & LOSSY - {'rev'}:
                    bad.append('not every directory is sorted')
                if idx is not None and kind != 'File' and not done:
                    (unk if 'unk' in fl or kind is None else bad).append('a directory is not sorted')
                return (so, dict(it.a[2])['i'], None, False, fl | {'loop', ('at', ev.node.id)})
            return (so, idx, kind, done, fl | {'unk'})
        if ev.name in ('rec',) or ev.name.startswith('call:'):
            k = key(ev.args[0]) if ev.args else None
            if idx is not None and k == (me[0], (('idx', idx), ('Directory', 'files'))):
                return (so, idx, kind, True, fl)
            return (so, idx, kind, done, fl | {'unk'})
        if ev.name.startswith('vec.') or ev.name.startswith('iter.'):
            return (so, idx, kind, done, fl | {'unk'})
        return s

    def onedge(s, n, lab, m, st):
        so, idx, kind, done, fl = s
        if ('at', n.id) in fl:
            fl = fl - {('at', n.id)}
            if lab[0] == 'c' and ret_variant(n.outv.get(lab)) == 'None':
                idx = None
        if idx is not None:
            for f in st.facts - (n.st.facts if n.st is not None else frozenset()):
                dd = disc_of(f)
                if dd is not None and dd[1] < len(var):
                    p = subterms(dd[0])
                    if any(y == idx or y.op == 'fld' and y.a[1] == ('idx', idx) for y in p) or "idx" in str(dd[0]):
                        k = var[dd[1]]
                        if kind is not None and kind != k:
                            return None
                        kind = k
        return (so, idx, kind, done, fl)

    def onexit(s, x):
        so, idx, kind, done, fl = s
        if 'unk' in fl:
            unk.append('a step was not recognised')
            return
        if not so:
            (unk if 'childsort' in fl else bad).append('the entries are not sorted')
        if 'loop' not in fl:
            unk.append('no loop over the entries recognised')

    explore(run, (False, None, None, False, frozenset()), onevent, onedge, onexit)
    for m in dict.fromkeys(bad):
        rep.viol(R, w, m)
    if not bad:
        for m in dict.fromkeys(unk):
            rep.undecided(R, w, m)
        if not unk:
            rep.ok(R, w, 'every list sorted by the same comparison, every directory visited')
