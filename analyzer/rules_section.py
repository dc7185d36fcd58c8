"""C19: a section name means the same partition in every command and method."""
import re
from engine import Engine, Unsupported
from program import program
from terms import *
from common import STREAMS
from rules_extract import where_body, section_field
from rules_tree import TRun, explore, ret_variant, disc_of

NAMES = {'DATA': 'Data', 'UPDATE': 'Update', 'CHANNEL': 'Channel'}
RULE = 'C19.section'


def text_of(t):
    """constant text, or None"""
    if t.__class__ is T and t.op == 'str':
        return t.a[0]
    if t.__class__ is T and t.op == 'constv':
        m = re.search(r'"([^"\\]*)"', str(t.a[-1]))
        if m:
            return m.group(1)
    return None


def fold_of(t):
    """(kind of case folding applied, inner value)"""
    k = None
    while t.__class__ is T and t.op == 'app' and t.a[0] in ('upper', 'lower', 'upperU', 'lowerU'):
        k = k or t.a[0]
        t = t.a[1]
    return k, t


def subterms(t, seen=None):
    seen = seen if seen is not None else set()
    todo = [t]
    while todo and len(seen) < 4000:
        x = todo.pop()
        if x.__class__ is tuple:
            todo.extend(x)
            continue
        if x.__class__ is not T or x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(x.a)


def part_types(prog):
    for n, a in prog.adts.items():
        if n.split('::')[-1] == 'WiiPartType' and a['k'] == 'enum':
            return {v['d']: v['n'] for v in a['v']}
    raise Unsupported('partition types not found')


class Sec:
    """state = (name proved equal or None, names proved different, index -> type facts, missing?, undetermined?, looked up?)"""

    def __init__(self, rep, body, texts):
        self.rep = rep
        self.body = body
        self.types = part_types(body.prog)
        own = body.prog.crate
        self.run = TRun(body, opaque=self.opaque)
        self.sinks = 'WiiPartType' in body.lty(0)['s'] or any(ev.name.startswith('call:') and ev.name.endswith('open_partition') for ev in self.run.e.all_events())
        rep.entry(self.run.e)
        self.texts = texts          # terms that stand for the name given by the caller
        self.bad, self.unk, self.good = [], [], []

    def opaque(self, b, c):
        if b.path.startswith('disc_riider::'):
            b.prep()
            return len(b.blocks) > 12 or bool(b.loops)
        return False

    def is_text(self, t):
        for x in subterms(t):
            if x in self.texts:
                return True
            if x.op == 'fld' and isinstance(x.a[1], tuple) and len(x.a[1]) == 2 and x.a[1] in self.texts:
                return True
        return False

    def name_fact(self, f):
        """(name in capitals, folded?, positive?)"""
        pos = True
        if f.__class__ is T and f.op == 'not':
            pos = False
            f = f.a[0]
        if f.__class__ is not T or f.op != 'same':
            return None
        for a, b in (f.a, f.a[::-1]):
            s = text_of(a)
            if s is not None:
                k, x = fold_of(b)
                if self.is_text(x):
                    return s, k, pos
        return None

    def part_index(self, t):
        """index of the partition a value belongs to"""
        for x in subterms(t):
            if x.op == 'fld' and x.a[1].__class__ is tuple and x.a[1][0] == 'idx':
                if any(y.op == 'fld' and y.a[1] == 'partitions' for y in subterms(x.a[0])) or any(y.op == 'sym' and y.a[0] == 'partitions' for y in subterms(x.a[0])):
                    return x.a[1][1]
        return None

    typed = False       # some comparison with a partition type was seen anywhere in the entry

    def note(self, s, facts):
        nm, negs, ty, missing, unk, look = s
        for f in facts:
            n = self.name_fact(f)
            if n is not None:
                txt, k, pos = n
                if txt.upper() not in NAMES and not self.sinks:
                    continue            # some other text, in a function that opens nothing
                if k is None:
                    self.bad.append((self.cur_where, f'the section name is compared with "{txt}" without regard to other letter cases'))
                    k = 'upper'
                    txt = txt.upper()
                good = {'upper': txt.upper(), 'lower': txt.lower(), 'upperU': txt.upper(), 'lowerU': txt.lower()}[k]
                if good != txt:
                    self.bad.append((self.cur_where, f'"{txt}" can never equal the name folded to {"upper" if "upper" in k else "lower"} case'))
                if pos and any(x.op == 'app' and x.a[0] == 'trim' and self.is_text(x) for x in subterms(f)):
                    self.bad.append((self.cur_where, f'a name that only contains "{txt}" between white space is accepted'))
                if pos:
                    nm = txt.upper()
                else:
                    negs = negs | {txt.upper()}
                continue
            d = disc_of(f)
            if d is not None:
                i = self.part_index(d[0])
                if i is not None and any(x.op == 'fld' and x.a[1] == 'part_type' for x in subterms(d[0])):
                    ty = ty | {(i, d[1])}
                    self.typed = True
                    continue
            if self.is_text(f) and not (f.__class__ is T and f.op in ('not',) and f.a[0].op == 'app' and f.a[0].a[0] == 'any'):
                if not self.section_pred(f):
                    unk = True
        return (nm, negs, ty, missing, unk, look)

    def section_pred(self, f):
        """name compared with that of a prepared section"""
        g = f.a[0] if f.__class__ is T and f.op == 'not' else f
        return g.__class__ is T and g.op in ('same', 'app') and any(x.op == 'fld' and x.a[1] == section_field(self.body.prog) for x in subterms(g))

    # ------------------------------------------------------------------ automaton
    def onevent(self, s, ev):
        self.cur_where = ev.where()
        nm, negs, ty, missing, unk, look = s
        if ev.name == 'iter.find' and ev.info.get('src') is not None:
            src = ev.info['src']
            path = src.a[1] if src.__class__ is T and src.op in ('ref', 'slice') else ()
            if 'partitions' in path or 'sections_to_extract' in path or self.is_sections(src):
                look = ('find', ev.node.id)
        if ev.name.startswith('call:') and ev.name.endswith('open_partition') and len(ev.args) > 1:
            self.sink(s, ev, ev.args[1])
        if ev.name == 'vec.push' and ev.args[1].__class__ is T and ev.args[1].op == 'agg' and str(ev.args[1].a[0]).split('::')[-1] == self.sec_struct():
            self.store(s, ev)
        return (nm, negs, ty, missing, unk, look)

    def is_sections(self, src):
        return False

    def sec_struct(self):
        for n, a in self.body.prog.adts.items():
            if a['k'] == 'struct':
                fs = a['v'][0]['f']
                if any('WiiPartitionReadInfo' in f[1] for f in fs) and any('Fst' in f[1] for f in fs) and any(f[1].endswith('String') for f in fs):
                    return n.split('::')[-1]
        return None

    def sink(self, s, ev, part):
        nm, negs, ty, missing, unk, look = s
        v = part
        if v.__class__ is T and v.op == 'ref':
            v = self.run.e.read(ev.st, v.a[0], v.a[1])
        i = self.part_index(v)
        k = [t for j, t in ty if j == i] if i is not None else []
        w = ev.where()
        kn = self.types.get(k[0]) if len(k) == 1 else None
        if unk:
            self.unk.append((w, 'how the name is looked up is not recognised'))
        elif nm is not None and nm not in NAMES:
            self.bad.append((w, f'the name "{nm}" is accepted'))
        elif nm is not None and kn is not None:
            if NAMES[nm] == kn:
                self.good.append((w, f'{nm} opens the partition of type {kn}'))
            else:
                self.bad.append((w, f'{nm} opens the partition of type {kn}'))
        elif nm is None and kn is not None:
            self.bad.append((w, f'a name other than {", ".join(sorted(negs)) or "any known one"} opens the partition of type {kn}'))
        elif nm is not None and i is not None and not k and (isint(i) or not any(x.op == 'phi' for x in subterms(i)) or (not ty and not self.typed)):
            self.bad.append((w, f'{nm} opens a partition whose type is not compared'))
        else:
            self.unk.append((w, 'which partition is opened is not recognised'))

    def store(self, s, ev):
        f = section_field(self.body.prog)
        v = proj(ev.args[1], f)
        k, x = fold_of(v)
        t = text_of(v)
        if t is not None and t in NAMES:
            self.stored.add('upper')
            if s[0] is not None and s[0] != t:
                self.bad.append((ev.where(), f'{s[0]} is kept under the name {t}'))
        elif x is not None and self.is_text(x):
            self.stored.add(k)
            self.good.append((ev.where(), f'the section is kept under its name in {"upper" if k == "upper" else "lower" if k == "lower" else "the given"} case'))
        else:
            self.stored.add('?')

    stored = set()

    def onedge(self, s, n, lab, m, st):
        b = n.frame.body
        self.cur_where = f'{b.file}:{b.blocks[n.bb]["l"]} in {b.short()}'
        new = st.facts - (n.st.facts if n.st is not None else frozenset())
        s = self.note(s, new)
        nm, negs, ty, missing, unk, look = s
        if look is not None and look[0] == 'find' and look[1] == n.id and lab[0] == 'c':
            va = ret_variant(n.outv.get(lab))
            if va == 'None':
                missing = True
            look = ('done',)
        if nm is not None and nm in negs:
            return None
        return (nm, negs, ty, missing, unk, look)

    def onexit(self, s, x):
        nm, negs, ty, missing, unk, look = s
        r = x.ret
        w = where_body(self.body)
        va = ret_variant(r)
        if va != 'Ok' and not (va == 'Some' and 'WiiPartType' in self.body.lty(0)['s']):
            return
        if unk:
            return
        pt = proj(r, (va, '0'))
        if pt.__class__ is T and pt.op == 'agg' and str(pt.a[0]).split('::')[-1] == 'WiiPartType':
            if nm is None:
                self.bad.append((w, f'a name other than {", ".join(sorted(negs)) or "any known one"} means {pt.a[1]}'))
            elif NAMES.get(nm) != pt.a[1]:
                self.bad.append((w, f'{nm} means {pt.a[1]}'))
            else:
                self.good.append((w, f'{nm} means {pt.a[1]}'))
            return
        if missing:
            self.bad.append((w, 'a section that does not exist is not reported'))
        elif nm is None and len(negs) >= 3:
            self.bad.append((w, 'a name that is none of ' + ', '.join(sorted(negs)) + ' is accepted'))

    def go(self):
        explore(self.run, (None, frozenset(), frozenset(), False, False, None), self.onevent, self.onedge, self.onexit)


def lookups(rep, sec, stored):
    """searches among the prepared sections compare the name in the same letter case as it was kept"""
    f = section_field(sec.body.prog)
    for ev in sec.run.e.all_events():
        if ev.name not in ('iter.find', 'iter.position') or not ev.info.get('preds'):
            continue
        el = ev.info.get('elem')
        if not (el.__class__ is T and el.op == 'ref' and 'sections_to_extract' in el.a[1]):
            continue
        for facts, v in ev.info['preds']:
            if isint(v):
                if v and not facts:
                    rep.viol('C19.lookup', ev.where(), 'any prepared section is taken for the one asked for')
                continue
            if v.__class__ is T and v.op == 'same':
                ok = False
                for a, b in (v.a, v.a[::-1]):
                    ka, xa = fold_of(a)
                    kb, xb = fold_of(b)
                    if sec.is_text(xa) and xb.__class__ is T and xb.op == 'fld' and xb.a[1] == f:
                        ok = True
                        want = {k for k in stored}
                        if ka is None and any(y.op == 'app' and y.a[0] in ('upper', 'lower', 'upperU', 'lowerU') for y in subterms(a)):
                            rep.undecided('C19.lookup', ev.where(), f'comparison not recognised: {show(v, 5)}')
                        elif kb is None and ka not in want and '?' not in want and want:
                            rep.viol('C19.lookup', ev.where(), f'the name is compared in {ka or "the given"} case, but kept in {" or ".join(str(w) for w in want)} case')
                        elif kb is not None and ka != kb:
                            rep.viol('C19.lookup', ev.where(), 'the compared names are not folded to the same letter case')
                        else:
                            rep.ok('C19.lookup', ev.where(), 'exactly the section of that name')
                        break
                if not ok:
                    rep.undecided('C19.lookup', ev.where(), f'comparison not recognised: {show(v, 5)}')
            elif v.__class__ is T and v.op == 'app' and v.a[0] in ('starts_with', 'ends_with', 'contains', 'str.starts_with', 'str.contains', 'str.ends_with'):
                rep.viol('C19.lookup', ev.where(), 'a section is selected by a part of its name')
            else:
                rep.undecided('C19.lookup', ev.where(), f'comparison not recognised: {show(v, 5)}')


def c19_names(rep):
    todo = []
    py = program('disc_riider_py')
    for b in py.bodies.values():
        if not b.path.startswith('disc_riider_py') or b.closure or not b.root or '__pymethod' in b.path or '__pyfunction' in b.path:
            continue
        tx = {mk('sym', b.locals[i][1]) for i in range(1, b.argc + 1) if b.locals[i][1] and re.match(r"^(std::string::String|&(?:'\w+ )?(?:mut )?(?:str|std::string::String))$", b.lty(i)['s'])}
        if tx:
            todo.append((b, tx))
    cli = program('iso_tool')
    for b in cli.bodies.values():
        if b.path.endswith('::main') and not b.closure:
            tx = set()
            for n, a in cli.adts.items():
                if a['k'] == 'enum' and n.startswith('iso_tool'):
                    for v in a['v']:
                        tx |= {(v['n'], f[0]) for f in v['f'] if f[1].endswith('String')}
            todo.append((b, tx))
    lib = program('disc_riider')
    for b in lib.bodies.values():
        if not b.closure and b.path.startswith('disc_riider') and 'WiiPartType' in b.lty(0)['s']:
            tx = {mk('sym', b.locals[i][1]) for i in range(1, b.argc + 1) if b.locals[i][1] and re.match(r"^(std::string::String|&(?:'\w+ )?(?:mut )?(?:str|std::string::String))$", b.lty(i)['s'])}
            if tx:
                todo.append((b, tx))
    Sec.stored = set()
    secs = []
    for b, tx in sorted(todo, key=lambda x: x[0].path):
        s = Sec(rep, b, tx)
        s.go()
        secs.append(s)
    stored = set(Sec.stored)
    n = 0
    for s in secs:
        for w, m in dict.fromkeys(s.bad):
            rep.viol(RULE, w, m)
        for w, m in dict.fromkeys(s.unk):
            rep.undecided(RULE, w, m)
        for w, m in dict.fromkeys(s.good):
            rep.ok(RULE, w, m)
            n += 1
        got = {}
        for w, m in s.good:
            k = m.split()[0]
            if k in NAMES:
                got.setdefault(w, set()).add(k)
        if not s.unk and not s.bad:
            for w, ks in got.items():
                for k in sorted(set(NAMES) - ks):
                    rep.viol(RULE, w, f'the name {k} is not accepted')
        lookups(rep, s, stored)
    if not n:
        rep.undecided(RULE, 'disc-riider-py', 'no use of a section name recognised')
