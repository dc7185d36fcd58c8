"""C03: malformed images produce errors, not crashes.

Every function that reads an image is interpreted abstractly with everything of its crate inlined. Each place that can panic (arithmetic checks,
index and slice bounds, unwrap/expect, explicit panics), each allocation and each recursive call is an obligation. A value parsed from the image is
free within its type; so an obligation that fails on such values alone is a crash some image causes. What depends on arguments of the caller (offsets
and lengths it asks for, Python callables) is not about the image and not an obligation."""
import re
from rules_tree import *
from prover import Prover, Ctx, RANGE, NN, replace, lin_parts
from program import program
from rules_extract import closure_body

SHIFT, REC, ELEM, FREE = set(), set(), {}, set()
MAXALLOC = 1 << 28       # bytes an image may make the reader allocate infallibly
MAXDEPTH = 1 << 14       # nesting an image may cause

def root_of(t):
    while t.__class__ is T and t.op in ('fld', 'idx', 'proj', 'vfld', 'dn'):
        t = t.a[0]
    return t


def kind_of(t, depth=0):
    """'image': free value of the image; 'const'; otherwise 'other'"""
    if isint(t):
        return 'const'
    if t in FREE:
        return 'image'
    if t.op == 'lin':
        ks = {kind_of(x, depth + 1) for x, _ in t.a[1]}
    elif t.op in ('div', 'trunc', 'min', 'max', 'mod', 'old', 'shl', 'shr', 'bin', 'eq0', 'lt0', 'not', 'and', 'or', 'disc'):
        ks = {kind_of(x, depth + 1) for x in t.a if isint(x) or x.__class__ is T}
    else:
        r = root_of(t)
        if r.__class__ is T and r.op == 'fresh' and str(r.a[2]).startswith(('parsed', 'rec.', 'imgbyte')) and not str(r.a[2]).startswith('parsed.err'):
            return 'image'
        if t.op == 'fld' and r.__class__ is T and r.op in ('sym', 'mem'):
            # a record kept from parsing
            if t.a[1] == '0' and t.a[0].op == 'fld' and t.a[0].a[1] in SHIFT or t.a[1] in REC and NN.get(t, 64) <= 32:
                return 'image'
        return 'other'
    ks.discard('const')
    if not ks:
        return 'const'
    return 'image' if ks == {'image'} else 'other'


def record_fields(prog):
    """names of fields of parsed records, of those that hold a 32-bit value times four, of lists of records"""
    rec, sh, vec = set(), set(), set()
    names = {b.path.split('<')[1].split(' as ')[0] for b in prog.bodies.values() if ' as binrw::BinRead>::read_options' in b.path and b.path.count('<')}
    for n, a in prog.adts.items():
        for v in a['v']:
            for f, ty in v['f']:
                if ty.endswith('ShiftedU64'):
                    sh.add(f)
                if any(n.endswith('::' + x) or n == x for x in names):
                    rec.add(f)
                    m = re.match(r'\[u(8|16|32|64); ', ty)
                    if m:
                        ELEM[f] = int(m.group(1))
                if ty.startswith(('std::vec::Vec<', 'Vec<', '[')) and any(x.split('::')[-1] in ty for x in names):
                    vec.add(f)
    rec.discard('0')
    return rec, sh, vec


def all_atoms(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.__class__ is T:
            if x in out:
                continue
            out.add(x)
            todo.extend(x.a)
        elif x.__class__ is tuple:
            todo.extend(x)
    return out


class Audit:
    def __init__(self, rep, run, names, rule='C03.panic'):
        self.rep, self.run, self.rule = rep, run, rule
        self.p = Prover(run.e)
        self.rec, self.shift, self.recvec = names
        SHIFT.update(self.shift)
        REC.update(self.rec)
        self.n = self.skipped = 0

    def ranges(self, t):
        new = False
        for a in all_atoms(t):
            if a in RANGE:
                continue
            if a.op == 'fld' and a.a[1] == '0' and a.a[0].__class__ is T and a.a[0].op == 'fld' and a.a[0].a[1] in self.shift:
                RANGE[a] = (0, 0xFFFFFFFF << 2)
                new = True
            r = root_of(a)
            if r.__class__ is T and r.op == 'fresh' and str(r.a[2]) == 'nparsed':
                RANGE[a] = (0, 1 << 20)                 # the bytes of one record
                new = True
        return new

    def goals(self, p):
        """[(kind, term)] that together mean: no panic"""
        c = p.cond
        if isint(c):
            return None
        if c.op == 'not' and c.a[0].__class__ is T and c.a[0].op == 'bool' and c.a[0].a[0] == 'ovf':
            _, op, v, bits, signed = c.a[0].a
            lo, hi = (0, (1 << bits) - 1) if not signed else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
            if op == 'Sub' and not signed:
                return [('ge', sub(v, lo))]
            if not signed:
                return [('ge', sub(hi, v))]
            return [('ge', sub(hi, v)), ('ge', sub(v, lo))]
        if c.op == 'lt0':
            return [('ge', sub(neg(c.a[0]), 1))]
        if c.op == 'eq0':
            return [('eq', c.a[0])]
        if c.op == 'not' and c.a[0].__class__ is T and c.a[0].op == 'lt0':
            return [('ge', c.a[0].a[0])]
        return []

    def prove(self, kind, e, node, facts):
        return self.p.query(kind, e, node, facts, 2)

    def site(self, kind, e, node, facts, where, msg):
        self.n += 1
        self.ranges(e)
        for f in facts:
            self.ranges(f)
        if self.prove(kind, e, node, facts):
            self.rep.ok(self.rule, where, msg)
            return
        self.p.settle_candidates()
        self.p.memo.clear()
        if self.prove(kind, e, node, facts):
            self.rep.ok(self.rule, where, msg)
            return
        d = None
        for _ in range(4):
            d = self.p.diagnose(kind, e, node, facts)
            if d is None or not self.ranges(d[1]):
                break
            # the values it ends in are narrower than their type
            self.p.memo.clear()
            if self.prove(kind, e, node, facts):
                self.rep.ok(self.rule, where, msg)
                return
        else:
            d = None
        if d is None:
            if kind_of(e) == 'other':
                self.skipped += 1
            else:
                self.rep.undecided(self.rule, where, f'{msg}: not decided for {show(e, 6)}')
            return
        leaf = d[1]
        if kind_of(leaf) == 'image' or kind_of(leaf) == 'const' and kind_of(e) == 'image':
            self.rep.viol(self.rule, where, f'{msg}: not for every value the image can hold, {show(leaf, 6)} {">= 0" if kind == "ge" else "= 0"} is not checked')
        else:
            self.skipped += 1

    def results(self):
        """accumulated values over numbers of the image are as free as these, if they have the same width"""
        FREE.clear()
        for n in self.run.e.nlist:
            for ev in n.events:
                if ev.name in ('iter.reduce', 'iter.fold', 'iter.sum', 'iter.max', 'iter.last') and ev.res is not None:
                    bits = self.item_bits(ev.args[0], ev)
                    for r in ([x[0] for x in ev.res] if ev.res.__class__ is list else [ev.res]):
                        if r.__class__ is T and r.op == 'agg':
                            r = dict(r.a[2]).get(('Some', '0'))
                        if bits and r.__class__ is T and ev.name in ('iter.reduce', 'iter.max', 'iter.last') and r not in NN and not self.mapped(ev.args[0]):
                            NN[r] = bits
                        if bits and r.__class__ is T and (NN.get(r) or 99) <= bits and not self.mapped(ev.args[0]):
                            FREE.add(r)

    def mapped(self, it):
        return any(str(x.a[0]) in ('iter:map', 'iter:filter_map') for x in self.layers(it))

    def run_all(self):
        seen = set()
        self.results()
        for p in self.run.e.all_panics():
            if p.file.startswith('/'):
                continue
            w = f'{p.file}:{p.line} in {p.fn}'
            key = (p.kind, w, p.cond, p.node.id)
            if key in seen:
                continue
            seen.add(key)
            g = self.goals(p)
            if g is None:
                self.always(p, w)
            else:
                for kind, e in g:
                    self.site(kind, e, p.node, p.facts, w, f'no {p.kind} panic')
        for n in self.run.e.nlist:
            for ev in n.events:
                if ev.file.startswith('/'):
                    continue
                if ev.name == 'alloc' and not isint(ev.args[0]):
                    self.site('ge', sub(MAXALLOC, ev.args[0]), n, ev.facts, ev.where(), f'the size of the allocation ({ev.info.get("kind")}) is bounded')
                elif ev.name in ('iter.reduce', 'iter.fold', 'iter.sum', 'iter.product'):
                    self.folded(ev)

    # ------------------------------------------------------------ panics that are always taken where they stand
    def fails(self, ev):
        """can this step fail because of the bytes in the image"""
        nm = ev.name
        if nm in ('stream.read_be', 'stream.read_exact', 'stream.read_le'):
            return 'reading from the image fails'
        if nm.startswith('call:') and nm.endswith(READERS):
            return 'reading from the image fails'
        if nm.startswith('call:') and ('encoding_rs' in nm and 'decode' in nm):
            return 'a name of the image cannot be decoded'
        if nm in ('iter.find', 'iter.position', 'iter.find_map', 'iter.next') and self.over_records(ev.info.get('src')):
            return 'the image has no such entry'
        return None

    def over_records(self, src):
        t = src
        for _ in range(12):
            if t.__class__ is not T:
                return False
            if t.op in ('slice', 'ref'):
                path = t.a[1]
                if any(x in self.recvec for x in path if x.__class__ is str):
                    return True
                root = t.a[0]
                t = root[1] if root.__class__ is tuple and len(root) > 1 else None
                continue
            if t.op in ('fld', 'mem', 'deref'):
                if t.op == 'fld' and t.a[1] in self.recvec:
                    return True
                t = t.a[0]
                continue
            return False
        return False

    def image_fact(self, f):
        """does a branch ask only for what the image holds"""
        g = f
        while g.__class__ is T and g.op in ('not', 'eq0', 'bool') and g.a[0].__class__ is T:
            g = g.a[0]
        if g.__class__ is T and g.op == 'app' and str(g.a[0]).startswith('sjis.bad.decode') and 'parsed' in repr(g):
            return True
        ks = set()
        for a in atoms(f):
            if a.op in BOOLOPS or a.op in ('lin', 'not', 'disc'):
                continue
            k = kind_of(a)
            if k == 'other':
                r = root_of(a)
                if r.__class__ is T and r.op == 'fresh':
                    evs = [ev for ev in self.run.e.nlist[r.a[0]].events if ev.name.startswith('call:encoding_rs') and 'decode' in ev.name] if r.a[0] < len(self.run.e.nlist) else []
                    if evs:
                        k = 'image'
            ks.add(k)
        ks.discard('const')
        return ks == {'image'}

    def always(self, p, w):
        """a panic taken unconditionally: which decision leads here"""
        todo, seen, why = [(p.node, None)], set(), None
        inner = False
        while todo and why is None and len(seen) < 60:
            n, _ = todo.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            for (s, lab), st in n.ins.items():
                if s < 0:
                    continue
                m = self.run.e.nlist[s]
                out = self.run.edges.get(s, ())
                if len(out) <= 1:
                    todo.append((m, None))
                    continue
                if lab[0] == 'c' and lab[-1] != 0:
                    f = [x for x in (self.fails(ev) for ev in m.events) if x]
                    if f:
                        why = f[0]
                        break
                new = frozenset(st.facts) - frozenset(m.st.facts)
                if new and all(self.image_fact(f) for f in new) and self.p.sat(Ctx(frozenset(st.facts))) and not self.prove('ge', -1, n, frozenset(st.facts)):
                    why = 'the image holds ' + ', '.join(show(f, 4) for f in list(new)[:2])
                    break
                inner = True
        self.n += 1
        if why:
            self.rep.viol(self.rule, w, f'the program panics ({p.kind}) when {why}')
        else:
            self.skipped += 1

    # ------------------------------------------------------------ sums over what the image holds
    def folded(self, ev):
        """two steps of an accumulation over numbers of the image must not overflow"""
        m = ev.name[5:]
        it = ev.args[0]
        bits = self.item_bits(it, ev)
        if bits is None:
            return
        self.n += 1
        if m in ('sum', 'product'):
            rb = NN.get(ev.res) if ev.res.__class__ is T else None
            t = ev.info.get('rty')
            if rb is not None and rb <= bits and not self.mapped(it):
                self.rep.viol(self.rule, ev.where(), f'the {m} of {bits}-bit numbers of the image is taken with {rb} bits and panics on overflow')
            return
        cl = ev.args[-1]
        ref = self.run.e.closure_of(ev.st, cl)
        b = closure_body(self.run.body.prog, ref[0]) if ref and ref[0] else None
        if b is None or self.mapped(it):
            return
        run = TRun(b)
        lim = (1 << bits) - 1
        pr = Prover(run.e)
        for p in run.e.all_panics():
            if p.file.startswith('/') or p.kind != 'overflow':
                continue
            g = self.goals(p)
            for kind, e in g or ():
                if isint(e):
                    continue
                c, ts = lin_parts(e)
                if len(ts) == 2 and all(v == -1 for _, v in ts) and kind == 'ge':
                    # accumulated value and item, both able to hold every number of the image
                    if c < 2 * lim and not p.facts:
                        self.rep.viol(self.rule, f'{p.file}:{p.line} in {p.fn}', f'adding up numbers of the image overflows: {show(e, 6)} >= 0 is not checked')
                        return
        self.rep.ok(self.rule, ev.where(), 'accumulating numbers of the image does not overflow')

    def layers(self, it):
        while it.__class__ is T and it.op == 'agg' and str(it.a[0]).startswith('iter:'):
            yield it
            d = dict(it.a[2])
            it = d.get('in')

    def item_bits(self, it, ev):
        """width of the unsigned numbers of the image an iterator hands out"""
        e = self.run.e
        for _ in range(8):
            if it.__class__ is not T or it.op != 'agg':
                return None
            d = dict(it.a[2])
            if it.a[0] == 'iter:slice':
                p = d['ptr']
                if p.__class__ is not T or p.op != 'slice':
                    return None
                v = e.read(ev.st, p.a[0], p.a[1] + (('idx', p.a[2]),))
                if kind_of(v) == 'image':
                    return NN.get(v) or next((ELEM[x] for x in reversed(p.a[1]) if x in ELEM), None)
                return None
            it = d.get('in') or d.get('a')
        return None


# ---------------------------------------------------------------- recursion
def recursion(rep, run, done):
    """a function that reads the image and calls itself goes down only a limited number of levels"""
    for n in run.e.nlist:
        for ev in n.events:
            if ev.name == 'rec' and ev.info['body'].path not in done:
                b = ev.info['body']
                done.add(b.path)
                if not b.file.startswith('/'):
                    depth_of(rep, b)


def depth_of(rep, b):
    rule = 'C03.depth'
    run = TRun(b)
    recs = [(n, ev) for n in run.e.nlist for ev in n.events if ev.name == 'rec' and ev.info['body'] is b]
    if not recs or not any(ev.name.startswith('stream.read') for n in run.e.nlist for ev in n.events):
        return                  # goes over what is in memory already
    pr = Prover(run.e)
    indices(rep, run, pr, recs)
    for n, ev in recs:
        good = False
        same, moving = set(), set()
        for i, a in enumerate(ev.args):
            for x in atoms(a) if a.__class__ is T else ():
                if x.op == 'sym' and NN.get(x) is not None:
                    d = sub(a, x)
                    if isint(d):
                        (moving if d else same).add((x, d))
        for x, d in moving:
            if d > 0 and pr.query('ge', sub(MAXDEPTH, x), n, ev.facts, 2):
                good = True
            if d < 0:
                good = good or None
        if good:
            rep.ok(rule, ev.where(), 'the nesting an image can cause is limited')
            continue
        fixed = {x for x, d in same}
        maybe = good is None
        for f in ev.facts:
            for a in atoms(f):
                if a.op in BOOLOPS or a.op in ('lin', 'not', 'disc'):
                    continue
                if a in fixed or kind_of(a) in ('image', 'const'):
                    continue
                c = bound_const(f, a)
                if c is not None:
                    maybe = True
        if maybe:
            rep.undecided(rule, ev.where(), 'the limit of the nesting is not recognised')
        else:
            rep.viol(rule, ev.where(), 'the function descends once per directory of the image without any limit on the nesting')


def indices(rep, run, pr, recs):
    """indices bounded by a parameter that the recursive call takes from the image"""
    b = run.body
    params = [mk('sym', b.locals[i][1] or f'arg{i}') for i in range(1, b.argc + 1)]
    for p in run.e.all_panics():
        if p.file.startswith('/') or isint(p.cond):
            continue
        where = f'{p.file}:{p.line} in {p.fn}'
        if p.cond.op != 'lt0' or pr.query('ge', sub(neg(p.cond.a[0]), 1), p.node, p.facts, 2):
            continue
        for f in p.facts:
            if f.op != 'lt0':
                continue
            c, ts = lin_parts(f.a[0])
            lim = [x for x, v in ts if v < 0 and x.op == 'sym' and NN.get(x) is not None]
            if len(ts) != 2 or not lim or {x for x, v in ts if v > 0} != {x for x, v in lin_parts(p.cond.a[0])[1] if v > 0}:
                continue
            # index < parameter; is the parameter within the list at the recursive call
            for n, ev in recs:
                i = next((i for i, a in enumerate(params) if a is lim[0]), None)
                if i is None or i >= len(ev.args):
                    continue
                a = ev.args[i]
                if kind_of(a) != 'image':
                    continue
                # cond: index - length < 0 ; with index replaced by its limit
                g = sub(add(p.cond.a[0], 0), f.a[0])        # limit - length
                g = replace(g, lim[0], a)
                if pr.query('ge', neg(g), n, ev.facts, 2):
                    continue
                rep.viol('C03.panic', where, f'the index is limited only by {show(a, 4)} of the image, which is not checked against the length of the list')
                return


def bound_const(f, a):
    """f bounds the atom by a constant"""
    pos = True
    if f.__class__ is T and f.op == 'not':
        pos, f = False, f.a[0]
    if f.__class__ is not T or f.op not in ('lt0', 'eq0'):
        return None
    c, ts = lin_parts(f.a[0]) if not isint(f.a[0]) else (0, ())
    if len(ts) == 1 and ts[0][0] is a:
        return c
    return None


# ---------------------------------------------------------------- entries
LIB = ('WiiIsoReader::<RS>::open', 'WiiIsoReader::<RS>::open_partition', 'WiiPartitionReadInfo::read_tmd', 'WiiPartitionReadInfo::read_certificates',
       'WiiPartitionReadInfo::read_bi2', 'WiiPartitionReadInfo::read_apploader', 'WiiPartitionReadInfo::read_dol', 'WiiPartitionReadInfo::extract_system_files',
       'WiiPartitionReadInfo::open_file', 'WiiPartitionReadInfo::open_window', 'Fst::read')
PYF = ('WiiIsoExtractor::new', 'WiiIsoExtractor::prepare_extract_section', 'WiiIsoExtractor::get_dol_hash', 'WiiIsoExtractor::test_print',
       'WiiIsoExtractor::remove_files_by_callback', 'WiiIsoExtractor::extract_to')


READERS = tuple(x.split('::')[-2] + '::' + x.split('::')[-1] for x in LIB if not x.endswith(('open_file', 'open_window')))


def lib_entry(b, c):
    """audited on its own"""
    return b is not None and b.path.startswith('disc_riider::') and (b.path.endswith(LIB) or '::builder::' in b.path)


def audit(rep, b, names, done, opaque=None):
    run = TRun(b, opaque=opaque)
    a = Audit(rep, run, names)
    a.run_all()
    recursion(rep, run, done)
    rep.entry(run.e)
    rep.analysed[-1].update(sites=a.n, not_about_the_image_alone=a.skipped)


def entries(rep, crate, pick, opaque=None):
    prog = program(crate)
    names = record_fields(program('disc_riider'))
    done, paths = set(), set()
    n = 0
    for b in sorted(prog.bodies.values(), key=lambda b: b.path):
        if b.closure or b.file.startswith('/') or not pick(b):
            continue
        n += 1
        if b.path in paths:
            continue
        paths.add(b.path)
        try:
            audit(rep, b, names, done, opaque)
        except Exception as x:      # what the interpreter does not understand is undecided, the other entries are still looked at
            rep.undecided('C03.engine', b.path, f'{type(x).__name__}: {x}')
    if not n:
        rep.undecided('C03.panic', crate, 'no function that reads an image was found')


def c03_lib(rep):
    entries(rep, 'disc_riider', lambda b: b.path.endswith(LIB) or ' as binrw::BinRead>::read_options' in b.path)


def c03_py(rep):
    entries(rep, 'disc_riider_py', lambda b: b.path.endswith(PYF), lib_entry)


def c03_cli(rep):
    entries(rep, 'iso_tool', lambda b: b.path == 'iso_tool::main', lib_entry)
