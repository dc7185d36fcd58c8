"""Rules about folders and images as wholes: C18 (extraction and rebuilding agree on the folder), C21 (destination), C22 (source folder)."""
from rules_extract import *

TMP = ('app', 'fresh')


def short_ty(s):
    return re.sub(r'\b(?:\w+::)+', '', s or '')


# ------------------------------------------------------------------ relative paths
def parts(run, t, seen=None, depth=0):
    """set of (base term, parts) of a path; a part is text, ('sec',), '*' (names of the tree, in order) or ('?', term)"""
    seen = seen or set()
    if depth > 40 or t.__class__ is not T:
        return {(None, ())}
    if t.op == 'app' and t.a[0] == 'join':
        c = simplify_name(t.a[2])
        if c.__class__ is T and c.op == 'str':
            ps = tuple(x for x in c.a[0].split('/') if x not in ('', '.'))
            if c.a[0].startswith('/'):
                return {(c, ())}
        elif c.__class__ is T and c.op == 'fld' and c.a[1] == section_field(program('disc_riider_py')):
            ps = (('sec',),)
        elif c.__class__ is T and tree_name(run, c):
            ps = ('*',)
        else:
            fp = fmt_pieces(c)
            if fp and all(x.__class__ is str for x in fp):
                ps = tuple(x for x in ''.join(fp).split('/') if x)
            else:
                ps = (('?', c),)
        return {(b, star(p + ps)) for b, p in parts(run, t.a[1], seen, depth + 1)}
    if t.op == 'phi':
        if t in seen:
            return set()
        seen = seen | {t}
        out = set()
        back = 0
        for (s, lab), st in run.e.nlist[t.a[0]].ins.items():
            v = phi_in(t.a[1], st)
            if v is None:
                return {(None, ())}
            if v is t:
                continue
            if v.__class__ is T and v.op == 'app' and v.a[0] == 'join' and v.a[1] is t:
                c = simplify_name(v.a[2])
                back = '*' if tree_name(run, c) and back in (0, '*') else ('?', c)
                continue
            out |= parts(run, v, seen, depth + 1)
        if back:
            out = {(b, star(p + (back,))) for b, p in out} | (out if not all(p and p[-1] == '*' for b, p in out) else set())
        return out
    m = re.match(r'\**arg1\.(\d+)$', show(t, 9)) if t.op in ('mem', 'fld') and run.body.closure else None
    if m and run.parent is not None:
        v = run.captures.get(int(m.group(1)))
        if v.__class__ is T:
            return parts(run.parent, v, set(), depth + 1)
    return {(t, ())}


def star(p):
    out = []
    for x in p:
        if x == '*' and out and out[-1] == '*':
            continue
        out.append(x)
    return tuple(out)


def tree_name(run, c):
    """element of the list of names handed to the callback / getter"""
    while c.__class__ is T and c.op == 'app' and c.a[0] in ('utf8', 'from', 'to_string', 'clone'):
        c = c.a[1]
    return c.__class__ is T and c.op == 'fld' and c.a[1].__class__ is tuple and c.a[1][0] == 'idx' and c.a[0].__class__ is T and 'names' in roots_of(run, c.a[0])


def roots_of(run, t):
    """'names' if the term lies below a parameter that is a list of texts"""
    out = set()
    while t.__class__ is T and t.op == 'fld':
        t = t.a[0]
    if t.__class__ is T and t.op in ('mem', 'sym'):
        s = t if t.op == 'sym' else t.a[0]
        for i in range(1, run.body.argc + 1):
            if s.__class__ is T and s.op == 'sym' and s.a[0] == (run.body.locals[i][1] or f'arg{i}') and re.search(r'(Vec<|\[)(&?.*str|.*String)', run.body.lty(i)['s']):
                out.add('names')
    return out


def one_path(run, t):
    """parts of a path if unambiguous (the variant without names is that of an empty list)"""
    ps = parts(run, t)
    full = {p for p in ps if p[1] and p[1][-1] == '*'}
    if full:
        rest = {p for p in ps - full if (p[0], p[1] + ('*',)) not in full}
        ps = full | rest
    return next(iter(ps)) if len(ps) == 1 else (None, ())


def pretty(ps):
    return '/'.join(x if x.__class__ is str else '<section>' if x == ('sec',) else '<?>' for x in ps)


def is_param(run, base, kinds=('Path',)):
    return base is not None and show(base, 9).lstrip('*') in path_params(run.body)


# ------------------------------------------------------------------ inputs of a rebuild
class BRun(XRun):
    def hook(self, ev, st):
        XRun.hook(self, ev, st)
        if ev.name.startswith('call:'):
            ds = []
            for a in ev.args:
                v = a
                for _ in range(3):
                    if v.__class__ is T and v.op == 'ref':
                        v = self.e.read(st, v.a[0], v.a[1])
                ds.append(v)
            ev.info['deref'] = ds


def fid(v):
    return proj(v, '#id') if v.__class__ is T and v.op == 'agg' and v.a[0] == 'File' else None


def file_uses(run, f):
    """events that move data of this file"""
    out = []
    for ev in run.e.all_events():
        if ev.name.startswith('stream.') and ev.info.get('file') is not None and fid(ev.info['file']) is f and ev.name not in ('stream.flush',):
            out.append(ev)
        elif ev.name == 'io.copy' and ev.info.get('file') is not None and fid(ev.info['file']) is f:
            out.append(ev)
    return out


def opens(run):
    for ev in run.e.all_events():
        if ev.name == 'fs' and own(ev) and (ev.info['kind'] in ('open', 'read', 'read_to_string') or ev.info['kind'] == 'openopts' and not is_sink(ev)):
            yield ev


def inputs(rep):
    """[(parts, role, how, where)]"""
    if 'inputs' in _cache2:
        return _cache2['inputs']
    prog = program('disc_riider')
    b = function(prog, 'build_from_directory')
    if b is None:
        raise Unsupported('build_from_directory not found')
    run = BRun(b, extra_opaque=('add_partition', 'build_fst_from_directory_tree'))
    out = []
    rep.entry(run.e)
    base = None
    for ev in run.e.all_events():
        if ev.name.startswith('call:') and ev.name.endswith('add_partition'):
            for v in ev.info['deref']:
                if v.__class__ is T and v.op == 'agg' and v.a[0].endswith('DirPartitionBuilder'):
                    for k, x in v.a[2]:
                        if x.__class__ is T and x.op == 'app' and x.a[0] == 'join' or (x.__class__ is T and is_param(run, x)):
                            base = (k, one_path(run, x))
        if ev.name.startswith('call:') and ev.name.endswith('build_fst_from_directory_tree'):
            bs, ps = one_path(run, ev.info['deref'][0])
            if is_param(run, bs):
                out.append((ps + ('*',), 'tree', None, ev.where()))
            else:
                out.append((None, 'tree', None, ev.where()))
    for ev in opens(run):
        bs, ps = one_path(run, ev.args[0])
        if not is_param(run, bs):
            out.append((None, '?', None, ev.where()))
            continue
        for role, how in uses(run, ev):
            out.append((ps, role, how, ev.where()))
    if base is None:
        rep.undecided('C18.inputs', where_body(b), 'folder handed to the partition source not recognised')
    gs = [(ty, m, r) for ty, m, r in getter_runs() if ty == 'DirPartitionBuilder']
    for bb in prog.bodies.values():
        if bb.root and not bb.closure and re.search(r'DirPartitionBuilder as .*WiiPartitionDefinition<.*>::get_disc_header$', bb.path):
            gs.append(('DirPartitionBuilder', 'get_disc_header', XRun(bb)))
    ROLE = {'get_disc_header': 'part_header', 'get_bi2': 'bi2', 'get_apploader': 'apploader', 'get_dol': 'dol', 'get_file_data': 'file'}
    for ty, m, r in gs:
        rep.entry(r.e)
        n = 0
        for ev in opens(r):
            bs, ps = one_path(r, ev.args[0])
            n += 1
            if base is None or bs is None or not (bs.__class__ is T and bs.op == 'fld' and bs.a[1] == base[0]) or not is_param(run, base[1][0]):
                out.append((None, ROLE.get(m, m), None, ev.where()))
                continue
            for role, how in uses(r, ev):
                if m == 'get_file_data' and (not ps or ps[-1] != '*'):
                    continue
                out.append((base[1][1] + ps, ROLE.get(m, m), how, ev.where()))
        if not n:
            out.append((None, ROLE.get(m, m), None, where_body(r.body)))
    _cache2['inputs'] = out
    return out


_cache2 = {}


def uses(run, ev):
    """how the content of an opened file is used: [(role, how)]"""
    out = []
    if ev.info['kind'] == 'read':
        return [('bytes', ('all',))]
    for u in file_uses(run, ev.info['file']):
        if u.name == 'stream.read_be':
            ty = short_ty(u.info['ty']['s']) if u.info.get('ty') else '?'
            out.append(({'DiscHeader': 'disc_header', 'Ticket': 'ticket', 'TMD': 'tmd', '[Certificate; 3]': 'cert'}.get(ty, ty), ('be' if u.info['endian'] in ('read_be', 'read_type') else u.info['endian'], ty)))
        elif u.name == 'stream.read_exact':
            out.append(('region' if u.info['n'] == 32 else 'bytes', ('exact', u.info['n'])))
        elif u.name == 'stream.read_to_end':
            out.append(('bytes', ('all',)))
        else:
            out.append(('?', (u.name,)))
    return out or [('?', ())]


# ------------------------------------------------------------------ outputs of an extraction
def outputs(rep):
    """[(parts, event, run, [content])]"""
    main, subs = py_extract()
    out = []
    for run in [main] + subs:
        for ev in run.e.all_events():
            if not is_sink(ev) or ev.info['kind'] not in ('create', 'create_new', 'openopts', 'write'):
                continue
            bs, ps = one_path(run, sink_path(ev))
            r = run
            ok = False
            while r is not None:
                ok = ok or is_param(r, bs)
                r = r.parent
            out.append((ps if ok else None, ev, run))
    return out, main, subs


def ro_field(prog, short, ty):
    for n, a in prog.adts.items():
        if n.split('::')[-1] == short and a['k'] == 'struct':
            for f in a['v'][0]['f']:
                if short_ty(f[1]) == ty:
                    return f[0]
    return None


def same_value(v, x, d=0):
    """the value is x, possibly copied field by field"""
    if v is x:
        return True
    if d > 6 or not (v.__class__ is T and v.op == 'agg' and v.a[2]) or v.a[3] is not None:
        return v == x
    return all(same_value(y, proj(x, k), d + 1) for k, y in v.a[2] if not (k.__class__ is str and k.startswith('#')))


def origin(v, d=0):
    """the value this one is a copy of; None if fields differ in origin"""
    if d > 6 or not (v.__class__ is T and v.op == 'agg'):
        return v
    if v.a[3] is not None:
        return v.a[3] if all(same_value(y, proj(v.a[3], k)) for k, y in v.a[2]) else None
    x = None
    for k, y in v.a[2]:
        if k.__class__ is str and k.startswith('#'):
            continue
        o = origin(y, d + 1)
        if o.__class__ is T and o.op == 'fld' and o.a[1] == k and (x is None or x is o.a[0]):
            x = o.a[0]
        else:
            return None
    return x


def changed_fields(v):
    """fields of a copied record that were given another value"""
    if not (v.__class__ is T and v.op == 'agg' and v.a[2]):
        return None
    if v.a[3] is not None:
        return v.a[3], [k for k, y in v.a[2] if not same_value(y, proj(v.a[3], k))]
    src = {}
    for k, y in v.a[2]:
        o = origin(y)
        if o.__class__ is T and o.op == 'fld' and o.a[1] == k:
            src.setdefault(o.a[0], []).append(k)
    if len(src) != 1:
        return None
    x, ks = list(src.items())[0]
    if len(ks) * 2 < len(v.a[2]):
        return None
    return x, [k for k, y in v.a[2] if k not in ks]


WANT = {'ticket': 'Ticket', 'tmd': 'TMD', 'cert': '[Certificate; 3]', 'part_header': 'DiscHeader', 'disc_header': 'DiscHeader'}


def check_record(rep, run, role, how, ev, w, wi):
    """a record written for `role`"""
    prog = program('disc_riider')
    ty = WANT[role]
    us = file_uses(run, ev.info['file']) if ev.info['kind'] != 'write' else []
    if len(us) != 1 or us[0].name != 'stream.write_be':
        if us and us[0].name in ('stream.write', 'stream.write_all'):
            p = pdata_of(us[0].info.get('content'))
        rep.undecided('C18.content', w, 'the record is not written by one typed write')
        return
    u = us[0]
    uty = short_ty(u.info['ty']['s'])
    if uty != how[1]:
        rep.viol('C18.content', w, f'{uty} is written here, but {wi} reads {how[1]}')
        return
    if (u.info['endian'] in ('write_be', 'write_type')) != (how[0] == 'be'):
        rep.viol('C18.content', w, f'written with {u.info["endian"]}, read as {how[0]} in {wi}')
        return
    rep.ok('C18.type', w, f'{uty} written and read back with the same byte order')
    v = u.info['val']
    o = origin(v)
    hf, tf = ro_field(prog, 'WiiPartitionReadInfo', 'DiscHeader'), ro_field(prog, 'WiiPartitionHeader', 'Ticket')
    ih = ro_field(prog, 'WiiIsoReader', 'DiscHeader')
    if role in ('part_header', 'disc_header', 'ticket'):
        ch = changed_fields(v) if o is None else None
        if o is None and ch is not None and ch[1]:
            rep.viol('C18.content', w, f'the stored {uty} differs from the one of the image in {", ".join(map(str, ch[1]))}')
            return
        if not (o.__class__ is T and o.op == 'fld'):
            rep.undecided('C18.content', w, f'origin of the stored {uty} not recognised')
            return
        ok = {'part_header': [hf], 'disc_header': [hf, ih], 'ticket': [tf]}[role]
        inread = lambda t: any(s.op == 'fld' and s.a[1] == section_reader() for s in subterms(t))
        if o.a[1] in ok and (o.a[1] == ih or inread(o)):
            rep.ok('C18.content', w, f'the {uty} of the image is stored unchanged')
        elif o.a[1] in (hf, ih, tf):
            rep.viol('C18.content', w, f'the stored {uty} is the field {o.a[1]}, rebuilding needs {ok[0]}')
        else:
            rep.undecided('C18.content', w, f'origin of the stored {uty} not recognised')
    else:
        ch = changed_fields(v) if o is None else None
        if o.__class__ is T and o.op == 'fresh' and str(o.a[2]).startswith('parsed'):
            r = run.evs.get((o.a[0], o.a[1]))
            if r is not None and r.name == 'stream.read_be' and short_ty(r.info['ty']['s']) == ty:
                rep.ok('C18.content', w, f'the {uty} read from the image is stored unchanged')
                return
        if ch is not None and ch[1]:
            rep.viol('C18.content', w, f'the stored {uty} differs from the one of the image in {", ".join(map(str, ch[1]))}')
            return
        if v.__class__ is T and v.op in ('upd', 'agg') or o is None:
            rep.undecided('C18.content', w, f'origin of the stored {uty} not recognised')
        else:
            rep.undecided('C18.content', w, f'origin of the stored {uty} not recognised: {show(v, 4)}')


def section_reader():
    prog = program('disc_riider_py')
    for n, a in prog.adts.items():
        if a['k'] == 'struct':
            fs = a['v'][0]['f']
            if any('WiiPartitionReadInfo' in f[1] for f in fs) and any('Fst' in f[1] for f in fs):
                return next((f[0] for f in fs if 'WiiPartitionReadInfo' in f[1]), None)
    return None


def whole_content(run, ev):
    """content pieces of a file written in one go"""
    if ev.info['kind'] == 'write':
        return ev.info.get('content')
    us = file_uses(run, ev.info['file'])
    if len(us) == 1 and us[0].name in ('stream.write_all', 'stream.write'):
        return us[0].info.get('content')
    return None


def check_region(rep, run, ev, w, how):
    prog = program('disc_riider')
    c = whole_content(run, ev)
    f = ro_field(prog, 'WiiIsoReader', '[u8; 32]')
    if not c or len(c) != 1:
        if c and len(c) > 1 or c == ():
            rep.viol('C18.content', w, 'the stored region data is not that of the image')
        else:
            rep.undecided('C18.content', w, 'content of the region file not recognised')
        return
    x, o, l = c[0]
    while x.__class__ is T and x.op == 'view':
        o = add(o, x.a[1])
        x = x.a[0]
    if not (x.__class__ is T and x.op == 'fld'):
        rep.undecided('C18.content', w, 'content of the region file not recognised')
    elif x.a[1] != f:
        rep.viol('C18.content', w, f'the region file is filled from {x.a[1]}, not from the region data')
    elif o != 0 or l != how[1]:
        rep.viol('C18.content', w, f'{show(l, 3)} bytes from {show(o, 3)} are stored, rebuilding reads {show(how[1], 3)}')
    else:
        rep.ok('C18.content', w, 'the region data is stored whole')


def check_system(rep, run, role, ev, w):
    """bi2, apploader, dol: the bytes of the partition at the place where building puts them"""
    c = whole_content(run, ev)
    p = pdata_of(c)
    if p is None:
        if c and len(c) > 1:
            rep.viol('C18.content', w, 'more than one range is stored')
        else:
            rep.undecided('C18.content', w, 'content not recognised')
        return
    off, ln, sk, taken = p
    prog = program('disc_riider')
    rep.oblige(run.p, 'C18.content', 'eq', add(sk, sub(ln, taken)), ev.node, ev.facts, w, 'the range read from the image is stored whole')
    if role in ('bi2', 'apploader'):
        want = {'bi2': 0x440, 'apploader': 0x2440}[role]
        if isint(off) and off != want:
            rep.viol('C18.content', w, f'{role} is taken from {off:#x} of the partition, building puts it at {want:#x}')
        elif off == want:
            rep.ok('C18.content', w, f'{role} is taken from {want:#x} of the partition')
        else:
            rep.undecided('C18.content', w, f'position of {role} not recognised')
        if role == 'bi2':
            if isint(ln) and ln < 0x2000:
                rep.viol('C18.content', w, f'only {ln:#x} of 0x2000 bytes of bi2 are stored')
            elif isint(ln) and ln > 0x2000:
                rep.viol('C18.content', w, f'{ln:#x} bytes are stored as bi2, more than the 0x2000 in front of the apploader')
            else:
                rep.ok('C18.content', w, 'all 0x2000 bytes of bi2 are stored') if ln == 0x2000 else rep.undecided('C18.content', w, 'size of bi2 not recognised')
        else:
            hd = [s for s in subterms(ln) if s.op == 'fresh' and str(s.a[2]).startswith('parsed')] if ln.__class__ is T else []
            hd = set(hd)
            r = run.evs.get((list(hd)[0].a[0], list(hd)[0].a[1])) if len(hd) == 1 else None
            if r is None or r.name != 'stream.read_be' or short_ty(r.info['ty']['s']) != 'ApploaderHeader':
                rep.undecided('C18.content', w, 'size of the apploader not recognised')
            elif r.info['pos'] != 0x2440:
                rep.viol('C18.content', w, 'the size of the apploader is read at another position than the apploader')
            else:
                x = list(hd)[0]
                c0, d = lin_parts(ln)
                d = dict(d)
                got = sorted(str(k.a[1]) for k, n in d.items() if k.op == 'fld' and k.a[0] is x and n == 1)
                if len(got) != len(d):
                    rep.undecided('C18.content', w, 'size of the apploader not recognised')
                elif c0 < 32 or got != ['size1', 'size2']:
                    rep.viol('C18.content', w, f'the apploader is stored with {c0} + {" + ".join(got)} bytes instead of 32 + size1 + size2')
                else:
                    rep.ok('C18.content', w, 'header, body and trailer of the apploader are stored')
    else:
        df = None
        for n, a in prog.adts.items():
            if n.split('::')[-1] == 'DiscHeader':
                df = next((f[0] for f in a['v'][0]['f'] if f[0] == 'dol_off'), None)
        fl = [s for s in subterms(off) if s.op == 'fld' and s.a[1] == df] if off.__class__ is T else []
        if not fl:
            if isint(off) or any(s.op == 'fld' and str(s.a[1]).endswith('_off') for s in subterms(off)):
                rep.viol('C18.content', w, f'the executable is taken from {show(off, 4)}')
            else:
                rep.undecided('C18.content', w, 'position of the executable not recognised')
            return
        rep.ok('C18.content', w, 'the executable is taken from the recorded position')
        check_dol_size(rep, run, ln, w)


def deep(run, t):
    """subterms, following merged values and the inputs of the events that made a value"""
    seen, todo = set(), [t]
    while todo and len(seen) < 5000:
        x = todo.pop()
        if x.__class__ is tuple:
            todo.extend(x)
            continue
        if x.__class__ is not T or x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(x.a)
        if x.op == 'phi':
            for st in run.e.nlist[x.a[0]].ins.values():
                v = phi_in(x.a[1], st)
                if v is not None:
                    todo.append(v)
            for ev in run.e.nlist[x.a[0]].events:
                if ev.name == 'iter.step':
                    todo.extend(ev.args)
        elif x.op == 'fresh':
            ev = run.evs.get((x.a[0], x.a[1]))
            for q in range(x.a[1], -1, -1):
                if ev is None or not ev.name.startswith('iter.'):
                    ev = run.evs.get((x.a[0], q), ev)
            if ev is not None and ev.name.startswith('iter.'):
                todo.extend(ev.args)


def check_dol_size(rep, run, ln, w):
    """first text section position + sizes of all text and data sections"""
    fields = set()
    for s in deep(run, ln):
        if s.op == 'fld':
            fields.add(s.a[1] if s.a[1].__class__ is str else str(s.a[1]))
        if s.op == 'agg' and str(s.a[0]).startswith('iter:'):
            d = dict(s.a[2])
            if 'ptr' in d:
                p = d['ptr']
                if p.op == 'slice':
                    fields.add((p.a[1][-1] if p.a[1] else '?', p.a[2], p.a[3], s.a[0]))
            elif s.a[0] not in ('iter:chain', 'iter:cloned', 'iter:copied', 'iter:map', 'iter:enumerate', 'iter:rev', 'iter:zip', 'iter:peekable'):
                fields.add(s.a[0])
    sl = {f[0]: f for f in fields if f.__class__ is tuple and len(f) == 4}
    odd = [f for f in fields if f.__class__ is str and f.startswith('iter:')]
    if odd or not sl:
        rep.undecided('C18.dol', w, 'size of the executable not recognised')
        return
    prog = program('disc_riider')
    full = {}
    for n, a in prog.adts.items():
        if n.split('::')[-1] == 'DOLHeader':
            for f in a['v'][0]['f']:
                m = re.match(r'\[u32; (\d+)\]', f[1])
                if m and 'siz' in f[0]:
                    full[f[0]] = int(m.group(1))
    miss = [k for k in full if k not in sl and k not in fields]
    part = [k for k, f in sl.items() if k in full and (f[1] != 0 or f[2] != full[k])]
    if miss or part:
        rep.viol('C18.dol', w, f'the stored executable leaves out sections: {", ".join(miss + part)} not (entirely) counted')
    elif 'text_off' not in fields and not any(s.op == 'fld' and s.a[0].__class__ is T and s.a[0].op == 'fld' and s.a[0].a[1] == 'text_off' for s in subterms(ln)):
        rep.viol('C18.dol', w, 'the space in front of the first section is not counted for the executable')
    else:
        rep.ok('C18.dol', w, 'all sections of the executable are counted')


# ------------------------------------------------------------------ C18
def section_steps(run):
    """(step event, first nodes of an iteration, [other]) of the loop over the prepared sections"""
    out = []
    sc = succs(run)
    sec = None
    for ev in run.e.all_events():
        if ev.name != 'iter.step' or not own(ev):
            continue
        it = ev.args[1]
        b = it_buf(it)
        if b is None:
            continue
        d = None
        x = it
        for _ in range(5):
            d = dict(x.a[2])
            if 'ptr' in d:
                break
            x = d.get('in')
        if x is not it:
            continue
        yes = [j for j in sc.get(ev.node.id, ()) if tlt(d['i'], d['n']) in run.e.nlist[j].st.facts]
        no = [j for j in sc.get(ev.node.id, ()) if j not in yes]
        out.append((ev, b, yes, no, d))
    return out, sc


def c18_always(rep, main, needed):
    """needed: {pretty path: nodes}; no way around the section loop avoids them"""
    steps, sc = section_steps(main)
    allw = set().union(*needed.values()) if needed else set()
    bufs = {}
    for ev, b, yes, no, d in steps:
        if yes and no:
            bufs.setdefault(b, []).append((ev, yes))
    # the loop over sections: the one whose iterations contain the outputs
    best = None
    for b, l in bufs.items():
        hs = {ev.node.id for ev, y in l}
        seen, todo = set(), [j for ev, y in l for j in y]
        while todo:
            i = todo.pop()
            if i in seen or i in hs:
                continue
            seen.add(i)
            todo += sc.get(i, ())
        if allw and allw <= seen and (best is None or len(seen) < len(best[3])):
            best = (b, l, hs, seen)
    if best is None:
        rep.undecided('C18.always', where_body(main.body), 'loop over the sections not recognised')
        return
    b, l, hs, _ = best
    okx = {x.node.id for x in main.e.all_exits() if x.ret.__class__ is T and x.ret.op == 'agg' and x.ret.a[1] == 'Ok'}
    for name, nodes in sorted(needed.items()):
        bad = None
        seen, todo = set(), [(j, None) for ev, y in l for j in y]
        prev = {}
        while todo:
            i, p = todo.pop(0)
            if i in seen:
                continue
            seen.add(i)
            prev[i] = p
            if i in nodes:
                continue
            if i in hs or i in okx:
                bad = i
                break
            todo += [(j, i) for j in sc.get(i, ())]
        w = f'{l[0][0].file}:{l[0][0].line} in {l[0][0].fn}'
        if bad is None:
            rep.ok('C18.always', w, f'{name} is written for every section before success')
        else:
            ln = []
            i = bad
            while i is not None:
                n = main.e.nlist[i]
                q = f'{n.frame.body.file}:{n.frame.body.blocks[n.bb]["l"]}'
                if not q.startswith('/') and (not ln or ln[-1] != q):
                    ln.append(q)
                i = prev[i]
            rep.viol('C18.always', w, f'a section can be finished without writing {name}; way: ' + ' -> '.join(list(reversed(ln))[-25:]))
    ev, y = l[0]
    d = dict(ev.args[1].a[2])
    n = None
    for e2 in main.e.all_events():
        if e2.name == 'vec.drain' and e2.node.id <= ev.node.id:
            n = e2
    if n is not None:
        sl = n.args[0]
        rg = n.args[1] if len(n.args) > 1 else None
        if rg is not None and not (rg.__class__ is T and rg.op == 'agg' and (rg.a[0].endswith('RangeFull') or rg.a[0].endswith('RangeFrom') and proj(rg, 'start') == 0 or rg.a[0].endswith('Range') and proj(rg, 'start') == 0 and sub(proj(rg, 'end'), d['n']) == 0)):
            rep.viol('C18.all', n.where(), 'not all prepared sections are extracted') if rg.__class__ is T and rg.op == 'agg' and isint(proj(rg, 'start')) and proj(rg, 'start') > 0 else rep.undecided('C18.all', n.where(), 'range of sections not recognised')
        elif not (sl.op == 'slice' and sub(sl.a[3], d['n']) == 0 and d['i'] == 0):
            rep.viol('C18.all', n.where(), 'not all prepared sections are extracted')
        else:
            rep.ok('C18.all', n.where(), 'all prepared sections are extracted')


def c18_agree(rep):
    ins = inputs(rep)
    outs, main, subs = outputs(rep)
    for r in [main] + subs:
        rep.entry(r.e)
    unk = [o for o in outs if o[0] is None]
    table = {}
    for ps, ev, run in outs:
        if ps is not None:
            k = tuple('DATA' if x == ('sec',) else x for x in ps)
            table.setdefault(k, []).append((ev, run))
    n = 0
    needed = {}
    for ps, role, how, wi in ins:
        if ps is None:
            rep.undecided('C18.path', wi, f'path of {role} not resolved')
            continue
        if any(x.__class__ is tuple for x in ps):
            rep.undecided('C18.path', wi, f'path of {role} not resolved')
            continue
        n += 1
        hits = table.get(ps)
        if not hits:
            if unk or any(any(x.__class__ is tuple and x != ('sec',) for x in o[0]) for o in outs if o[0]):
                rep.undecided('C18.path', wi, f'{pretty(ps)} is read for {role}; some extracted paths are not resolved')
            else:
                rep.viol('C18.path', wi, f'{pretty(ps)} is read for {role}, but extraction never writes it')
            continue
        rep.ok('C18.path', wi, f'{pretty(ps)} is read for {role} and written by extraction')
        if ps[-1] != '*':
            needed.setdefault(pretty(ps), set()).update(ev.node.id for ev, run in hits if run is main)
        for ev, run in hits:
            w = ev.where()
            if role in WANT and how and how[0] != 'exact':
                check_record(rep, run, role, how, ev, w, wi)
            elif role == 'region':
                check_region(rep, run, ev, w, how)
            elif role in ('bi2', 'apploader', 'dol'):
                check_system(rep, run, role, ev, w)
    for r in file_callbacks(subs):
        ev = getattr(r, 'call', None)
        if ev is not None:
            nodes = {e.node.id for e, c, caps in main.closures if e.name == ev.name and closure_body(main.body.prog, c) is r.body}
            if nodes:
                needed['files/*'] = nodes
        file_created(rep, r, 'C18.created')
    for k, v in list(needed.items()):
        if not v:
            del needed[k]
    c18_always(rep, main, needed)
    if n < 10:
        rep.undecided('C18.count', 'build_from_directory', f'only {n} inputs resolved')


# ------------------------------------------------------------------ C21
CONSUMERS = ('::build_from_directory', 'WiiDiscBuilder::<WS>::create')


def callers(prog, names):
    for b in prog.bodies.values():
        if b.file.startswith('/') or '::test' in b.path or b.closure:
            continue
        for blk in b.blocks:
            t = blk['t']
            if t[0] == 'call' and not blk['cl']:
                p = re.sub(r'::<[^<>]*>', '', str(t[1].get('p')))
                if any(p.endswith(re.sub(r'::<[^<>]*>', '', n)) for n in names):
                    yield b
                    break


def c21_dest(rep):
    from rules_flow import CRATES
    n = 0
    done = set()
    for cr in CRATES:
        prog = program(cr)
        for b in callers(prog, CONSUMERS):
            if b.path in done:
                continue
            done.add(b.path)
            run = BRun(b, extra_opaque=('build_from_directory', 'WiiDiscBuilder::<WS>::create', 'add_partition', 'finish', 'open_partition', 'read_parts', 'WiiIsoReader::<RS>::open',
                                        'read_tmd', 'read_certificates', 'read_bi2', 'build_fst_from_directory_tree', 'extract_system_files'))
            rep.entry(run.e)
            for ev in run.e.all_events():
                if not ev.name.startswith('call:'):
                    continue
                p = re.sub(r'::<[^<>]*>', '', ev.name)
                if not any(p.endswith(re.sub(r'::<[^<>]*>', '', x)) for x in CONSUMERS):
                    continue
                fs_ = []
                generic = False
                for v in ev.info['deref']:
                    for _ in range(3):
                        if v.__class__ is T and v.op == 'agg' and v.a[0] in ('BufWriter', 'BufReader', 'BufStream'):
                            v = proj(v, '#inner')
                    if fid(v) is not None:
                        fs_.append(v)
                if not fs_:
                    # destination handed in by the caller of the library
                    if cr == 'disc_riider' and any('W' in b.lty(i)['s'] for i in range(1, b.argc + 1)) and any(re.search(r'&mut \w+$', b.lty(i)['s']) for i in range(1, b.argc + 1)):
                        continue
                    rep.undecided('C21.dest', ev.where(), 'destination not recognised')
                    continue
                for f in fs_:
                    c21_file(rep, run, ev, f)
                    n += 1
    if n < 3:
        rep.undecided('C21.dest', 'all crates', f'only {n} destinations found')


def c21_file(rep, run, ev, f):
    ids = alts(run, fid(f))
    for i in ids:
        o = next((e for e in run.e.all_events() if e.name == 'fs' and e.info.get('file') is i), None)
        if o is None:
            rep.undecided('C21.dest', ev.where(), 'where the destination is opened is not known')
            continue
        w = o.where()
        k = o.info['kind']
        if k in ('create', 'create_new'):
            rep.ok('C21.dest', w, 'the destination is created empty')
            continue
        if k == 'openopts':
            op = o.info['opts']
            v = {x: proj(op, x) for x in ('truncate', 'create_new')}
            if v['truncate'] == 1 or v['create_new'] == 1:
                rep.ok('C21.dest', w, 'the destination is emptied when it is opened')
                continue
            if not all(isint(x) or x.op in ('app', 'bool', 'not', 'eq0', 'lt0', 'same') for x in v.values()):
                rep.undecided('C21.dest', w, 'options of the destination depend on something')
                continue
        elif k != 'open':
            rep.undecided('C21.dest', w, 'destination opened in an unknown way')
            continue
        cut = [e for e in run.e.all_events() if e.name == 'file.set_len' and e.info.get('file') is not None and fid(e.info['file']) is i and len(e.args) > 1 and e.args[1] == 0]
        if cut:
            # every way from the opening to the use passes a cut
            sc = succs(run)
            nodes = {e.node.id for e in cut}
            seen, todo = set(), [o.node.id]
            bad = False
            while todo:
                x = todo.pop()
                if x in seen or x in nodes:
                    continue
                seen.add(x)
                if x == ev.node.id:
                    bad = True
                todo += sc.get(x, ())
            if not bad or any(e.node.id == ev.node.id and e.seq < ev.seq for e in cut):
                rep.ok('C21.dest', w, 'the destination is cut to nothing before it is used')
                continue
        if any(e.name == 'fs' and e.info['kind'] in ('remove_file', 'create', 'write') and e.args[0] is o.args[0] and e.node.id < o.node.id for e in run.e.all_events()):
            rep.undecided('C21.dest', w, 'the destination is removed or created before it is opened')
            continue
        rep.viol('C21.dest', w, f'the destination of the image is opened without being emptied; its old content stays behind (used in {ev.where()})')


def alts(run, t):
    """values a term can stand for"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.__class__ is T and x.op == 'phi':
            for st in run.e.nlist[x.a[0]].ins.values():
                v = phi_in(x.a[1], st)
                todo.append(v) if v is not None else out.append(x)
        else:
            out.append(x)
    return out


def c21_tables(rep):
    """finish() writes every byte of the tables at fixed places, whatever the destination held before"""
    prog = program('disc_riider')
    b = inherent(prog, 'WiiDiscBuilder', 'finish')
    if b is None:
        raise Unsupported('finish not found')
    run = XRun(b)
    rep.entry(run.e)
    sc = succs(run)
    okx = [x for x in run.e.all_exits() if x.ret.__class__ is T and x.ret.op == 'agg' and x.ret.a[1] == 'Ok']
    okn = {x.node.id for x in okx}
    for lo, hi, what in ((0x40000, 0x40020, 'partition groups'), (0x4E000, 0x4E020, 'region')):
        spans = []
        odd = False
        for ev in run.e.all_events():
            if ev.name in ('stream.write_be', 'stream.write_all', 'stream.write', 'stream.write_le'):
                p, n = ev.info['pos'], ev.info['n']
                if isint(p) and isint(n):
                    spans.append((p, p + n, ev))
                elif isint(p) and lo - 0x400 < p < hi:
                    odd = True
            elif ev.name.startswith('call:') and own(ev) and not ev.name.startswith(('call:std::', 'call:core::', 'call:alloc::', 'call:<')):
                odd = True
        miss = []
        for at in range(lo, hi, 4):
            nodes = {ev.node.id for a, z, ev in spans if a <= at and at + 4 <= z}
            seen, todo = set(), [0]
            bad = None
            while todo:
                x = todo.pop()
                if x in seen or x in nodes:
                    continue
                seen.add(x)
                if x in okn:
                    bad = x
                todo += sc.get(x, ())
            if bad is not None:
                miss.append(at)
        if not miss:
            rep.ok('C21.tables', where_body(b), f'all {hi - lo} bytes of the {what} are written before success')
        elif odd or not spans:
            rep.undecided('C21.tables', where_body(b), f'writes of the {what} not recognised')
        else:
            rep.viol('C21.tables', where_body(b), f'{what}: bytes at {", ".join(hex(m) for m in miss[:6])} can keep what the destination held before')
