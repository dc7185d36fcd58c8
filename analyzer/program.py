"""Loading of the exported MIR plus per-body CFG facts (reverse post-order, loops, liveness)."""
import json
import os
from terms import ENUMS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get('VP_WORK', os.path.join(VERIF, '.work'))


class Body:
    def __init__(self, prog, j):
        self.prog = prog
        self.j = j
        self.key = j['key']
        self.path = j['path']
        self.file = j['file']
        self.line = j['line']
        self.root = j.get('root')
        self.pub = j.get('pub')
        self.name = j.get('name') or self.path.split('::')[-1]
        self.argc = j['argc']
        self.locals = j['locals']
        self.blocks = j['blocks']
        self.closure = j.get('closure')
        self._prep = False

    def short(self):
        p = self.path
        for a in ('disc_riider::', 'disc_riider_py::', 'iso_tool::'):
            p = p.replace(a, '')
        return p

    def lty(self, l):
        return self.prog.types[self.locals[l][0]]

    def succs(self, b):
        t = self.blocks[b]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            out = []
            for _, x in t[3]:
                out.append(x)
            out.append(t[4])
            return out
        if k == 'drop':
            return [t[3]]
        if k == 'assert':
            return [t[4]]
        if k == 'call':
            return [] if t[4] is None else [t[4]]
        return []

    def prep(self):
        if self._prep:
            return self
        self._prep = True
        n = len(self.blocks)
        self.dead = set(i for i, b in enumerate(self.blocks) if b['cl'] or (b['t'][0] == 'unreach' and not b['s']))
        succ = [[s for s in dict.fromkeys(self.succs(i)) if s not in self.dead] if i not in self.dead else [] for i in range(n)]
        self.succ = succ
        # rpo; visit loop-exiting/last successors first so that they come later
        seen = set()
        order = []
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                preds[s].append(b)
        self.preds = preds
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        # natural loops
        loops = {}
        for b in order:
            for s in succ[b]:
                if self.dominates(s, b):
                    body = loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x not in body:
                            body.add(x)
                            stk.extend(preds[x])
        self.loops = loops
        self.inloops = {b: [] for b in order}
        for h in sorted(loops, key=lambda h: self.rpo[h]):
            for x in loops[h]:
                self.inloops[x].append(h)
        for b in self.inloops:
            self.inloops[b].sort(key=lambda h: -len(loops[h]))
        self._live()
        return self

    def _inter(self, idom, a, b):
        while a != b:
            while self.rpo[a] > self.rpo[b]:
                a = idom[a]
            while self.rpo[b] > self.rpo[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            nb = self.idom.get(b)
            if nb is None or nb == b:
                return False
            b = nb

    def _live(self):
        addr = set()
        use = {}
        dfn = {}

        def op_use(o, u):
            p = o.get('c') or o.get('m')
            if p:
                place_use(p, u)

        def place_use(p, u):
            u.append(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'i':
                    u.append(e[1])

        for b in self.order:
            blk = self.blocks[b]
            u, d = set(), set()
            seq = []
            for s in blk['s']:
                if s[0] == '=':
                    rv = s[2]
                    us = []
                    k = rv[0]
                    if k == 'ref':
                        place_use(rv[1], us)
                        if '*' not in rv[1][1:]:
                            addr.add(rv[1][0])
                        else:
                            i = rv[1].index('*')
                    elif k == 'discr':
                        place_use(rv[1], us)
                    elif k == 'agg':
                        for o in rv[2]:
                            op_use(o, us)
                    else:
                        for x in rv[1:]:
                            if isinstance(x, dict):
                                op_use(x, us)
                    if len(s[1]) > 1:
                        place_use(s[1], us)
                        seq.append((us, None))
                    else:
                        seq.append((us, s[1][0]))
                elif s[0] == 'sd':
                    seq.append(([s[1][0]], None))
            t = blk['t']
            us = []
            df = None
            if t[0] == 'switch':
                op_use(t[1], us)
            elif t[0] == 'drop':
                place_use(t[1], us)
            elif t[0] == 'assert':
                op_use(t[1], us)
                for x in t[3]:
                    if isinstance(x, dict):
                        op_use(x, us)
            elif t[0] == 'call':
                for o in t[2]:
                    op_use(o, us)
                if isinstance(t[1].get('dyn'), dict):
                    op_use(t[1]['dyn'], us)
                if len(t[3]) > 1:
                    place_use(t[3], us)
                else:
                    df = t[3][0]
            elif t[0] == 'ret':
                us.append(0)
            seq.append((us, df))
            for us, dd in seq:
                for x in us:
                    if x not in d:
                        u.add(x)
                if dd is not None:
                    d.add(dd)
            use[b], dfn[b] = u, d
        live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live
        self.addr = addr
        # drop flags: bool locals without a name whose switches lead to a bare drop
        sw = {}
        for b in self.order:
            t = self.blocks[b]['t']
            if t[0] == 'switch':
                p = t[1].get('c') or t[1].get('m')
                if p and len(p) == 1 and self.lty(p[0])['k'] == 'bool':
                    sw.setdefault(p[0], []).append(t)
        self.dropflags = set()
        for l, ts in sw.items():
            if self.locals[l][1] is None and all(
                    any(self.blocks[x]['t'][0] == 'drop' and not self.blocks[x]['s'] for x in ([y[1] for y in t[3]] + [t[4]]))
                    for t in ts):
                self.dropflags.add(l)


class Program:
    def __init__(self, crate):
        d = json.load(open(os.path.join(WORK, 'mir', crate + '.json')))
        self.crate = crate
        self.types = d['types']
        self.adts = d['adts']
        for n, a in self.adts.items():
            if a['k'] == 'enum':
                ENUMS.setdefault(n, a)
        self.bodies = {}
        self.roots = []
        for j in d['bodies']:
            b = Body(self, j)
            self.bodies[b.key] = b
            if b.root:
                self.roots.append(b)
        self.promoted = {}
        for b in self.bodies.values():
            pass
        self.recursive = self._recursive()

    def _recursive(self):
        """bodies (by path) lying on a call-graph cycle"""
        g = {}
        for b in self.bodies.values():
            out = g.setdefault(b.path, set())
            for blk in b.blocks:
                if blk['cl']:
                    continue
                t = blk['t']
                if t[0] == 'call' and t[1].get('b') in self.bodies:
                    out.add(self.bodies[t[1]['b']].path)
                for s in blk['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure' and s[2][1][2] in self.bodies:
                        out.add(self.bodies[s[2][1][2]].path)
        self.cg = g
        rec = set()
        idx, low, st, on = {}, {}, [], set()
        cnt = [0]

        def visit(v):
            work = [(v, iter(sorted(g.get(v, ()))))]
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            st.append(v)
            on.add(v)
            while work:
                x, it = work[-1]
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(sorted(g.get(w, ())))))
                        break
                    elif w in on:
                        low[x] = min(low[x], idx[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[x])
                    if low[x] == idx[x]:
                        comp = []
                        while True:
                            w = st.pop()
                            on.discard(w)
                            comp.append(w)
                            if w == x:
                                break
                        if len(comp) > 1 or x in g.get(x, ()):
                            rec.update(comp)
        for v in sorted(g):
            if v not in idx:
                visit(v)
        return rec

    def find(self, pred):
        return [b for b in self.bodies.values() if pred(b)]


_progs = {}


def program(crate):
    if crate not in _progs:
        _progs[crate] = Program(crate)
    return _progs[crate]
