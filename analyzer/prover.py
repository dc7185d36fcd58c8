"""Discharges linear obligations over the analysis result.

Obligations are linear (in)equalities over value terms.  Joins are resolved by substituting, per incoming
edge of the exploded graph, the values the analysis recorded on that edge; loop headers are handled by
induction (the obligation itself is the hypothesis on the back edges).  Linear consequences are decided by
a bounded variable elimination over the branch facts - an abstract-domain operation, no solver involved."""
from terms import *
from math import gcd

STEPS = 4000


class Budget(Exception):
    pass


# ------------------------------------------------------------------ linear reasoning
def norm_ge(e):
    """e >= 0 normalised (integer tightening)"""
    if isint(e):
        return e
    c, ts = lin_parts(e)
    g = 0
    for _, v in ts:
        g = gcd(g, v)
    if g > 1:
        return lin_make(c // g, {k: v // g for k, v in ts})
    return e


def fact_cons(facts):
    """branch facts -> (equalities, inequalities e>=0, disequalities)"""
    eqs, ges, nes = [], [], []
    for f in facts:
        if f.__class__ is int:
            if f == 0:
                return None
            continue
        if f.op == 'eq0':
            eqs.append(f.a[0])
        elif f.op == 'lt0':
            ges.append(sub(neg(f.a[0]), 1))
        elif f.op == 'not' and f.a[0].op == 'eq0':
            nes.append(f.a[0].a[0])
    return eqs, ges, nes


def lin_atoms(e):
    if isint(e):
        return ()
    return [k for k, _ in lin_parts(e)[1]]


def atom_cons(t):
    """definitional constraints of an atom"""
    out = []
    op = t.op
    b = NN.get(t)
    if b is not None:
        out.append(t)
        if b <= 64:
            out.append(sub((1 << b) - 1, t))
    elif op == 'phi' and t.a[1][-1] in ('#off', '#slen', '#len'):
        out.append(t)
    r = RANGE.get(t)
    if r:
        if r[0] is not None:
            out.append(sub(t, r[0]))
        if r[1] is not None:
            out.append(sub(r[1], t))
    if op == 'div':
        x, c = t.a
        out.append(sub(x, mulc(t, c)))
        out.append(add(sub(mulc(t, c), x), c - 1))
    elif op == 'min':
        out.append(sub(t.a[0], t))
        out.append(sub(t.a[1], t))
    elif op == 'max':
        out.append(sub(t, t.a[0]))
        out.append(sub(t, t.a[1]))
    elif op == 'trunc':
        lo, hi = interval(t.a[1])
        if lo is not None and lo >= 0:
            out.append(sub(t.a[1], t))
    elif op in BOOLOPS or op == 'disc':
        out.append(t)
    return out


def solve_eqs(eqs):
    """triangular substitution from equalities: list of (atom, expr); None if contradictory"""
    subs = []
    for e in eqs:
        for a, x in subs:
            e = replace(e, a, x)
        if isint(e):
            if e != 0:
                return None
            continue
        c, ts = lin_parts(e)
        cand = [(k, v) for k, v in ts if abs(v) == 1]
        if not cand:
            continue
        # prefer atoms that do not occur inside others
        cand.sort(key=lambda kv: (kv[0].op in ('div', 'min', 'max'), -kv[0].id))
        k, v = cand[0]
        x = sub(k, mulc(e, v))      # k = k - v*e
        if k in atoms(x):
            continue
        subs = [(a, replace(y, k, x)) for a, y in subs]
        subs.append((k, x))
    return subs


def replace(e, a, x):
    if isint(e):
        return e
    if a in atoms(e):
        return subst(e, {a: x})
    return e


def apply_subs(e, subs):
    if not subs or isint(e):
        return e
    at = atoms(e)
    m = {a: x for a, x in subs if a in at}
    if not m:
        return e
    return subst(e, m)


def minmax_cases(t, facts):
    a, b = t.a
    for c, v in ((tle(a, b), a if t.op == 'min' else b), (tle(b, a), b if t.op == 'min' else a)):
        if isint(c) and not c:
            continue
        f2 = set()
        bad = False
        for x in (facts | {c} if not isint(c) else facts):
            y = subst(x, {t: v}) if not isint(x) else x
            if isint(y):
                if not y:
                    bad = True
                    break
                continue
            f2.add(y)
        if not bad:
            yield frozenset(f2), v


def rank(t):
    if t.op == 'grp':
        return 3
    if t.op == 'phi':
        return {'L': 1, 'G': 3}.get(t.a[1][0][0], 2)
    if t.op == 'fld' and any(x.op == 'phi' for x in atoms(t)):
        return 2
    return 0


def rewrite(e, facts):
    if isint(e):
        return e
    for _ in range(4):
        at = atoms(e)
        hit = None
        for f in facts:
            if isint(f) or f.op != 'eq0':
                continue
            c, ts = lin_parts(f.a[0])
            if len(ts) != 2 or any(abs(v) != 1 for _, v in ts):
                continue
            (x, vx), (y, vy) = ts
            if rank(x) < rank(y):
                (x, vx), (y, vy) = (y, vy), (x, vx)
            if rank(x) > rank(y) and x in at and x not in atoms(y):
                hit = (x, sub(x, mulc(f.a[0], vx)))
                break
        if hit is None:
            return e
        e = subst(e, {hit[0]: hit[1]})
        if isint(e):
            return e
    return e


def with_mods(cons):
    """introduce remainders: x = c*div(x,c) + mod, and eliminate a unit atom of x"""
    divs = []
    seen = set()
    stack = [a for c in cons for a in lin_atoms(c)]
    while stack:
        a = stack.pop()
        if a in seen:
            continue
        seen.add(a)
        if a.op == 'div':
            divs.append(a)
            stack.extend(lin_atoms(a.a[0]))
    if not divs:
        return cons
    divs.sort(key=lambda t: t.id)
    subs = []
    extra = []
    for t in divs:
        x, c = t.a
        m = mk('mod', x, c)
        RANGE[m] = (0, c - 1)
        e = sub(sub(x, mulc(t, c)), m)
        for a, y in subs:
            e = lin_replace(e, a, y)
        if isint(e):
            continue
        ts = lin_parts(e)[1]
        cand = [(k, v) for k, v in ts if abs(v) == 1 and k is not m and k.op not in ('div', 'mod')] or [(k, v) for k, v in ts if abs(v) == 1 and k.op == 'mod']
        if not cand:
            continue
        k, v = cand[0]
        y = sub(k, mulc(e, v))
        subs = [(a, lin_replace(z, k, y)) for a, z in subs]
        subs.append((k, y))
        extra.append(m)
        extra.append(sub(c - 1, m))
    out = list(cons) + extra
    for a, y in subs:
        out = [lin_replace(c, a, y) for c in out]
    return out


def lin_replace(e, a, x):
    """replace a top-level atom of a linear form"""
    if isint(e):
        return e
    c, ts = lin_parts(e)
    for k, v in ts:
        if k is a:
            return add(lin_make(c, {q: w for q, w in ts if q is not a}), mulc(x, v))
    return e


_REF = {}


def refute(cons, cap=300):
    """True if the conjunction of c>=0 has no (rational, integer-tightened) solution; None if the bound on the number of
    combinations was reached - elimination over (coefficients -> strongest constant)"""
    ck = (frozenset(cons), cap)
    r = _REF.get(ck, 0)
    if r == 0:
        if len(_REF) > 300000:
            _REF.clear()
        r = _REF[ck] = _refute(cons, cap)
    return r


def _refute(cons, cap):
    cons = with_mods(cons)
    idx = {}
    work = {}
    for c in cons:
        if isint(c):
            if c < 0:
                return True
            continue
        k0, ts = lin_parts(c)
        g = 0
        for _, v in ts:
            g = gcd(g, v)
        key = tuple(sorted((idx.setdefault(k, len(idx)), v // g) for k, v in ts))
        k0 //= g
        o = work.get(key)
        if o is None or k0 < o:
            work[key] = k0
    while work:
        cnt = {}
        for key in work:
            for k, v in key:
                p = cnt.get(k)
                if p is None:
                    p = cnt[k] = [0, 0, 1]
                if v > 0:
                    p[0] += 1
                    if v > p[2]:
                        p[2] = v
                else:
                    p[1] += 1
                    if -v > p[2]:
                        p[2] = -v
        best = None
        for k, (p, q, mx) in cnt.items():
            cost = (False, 0, 0, k) if p == 0 or q == 0 else (p * q > 40, mx, p * q - p - q, k)
            if best is None or cost < best:
                best = cost
        k = best[3]
        pos, ngs, rest = [], [], {}
        for key, c0 in work.items():
            co = 0
            for j, v in key:
                if j == k:
                    co = v
                    break
            if co > 0:
                pos.append((key, c0, co))
            elif co < 0:
                ngs.append((key, c0, -co))
            else:
                rest[key] = c0
        for ka, c1, va in pos:
            for kb, c2, vb in ngs:
                g = gcd(va, vb)
                ma, mb = vb // g, va // g
                d = {}
                for j, v in ka:
                    d[j] = v * ma
                for j, v in kb:
                    d[j] = d.get(j, 0) + v * mb
                c0 = c1 * ma + c2 * mb
                it = [(j, v) for j, v in d.items() if v]
                if not it:
                    if c0 < 0:
                        return True
                    continue
                g = 0
                for _, v in it:
                    g = gcd(g, v)
                    if g == 1:
                        break
                if g > 1:
                    it = [(j, v // g) for j, v in it]
                    c0 //= g
                it.sort()
                key = tuple(it)
                o = rest.get(key)
                if o is None:
                    rest[key] = c0
                    n2 = tuple((j, -v) for j, v in key)
                    o2 = rest.get(n2)
                    if o2 is not None and o2 + c0 < 0:
                        return True
                elif c0 < o:
                    rest[key] = c0
        if len(rest) > cap:
            return None
        work = rest
    return False


_UNSAT = {}


def mod_goal(e):
    """(x, m) when e is x - m*div(x, m)"""
    if isint(e):
        return None
    for t, v in lin_parts(e)[1]:
        if t.op == 'div' and v < 0 and t.a[1] == -v:
            x = sub(e, mulc(t, v))
            if not isint(x) and lin_parts(x)[0] % -v == lin_parts(t.a[0])[0] % -v and mod(x, -v) == e:
                return x, -v
    return None


def aligned_bounds(facts, m):
    out = set()
    eqs, ges, _ = fact_cons(facts) or ((), (), ())
    for c in list(eqs) + list(ges):
        if isint(c):
            continue
        for a, v in lin_parts(c)[1]:
            if v in (1, -1):
                r = mulc(sub(c, mulc(a, v)), -v)
                rc, rt = lin_parts(r) if not isint(r) else (r, ())
                for adj in (0, 1, -1):
                    if (rc + adj) % m == 0 and rt and all(y % m == 0 for _, y in rt):
                        out.add(add(r, adj))
    return sorted(out, key=tkey)[:4]


class Ctx:
    """a set of facts prepared for queries"""

    def __init__(self, facts):
        self.bad = False
        self._unsat = None
        fc = fact_cons(facts)
        self.facts = facts
        if fc is None:
            self.bad = True
            self.eqs = self.ges = self.nes = []
            self.subs = []
            return
        self.eqs, self.ges, self.nes = fc
        s = solve_eqs(self.eqs)
        if s is None:
            self.bad = True
            s = []
        self.subs = s
        if s:
            self.ges = [apply_subs(g, s) for g in self.ges]
            self.nes = [apply_subs(g, s) for g in self.nes]
            # a substituted quotient or minimum keeps what its definition says
            for a, x in s:
                if a.op in ('div', 'min', 'max'):
                    for c in atom_cons(a):
                        c = apply_subs(c, s)
                        if c.__class__ is T or c < 0:
                            self.ges.append(c)
        for g in self.ges:
            if isint(g) and g < 0:
                self.bad = True
        for g in self.nes:
            if isint(g) and g == 0:
                self.bad = True

    def relevant(self, goal, depth=4, cap=60):
        have = set(lin_atoms(goal))
        seen_at = set()
        out = []
        used = set()
        for _ in range(depth):
            new = set()
            for t in list(have):
                if t in seen_at:
                    continue
                seen_at.add(t)
                for c in atom_cons(t):
                    c = apply_subs(c, self.subs)
                    out.append(c)
                    new.update(lin_atoms(c))
            for i, g in enumerate(self.ges):
                if i in used or isint(g):
                    continue
                la = lin_atoms(g)
                if any(a in have for a in la) or any(a.op == 'div' and a.a[0].__class__ is T and any(b in have for b in lin_atoms(a.a[0])) for a in la):
                    used.add(i)
                    out.append(g)
                    new.update(la)
            for i, g in enumerate(self.eqs):
                if ('e', i) in used:
                    continue
                g2 = apply_subs(g, self.subs)
                if isint(g2):
                    continue
                la = lin_atoms(g2)
                if any(a in have for a in la):
                    used.add(('e', i))
                    out.append(g2)
                    out.append(neg(g2))
                    new.update(la)
            if new <= have:
                break
            have |= new
            if len(out) > cap:
                break
        # disequalities strengthen one-sided bounds
        if self.nes:
            for d in self.nes:
                if isint(d):
                    continue
                if all(a in have for a in lin_atoms(d)):
                    lo, hi = interval(d)
                    if (lo is not None and lo >= 0) or refute(out + [sub(neg(d), 1)], 120):
                        out.append(sub(d, 1))
                    elif (hi is not None and hi <= 0) or refute(out + [sub(d, 1)], 120):
                        out.append(sub(neg(d), 1))
        return out

    def ge0(self, e):
        if self.bad:
            return True
        e = apply_subs(e, self.subs)
        if isint(e):
            return e >= 0 or self.unsat()
        lo, _ = interval(e)
        if lo is not None and lo >= 0:
            return True
        ng = sub(neg(e), 1)
        return bool(refute([ng] + self.relevant(ng)))

    def eq0(self, e):
        if self.bad:
            return True
        e = apply_subs(e, self.subs)
        if isint(e):
            return e == 0 or self.unsat()
        # nonlinear atoms may become equal after substitution of arguments (congruence is structural)
        return self.ge0(e) and self.ge0(neg(e))

    def unsat(self):
        """the facts contradict each other"""
        if self.bad:
            return True
        if self._unsat is None:
            r = _UNSAT.get(self.facts) if self.facts.__class__ is frozenset else None
            if r is None:
                # connected components: only inequalities/disequalities can clash
                r = False
                done = set()
                for g in list(self.ges) + [d for d in self.nes]:
                    if isint(g):
                        continue
                    la = frozenset(lin_atoms(g))
                    if la in done:
                        continue
                    done.add(la)
                    if refute(self.relevant(g, 3, 40), 120):
                        r = True
                        break
                if self.facts.__class__ is frozenset:
                    _UNSAT[self.facts] = r
            self._unsat = r
        return self._unsat

    def inconsistent(self):
        if self.bad:
            return True
        for g in self.ges:
            if isint(g):
                continue
            lo, hi = interval(g)
            if hi is not None and hi < 0:
                return True
        return False


def arith(v):
    return isint(v) or v.op not in ('agg', 'slice', 'cat', 'ptr', 'tup')


# ------------------------------------------------------------------ graph side
def phi_in(cell, st):
    """value of a phi cell in an incoming state"""
    r = cell[0]
    v = st.store.get(r)
    if v is None:
        if r[0] == 'D':
            v = mk('mem', r[1])
        else:
            return None
    for k in cell[1:]:
        if k == '#off' and v.__class__ is T and v.op == 'slice':
            v = v.a[2]
        elif k == '#slen' and v.__class__ is T and v.op == 'slice':
            v = v.a[3]
        elif k.__class__ is tuple and k[0] == '#ix':
            if not (v.__class__ is T and v.op == 'ref' and k[1] < len(v.a[1]) and v.a[1][k[1]].__class__ is tuple and v.a[1][k[1]][0] == 'idx'):
                return None
            v = v.a[1][k[1]][1]
        else:
            v = proj(v, k)
    return v


class Prover:
    def __init__(self, eng):
        self.e = eng
        self.rpo = None
        self.memo = {}
        self.loopmemo = {}
        self.auxmemo = {}
        self.cands = {}
        self.lemmas = {}
        self.templates = []
        self.tmemo = {}
        self.inaux = False

    def prep(self):
        if self.rpo is not None:
            return
        nl = self.e.nlist
        succ = {n.id: [] for n in nl}
        pred = {n.id: set() for n in nl}
        for n in nl:
            for (s, lab) in n.ins:
                if s >= 0:
                    succ[s].append(n.id)
                    pred[n.id].add(s)
        self.succ, self.pred = succ, pred
        seen, order = set(), []
        on = set()
        self.back = set()
        for r in [n.id for n in nl if any(s < 0 for s, _ in n.ins)]:
            if r in seen:
                continue
            st = [(r, iter(succ[r]))]
            seen.add(r)
            on.add(r)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        on.add(y)
                        st.append((y, iter(succ[y])))
                        break
                    elif y in on:
                        self.back.add((x, y))
                else:
                    order.append(x)
                    on.discard(x)
                    st.pop()
        order.reverse()
        self.rpo = {x: i for i, x in enumerate(order)}

    def loop(self, h):
        """node ids of the natural loop of header h (empty if h has no back edge)"""
        r = self.loopmemo.get(h)
        if r is None:
            bs = [p for p in self.pred[h] if (p, h) in self.back]
            r = set()
            if bs:
                r = {h}
                st = list(bs)
                while st:
                    x = st.pop()
                    if x not in r:
                        r.add(x)
                        st.extend(self.pred[x])
                # entries from the side (not reachable from the header) do not belong to the loop
                fw = {h}
                st = [h]
                while st:
                    for y in self.succ[st.pop()]:
                        if y in r and y not in fw:
                            fw.add(y)
                            st.append(y)
                r = fw
            self.loopmemo[h] = r
        return r

    # public queries -----------------------------------------------------
    def ge0(self, e, node, facts, split=2):
        return self.query('ge', e, node, facts, split)

    def eq0(self, e, node, facts, split=2):
        return self.query('eq', e, node, facts, split)

    def query(self, kind, e, node, facts, split):
        self.prep()
        self.left = STEPS
        try:
            return self.prove(kind, e, node.id, frozenset(facts), (), split, 0)
        except Budget:
            return False
        except RecursionError:
            return False

    def holds(self, kind, e, ctx):
        return ctx.ge0(e) if kind == 'ge' else ctx.eq0(e)

    def prove(self, kind, e, nid, facts, hyps, split, depth):
        """hyps: tuple of (header, kind, expr) induction hypotheses (already part of facts)"""
        if isint(e):
            if (e >= 0 if kind == 'ge' else e == 0):
                return True
        self.left -= 1
        if self.left < 0:
            raise Budget()
        if depth > 60:
            return False
        key = (kind, e, nid, self.relfacts(e, facts), hyps, split)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.memo[key] = False
        r = self.prove1(kind, e, nid, facts, hyps, split, depth)
        self.memo[key] = r
        return r

    def relfacts(self, e, facts):
        return facts

    def prove1(self, kind, e, nid, facts, hyps, split, depth):
        ctx = Ctx(facts)
        if self.holds(kind, e, ctx):
            return True
        inv = self.aux(e, facts) if not self.inaux else frozenset()
        more = set()
        for h, k, x, F in hyps:
            if F and self.as_fact(k, x) not in facts and all(f in facts or self.entails(ctx, f) for f in F):
                more.add(self.as_fact(k, x))
        if self.templates:
            more |= self.cond_inv(e, facts, ctx)
        if self.lemmas and not isint(e):
            for m in {t.a[0] for t in atoms(e) if t.op == 'phi'}:
                for F, fx in self.lemmas.get(m, ()):
                    if fx not in facts and all(f in facts or self.entails(ctx, f) for f in F):
                        more.add(fx)
        inv |= more
        if inv - facts:
            facts = facts | inv
            ctx = Ctx(facts)
            if self.holds(kind, e, ctx):
                return True
        # case split on min / max
        if not isint(e):
            for t in sorted(atoms(e), key=lambda t: -t.id):
                if t.op in ('min', 'max'):
                    a, b = t.a
                    m1, m2 = (a, b) if t.op == 'min' else (b, a)
                    c1 = tle(a, b)      # a <= b: min=a, max=b
                    c2 = tle(b, a)
                    ok = True
                    for c, v in ((c1, m1), (c2, m2)):
                        if isint(c) and not c:
                            continue
                        f2 = facts | {c} if not isint(c) else facts
                        f2 = frozenset(subst(x, {t: v}) for x in f2)
                        if not self.prove(kind, subst(e, {t: v}), nid, f2, hyps, split, depth + 1):
                            ok = False
                            break
                    return ok
        # x mod m == 0: by equality with an aligned bound
        if kind == 'eq':
            g = mod_goal(e)
            if g is not None and split > 0:
                for r in aligned_bounds(facts, g[1]):
                    if r is not g[0] and self.prove('eq', sub(g[0], r), nid, facts, hyps, split - 1, depth + 1):
                        return True
        # rewrite by equalities between two quantities (towards locals, which carry the loop relations)
        e2 = rewrite(e, facts)
        if e2 is not e and e2 != e:
            if self.prove(kind, e2, nid, facts, hyps, split, depth + 1):
                return True
        # unfold the latest phi of the goal
        m = self.latest_phi(e)
        if kind == 'eq' and m is not None and self.loop(m) and not isint(e):
            # a counter known to be c may stand behind a constant of the goal: generalise
            c0, ts = lin_parts(e)
            for f in facts:
                if c0 and not isint(f) and f.op == 'eq0':
                    c1, t1 = lin_parts(f.a[0])
                    if len(t1) == 1 and c1 and t1[0][0].op == 'phi' and t1[0][0].a[0] == m and t1[0][0] not in atoms(e):
                        k, r = divmod(c0, -c1 * t1[0][1])
                        if r == 0:
                            if self.prove(kind, add(sub(e, c0), mulc(t1[0][0], k)), nid, facts - {f}, hyps, split, depth + 1):
                                return True
        if m is not None:
            if self.unfold(kind, e, m, facts, hyps, split, depth, nid):
                return True
            if self.loop(m):
                if self.unfold(kind, e, m, facts, hyps, split, depth, nid, cond=True):
                    return True
        if kind == 'eq' and split > 0:
            if self.prove('ge', e, nid, facts, hyps, split, depth + 1) and self.prove('ge', neg(e), nid, facts, hyps, split, depth + 1):
                return True
        # phis occurring in the relevant facts
        fm = self.fact_phi(e, facts, ctx, m)
        if fm is not None and split > 0:
            if self.unfold(kind, e, fm, facts, hyps, split - 1, depth, nid):
                return True
        # min/max inside the facts
        if split > 0 and m is None:
            mm = [t for f in facts for t in atoms(f) if t.op in ('min', 'max')]
            if mm:
                t = min(mm, key=lambda t: t.id)
                if all(self.prove(kind, e if isint(e) else subst(e, {t: v}), nid, f2, hyps, split, depth + 1) for f2, v in minmax_cases(t, facts)):
                    return True
        # split at the closest join above the position
        if split > 0:
            j = self.closest_join(nid)
            if j is not None and j != m:
                if self.unfold(kind, e, j, facts, hyps, split - 1, depth, nid):
                    return True
        return False

    def aux(self, e, facts):
        """difference invariants (phi_i - phi_j constant over all visits) of the loop headers whose phis occur"""
        by = {}
        for t in (atoms(e) if not isint(e) else ()):
            if t.op == 'phi':
                by.setdefault(t.a[0], (set(), set()))[0].add(t)
        out = set()
        done = set()
        while by:
            new = self.aux1(by, facts)
            done |= set(by)
            out |= new
            # the relation of an inner header may be stated relative to the phis of an outer one
            by = {}
            for f in new:
                for t in atoms(f):
                    if t.op == 'phi' and t.a[0] not in done:
                        by.setdefault(t.a[0], (set(), set()))[0].add(t)
        return frozenset(out)

    def aux1(self, by, facts):
        for f in facts:
            for t in atoms(f):
                if t.op == 'phi' and t.a[0] in by:
                    by[t.a[0]][1].add(t)
        out = set()
        for m, (a, b) in by.items():
            if not self.loop(m):
                continue
            ab = a | b
            for x in (ab if len(ab) <= 9 else a):
                for y in ab:
                    if x is y or (y.id < x.id and (x in a) == (y in a)):
                        continue
                    k = (m, x, y) if x.id < y.id else (m, y, x)
                    r = self.auxmemo.get(k)
                    if r is None:
                        r = self.auxmemo[k] = self.diff_inv(*k)
                    out.update(r)
        return out

    def cond_inv(self, e, facts, ctx):
        """conditional header invariants given as templates by the rules; used only after an inductive proof"""
        out = set()
        for m in {t.a[0] for t in (atoms(e) if not isint(e) else ()) if t.op == 'phi'}:
            if not self.loop(m):
                continue
            for i, tf in enumerate(self.templates):
                r = self.tmemo.get((m, i))
                if r is None:
                    r = self.tmemo[(m, i)] = ()
                    t = tf(self.e.nlist[m])
                    if t is not None:
                        F, kind, x = t
                        left = self.left
                        was, self.inaux = self.inaux, True
                        try:
                            self.left = 2000
                            if self.prove(kind, x, m, frozenset(self.e.nlist[m].st.facts) | F, (), 1, 0):
                                r = self.tmemo[(m, i)] = (F, self.as_fact(kind, x))
                        except Budget:
                            pass
                        finally:
                            self.left = left
                            self.inaux = was
                if r:
                    F, fx = r
                    if all(f in facts or self.entails(ctx, f) for f in F):
                        out.add(fx)
        return out

    def settle_candidates(self):
        for (m, e), own in list(self.cands.items()):
            if self.cands[(m, e)] is None:
                continue
            self.cands[(m, e)] = None
            self.memo.clear()
            self.left = 3000
            try:
                self.prove('eq', e, m, frozenset(self.e.nlist[m].st.facts) | own, (), 1, 0)
            except (Budget, RecursionError):
                pass

    def diff_inv(self, m, x, y):
        node = self.e.nlist[m]
        for sgn in (1, -1):
            want = None
            for (s, lab), st in node.ins.items():
                if (s, m) in self.back:
                    continue
                vx, vy = phi_in(x.a[1], st), phi_in(y.a[1], st)
                if vx is None or vy is None or not arith(vx) or not arith(vy):
                    return ()
                d = sub(vx, mulc(vy, sgn))
                if want is None:
                    want = d
                elif want != d and want is not d:
                    want = False
                    break
            if want is None or want is False:
                continue
            g = sub(sub(x, mulc(y, sgn)), want)
            left = self.left
            self.inaux = True
            try:
                self.left = 400
                ok = self.prove('eq', g, m, frozenset(node.st.facts), (), 0, 0)
            except Budget:
                ok = False
            finally:
                self.left = left
                self.inaux = False
            if ok:
                return (eq0(g),)
        return ()

    def latest_phi(self, e):
        if isint(e):
            return None
        best = None
        for t in atoms(e):
            if t.op == 'phi':
                r = self.rpo.get(t.a[0])
                if r is not None and (best is None or r > best[0]):
                    best = (r, t.a[0])
        return best[1] if best else None

    def fact_phi(self, e, facts, ctx, m):
        if isint(e):
            return None
        at = set(lin_atoms(e))
        best = None
        for f in facts:
            fa = atoms(f)
            if fa & at:
                for t in fa:
                    if t.op == 'phi' and t.a[0] != m:
                        r = self.rpo.get(t.a[0])
                        if r is not None and (best is None or r > best[0]):
                            best = (r, t.a[0])
        return best[1] if best else None

    def closest_join(self, nid):
        seen = set()
        while nid is not None and nid not in seen:
            seen.add(nid)
            ps = self.e.nlist[nid].ins
            if len(ps) > 1:
                return nid
            nid = next((s for s, _ in ps if s >= 0), None)
        return None

    def unfold(self, kind, e, m, facts, hyps, split, depth, nid, cond=False):
        node = self.e.nlist[m]
        loop = self.loop(m)
        phis = set()
        allat = set()
        if not isint(e):
            allat |= atoms(e)
        for f in facts:
            allat |= atoms(f)
        phis = {t for t in allat if t.op == 'phi' and t.a[0] == m}
        if loop:
            # values produced inside the loop body belong to the current iteration
            inl = {t for t in allat if (t.op in ('fresh', 'phi') and t.a[0] in loop and t not in phis)}
            gat = atoms(e) if not isint(e) else frozenset()
            if any(t in gat and t.op == 'phi' for t in inl):
                return False       # an inner phi must be unfolded first
            ren = {}
            for t in inl:
                o = mk('old', t, m)
                while o in allat:
                    o = mk('old', o, m)
                ren[t] = o
            for t, o in ren.items():
                if t in NN:
                    NN.setdefault(o, NN[t])
            hasinner = any(t in gat for t in inl)
            # loop-invariant facts and those that hold on every visit of the header
            keep = frozenset(f for f in facts if not (atoms(f) & inl) and not (atoms(f) & phis)) | frozenset(node.st.facts)
            F = frozenset()
            if cond:
                F = frozenset(f for f in facts if (atoms(f) & phis) and not (atoms(f) & inl) and f not in node.st.facts)
                # side entries into the loop lose the facts of the iteration: look at the edges before them
                edges = []
                for j in loop:
                    if j != m and any(s not in loop for s, _ in self.e.nlist[j].ins):
                        edges += [st for (s, lab), st in self.e.nlist[j].ins.items() if s in loop]
                if not edges:
                    edges = [st for (s, lab), st in node.ins.items() if (s, m) in self.back]
                for st in edges:
                    bctx = None
                    good = set()
                    for f in F:
                        if f in st.facts:
                            good.add(f)
                            continue
                        if bctx is None:
                            bctx = Ctx(frozenset(st.facts))
                        if self.entails(bctx, f):
                            good.add(f)
                    F = frozenset(good)
                if not F:
                    return False
            e_ = subst(e, ren) if ren and not isint(e) else e
            hyp = None
            if not hasinner:
                hyp = (m, kind, e, F)
                if hyp in hyps:
                    return False
            if len([1 for h in hyps if h[0] == m]) > 3:
                return False
        else:
            keep = facts
            e_ = e
        for (s, lab), st in list(node.ins.items()):
            isback = (s, m) in self.back
            mp = {}
            okk = True
            for t in phis:
                v = phi_in(t.a[1], st)
                if v is None:
                    okk = False
                    break
                mp[t] = v
            if not okk:
                return False
            e2 = subst(e_, mp) if mp and not isint(e_) else e_
            if loop and isback:
                f2 = set(st.facts)
                for f in keep:
                    if not (atoms(f) & phis):
                        f2.add(f)
                for f in F:
                    f2.add(subst(f, mp) if mp else f)
                hs = hyps
                if hyp is not None:
                    hs = hyps + (hyp,)
                    if not F or all(f in st.facts or self.entails(Ctx(frozenset(st.facts)), f) for f in F):
                        f2.add(self.as_fact(kind, e))
                for h, k, x, F2 in hyps:
                    if h == m and all(f in st.facts or self.entails(Ctx(frozenset(st.facts)), f) for f in F2):
                        f2.add(self.as_fact(k, x))
                f2 = frozenset(x for x in f2 if not isint(x) or x == 0)
            else:
                f2 = set(st.facts)
                bad = False
                for f in (facts if not loop else keep | F):
                    g = subst(f, mp) if mp else f
                    if isint(g):
                        if g == 0:
                            bad = True
                            break
                        continue
                    f2.add(g)
                if bad:
                    continue
                f2 = frozenset(f2)
                hs = hyps
            if any(isint(x) and x == 0 for x in f2):
                continue
            if Ctx(f2).inconsistent():
                continue
            if not self.prove(kind, e2, s if s >= 0 else m, f2, hs, split, depth + 1):
                return False
        if loop and hyp is not None and hyps and kind == 'eq' and not self.inaux:
            # candidate, to be proved on its own later
            own = frozenset(f for f in facts if all(t.op != 'phi' or t.a[0] == m for t in atoms(f)) and (atoms(f) & phis))
            if len(self.cands) < 40:
                self.cands.setdefault((m, e), own)
        if loop and hyp is not None and not hyps and kind == 'eq' and not self.inaux:
            # an inductive proof without further hypotheses: usable as a lemma about this header
            ls = self.lemmas.setdefault(m, [])
            if keep - frozenset(node.st.facts) and len(self.cands) < 40:
                self.cands.setdefault((m, e), frozenset(f for f in F if not any(t.op in ('min', 'max') for t in atoms(f))))
            lm = (F | (keep - frozenset(node.st.facts)), self.as_fact(kind, e))
            if len(ls) < 12 and all(lm[1] is not x[1] or not x[0] <= lm[0] for x in ls):
                ls.append(lm)
        return True

    # ------------------------------------------------------------------ diagnosis
    def diagnose(self, kind, e, node, facts, maxleaf=400, maxback=1):
        """after a failed proof: unfold every join on the way to the entry (each back edge at most `maxback` times),
        keeping all facts of the way; returns the way to a leaf where the obligation is false or None"""
        self.prep()
        self.leaves = maxleaf
        self.dleft = 20000
        self.dorigin = node.id
        try:
            return self.diag(kind, e, node.id, frozenset(facts), {}, maxback, (), 0)
        except Budget:
            return None
        except RecursionError:
            return None

    def diag(self, kind, e, nid, facts, backs, maxback, trail, depth):
        self.dleft -= 1
        if self.dleft < 0 or self.leaves < 0:
            raise Budget()
        if isint(e) and (e >= 0 if kind == 'ge' else e == 0):
            return None
        ctx = Ctx(facts)
        if ctx.inconsistent() or ctx.bad:
            return None
        if self.holds(kind, e, ctx):
            return None
        # the next join above the position (or a later one holding a phi of the goal)
        j = self.closest_join(nid)
        m = self.latest_phi(e)
        if m is not None and (j is None or self.rpo[m] > self.rpo[j]):
            j = m
        if j is None:
            if not isint(e):
                for t in sorted(atoms(e), key=lambda t: -t.id):
                    if t.op in ('min', 'max'):
                        a, b = t.a
                        for c, v in ((tle(a, b), a if t.op == 'min' else b), (tle(b, a), b if t.op == 'min' else a)):
                            if isint(c) and not c:
                                continue
                            f2 = (facts | {c}) if not isint(c) else facts
                            f2 = frozenset(subst(x, {t: v}) for x in f2)
                            if any(isint(x) and x == 0 for x in f2):
                                continue
                            r = self.diag(kind, subst(e, {t: v}), nid, f2, backs, maxback, trail, depth + 1)
                            if r is not None:
                                return r
                        return None
            self.leaves -= 1
            e2 = apply_subs(e, ctx.subs)
            if not isint(e2) and any(t.op == 'old' and t.a[0].op == 'phi' for t in atoms(e2)):
                return None        # what the value was in the earlier iteration is not known here
            cons = [sub(neg(e2), 1)] if kind == 'ge' else None
            if kind == 'ge':
                r = refute(cons + ctx.relevant(cons[0]), 600)
                return (trail, e2) if r is False else None
            for g in (sub(e2, 1), sub(neg(e2), 1)):
                if isint(g):
                    if g >= 0:
                        if self.sat(ctx):
                            return (trail, e2)
                    continue
                r = refute([g] + ctx.relevant(g), 600)
                if r is False and self.sat(ctx):
                    return (trail, e2)
            return None
        node = self.e.nlist[j]
        loop = self.loop(j)
        for F, fx in self.lemmas.get(j, ()):
            if fx not in facts and all(f in facts or self.entails(ctx, f) for f in F):
                facts = facts | {fx}
        allat = set()
        if not isint(e):
            allat |= atoms(e)
        for f in facts:
            allat |= atoms(f)
        phis = {t for t in allat if t.op == 'phi' and t.a[0] == j}
        ins = sorted(node.ins.items(), key=lambda kv: ((kv[0][0], j) in self.back, kv[0][0]))
        if loop and self.dorigin not in loop:
            # the goal does not depend on what the loop computes: step over it
            sk = self.skip_loop(e, facts, phis, loop)
            if sk is False:
                return None
            if sk is not None:
                e, facts = sk
                phis = set()
                ins = [x for x in ins if (x[0][0], j) not in self.back]
        for (s, lab), st in ins:
            isback = (s, j) in self.back
            b2 = backs
            e_, fs = e, facts
            if isback:
                if backs.get(j, 0) >= maxback:
                    continue
                b2 = dict(backs)
                b2[j] = b2.get(j, 0) + 1
                k = b2[j]
                ren = {}
                for t in allat:
                    if t.op in ('fresh', 'phi') and t.a[0] in loop and t not in phis:
                        o = mk('old', t, k, j)
                        if t in NN:
                            NN.setdefault(o, NN[t])
                        ren[t] = o
                if ren:
                    e_ = subst(e, ren) if not isint(e) else e
                    fs = [subst(f, ren) for f in facts]
            mp = {}
            okk = True
            for t in phis:
                v = phi_in(t.a[1], st)
                if v is None:
                    okk = False
                    break
                mp[t] = v
            if not okk:
                continue
            e2 = subst(e_, mp) if mp and not isint(e_) else e_
            f2 = set(st.facts)
            bad = False
            for f in fs:
                g = subst(f, mp) if mp else f
                if isint(g):
                    if g == 0:
                        bad = True
                        break
                    continue
                f2.add(g)
            if bad:
                continue
            r = self.diag(kind, e2, s if s >= 0 else j, frozenset(f2), b2, maxback, trail + (s,), depth + 1) if s >= 0 else \
                self.diag_entry(kind, e2, frozenset(f2), b2, maxback, trail, depth)
            if r is not None:
                return r
        return None

    def skip_loop(self, e, facts, phis, loop):
        inl = lambda t: t in phis or (t.op in ('fresh', 'phi', 'old') and t.a[0] in loop)
        dep = lambda x: not isint(x) and any(inl(t) for t in atoms(x))
        # bytes of a digest of loop-dependent data: any value is possible
        ren = {t: mk('sym', '?digest%d' % t.id) for t in (lin_atoms(e) if not isint(e) else ()) if t.op == 'byte' and dep(t)}
        if ren:
            for t, o in ren.items():
                NN.setdefault(o, 8)
            e = subst(e, ren)
            facts = frozenset(subst(f, ren) for f in facts)
        if dep(e):
            fs = set(facts) | set(self.aux(e, facts))
            # counters pinned by the exit condition
            ctx = Ctx(frozenset(fs))
            if ctx.bad or ctx.inconsistent() or not self.sat(ctx):
                return False
            for t in {t for f in fs for t in atoms(f) if inl(t) and t.op == 'phi'}:
                for f in list(fs):
                    if f.op == 'lt0':
                        c0, ts = lin_parts(f.a[0])
                        if len(ts) == 1 and ts[0][0] is t:
                            c = -(c0 + 1) if ts[0][1] == 1 else (c0 + 1 if ts[0][1] == -1 else None)
                            if c is not None and ctx.ge0(sub(c, t)) and ctx.ge0(sub(t, c)):
                                fs.add(eq0(sub(t, c)))
            eqs = [f.a[0] for f in fs if f.op == 'eq0']
            for _ in range(6):
                bad = [t for t in lin_atoms(e) if inl(t)] if not isint(e) else []
                if not bad:
                    break
                hit = None
                for t in bad:
                    for q in eqs:
                        c = dict(lin_parts(q)[1]).get(t)
                        if c in (1, -1):
                            rest = sub(mulc(t, c), q)      # c*t = rest
                            k = sum(1 for u in lin_atoms(rest) if inl(u)) if not isint(rest) else 0
                            if hit is None or k < hit[0]:
                                hit = (k, t, q, mulc(rest, c))
                if hit is None:
                    return None
                e = subst(e, {hit[1]: hit[3]})
                eqs.remove(hit[2])
            if dep(e):
                return None
        def lat(x):
            out = set()
            todo = list(lin_atoms(x)) if not isint(x) else []
            while todo:
                t = todo.pop()
                if t not in out:
                    out.add(t)
                    if t.op in ('div', 'min', 'max', 'mul', 'trunc', 'strunc'):
                        for y in t.a:
                            if y.__class__ is T:
                                todo.extend(lin_atoms(y))
            return out
        at = lat(e)
        keep = []
        for f in facts:
            if dep(f):
                g = f
                while g.op == 'not':
                    g = g.a[0]
                if g.op in ('lt0', 'eq0', 'ne0') and any(t in at for t in lat(g.a[0])):
                    return None
            else:
                keep.append(f)
        return e, frozenset(keep)

    def diag_entry(self, kind, e, facts, backs, maxback, trail, depth):
        ctx = Ctx(facts)
        if self.holds(kind, e, ctx):
            return None
        return (trail, e)

    def sat(self, ctx, depth=4):
        """no contradiction found among the facts of the way"""
        if ctx.bad:
            return False
        if depth:
            mm = None
            for f in ctx.facts:
                for t in atoms(f):
                    if t.op in ('min', 'max') and (mm is None or t.id < mm.id):
                        mm = t
            if mm is not None:
                for f2, v in minmax_cases(mm, ctx.facts):
                    if self.sat(Ctx(f2), depth - 1):
                        return True
                return False
        cons = list(ctx.ges)
        seen = set()
        work = [a for c in cons for a in lin_atoms(c)]
        while work and len(cons) < 200:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            for c in atom_cons(a):
                c = apply_subs(c, ctx.subs)
                cons.append(c)
                work.extend(lin_atoms(c))
        return refute(cons, 1500) is False

    def entails(self, ctx, f):
        if isint(f):
            return bool(f)
        if f.op == 'eq0':
            return ctx.eq0(f.a[0])
        if f.op == 'lt0':
            return ctx.ge0(sub(neg(f.a[0]), 1))
        if f.op == 'not' and f.a[0].op == 'eq0':
            d = f.a[0].a[0]
            return ctx.ge0(sub(d, 1)) or ctx.ge0(sub(neg(d), 1))
        return False

    def as_fact(self, kind, e):
        if kind == 'eq':
            return eq0(e)
        return tnot(lt0(e))
