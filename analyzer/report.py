"""Obligation bookkeeping shared by all rules."""
import json
import os
import sys
import time
from terms import *
from prover import Prover, Ctx

TCTX = {}    # terms of the entry state of the running section (see rules_group)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.items = []          # (status, rule, where, detail)
        self.t0 = time.time()
        self.analysed = []
        self.seen = set()
        self.pending = []

    def entry(self, eng):
        b = eng.entry
        self.analysed.append({'entry': b.short(), 'file': b.file, 'line': b.line, 'nodes': len(eng.nlist),
                              'functions': len(set(f.body.path for f in eng.frames.values())),
                              'events': sum(len(n.events) for n in eng.nlist),
                              'unmodeled': sorted(str(k) for k in eng.unmodeled)})

    def put(self, status, rule, where, detail=''):
        k = (status, rule, where, detail)
        if k in self.seen:
            return
        self.seen.add(k)
        self.items.append({'status': status, 'rule': rule, 'where': where, 'detail': detail})

    def ok(self, rule, where, detail=''):
        self.put('ok', rule, where, detail)

    def viol(self, rule, where, detail=''):
        self.put('violation', rule, where, detail)

    def undecided(self, rule, where, detail=''):
        self.put('undecided', rule, where, detail)

    def oblige(self, prover, rule, kind, e, node, facts, where, msg):
        """kind: 'eq' (e == 0) or 'ge' (e >= 0)"""
        if prover.query(kind, e, node, facts, 2):
            self.ok(rule, where, msg)
            return True
        self.pending.append((prover, rule, kind, e, node, facts, where, msg, dict(TCTX)))
        return None

    def flush(self):
        """second attempt with the lemmas found meanwhile, then diagnosis"""
        work, self.pending = self.pending, []
        for prover, rule, kind, e, node, facts, where, msg, ctx in work:
            TCTX.clear()
            TCTX.update(ctx)
            for _ in range(3):
                n = sum(len(x) for x in prover.lemmas.values())
                prover.settle_candidates()
                prover.memo.clear()
                if prover.query(kind, e, node, facts, 2) or sum(len(x) for x in prover.lemmas.values()) == n:
                    break
            self.settle(prover, rule, kind, e, node, facts, where, msg)

    def settle(self, prover, rule, kind, e, node, facts, where, msg):
        if prover.query(kind, e, node, facts, 2):
            self.ok(rule, where, msg)
            return True
        if kind == 'eq':
            prover.memo.clear()
            if prover.query('ge', e, node, facts, 2) and prover.query('ge', neg(e), node, facts, 2):
                self.ok(rule, where, msg)
                return True
        fresh = Prover(prover.e)
        fresh.templates = prover.templates
        if fresh.query(kind, e, node, facts, 2):
            self.ok(rule, where, msg)
            return True
        d = prover.diagnose(kind, e, node, facts)
        if d is not None:
            trail, leaf = d
            ln = []
            for i in reversed(trail):
                n = prover.e.nlist[i]
                l = n.frame.body.blocks[n.bb]['l']
                if not n.frame.body.file.startswith('/') and (not ln or ln[-1] != (n.frame.body.file, l)):
                    ln.append((n.frame.body.file, l))
            self.viol(rule, where, f'{msg}: fails, residual {show(leaf, 6)} {"= 0" if kind == "eq" else ">= 0"} not implied; way: ' +
                      ' -> '.join(f'{f}:{l}' for f, l in ln[-40:]))
            return False
        self.undecided(rule, where, f'{msg}: not decided for {show(e, 6)}')
        return None


def subtractions(rep, run, rule):
    """unsigned differences taken by the analysed code are never negative (they would panic or wrap to a huge value)"""
    for n in run.e.nlist:
        for p in n.panics:
            if p.kind == 'overflow' and p.info and p.info[0] == 'Sub' and not p.file.startswith('/'):
                c = p.cond
                if c.__class__ is T and 'ovf' in repr(c):
                    rep.oblige(run.p, rule, 'ge', sub(p.info[1], p.info[2]), n, p.facts, f'{p.file}:{p.line} in {p.fn}', 'the difference is not negative')


class Deadline(BaseException):
    pass


def _alarm(*a):
    raise Deadline()


def run_sections(rep, sections, limit):
    """each section is analysed on its own; what a section cannot decide (construct not understood, time) is listed, never guessed"""
    import signal
    import traceback
    signal.signal(signal.SIGALRM, _alarm)
    total = time.time() + (720 if limit <= 500 else 3600)
    for name, fn in sections:
        try:
            signal.alarm(max(5, min(limit, int(total - time.time()))))
            fn(rep)
            rep.flush()
        except Deadline:
            rep.undecided(rep.prop + '.time', name, 'time limit reached')
        except (MemoryError, RecursionError) as x:
            rep.undecided(rep.prop + '.engine', name, 'resource limit ' + type(x).__name__)
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)[-1]
            rep.undecided(rep.prop + '.engine', name, f'{type(x).__name__}: {x} ({os.path.basename(tb.filename)}:{tb.lineno})')
            if os.environ.get('VP_DEBUG'):
                traceback.print_exc()
        finally:
            signal.alarm(0)
            for x in rep.pending:
                rep.undecided(x[1], x[6], x[7] + ': not decided')
            rep.pending = []
