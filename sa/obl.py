"""Obligations: discharged, violated or undecided, per entry and trace."""
from __future__ import annotations

import multiprocessing
import os
import time
import traceback

from . import witness
from .dom import Facts, Infeasible
from .interp import explore
from .model import Broken, Ctx, Done, Prog
from .text import TextEq
from .vals import BP, BV, PyExc, Unsupported


def copy_facts(F):
    G = Facts()
    G.iv, G.neq, G.preds, G.rw = dict(F.iv), set(F.neq), dict(F.preds), dict(F.rw)
    return G


class Sink:
    def __init__(self, entry):
        self.entry = entry
        self.counts = {}          # label -> [discharged, violated, undecided]
        self.violations = []
        self.undecided = []
        self.traces = 0
        self.funcs = set()
        self.spent = {}           # label -> seconds spent in search of counterexamples

    SEARCH = 25

    def prove(self, c, label, alts, info):
        cnt = self.counts.setdefault(label, [0, 0, 0])
        I, F = c.I, c.p.F
        refuted = []
        texts = [a for a in alts if isinstance(a, TextEq)]
        for a in alts:
            if isinstance(a, TextEq):
                continue
            d = I.decide(a)
            if d is True:
                cnt[0] += 1
                return
            if d is None:
                if cnt[1] >= 5:
                    continue
                if isinstance(a, BV) and a.op == "ge" and F.decide_ge0(a.lin, deep=3):
                    cnt[0] += 1
                    return
                refuted.append(a.neg())
        if cnt[1] >= 5:
            cnt[2] += 1
            self.note(label, "not examined: the rule is violated already", info)
            return
        # assume that none of the alternatives holds
        G = copy_facts(F)
        saved, c.p.F = F, G
        try:
            try:
                for _ in range(2):
                    for r in refuted:
                        I.assume(r)
                    G.rebase()
                G.tighten()
            except Infeasible:
                cnt[0] += 1
                return
            for r in refuted:
                if I.decide(r) is False:
                    cnt[0] += 1
                    return
        finally:
            c.p.F = saved
        if c.p.taint:
            cnt[2] += 1
            self.note(label, f"approximated: {c.p.taint[0]}", info)
            return
        # too long a search for a counterexample
        if self.spent.get(label, 0) > self.SEARCH:
            cnt[2] += 1
            self.note(label, "no search for a counterexample", info)
            return
        t0 = time.time()
        w = witness.find(c.p, [r for r in refuted if isinstance(r, BV)], tries=getattr(self, "tries", 300), late=[t.differs for t in texts])
        self.spent[label] = self.spent.get(label, 0) + time.time() - t0
        if w is None:
            cnt[2] += 1
            self.note(label, f"no counterexample found, facts {dict((repr(k), v) for k, v in list(F.iv.items())[:40])} rw {F.rw} trail {c.p.trail}", info)
            return
        cnt[1] += 1
        if cnt[1] <= 3:
            self.violations.append({
                "entry": self.entry, "rule": label, "found": str(info), "required": [repr(a) for a in alts],
                "trace": [f"{t!r} at {_site(s)}" for t, s in c.p.trail],
                "choices": [(w_, d) for w_, d in zip(c.p.why, c.p.dec)],
                "last": _site(getattr(c.p, "last_site", None)),
                "counterexample": w})

    def note(self, label, why, info):
        if len(self.undecided) < 10:
            self.undecided.append({"entry": self.entry, "rule": label, "why": why, "info": str(info)[:2000]})


def _site(s):
    if not s:
        return None
    m, line, fn = s
    return f"{m}.py:{line} in {fn}"


ENTRIES: dict = {}     # property -> list of (name, fn, tier)


def entry(prop, name, tier="quick"):
    def deco(f):
        ENTRIES.setdefault(prop, []).append((name, f, tier))
        return f
    return deco


def run_entry(prog, name, fn, max_paths=60000, deadline=None):
    sink = Sink(name)
    I = prog.I

    def run(p):
        c = Ctx(prog, p, sink)
        try:
            fn(c)
        except Done:
            pass
        return None
    I.seen_funcs = set()
    I.deadline = deadline and deadline + 15
    t0 = time.time()
    try:
        for p, out in explore(I, run, max_paths):
            sink.traces += 1
            if isinstance(out, tuple) and out and out[0] == "unsupported":
                sink.counts.setdefault("trace analysed", [0, 0, 0])[2] += 1
                sink.note("trace analysed", f"not modelled: {out[1]} at {_site(out[2])}", p.trail)
            if deadline and time.time() > deadline:
                sink.counts.setdefault("all traces", [0, 0, 0])[2] += 1
                sink.note("all traces", "time limit", "")
                break
            if sink.violations and time.time() > t0 + 45:
                sink.counts.setdefault("all traces", [0, 0, 0])[2] += 1
                sink.note("all traces", "stopped: violated, and much left to explore", "")
                break
    except Unsupported as e:
        sink.counts.setdefault("all traces", [0, 0, 0])[2] += 1
        sink.note("all traces", str(e), "")
    sink.funcs = set(I.seen_funcs)
    sink.time = time.time() - t0
    return sink


_PROG = None


def _init():
    global _PROG
    _PROG = Prog()


def _limit():
    """a worker that runs out of memory gives up on the trace, and leaves the sandbox alone"""
    import resource
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    top = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (top if hard == resource.RLIM_INFINITY else min(top, hard), hard))


def _work(args):
    prop, i, deadline = args
    name, fn, tier = ENTRIES[prop][i]
    try:
        s = run_entry(_PROG, name, fn, deadline=deadline)
        return i, ("ok", name, s.counts, s.violations, s.undecided, s.traces, sorted(s.funcs), s.time)
    except Broken as e:
        return i, ("broken", name, str(e))
    except PyExc as e:
        return i, ("error", name, f"uncaught {e.obj!r} at {e.site}")
    except Exception:
        return i, ("error", name, traceback.format_exc())


def run_property(prop, tier="quick", budget=800, procs=8, only=None, alarm=lambda v: False, after=60):
    """alarm(violation): whether it decides the outcome; the rest of the property then gets `after` seconds more"""
    deadline = time.time() + budget
    idx = [i for i, (n, f, t) in enumerate(ENTRIES[prop]) if (t == "quick" or tier == "thorough") and (only is None or only in n)]
    idx.sort(key=lambda i: ("round('day'" not in ENTRIES[prop][i][0], "DateTimeDelta" not in ENTRIES[prop][i][0], i))
    ctx = multiprocessing.get_context("fork")
    global _PROG
    _PROG = Prog()
    if procs == 1 or len(idx) == 1:
        return [_work((prop, i, deadline))[1] for i in idx]
    with ctx.Pool(min(procs, len(idx)), _limit) as pool:
        it = pool.imap_unordered(_work, [(prop, i, deadline) for i in idx], chunksize=1)
        res = {}
        end = deadline + 30
        try:
            for _ in idx:
                i, r = it.next(timeout=max(1, end - time.time()))
                res[i] = r
                if r[0] == "ok" and any(map(alarm, r[3])):
                    end = min(end, time.time() + after)
        except multiprocessing.TimeoutError:
            pool.terminate()
    late = ("all traces", [0, 0, 1])
    return [res.get(i) or ("ok", ENTRIES[prop][i][0], dict([late]), [], [{"entry": ENTRIES[prop][i][0], "rule": "all traces", "why": "time limit", "info": ""}], 0, [], 0.0)
            for i in sorted(idx)]
