"""The analysed program: loading, role discovery, symbolic inputs, observers."""
from __future__ import annotations

import copy
import os
import sys

from . import lib
from .dom import (Facts, Infeasible, L, Lin, add, atom, mk_cal, mk_fd, mk_mod, mk_off, mk_ymd, mk_zoff, scale, sub, sym)
from .interp import Interp, Path
from .lib import DAYUS, EPOCH, MAXW, MINW, UTC, dec_bv, inst_us, mk_fixed, off_us
from .vals import *
from .vals import _MISSING

REPO = os.environ.get("SA_REPO", "/repo")
IMPL = "pysrc/whenever/_pywhenever.py"
INIT = "pysrc/whenever/__init__.py"
STUB = "pysrc/whenever/__init__.pyi"

NS = 10**9
DAYNS = 86400 * NS
MAX_MONTHS = 9999 * 12
MAX_DAYS = 9999 * 366
MAX_NS = MAX_DAYS * DAYNS
MIN_INST = MINW * 1000                     # ns since ordinal 0 day, UTC
MAX_INST = (MAXW // 10**6) * NS + NS - 1
UNIX = EPOCH * DAYNS                       # the Unix epoch on that scale


class Done(Exception):
    """nothing more to check on this trace"""


class Broken(Exception):
    """an anchor of the analysis has vanished: the run is an error, not a verdict"""


class Ok:
    def __init__(self, v):
        self.v = v
        self.exc = None

    def __repr__(self):
        return f"returns {self.v!r}"


class Exc:
    def __init__(self, e):
        self.e = e
        self.v = None
        self.exc = e.obj.cls if isinstance(e.obj, ObjV) else e.obj

    @property
    def name(self):
        return self.exc.name

    def isa(self, *names):
        return any(c.name in names for c in self.exc.mro)

    def __repr__(self):
        return f"raises {self.exc.name} at {self.e.site}"


def read(rel):
    with open(os.path.join(REPO, rel), encoding="utf-8") as f:
        return f.read()


AWARE = ("Instant", "OffsetDateTime", "ZonedDateTime", "SystemDateTime")
DATETIMES = AWARE + ("LocalDateTime",)


class Prog:
    def __init__(self):
        sys.setrecursionlimit(30000)
        I = self.I = Interp()
        self.M = I.load_module("_pywhenever", read(IMPL), IMPL)
        self.W = I.load_module("whenever", read(INIT), INIT)
        self.freeze()
        self.roles = {}
        I.init_phase = False
        self.discover()

    def cls(self, name):
        c = self.M.d.get(name)
        if not isinstance(c, ClsV):
            raise Broken(f"class {name} not found in the implementation module")
        return c

    # everything that exists before an analysed call is shared state
    def freeze(self):
        seen = set()

        def walk(v):
            if id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, ObjV):
                v.frozen = True
                for x in v.f.values():
                    walk(x)
            elif isinstance(v, ClsV):
                v.frozen = True
                for x in v.d.values():
                    walk(x)
            elif isinstance(v, ModV):
                for x in v.d.values():
                    walk(x)
            elif isinstance(v, (list, tuple, set, dict)):
                lib.SHARED.add(id(v))
                for x in (v.values() if isinstance(v, dict) else v):
                    walk(x)
            elif isinstance(v, FuncV):
                for x in list(v.defaults) + list(v.kwdefaults.values()):
                    walk(x)
                s = v.closure
                while s is not None:
                    for x in list(s.vars.values()):
                        walk(x)
                    s = s.parent
            elif isinstance(v, (CMeth, SMeth)):
                walk(v.fn)
            elif isinstance(v, Prop):
                walk(v.fget)
            elif isinstance(v, Bound):
                walk(v.self_)
                walk(v.fn)
        for m in (self.M, self.W):
            walk(m)

    # ---------------------------------------------------------------- roles
    def discover(self):
        """which field of the representation holds which part of the value: found by running
        the public constructors on constants"""
        I = self.I
        I.p = Path()

        def make(name, *a, **k):
            c = self.cls(name)
            f = c
            if name == "Instant":
                f = I.getattr(c, "from_utc")
            try:
                o = I.call(f, list(a), k)
            except PyExc as e:
                raise Broken(f"constructing a {name} from constants raises {e.obj.cls.name}")
            if not isinstance(o, ObjV) or o.cls is not c:
                raise Broken(f"constructor of {name}")
            return o
        import datetime as dt
        D = dt.date(2024, 5, 17).toordinal()
        W = D * DAYUS + (7 * 3600 + 8 * 60 + 9) * 10**6

        def find(o, pred, what):
            c = [k for k, v in o.f.items() if pred(v)]
            if len(c) != 1 or len(o.f) != find.n:
                return None
            return c[0]
        R = self.roles
        o = make("Date", 2024, 5, 17)
        find.n = 1
        R["Date"] = {"da": find(o, lambda v: isinstance(v, DA) and v.o == Lin(D), "date")}
        R["YearMonth"] = {"da": find(make("YearMonth", 2024, 5), lambda v: isinstance(v, DA), "")}
        R["MonthDay"] = {"da": find(make("MonthDay", 5, 17), lambda v: isinstance(v, DA), "")}
        find.n = 2
        o = make("Time", 7, 8, 9, nanosecond=123)
        R["Time"] = {"tm": find(o, lambda v: isinstance(v, TM), ""), "ns": find(o, lambda v: v == 123, "")}
        hrs = self.I.call(self.cls("TimeDelta"), [], {"hours": 2})
        kw = {"Instant": {}, "LocalDateTime": {}, "OffsetDateTime": {"offset": hrs}, "ZonedDateTime": {"tz": "Z0"}, "SystemDateTime": {}}
        for n, k in kw.items():
            o = make(n, 2024, 5, 17, 7, 8, 9, nanosecond=123, **k)
            R[n] = {"dt": find(o, lambda v: isinstance(v, DT) and (n == "SystemDateTime" or v.w == Lin(W)), ""),
                    "ns": find(o, lambda v: v == 123, "")}
        find.n = 1
        R["TimeDelta"] = {"ns": find(make("TimeDelta", nanoseconds=123456), lambda v: v == 123456, "")}
        find.n = 2
        o = make("DateDelta", months=5, days=7)
        R["DateDelta"] = {"mo": find(o, lambda v: v == 5, ""), "dy": find(o, lambda v: v == 7, "")}
        o = make("DateTimeDelta", months=5, days=7, nanoseconds=123)
        R["DateTimeDelta"] = {"dd": find(o, lambda v: isinstance(v, ObjV) and v.cls.name == "DateDelta", ""),
                              "td": find(o, lambda v: isinstance(v, ObjV) and v.cls.name == "TimeDelta", "")}
        self.notes = []
        for n, r in R.items():
            if None in r.values():
                raise Broken(f"representation of {n} not recognised: {r}")
        I.p = Path()

    def build(self, name, **vals):
        o = ObjV(self.cls(name), {}, frozen=True)
        for role, f in self.roles[name].items():
            o.f[f] = vals[role]
        return o


def const(x):
    return x if isinstance(x, Lin) else L(x)


class Ctx:
    """one trace of one entry: symbolic inputs, calls, observers, obligations"""

    def __init__(self, prog, p, sink):
        self.P, self.I, self.p, self.sink = prog, prog.I, p, sink
        self.tag = ""

    # ------------------------------------------------------------ symbols and inputs
    def s(self, name, lo, hi):
        return sym(name, lo, hi)

    def choose(self, n, why=""):
        return self.p.choose(n, why)

    def pick(self, opts, why=""):
        return opts[self.p.choose(len(opts), why)]

    def date(self, n="a"):
        o = self.s(f"{n}.ord", 1, 3652059)
        return self.P.build("Date", da=DA(o))

    def year_month(self, n="a"):
        y, m = self.s(f"{n}.year", 1, 9999), self.s(f"{n}.month", 1, 12)
        return self.P.I.call(self.P.cls("YearMonth"), [y, m])

    def month_day(self, n="a"):
        m, d = self.s(f"{n}.month", 1, 12), self.s(f"{n}.day", 1, 31)
        try:
            return self.P.I.call(self.P.cls("MonthDay"), [m, d])
        except PyExc:
            raise Infeasible

    def time(self, n="a"):
        return self.P.build("Time", tm=TM(scale(self.s(f"{n}.sod", 0, 86399), 10**6)), ns=self.nsym(n))

    def nsym(self, n):
        return self.s(f"{n}.nanos", 0, NS - 1)

    def wall(self, n):
        return add(scale(self.s(f"{n}.ord", 1, 3652059), DAYUS), scale(self.s(f"{n}.sod", 0, 86399), 10**6))

    def local(self, n="a", fold=0):
        return self.P.build("LocalDateTime", dt=DT(self.wall(n), None, fold), ns=self.nsym(n))

    def instant(self, n="a"):
        return self.P.build("Instant", dt=DT(self.wall(n), UTC), ns=self.nsym(n))

    def offset_sym(self, n):
        return self.s(f"{n}.off", -86399, 86399)

    def in_utc(self, w, o_us):
        self.I.assume(BV("ge", sub(sub(w, o_us), MINW)))
        self.I.assume(BV("ge", sub(MAXW, sub(w, o_us))))

    def offset(self, n="a", off=None, cls="OffsetDateTime"):
        o = scale(self.offset_sym(n), 10**6) if off is None else off
        w = self.wall(n)
        self.in_utc(w, o)
        return self.P.build(cls, dt=DT(w, mk_fixed(self.I, o)), ns=self.nsym(n))

    def zoned(self, n="a", zid=None, fold=None):
        """any ZonedDateTime value: an existing local time in some timezone"""
        z = zid or f"{n}.tz"
        w = self.wall(n)
        f = self.choose(2, f"fold of {n}") if fold is None else fold
        self.p.exists.append([z, w, None, True])
        o = scale(lib.off(self.I, z, w, f), 10**6)
        self.in_utc(w, o)
        return self.P.build("ZonedDateTime", dt=DT(w, Tz("zone", zid=z), f), ns=self.nsym(n))

    def system(self, n="a"):
        """any SystemDateTime value: like the operations of the library make it, with the
        offset the system timezone has at that moment"""
        w = self.wall(n)
        f = self.choose(2, f"system fold of {n}")
        self.p.exists.append(["SYS", w, None, True])
        o = scale(lib.off(self.I, "SYS", w, f), 10**6)
        self.in_utc(w, o)
        return self.P.build("SystemDateTime", dt=DT(w, mk_fixed(self.I, o), 0), ns=self.nsym(n))

    def system_any(self, n="a"):
        """a SystemDateTime with an offset unrelated to the system timezone (parsed, unpickled)"""
        return self.offset(n, cls="SystemDateTime")

    def value(self, cls, n="a"):
        return {"Date": self.date, "Time": self.time, "YearMonth": self.year_month, "MonthDay": self.month_day,
                "LocalDateTime": self.local, "Instant": self.instant, "OffsetDateTime": self.offset,
                "ZonedDateTime": self.zoned, "SystemDateTime": self.system, "TimeDelta": self.tdelta,
                "DateDelta": self.ddelta, "DateTimeDelta": self.dtdelta}[cls](n)

    def tdelta(self, n="t", lo=-MAX_NS, hi=MAX_NS):
        return self.P.build("TimeDelta", ns=self.s(f"{n}.total", lo, hi))

    def ddelta(self, n="d", sign=None):
        sg = (1, -1)[self.choose(2, f"sign of {n}")] if sign is None else sign
        return self._dd(n, sg)

    def _dd(self, n, sg):
        t = "p" if sg > 0 else "n"
        m = self.s(f"{n}.months{t}", 0, MAX_MONTHS) if sg > 0 else self.s(f"{n}.months{t}", -MAX_MONTHS, 0)
        d = self.s(f"{n}.days{t}", 0, MAX_DAYS) if sg > 0 else self.s(f"{n}.days{t}", -MAX_DAYS, 0)
        return self.P.build("DateDelta", mo=m, dy=d)

    def dtdelta(self, n="d", sign=None):
        sg = (1, -1)[self.choose(2, f"sign of {n}")] if sign is None else sign
        t = "p" if sg > 0 else "n"
        td = self.P.build("TimeDelta", ns=self.s(f"{n}.time{t}", 0 if sg > 0 else -MAX_NS, MAX_NS if sg > 0 else 0))
        return self.P.build("DateTimeDelta", dd=self._dd(n, sg), td=td)

    # ------------------------------------------------------------ observers
    def f(self, v, role):
        if not isinstance(v, ObjV):
            raise Unsupported(f"not an object: {v!r}")
        x = v.f.get(self.P.roles[v.cls.name][role], _MISSING)
        if x is _MISSING:
            raise Unsupported(f"{v.cls.name} without {role}")
        return x

    def num(self, x):
        l = lib.lin(self.I, x)
        if l is None:
            raise Unsupported(f"number expected, got {x!r}")
        return self.p.F.norm(l)

    def dt(self, v):
        d = self.f(v, "dt")
        if not isinstance(d, DT):
            raise Unsupported(f"{v.cls.name} holds {d!r}")
        return d

    def ns(self, v):
        return self.num(self.f(v, "ns"))

    def wall_ns(self, v):
        """local date and time in ns"""
        if v.cls.name == "Time":
            return add(scale(self.f(v, "tm").u, 1000), self.ns(v))
        if v.cls.name == "Date":
            return scale(self.f(v, "da").o, DAYNS)
        return add(scale(self.dt(v).w, 1000), self.ns(v))

    def off_us(self, v):
        d = self.dt(v)
        if v.cls.name in AWARE:
            self.aware(v)
        return self.p.F.norm(off_us(self.I, d)) if d.tz is not None else None

    def aware(self, v):
        """the moment of a naive datetime would depend on the system's timezone"""
        d = v.f.get(self.P.roles[v.cls.name]["dt"])
        if isinstance(d, DT) and d.tz is None:
            self.fail(f"{v.cls.name} holds a datetime with an offset", info=f"{d!r}")
            raise Done

    def inst(self, v):
        """moment in ns"""
        d = self.dt(v)
        return self.p.F.norm(add(scale(sub(d.w, self.off_us(v)), 1000), self.ns(v)))

    def ord(self, v):
        return self.f(v, "da").o

    def total(self, v):
        return self.num(self.f(v, "ns"))

    def months(self, v):
        return self.num(self.f(v, "mo"))

    def days(self, v):
        return self.num(self.f(v, "dy"))

    def parts(self, v):
        """(months, days, ns) of any delta"""
        n = v.cls.name
        if n == "TimeDelta":
            return Lin(0), Lin(0), self.total(v)
        if n == "DateDelta":
            return self.months(v), self.days(v), Lin(0)
        d, t = self.f(v, "dd"), self.f(v, "td")
        return self.months(d), self.days(d), self.total(t)

    def is_(self, v, cls):
        return isinstance(v, ObjV) and v.cls.name == cls

    # ------------------------------------------------------------ calls
    def guard(self, fn):
        d = self.I.depth
        try:
            v = fn()
        except PyExc as e:
            self.I.depth = d
            return Exc(e)
        if isinstance(v, ObjV) and v.cls.name in AWARE:
            self.aware(v)
        return Ok(v)

    def attr(self, o, name):
        I = self.I
        if isinstance(o, str):
            o = self.P.cls(o)
        c = o.cls if isinstance(o, ObjV) else o
        if isinstance(c, ClsV) and c.lookup(name) is _MISSING and not name.startswith("__"):
            raise Broken(f"{c.name}.{name} has vanished")
        return o

    def call(self, o, name, *a, **k):
        o = self.attr(o, name)
        return self.guard(lambda: self.I.call(self.I.getattr(o, name), list(a), k))

    def call_obj(self, o, name, *a, **k):
        """call a method of an object that is not a value"""
        return self.guard(lambda: self.I.call(self.I.getattr(o, name), list(a), k))

    def get(self, o, name):
        o = self.attr(o, name)
        return self.guard(lambda: self.I.getattr(o, name))

    def new(self, cls, *a, **k):
        c = self.P.cls(cls)
        return self.guard(lambda: self.I.call(c, list(a), k))

    def func(self, name, *a, **k):
        f = self.P.M.d.get(name)
        if f is None:
            raise Broken(f"function {name} has vanished")
        return self.guard(lambda: self.I.call(f, list(a), k))

    def op(self, op, a, b):
        if op in ("eq", "ne", "lt", "le", "gt", "ge"):
            return self.guard(lambda: self.I.compare(op, a, b))
        return self.guard(lambda: self.I.binop(op, a, b))

    def unary(self, op, a):
        if op == "neg":
            return self.guard(lambda: self.I.neg(a))
        return self.guard(lambda: self.I.call(self.I.builtins["abs"], [a], {}))

    # ------------------------------------------------------------ obligations
    def prove(self, label, *alts, info=None):
        """one of the alternatives holds on this trace"""
        self.sink.prove(self, label, alts, info)

    def eq(self, label, a, b, info=None):
        a, b = self.num(a), self.num(b)
        self.prove(label, BV("eq", sub(a, b)), info=info or f"{a!r} vs {b!r}")

    def within(self, label, x, lo, hi):
        x = self.num(x)
        self.prove(label, BV("ge", sub(x, lo)), info=f"{x!r} >= {lo}")
        self.prove(label, BV("ge", sub(hi, x)), info=f"{x!r} <= {hi}")

    def hold(self, label, cond, info=None):
        """a fact of the shape of the result (not numeric)"""
        self.prove(label, bool(cond), info=info)

    def fail(self, label, info=None):
        self.prove(label, info=info)

    def undecided(self, label, why):
        """the analysis cannot tell"""
        self.sink.counts.setdefault(label, [0, 0, 0])[2] += 1
        self.sink.note(label, why, self.p.trail)

    def may_raise(self, label, res, *conds):
        """an exception is legitimate only under one of the conditions"""
        self.prove(label, *conds, info=repr(res))


def lt(a, b):
    return BV("ge", sub(sub(L(b), L(a)), 1))


def le(a, b):
    return BV("ge", sub(L(b), L(a)))


def eq(a, b):
    return BV("eq", sub(L(a), L(b)))


def ne(a, b):
    return BV("ne", sub(L(a), L(b)))
