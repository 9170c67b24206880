"""C10: DST-unsafe operations refuse to run without ignore_dst=True."""
from .. import lib
from ..dom import mk_cal
from ..obl import entry
from .ops import *

BAD = [("absent", None), ("False", False), ("None", None), ("1", 1), ("0", 0), ("'True'", "True"), ("a delta", "delta"), ("[True]", [True])]


def mid(c, x):
    """not near the ends of the range (so that nothing else can be wrong)"""
    o = c.ord(x) if x.cls.name == "Date" else lib.ord_of(c.I, c.dt(x).w)
    c.I.assume(le(400000, o))
    c.I.assume(le(o, 3000000))
    y = mk_cal(c.p.F, "year", o)
    c.I.assume(le(1000, y))
    c.I.assume(le(y, 8300))
    return x


def sm(c, n):
    return c.s(f"small.{n}", -50, 50)


def off(c):
    return mid(c, c.offset("a", cls="OffsetDateTime"))


def hrs(c):
    return c.s("small.offset", -20, 20)


# (name, whether the operation is refused only for a nonzero exact time amount, call(c, **kw))
CALLS = {
    "OffsetDateTime.now(hours)": lambda c, k: c.call("OffsetDateTime", "now", hrs(c), **k),
    "OffsetDateTime.now(TimeDelta)": lambda c, k: c.call("OffsetDateTime", "now", c.new("TimeDelta", hours=hrs(c)).v, **k),
    "OffsetDateTime.from_timestamp": lambda c, k: c.call("OffsetDateTime", "from_timestamp", c.s("small.ts", -10**9, 10**9), offset=hrs(c), **k),
    "OffsetDateTime.from_timestamp_millis": lambda c, k: c.call("OffsetDateTime", "from_timestamp_millis", c.s("small.ts3", -10**12, 10**12), offset=hrs(c), **k),
    "OffsetDateTime.from_timestamp_nanos": lambda c, k: c.call("OffsetDateTime", "from_timestamp_nanos", c.s("small.ts9", -10**18, 10**18), offset=hrs(c), **k),
    "OffsetDateTime.replace(hour)": lambda c, k: c.call(off(c), "replace", hour=c.s("arg.h", 0, 23), **k),
    "OffsetDateTime.replace(year)": lambda c, k: c.call(off(c), "replace", year=c.s("mid.y", 2000, 2000), day=1, **k),
    "OffsetDateTime.replace(nanosecond)": lambda c, k: c.call(off(c), "replace", nanosecond=c.s("arg.ns", 0, NS - 1), **k),
    "OffsetDateTime.replace(offset)": lambda c, k: c.call(off(c), "replace", offset=hrs(c), **k),
    "OffsetDateTime.replace()": lambda c, k: c.call(off(c), "replace", **k),
    "OffsetDateTime.replace_date": lambda c, k: c.call(off(c), "replace_date", mid(c, c.date("b")), **k),
    "OffsetDateTime.replace_time": lambda c, k: c.call(off(c), "replace_time", c.time("b"), **k),
    "OffsetDateTime.round()": lambda c, k: c.call(off(c), "round", **k),
    "OffsetDateTime.round('hour')": lambda c, k: c.call(off(c), "round", "hour", 6, "floor", **k),
    "OffsetDateTime.round('day')": lambda c, k: c.call(off(c), "round", "day", **k),
    "LocalDateTime.difference": lambda c, k: c.call(c.local("a"), "difference", c.local("b"), **k),
}
for meth in ("add", "subtract"):
    for names in (("hours",), ("minutes",), ("seconds",), ("milliseconds",), ("microseconds",), ("nanoseconds",), ("days",), ("weeks",),
                  ("months",), ("years",), ("days", "hours"), ()):
        CALLS[f"OffsetDateTime.{meth}({', '.join(names)})"] = \
            lambda c, k, meth=meth, names=names: c.call(off(c), meth, **{n: sm(c, n) for n in names}, **k)
    for dl in ("TimeDelta", "DateDelta", "DateTimeDelta"):
        def f(c, k, meth=meth, dl=dl):
            td = c.tdelta("small.t", -10**18, 10**18)
            dd = c.P.build("DateDelta", mo=c.s("small.mo", 0, 99), dy=c.s("small.dy", 0, 99))
            if dl == "DateTimeDelta":
                td = c.tdelta("small.tp", 0, 10**18)
            d = {"TimeDelta": td, "DateDelta": dd}.get(dl) or c.P.build("DateTimeDelta", dd=dd, td=td)
            return c.call(off(c), meth, d, **k)
        CALLS[f"OffsetDateTime.{meth}({dl})"] = f

for name, fn in CALLS.items():
    for bn, bad in BAD:
        @entry("C10", f"{name}, ignore_dst {bn}")
        def _(c, fn=fn, bn=bn, bad=bad, name=name):
            v = c.tdelta("other") if bad == "delta" else bad
            r = fn(c, {} if bn == "absent" else {"ignore_dst": v})
            c.hold(f"{name.split('(')[0]}: refused unless ignore_dst is True", r.exc is not None and r.isa("ImplicitlyIgnoringDST"), info=r)

    @entry("C10", f"{name}, ignore_dst=True")
    def _(c, fn=fn, name=name):
        r = fn(c, {"ignore_dst": True})
        c.hold(f"{name.split('(')[0]}: allowed with ignore_dst=True", not (r.exc and r.isa("ImplicitlyIgnoringDST")), info=r)

LOCAL = {}
for meth in ("add", "subtract"):
    for names in [("hours",), ("minutes",), ("seconds",), ("milliseconds",), ("microseconds",), ("nanoseconds",),
                  ("days", "nanoseconds"), ("months", "hours")]:
        def f(c, k, meth=meth, names=names):
            a = {n: sm(c, n) for n in names}
            return c.call(mid(c, c.local()), meth, **a, **k), a[names[-1]]
        LOCAL[f"LocalDateTime.{meth}({', '.join(names)})"] = f
    for dl in ("TimeDelta", "DateTimeDelta"):
        def f(c, k, meth=meth, dl=dl):
            if dl == "TimeDelta":
                d = td = c.tdelta("small.t", -10**18, 10**18)
            else:
                sg = c.choose(2, "sign")
                td = c.tdelta("small.tn" if sg else "small.tp", -10**18 if sg else 0, 0 if sg else 10**18)
                dd = c.P.build("DateDelta", mo=c.s("small.mon" if sg else "small.mo", -99 if sg else 0, 0 if sg else 99),
                               dy=c.s("small.dyn" if sg else "small.dy", -99 if sg else 0, 0 if sg else 99))
                d = c.P.build("DateTimeDelta", dd=dd, td=td)
            return c.call(mid(c, c.local()), meth, d, **k), c.total(td)
        LOCAL[f"LocalDateTime.{meth}({dl})"] = f

for name, fn in LOCAL.items():
    for bn, bad in BAD:
        @entry("C10", f"{name}, ignore_dst {bn}")
        def _(c, fn=fn, bn=bn, bad=bad, name=name):
            v = c.tdelta("other") if bad == "delta" else bad
            r, amount = fn(c, {} if bn == "absent" else {"ignore_dst": v})
            lab = name.split("(")[0]
            if r.exc and r.isa("ImplicitlyIgnoringDST"):
                return c.hold(f"{lab}: refused unless ignore_dst is True", True)
            # the exact time amount may only be accepted if it is zero
            c.prove(f"{lab}: a nonzero exact amount is refused unless ignore_dst is True", eq(amount, 0), info=r)

    @entry("C10", f"{name}, ignore_dst=True")
    def _(c, fn=fn, name=name):
        r, _ = fn(c, {"ignore_dst": True})
        c.hold(f"{name.split('(')[0]}: allowed with ignore_dst=True", not (r.exc and r.isa("ImplicitlyIgnoringDST")), info=r)

OPERATORS = {f"OffsetDateTime {s} {dl}": (lambda c, o=o, dl=dl: c.op(o, c.offset(), c.value(dl, "d"))) for dl in ("TimeDelta", "DateDelta", "DateTimeDelta")
             for o, s in (("sub", "-"),)}
OPERATORS |= {f"LocalDateTime {s} {dl}": (lambda c, o=o, dl=dl: c.op(o, c.local(), c.value(dl, "d"))) for dl in ("TimeDelta", "DateTimeDelta")
              for o, s in (("add", "+"), ("sub", "-"))}
OPERATORS["LocalDateTime - LocalDateTime"] = lambda c: c.op("sub", c.local("a"), c.local("b"))
for name, fn in OPERATORS.items():
    @entry("C10", name)
    def _(c, fn=fn, name=name):
        r = fn(c)
        c.hold(f"{name}: raises ImplicitlyIgnoringDST", r.exc is not None and r.isa("ImplicitlyIgnoringDST"), info=r)

# any inputs: no result without ignore_dst=True
ANY = {
    "replace": lambda c: c.call(c.offset(), "replace", **{n: sym(f"arg.{n}") for n in YMDHMS}),
    "replace_date": lambda c: c.call(c.offset(), "replace_date", c.date("b")),
    "replace_time": lambda c: c.call(c.offset(), "replace_time", c.time("b")),
    "add": lambda c: c.call(c.offset(), "add", **{n: sym(f"arg.{n}") for n in ("years", "months", "weeks", "days", "hours", "nanoseconds")}),
    "subtract": lambda c: c.call(c.offset(), "subtract", **{n: sym(f"arg.{n}") for n in ("years", "months", "weeks", "days", "hours", "nanoseconds")}),
    "add delta": lambda c: c.call(c.offset(), "add", c.value("DateTimeDelta", "d")),
    "from_timestamp": lambda c: c.call("OffsetDateTime", "from_timestamp", sym("arg.ts"), offset=c.tdelta()),
    "from_timestamp_millis": lambda c: c.call("OffsetDateTime", "from_timestamp_millis", sym("arg.ts"), offset=c.tdelta()),
    "from_timestamp_nanos": lambda c: c.call("OffsetDateTime", "from_timestamp_nanos", sym("arg.ts"), offset=c.tdelta()),
    "now": lambda c: c.call("OffsetDateTime", "now", c.tdelta()),
}
for name, fn in ANY.items():
    @entry("C10", f"OffsetDateTime.{name}, any arguments")
    def _(c, fn=fn, name=name):
        r = fn(c)
        c.hold(f"OffsetDateTime.{name}: no result without ignore_dst=True", r.exc is not None, info=r)
