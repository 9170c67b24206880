"""C25: nanosecond results never pass through floating point."""
from ..obl import entry
from ..vals import FloatSym, FloatV
from .deltas import DELTAS, DOPS
from ..vals import _MISSING
from .ops import *

BIG = 2**53


def exact(c, lab, res, ok_float=False):
    for kind, what, site, *num in c.p.events:
        where = f"{what} at {site[0]}.py:{site[1]} in {site[2]}" if site else what
        if kind == "float-int":
            c.fail(f"{lab}: no float is turned into an integer", info=where)
        elif kind == "inexact":
            if num and num[1]:
                c.fail(f"{lab}: no inexact fraction is turned into an integer or text", info=where)
            for n in num[:1]:
                c.prove(f"{lab}: no integer above 2**53 passes through a float", le(n, BIG), info=where)
                c.prove(f"{lab}: no integer below -2**53 passes through a float", le(-BIG, n), info=where)
    if res is None or res.exc:
        return c.hold(f"{lab}: exact", True)
    if ok_float:
        return c.hold(f"{lab}: exact", True)
    c.hold(f"{lab}: no float in the result", not floats(res.v), info=res)


def floats(v, depth=0):
    if isinstance(v, (float, FloatV, FloatSym)):
        return True
    if depth > 4:
        return False
    if isinstance(v, (list, tuple)):
        return any(floats(x, depth + 1) for x in v)
    if isinstance(v, ObjV):
        return any(floats(x, depth + 1) for x in v.f.values())
    return False


for name, result, kinds, fn in OPS:
    if "float" in kinds:
        continue        # the argument is a float

    @entry("C25", name)
    def _(c, name=name, fn=fn):
        exact(c, name, fn(c))

for name, result, fn in DOPS:
    @entry("C25", name)
    def _(c, name=name, fn=fn):
        exact(c, name, fn(c)[0])


def slow_free(cls, meth, **names):
    @entry("C25", f"{cls}.{meth}({', '.join(names)})")
    def _(c):
        exact(c, f"{cls}.{meth}", c.call(c.value(cls), meth, **{n: sym(f"arg.{n}") for n in names}, **IGN.get(cls, {})))


for cls in DATETIMES:
    for meth in ("add", "subtract"):
        slow_free(cls, meth, seconds=1, nanoseconds=1)

for cls in AWARE:
    for m in ("timestamp", "timestamp_millis", "timestamp_nanos"):
        @entry("C25", f"{cls}.{m}")
        def _(c, cls=cls, m=m):
            exact(c, f"{cls}.{m}", c.call(c.value(cls), m))
    for b in AWARE:
        @entry("C25", f"{cls} - {b}")
        def _(c, cls=cls, b=b):
            exact(c, f"{cls} - {b}", c.op("sub", c.value(cls, "a"), c.value(b, "b")))

for cls in DATETIMES + ("Time", "Date", "YearMonth", "MonthDay"):
    for k in ("year", "month", "day", "hour", "minute", "second", "nanosecond", "offset"):
        @entry("C25", f"{cls}.{k}")
        def _(c, cls=cls, k=k):
            if c.P.cls(cls).lookup(k) is _MISSING:
                return
            exact(c, f"{cls}.{k}", c.get(c.value(cls), k))

for cls, ms in (("TimeDelta", ("in_hrs_mins_secs_nanos", "in_nanoseconds", "py_timedelta")),
                ("DateDelta", ("in_months_days", "in_years_months_days")),
                ("DateTimeDelta", ("in_months_days_secs_nanos", "date_part", "time_part"))):
    for m in ms:
        @entry("C25", f"{cls}.{m}")
        def _(c, cls=cls, m=m):
            exact(c, f"{cls}.{m}", c.call(c.value(cls, "t"), m))

for m in ("in_days_of_24h", "in_hours", "in_minutes", "in_seconds", "in_milliseconds", "in_microseconds"):
    @entry("C25", f"TimeDelta.{m}")
    def _(c, m=m):
        exact(c, f"TimeDelta.{m}", c.call(c.tdelta(), m), ok_float=True)
