"""C04: deltas are within the documented limits and their parts have one sign."""
from ..obl import entry
from .deltas import *
from .ops import AWARE, anystr



def check(c, res, cls):
    if res.exc:
        return
    v = res.v
    if not c.is_(v, cls):
        return c.fail(f"returns a {cls}", info=res)
    m, d, n = c.parts(v)
    if cls != "DateDelta":
        c.within(f"{cls} result: within +-{MAX_DAYS} days in nanoseconds", n, -MAX_NS, MAX_NS)
    if cls != "TimeDelta":
        c.within(f"{cls} result: within +-{MAX_MONTHS} months", m, -MAX_MONTHS, MAX_MONTHS)
        c.within(f"{cls} result: within +-{MAX_DAYS} days", d, -MAX_DAYS, MAX_DAYS)
        pairs = [(m, d, "months and days")] + ([(m, n, "months and time"), (d, n, "days and time")] if cls == "DateTimeDelta" else [])
        for x, y, what in pairs:
            one_sign(c, f"{cls} result: {what} do not have opposite signs", x, y)


def one_sign(c, lab, x, y):
    """not (x > 0 and y < 0), not (x < 0 and y > 0): split on the sign of x"""
    I = c.I
    if I.truth(lt(0, x)):
        c.prove(lab, le(0, y), info=f"{x!r} > 0 and {y!r}")
    elif I.truth(lt(x, 0)):
        c.prove(lab, le(y, 0), info=f"{x!r} < 0 and {y!r}")
    else:
        c.hold(lab, True)


def refusal(c, res, cls, exp):
    """an exception is a ValueError, and there is a reason for it"""
    if not res.exc or exp is None:
        return
    c.hold(f"{cls}: a refused result raises ValueError", res.isa("ValueError"), info=res)


for name, result, fn in DOPS:
    @entry("C04", name)
    def _(c, fn=fn, result=result):
        res, exp = fn(c)
        check(c, res, result)
        refusal(c, res, result, exp)

for cls in DELTAS:
    @entry("C04", f"{cls}.parse_common_iso(any string)")
    def _(c, cls=cls):
        check(c, c.call(cls, "parse_common_iso", anystr()), cls)

    @entry("C04", f"unpickle({cls})")
    def _(c, cls=cls):
        r = c.call(c.value(cls), "__reduce__")
        if not r.exc:
            check(c, c.guard(lambda: c.I.call(r.v[0], list(r.v[1]), {})), cls)


@entry("C04", "TimeDelta % TimeDelta")
def _(c):
    check(c, c.op("mod", c.tdelta("a"), c.tdelta("b")), "TimeDelta")


for a in AWARE:
    @entry("C04", f"{a} - Instant")
    def _(c, a=a):
        check(c, c.op("sub", c.value(a, "a"), c.instant("b")), "TimeDelta")

for unit, inc in (("hour", 24), ("minute", 15), ("millisecond", 250), ("nanosecond", 20), ("hour", 1000)):
    for mode in ("ceil", "floor", "half_even"):
        @entry("C04", f"TimeDelta.round({unit!r}, {inc}, {mode!r})")
        def _(c, unit=unit, inc=inc, mode=mode):
            check(c, c.call(c.tdelta("a"), "round", unit, inc, mode), "TimeDelta")


for name in ("ZERO", "MIN", "MAX"):
    @entry("C04", f"TimeDelta.{name}")
    def _(c, name=name):
        r = c.get("TimeDelta", name)
        check(c, r, "TimeDelta")
