"""C01: the nanosecond component of every result is in range, and nothing is hidden below it."""
from ..dom import mk_mod
from ..obl import entry
from .ops import *

TYPES = DATETIMES + ("Time",)


def check(c, res, cls, lab="result"):
    if res.exc:
        return
    if not c.is_(res.v, cls):
        return c.fail(f"{lab}: returns a {cls}", info=res)
    c.within(f"{lab}: nanosecond component in 0..999,999,999", c.ns(res.v), 0, NS - 1)
    us = c.f(res.v, "tm").u if cls == "Time" else c.dt(res.v).w
    F = c.p.F
    c.eq(f"{lab}: no microseconds outside the nanosecond component", mk_mod(F, F.norm(us), 10**6), 0)


for name, result, kinds, fn in OPS:
    if result in TYPES:
        @entry("C01", name)
        def run(c, fn=fn, result=result):
            check(c, fn(c), result)




def bad_ns(c):
    n = sym("arg.nanosecond")
    if c.choose(2, "nanosecond") == 0:
        c.I.assume(lt(n, 0))
    else:
        c.I.assume(lt(NS - 1, n))
    return n


def rejects(c, res):
    c.hold("a nanosecond outside 0..999,999,999 raises ValueError", res.exc and res.isa("ValueError"), info=res)


def cal(c):
    o, s = c.s("cal.ord", 10, 3652050), c.s("cal.sod", 0, 86399)
    from ..lib import comp
    w = add(scale(o, DAYUS), scale(s, 10**6))
    return [comp(c.I, w, k) for k in YMDHMS]


@entry("C01", "Time(nanosecond out of range)")
def _(c):
    v = cal(c)
    rejects(c, c.new("Time", *v[3:], nanosecond=bad_ns(c)))


@entry("C01", "LocalDateTime(nanosecond out of range)")
def _(c):
    rejects(c, c.new("LocalDateTime", *cal(c), nanosecond=bad_ns(c)))


@entry("C01", "Instant.from_utc(nanosecond out of range)")
def _(c):
    rejects(c, c.call("Instant", "from_utc", *cal(c), nanosecond=bad_ns(c)))


@entry("C01", "OffsetDateTime(nanosecond out of range)")
def _(c):
    rejects(c, c.new("OffsetDateTime", *cal(c), nanosecond=bad_ns(c), offset=0))


@entry("C01", "ZonedDateTime(nanosecond out of range)")
def _(c):
    rejects(c, c.new("ZonedDateTime", *cal(c), nanosecond=bad_ns(c), tz="Z"))


@entry("C01", "SystemDateTime(nanosecond out of range)")
def _(c):
    rejects(c, c.new("SystemDateTime", *cal(c), nanosecond=bad_ns(c)))


for cls in ("Time", "LocalDateTime", "OffsetDateTime", "ZonedDateTime", "SystemDateTime"):
    @entry("C01", f"{cls}.replace(nanosecond out of range)")
    def _(c, cls=cls):
        rejects(c, c.call(c.value(cls), "replace", nanosecond=bad_ns(c), **({"ignore_dst": True} if cls == "OffsetDateTime" else {})))
