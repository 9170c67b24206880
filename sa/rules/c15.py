"""C15: rounding returns the nearest multiple by the requested rule."""
from ..dom import mk_fd, mk_mod
from ..obl import entry
from . import c08
from .ops import *

UNIT_NS = {"hour": 3600 * NS, "minute": 60 * NS, "second": NS, "millisecond": 10**6, "microsecond": 1000, "nanosecond": 1}
ALLOWED = {u: [i for i in range(1, 1001) if (24 if u == "hour" else 60 if u in ("minute", "second") else 1000) % i == 0] for u in UNIT_NS}
MODES = ("floor", "ceil", "half_floor", "half_ceil", "half_even")
TYPES = ("Time", "TimeDelta") + DATETIMES
DAYTYPES = ("LocalDateTime", "OffsetDateTime", "ZonedDateTime", "SystemDateTime")


def rounds_up(c, r, q, inc, mode):
    """whether remainder r (after q whole increments) is rounded to the upper multiple; splits the trace"""
    T = c.I.truth
    if mode == "floor":
        return False
    if mode == "ceil":
        return T(le(1, r))
    if T(lt(inc, scale(r, 2))):
        return True
    if T(lt(scale(r, 2), inc)):
        return False
    # exactly in the middle
    if mode == "half_even":
        return T(eq(mk_mod(c.p.F, q, 2), 1))
    return mode == "half_ceil"


def rounded(c, x, inc, mode):
    F = c.p.F
    q, r = mk_fd(F, x, inc), mk_mod(F, x, inc)
    up = rounds_up(c, r, q, inc, mode)
    return scale(add(q, 1 if up else 0), inc), up


def tod(c, x):
    return mk_mod(c.p.F, c.dt(x).w, DAYUS)


def judge(c, cls, x, r, lab, total, up):
    """total: expected local ns (ordinal scale); TimeDelta and Time: the value itself"""
    F = c.p.F
    if cls == "TimeDelta":
        if r.exc:
            return c.may_raise(f"{lab}: raises only if out of range", r, lt(total, -MAX_NS), lt(MAX_NS, total))
        return c.eq(f"{lab}: the prescribed multiple", c.total(r.v), total)
    if cls == "Time":
        if r.exc:
            return c.fail(f"{lab}: does not raise", info=r)
        return c.eq(f"{lab}: the prescribed multiple", c.wall_ns(r.v), mk_mod(F, total, DAYNS))
    if cls in ("ZonedDateTime", "SystemDateTime"):
        s, ns = mk_fd(F, total, NS), mk_mod(F, total, NS)
        return c08.check(c, r, cls, c08.zid_of(c, x), scale(s, 10**6), ns, c.off_us(x), lab)
    if r.exc:
        bad = [lt(MAX_INST, total)]
        if cls == "OffsetDateTime":
            i = sub(total, scale(c.off_us(x), 1000))
            bad += [lt(i, MIN_INST), lt(MAX_INST, i)]
        return c.may_raise(f"{lab}: raises only if out of range", r, *bad)
    c.eq(f"{lab}: the prescribed multiple", c.wall_ns(r.v), total)
    if cls == "OffsetDateTime":
        c.eq(f"{lab}: keeps the offset", c.off_us(r.v), c.off_us(x))


def kw(cls):
    return {"ignore_dst": True} if cls == "OffsetDateTime" else {}


def since(c, cls, x):
    """(ns since midnight or zero, the rest)"""
    if cls == "TimeDelta":
        return c.total(x), Lin(0)
    if cls == "Time":
        return c.wall_ns(x), Lin(0)
    F = c.p.F
    w = c.dt(x).w
    return add(scale(mk_mod(F, w, DAYUS), 1000), c.ns(x)), scale(mk_fd(F, w, DAYUS), DAYNS)


def case(c, cls, u, i, mode):
    x = c.value(cls)
    lab = f"{cls}.round({u}, {i}, {mode})"
    r = c.call(x, "round", u, i, mode, **kw(cls))
    t, rest = since(c, cls, x)
    v, up = rounded(c, t, UNIT_NS[u] * i, mode)
    judge(c, cls, x, r, lab, add(rest, v), up)


# the time zone logic does not depend on the increment: a few for each unit
SOME = {"hour": [1, 6, 24], "minute": [1, 15], "second": [1, 30], "millisecond": [250], "microsecond": [1, 500], "nanosecond": [1, 100]}
for cls in TYPES:
    for u in UNIT_NS:
        for mode in MODES:
            incs = ALLOWED[u] if (cls, u) != ("TimeDelta", "hour") else list(range(1, 25)) + [36, 48, 100, 168, 720, 999, 1000]
            if cls in ("ZonedDateTime", "SystemDateTime"):
                allincs, incs = incs, SOME[u]
                if u in ("hour", "minute", "second"):
                    @entry("C15", f"{cls}.round({u}, every increment, {mode})", "thorough")
                    def _(c, cls=cls, u=u, mode=mode, incs=[i for i in allincs if i not in SOME[u]]):
                        case(c, cls, u, c.pick(incs), mode)

            @entry("C15", f"{cls}.round({u}, any increment, {mode})")
            def _(c, cls=cls, u=u, mode=mode, incs=incs):
                case(c, cls, u, c.pick(incs), mode)

            if (cls, u) == ("TimeDelta", "hour"):
                @entry("C15", f"{cls}.round({u}, every increment up to 1000, {mode})", "thorough")
                def _(c, cls=cls, u=u, mode=mode):
                    case(c, cls, u, 1 + c.choose(1000), mode)

    @entry("C15", f"{cls}.round(): defaults")
    def _(c, cls=cls):
        x = c.value(cls)
        r = c.call(x, "round", **kw(cls))
        t, rest = since(c, cls, x)
        v, up = rounded(c, t, NS, "half_even")
        judge(c, cls, x, r, f"{cls}.round()", add(rest, v), up)

    @entry("C15", f"{cls}.round: unsupported arguments")
    def _(c, cls=cls):
        bad = [("hours", 1, "floor"), ("", 1, "floor"), ("week", 1, "floor"), (None, 1, "floor"), ("second", 1, "up"),
               ("second", 1, ""), ("hour", 1, None), ("second", 1, "HALF_EVEN"), ("day", 2, "floor")]
        if cls not in DAYTYPES:
            bad += [("day", 1, m) for m in MODES]
        for u in UNIT_NS:
            n = [0, -1, -2, 7, 11, 13, 1001, 2000, 48]
            bad += [(u, i, "ceil") for i in n if not (cls == "TimeDelta" and u == "hour" and 1 <= i <= 1000)]
            if not (cls == "TimeDelta" and u == "hour"):
                bad += [(u, i, "ceil") for i in ((16, 120) if u != "hour" else (5, 25)) if i not in ALLOWED[u]]
        u, i, m = c.pick(bad)
        x = c.value(cls)
        r = c.call(x, "round", u, i, m, **kw(cls))
        c.hold(f"{cls}.round: unsupported unit, increment or mode raises ValueError", r.exc is not None and r.isa("ValueError"), info=f"{u!r}, {i}, {m!r}: {r}")

    @entry("C15", f"{cls}.round: fractional increments")
    def _(c, cls=cls):
        u = c.pick(tuple(UNIT_NS))
        i = c.pick((0.5, 1.5, 2.5, 7.5, 37.5, 999.5))
        r = c.call(c.value(cls), "round", u, i, **kw(cls))
        c.hold(f"{cls}.round: an increment that is no whole number is refused", r.exc is not None and r.isa("ValueError", "TypeError"), info=f"{u!r}, {i}: {r}")

    @entry("C15", f"{cls}.round: any increment at all", "quick")
    def _(c, cls=cls):
        u = c.pick(tuple(UNIT_NS))
        i = sym("arg.increment")
        c.I.assume(le(i, 0)) if c.choose(2) else c.I.assume(le(1001, i))
        r = c.call(c.value(cls), "round", u, i, **kw(cls))
        c.hold(f"{cls}.round: an increment outside 1 to 1000 raises ValueError", r.exc is not None and r.isa("ValueError"), info=f"{u!r}: {r}")


def day_ns(c, x):
    """elapsed time from the start of the local date to the start of the next (ns)"""
    r = c.call(x, "day_length")
    return r


for cls in DAYTYPES:
    for mode in MODES:
        @entry("C15", f"{cls}.round('day', 1, {mode})")
        def _(c, cls=cls, mode=mode):
            x = c.value(cls)
            t, rest = since(c, cls, x)
            lab = f"{cls}.round(day, {mode})"
            if cls in ("ZonedDateTime", "SystemDateTime"):
                d = day_ns(c, x)      # decided by C28
                r = c.call(x, "round", "day", 1, mode)
                if d.exc:
                    return c.may_raise(f"{lab}: raises only near the limits of the range", r, *c08.outside(c, sub(c.dt(x).w, DAYUS)),
                                       *c08.outside(c, add(c.dt(x).w, DAYUS))) if r.exc else None
                inc = c.total(d.v)
                if c.I.truth(le(inc, 0)):
                    return          # a day that does not exist
                up = rounds_up(c, t, Lin(0), inc, mode)
            else:
                r = c.call(x, "round", "day", 1, mode, **kw(cls))
                up = rounds_up(c, t, Lin(0), Lin(DAYNS), mode)
            judge(c, cls, x, r, lab, add(rest, DAYNS if up else 0), up)
