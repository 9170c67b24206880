"""C28: start_of_day, day_length and is_ambiguous follow the timezone."""
from .. import lib
from ..obl import entry
from .c08 import outside, zid_of
from .ops import *

INSIDE = "when midnight lies inside a gap that begins before it"


def start(c, zid, W):
    """(moment in us of the first moment of the day that begins with local midnight W, or None
    if it is skipped together with the end of the day before; midnight read as "compatible")"""
    k = lib.resolve_kind(c.I, zid, W)
    o = [scale(lib.off(c.I, zid, W, f), 10**6) for f in (0, 1)]
    first = sub(W, o[0])      # the earlier occurrence, or the moment of the gap's end if it begins at midnight
    if k == "gap" and lib.resolve_kind(c.I, zid, sub(W, 10**6)) == "gap":
        return None, first
    return first, first


def gap(c, zid, W):
    """length in ns of the gap at W"""
    return scale(sub(lib.off(c.I, zid, W, 1), lib.off(c.I, zid, W, 0)), NS)


def midnight(c, x):
    return scale(lib.ord_of(c.I, c.dt(x).w), DAYUS)


for cls in ("ZonedDateTime", "SystemDateTime"):
    @entry("C28", f"{cls}.start_of_day")
    def _(c, cls=cls):
        x = c.value(cls)
        W, zid = midnight(c, x), zid_of(c, x)
        r = c.call(x, "start_of_day")
        lab = f"{cls}.start_of_day"
        if r.exc:
            return c.may_raise(f"{lab}: raises only if out of range", r, *outside(c, W))
        if not c.is_(r.v, cls):
            return c.fail(f"{lab}: returns a {cls}", info=r)
        c.eq(f"{lab}: no nanoseconds", c.ns(r.v), 0)
        if cls == "ZonedDateTime":
            t = c.dt(r.v).tz
            c.hold(f"{lab}: the same timezone", t is not None and t.kind == "zone" and t.zid == zid, info=r)
        first, mid = start(c, zid, W)
        got = c.inst(r.v)
        if first is not None:
            return c.eq(f"{lab}: the first moment of the day", got, scale(first, 1000))
        mid = scale(mid, 1000)
        c.prove(f"{lab} {INSIDE}: not after midnight shifted by the gap", le(got, mid), info=r)
        c.prove(f"{lab} {INSIDE}: after midnight", lt(sub(mid, gap(c, zid, W)), got), info=r)
        c.prove(f"{lab} {INSIDE}: the first moment of the day", lt(got, mid), info="it is midnight shifted by the gap, which is later")

    @entry("C28", f"{cls}.day_length")
    def _(c, cls=cls):
        x = c.value(cls)
        W, zid = midnight(c, x), zid_of(c, x)
        W2 = add(W, DAYUS)
        # the day of an existing value has a positive length
        c.I.assume(lt(sub(W, scale(lib.off(c.I, zid, W, 0), 10**6)), sub(W2, scale(lib.off(c.I, zid, W2, 0), 10**6))))
        r = c.call(x, "day_length")
        lab = f"{cls}.day_length"
        if r.exc:
            return c.may_raise(f"{lab}: raises only if out of range", r, *outside(c, W), *outside(c, W2))
        if not c.is_(r.v, "TimeDelta"):
            return c.fail(f"{lab}: returns a TimeDelta", info=r)
        a, b = start(c, zid, W), start(c, zid, W2)
        got = c.total(r.v)
        if None not in (a[0], b[0]):
            return c.eq(f"{lab}: from the start of the day to that of the next", got, scale(sub(b[0], a[0]), 1000))
        mid = scale(sub(b[1], a[1]), 1000)
        hi = add(mid, gap(c, zid, W)) if a[0] is None else mid
        lo = sub(mid, gap(c, zid, W2)) if b[0] is None else mid
        c.prove(f"{lab} {INSIDE}: at least the shortest possible", le(lo, got), info=r)
        c.prove(f"{lab} {INSIDE}: at most the longest possible", le(got, hi), info=r)
        c.prove(f"{lab} {INSIDE}: from the start of the day to that of the next", ne(got, mid),
                info="the start of the day is taken as midnight shifted by the gap, which is later")

    @entry("C28", f"{cls}.is_ambiguous")
    def _(c, cls=cls):
        x = c.value(cls)
        w, zid = c.dt(x).w, zid_of(c, x)
        r = c.call(x, "is_ambiguous")
        lab = f"{cls}.is_ambiguous"
        if r.exc:
            return c.may_raise(f"{lab}: raises only if out of range", r, *outside(c, w))
        twice = lib.resolve_kind(c.I, zid, w) == "fold"
        c.hold(f"{lab}: true exactly if the local time occurs twice", c.I.truth(r.v) == twice, info=f"{r} for a time that occurs {'twice' if twice else 'once'}")
