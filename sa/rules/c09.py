"""C09: without disambiguate, the current offset is kept whenever it can be."""
from .c08 import *

PROP = "C09"


def prev(c, x):
    return c.p.F.norm(c.off_us(x))


for cls in ("ZonedDateTime", "SystemDateTime"):
    for v in values(cls):
        vn = v if v == cls else f"{cls} (foreign offset)"

        @entry(PROP, f"{vn}.replace_date")
        def _(c, cls=cls, v=v):
            x, d = val(c, v), c.date("b")
            p = prev(c, x)
            w = c.dt(x).w
            W = add(sub(w, scale(lib.ord_of(c.I, w), DAYUS)), scale(c.ord(d), DAYUS))
            check(c, c.call(x, "replace_date", d), cls, zid_of(c, x), W, c.ns(x), p, f"{cls}.replace_date")

        @entry(PROP, f"{vn}.replace_date(disambiguate=None)")
        def _(c, cls=cls, v=v):
            x, d = val(c, v), c.date("b")
            p = prev(c, x)
            w = c.dt(x).w
            W = add(sub(w, scale(lib.ord_of(c.I, w), DAYUS)), scale(c.ord(d), DAYUS))
            check(c, c.call(x, "replace_date", d, disambiguate=None), cls, zid_of(c, x), W, c.ns(x), p, f"{cls}.replace_date")

        @entry(PROP, f"{vn}.replace_time")
        def _(c, cls=cls, v=v):
            x, t = val(c, v), c.time("b")
            p = prev(c, x)
            W = add(scale(lib.ord_of(c.I, c.dt(x).w), DAYUS), c.f(t, "tm").u)
            check(c, c.call(x, "replace_time", t), cls, zid_of(c, x), W, c.ns(t), p, f"{cls}.replace_time")

        @entry(PROP, f"{vn}.replace(hour, nanosecond)")
        def _(c, cls=cls, v=v):
            x = val(c, v)
            p = prev(c, x)
            h, n = c.s("arg.h", 0, 23), c.s("arg.ns", 0, NS - 1)
            w = c.dt(x).w
            F = c.p.F
            tod = sub(w, scale(lib.ord_of(c.I, w), DAYUS))
            W = add(sub(w, tod), add(scale(h, 3600 * 10**6), mk_mod(F, tod, 3600 * 10**6)))
            check(c, c.call(x, "replace", hour=h, nanosecond=n), cls, zid_of(c, x), W, n, p, f"{cls}.replace(hour)")

        @entry(PROP, f"{vn}.replace(minute, second)")
        def _(c, cls=cls, v=v):
            x = val(c, v)
            p = prev(c, x)
            mi, s = c.s("arg.mi", 0, 59), c.s("arg.s", 0, 59)
            w = c.dt(x).w
            F = c.p.F
            tod = sub(w, scale(lib.ord_of(c.I, w), DAYUS))
            W = add(sub(w, mk_mod(F, tod, 3600 * 10**6)), scale(add(scale(mi, 60), s), 10**6))
            check(c, c.call(x, "replace", minute=mi, second=s), cls, zid_of(c, x), W, c.ns(x), p, f"{cls}.replace(minute, second)")

        @entry(PROP, f"{vn}.replace(year, month, day)")
        def _(c, cls=cls, v=v):
            x = val(c, v)
            p = prev(c, x)
            w = c.dt(x).w
            (y, m, d, *_), _, _ = fields(c)
            W = add(sub(w, scale(lib.ord_of(c.I, w), DAYUS)), scale(mk_ymd(c.p.F, y, m, d), DAYUS))
            check(c, c.call(x, "replace", year=y, month=m, day=d), cls, zid_of(c, x), W, c.ns(x), p, f"{cls}.replace(date)")

    for meth, sg in (("add", 1), ("subtract", -1)):
        @entry(PROP, f"{cls}.{meth}(months, days)")
        def _(c, cls=cls, meth=meth, sg=sg):
            x = c.value(cls)
            p = prev(c, x)
            m, d = sym("arg.months"), sym("arg.days")
            shift_case(c, x, c.call(x, meth, months=m, days=d), m, d, 0, sg, p, f"{cls}.{meth}")

        @entry(PROP, f"{cls}.{meth}(years, weeks)")
        def _(c, cls=cls, meth=meth, sg=sg):
            x = c.value(cls)
            p = prev(c, x)
            y, k = sym("arg.years"), sym("arg.weeks")
            shift_case(c, x, c.call(x, meth, years=y, weeks=k), scale(y, 12), scale(k, 7), 0, sg, p, f"{cls}.{meth}")

        @entry(PROP, f"{cls}.{meth}(DateDelta)")
        def _(c, cls=cls, meth=meth, sg=sg):
            x, t = c.value(cls), c.ddelta()
            p = prev(c, x)
            m, d, n = c.parts(t)
            shift_case(c, x, c.call(x, meth, t), m, d, 0, sg, p, f"{cls}.{meth} delta")

        @entry(PROP, f"{cls}.{meth}(days, nanoseconds)")
        def _(c, cls=cls, meth=meth, sg=sg):
            x = c.value(cls)
            p = prev(c, x)
            d, n = sym("arg.days"), sym("arg.ns_")
            shift_case(c, x, c.call(x, meth, days=d, nanoseconds=n), Lin(0), d, n, sg, p, f"{cls}.{meth} days and time")

        @entry(PROP, f"{cls} {'+' if sg > 0 else '-'} DateDelta")
        def _(c, cls=cls, meth=meth, sg=sg):
            x = c.value(cls)
            p = prev(c, x)
            # a delta of days (months are covered by C06; the resolution is the same)
            d = c.s("d.only", -MAX_DAYS, MAX_DAYS)
            t = c.P.build("DateDelta", mo=Lin(0), dy=d)
            w = c.p.F.norm(c.dt(x).w)
            W = add(w, scale(d, sg * DAYUS))
            r = c.op("add" if sg > 0 else "sub", x, t)
            check(c, r, cls, zid_of(c, x), W, c.ns(x), p, f"{cls} {'+' if sg > 0 else '-'} delta")


@entry(PROP, "ZonedDateTime.replace(tz=...) to another timezone")
def _(c):
    x = c.value("ZonedDateTime")
    r = c.call(x, "replace", tz="Z9")
    check(c, r, "ZonedDateTime", "Z9", c.dt(x).w, c.ns(x), "compatible", "ZonedDateTime.replace(tz)")


@entry(PROP, "ZonedDateTime.replace(tz=...) to the same timezone")
def _(c):
    x = c.zoned("a", "Z9")
    r = c.call(x, "replace", tz="Z9")
    check(c, r, "ZonedDateTime", "Z9", c.dt(x).w, c.ns(x), prev(c, x), "ZonedDateTime.replace(same tz)")


@entry(PROP, "ZonedDateTime.replace(tz=..., day=...)")
def _(c):
    x = c.value("ZonedDateTime")
    w = c.dt(x).w
    (y, m, d, *_), _, _ = fields(c)
    W = add(sub(w, scale(lib.ord_of(c.I, w), DAYUS)), scale(mk_ymd(c.p.F, y, m, d), DAYUS))
    r = c.call(x, "replace", tz="Z9", year=y, month=m, day=d)
    check(c, r, "ZonedDateTime", "Z9", W, c.ns(x), "compatible", "ZonedDateTime.replace(tz, date)")
