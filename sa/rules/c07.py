"""C07: conversions between types keep the moment, or the wall clock, and every component they do not replace."""
from .. import lib
from ..dom import mk_dim, mk_mod
from ..obl import entry
from .calspec import ymd_of
from .ops import *


def edge(c, x):
    """the local time in some timezone may be out of range"""
    i = c.inst(x)
    return [lt(i, MIN_INST + DAYNS), lt(MAX_INST - DAYNS, i)]


def same_moment(c, x, res, cls, lab, *conds):
    if res.exc:
        c.may_raise(f"{lab}: raises only if the result is out of range", res, *conds)
        return False
    if not c.is_(res.v, cls):
        c.fail(f"{lab}: returns a {cls}", info=res)
        return False
    c.eq(f"{lab}: same moment, to the nanosecond", c.inst(res.v), c.inst(x))
    c.eq(f"{lab}: same nanoseconds", c.ns(res.v), c.ns(x))
    return True


def values(cls):
    return ("SystemDateTime", "SystemDateTime (foreign offset)") if cls == "SystemDateTime" else (cls,)


def val(c, v, n="a"):
    return c.system_any(n) if "foreign" in v else c.value(v, n)


for cls in AWARE:
    for v in values(cls):
        if cls != "Instant":
            @entry("C07", f"{v}.instant")
            def _(c, v=v):
                x = val(c, v)
                same_moment(c, x, c.call(x, "instant"), "Instant", f"{v}.instant")

            @entry("C07", f"{v}.local, date, time")
            def _(c, v=v):
                x = val(c, v)
                r = c.call(x, "local")
                if r.exc or not c.is_(r.v, "LocalDateTime"):
                    return c.fail(f"{v}.local: returns a LocalDateTime", info=r)
                c.eq(f"{v}.local: same local time", c.wall_ns(r.v), c.wall_ns(x))
                c.eq(f"{v}.local: same nanoseconds", c.ns(r.v), c.ns(x))
                c.hold(f"{v}.local: naive", c.dt(r.v).tz is None, info=r)
                for part in ("date", "time"):
                    r = c.call(x, part)
                    if r.exc or not c.is_(r.v, part.capitalize()):
                        c.fail(f"{v}.{part}: returns a {part.capitalize()}", info=r)
                        continue
                    o = lib.ord_of(c.I, c.dt(x).w)
                    if part == "date":
                        c.eq(f"{v}.date: the local date", c.ord(r.v), o)
                    else:
                        c.eq(f"{v}.time: the local time of day", c.wall_ns(r.v), sub(c.wall_ns(x), scale(o, DAYNS)))
                        c.eq(f"{v}.time: same nanoseconds", c.ns(r.v), c.ns(x))

        @entry("C07", f"{v}.to_fixed_offset()")
        def _(c, v=v, cls=cls):
            x = val(c, v)
            r = c.call(x, "to_fixed_offset")
            if same_moment(c, x, r, "OffsetDateTime", f"{v}.to_fixed_offset()"):
                c.eq(f"{v}.to_fixed_offset(): same offset", c.off_us(r.v), 0 if cls == "Instant" else c.off_us(x))

        for how in ("hours", "delta"):
            @entry("C07", f"{v}.to_fixed_offset({how})")
            def _(c, v=v, cls=cls, how=how):
                x = val(c, v)
                a, _ = off_arg(c, how)
                o = scale(a, 3600 * NS) if how == "hours" else c.total(a)
                w = add(c.inst(x), o)
                r = c.call(x, "to_fixed_offset", a)
                bad = [le(o, -DAYNS), le(DAYNS, o), lt(w, MIN_INST), lt(MAX_INST, w)]
                if how == "delta":
                        bad.append(ne(mk_mod(c.p.F, o, NS), 0))
                if same_moment(c, x, r, "OffsetDateTime", f"{v}.to_fixed_offset({how})", *bad):
                    c.eq(f"{v}.to_fixed_offset({how}): the requested offset", scale(c.off_us(r.v), 1000), o)

        @entry("C07", f"{v}.to_tz")
        def _(c, v=v):
            x = val(c, v)
            r = c.call(x, "to_tz", "Z2")
            if same_moment(c, x, r, "ZonedDateTime", f"{v}.to_tz", *edge(c, x)):
                t = c.dt(r.v).tz
                c.hold(f"{v}.to_tz: the requested timezone", t is not None and t.kind == "zone" and t.zid == "Z2", info=r)

        @entry("C07", f"{v}.to_system_tz")
        def _(c, v=v):
            x = val(c, v)
            r = c.call(x, "to_system_tz")
            if same_moment(c, x, r, "SystemDateTime", f"{v}.to_system_tz", *edge(c, x)):
                w = c.p.F.norm(c.dt(r.v).w)
                alts = [mk_zoff(c.p.F, "SYS", lib.inst_us(c.I, c.dt(x)))]
                if lib.exists_rec(c.I, "SYS", w) is not None:
                    alts += [lib.off(c.I, "SYS", w, f) for f in (0, 1)]
                c.prove(f"{v}.to_system_tz: the offset the system timezone has at that moment",
                        *[eq(c.off_us(r.v), scale(a, 10**6)) for a in alts], info=repr(c.off_us(r.v)))


@entry("C07", "ZonedDateTime.to_tz (own timezone)")
def _(c):
    x = c.zoned("a", "Z2")
    r = c.call(x, "to_tz", "Z2")
    if same_moment(c, x, r, "ZonedDateTime", "ZonedDateTime.to_tz (own)", *edge(c, x)):
        c.eq("ZonedDateTime.to_tz (own): same local time", c.wall_ns(r.v), c.wall_ns(x))


@entry("C07", "Date.at / Time.on")
def _(c):
    d, t = c.date("a"), c.time("b")
    for lab, r in (("Date.at", c.call(d, "at", t)), ("Time.on", c.call(t, "on", d))):
        if r.exc or not c.is_(r.v, "LocalDateTime"):
            c.fail(f"{lab}: returns a LocalDateTime", info=r)
            continue
        c.eq(f"{lab}: the given date and time", c.wall_ns(r.v), add(c.wall_ns(d), c.wall_ns(t)))
        c.eq(f"{lab}: the nanoseconds of the time", c.ns(r.v), c.ns(t))
        c.hold(f"{lab}: naive", c.dt(r.v).tz is None, info=r)


@entry("C07", "LocalDateTime.date / time")
def _(c):
    x = c.local("a", c.choose(2))
    o = lib.ord_of(c.I, c.dt(x).w)
    r = c.call(x, "date")
    if r.exc or not c.is_(r.v, "Date"):
        c.fail("LocalDateTime.date: returns a Date", info=r)
    else:
        c.eq("LocalDateTime.date: the local date", c.ord(r.v), o)
    r = c.call(x, "time")
    if r.exc or not c.is_(r.v, "Time"):
        c.fail("LocalDateTime.time: returns a Time", info=r)
    else:
        c.eq("LocalDateTime.time: the local time of day", c.wall_ns(r.v), sub(c.wall_ns(x), scale(o, DAYNS)))
        c.eq("LocalDateTime.time: same nanoseconds", c.ns(r.v), c.ns(x))


@entry("C07", "LocalDateTime.assume_utc")
def _(c):
    x = c.local("a", c.choose(2))
    r = c.call(x, "assume_utc")
    if r.exc or not c.is_(r.v, "Instant"):
        return c.fail("assume_utc: returns an Instant", info=r)
    c.eq("assume_utc: that time in UTC", c.inst(r.v), c.wall_ns(x))
    c.eq("assume_utc: same nanoseconds", c.ns(r.v), c.ns(x))


for how in ("hours", "delta"):
    @entry("C07", f"LocalDateTime.assume_fixed_offset({how})")
    def _(c, how=how):
        x = c.local("a", c.choose(2))
        a, _ = off_arg(c, how)
        o = scale(a, 3600 * NS) if how == "hours" else c.total(a)
        i = sub(c.wall_ns(x), o)
        r = c.call(x, "assume_fixed_offset", a)
        lab = f"assume_fixed_offset({how})"
        if r.exc:
            bad = [le(o, -DAYNS), le(DAYNS, o), lt(i, MIN_INST), lt(MAX_INST, i)]
            if how == "delta":
                bad.append(ne(mk_mod(c.p.F, o, NS), 0))
            return c.may_raise(f"{lab}: raises only if out of range", r, *bad)
        if not c.is_(r.v, "OffsetDateTime"):
            return c.fail(f"{lab}: returns an OffsetDateTime", info=r)
        c.eq(f"{lab}: same local time", c.wall_ns(r.v), c.wall_ns(x))
        c.eq(f"{lab}: same nanoseconds", c.ns(r.v), c.ns(x))
        c.eq(f"{lab}: the given offset", scale(c.off_us(r.v), 1000), o)


for cls in ("LocalDateTime", "OffsetDateTime"):
    @entry("C07", f"{cls}.replace_date / replace_time")
    def _(c, cls=cls):
        x = c.value(cls) if cls == "OffsetDateTime" else c.local("a", c.choose(2))
        d, t = c.date("b"), c.time("t")
        o = lib.ord_of(c.I, c.dt(x).w)
        kw = {"ignore_dst": True} if cls == "OffsetDateTime" else {}
        off = scale(c.off_us(x), 1000) if cls == "OffsetDateTime" else 0
        for meth, arg, w, ns in (("replace_date", d, add(sub(c.wall_ns(x), scale(o, DAYNS)), c.wall_ns(d)), c.ns(x)),
                                 ("replace_time", t, add(scale(o, DAYNS), c.wall_ns(t)), c.ns(t))):
            r = c.call(x, meth, arg, **kw)
            lab = f"{cls}.{meth}"
            if r.exc:
                i = sub(w, off)
                c.may_raise(f"{lab}: raises only if out of range", r, lt(i, MIN_INST), lt(MAX_INST, i))
            elif not c.is_(r.v, cls):
                c.fail(f"{lab}: returns a {cls}", info=r)
            else:
                c.eq(f"{lab}: replaces that part only", c.wall_ns(r.v), w)
                c.eq(f"{lab}: nanoseconds", c.ns(r.v), ns)
                if cls == "OffsetDateTime":
                    c.eq(f"{lab}: offset kept", c.off_us(r.v), c.off_us(x))


def field(c, lab, o, name, want):
    r = c.get(o, name)
    if r.exc:
        return c.fail(f"{lab}: {name}", info=r)
    c.eq(f"{lab}: {name}", r.v, want)


@entry("C07", "Date.year_month / month_day")
def _(c):
    x = c.date()
    y, m, d = ymd_of(c, c.ord(x))
    r = c.call(x, "year_month")
    if r.exc or not c.is_(r.v, "YearMonth"):
        c.fail("year_month: returns a YearMonth", info=r)
    else:
        field(c, "Date.year_month", r.v, "year", y)
        field(c, "Date.year_month", r.v, "month", m)
    r = c.call(x, "month_day")
    if r.exc or not c.is_(r.v, "MonthDay"):
        c.fail("month_day: returns a MonthDay", info=r)
    else:
        field(c, "Date.month_day", r.v, "month", m)
        field(c, "Date.month_day", r.v, "day", d)


@entry("C07", "YearMonth.on_day")
def _(c):
    x = c.year_month()
    y, m, d = (c.num(c.get(x, "year").v), c.num(c.get(x, "month").v), sym("arg.day"))
    r = c.call(x, "on_day", d)
    if r.exc:
        return c.may_raise("YearMonth.on_day: raises only for a day that does not exist", r, lt(d, 1), lt(mk_dim(c.p.F, y, m), d))
    if not c.is_(r.v, "Date"):
        return c.fail("YearMonth.on_day: returns a Date", info=r)
    c.eq("YearMonth.on_day: that day of the month", c.ord(r.v), mk_ymd(c.p.F, y, m, d))


@entry("C07", "MonthDay.in_year")
def _(c):
    x = c.month_day()
    m, d, y = (c.num(c.get(x, "month").v), c.num(c.get(x, "day").v), sym("arg.year"))
    r = c.call(x, "in_year", y)
    if r.exc:
        return c.may_raise("MonthDay.in_year: raises only for a day that does not exist", r, lt(y, 1), lt(9999, y), lt(mk_dim(c.p.F, y, m), d))
    if not c.is_(r.v, "Date"):
        return c.fail("MonthDay.in_year: returns a Date", info=r)
    c.eq("MonthDay.in_year: that day in the year", c.ord(r.v), mk_ymd(c.p.F, y, m, d))


@entry("C07", "Date.day_of_week")
def _(c):
    from ..dom import mk_mod
    x = c.date()
    r = c.call(x, "day_of_week")
    if r.exc:
        return c.fail("day_of_week: returns a Weekday", info=r)
    v = c.get(r.v, "value")
    if v.exc:
        return c.fail("day_of_week: returns a Weekday", info=r)
    c.eq("day_of_week: ISO weekday (1 Jan 0001 is a Monday)", v.v, add(mk_mod(c.p.F, sub(c.ord(x), 1), 7), 1))
