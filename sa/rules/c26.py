"""C26: standard-library conversions keep the same moment and components."""
from .. import lib
from ..dom import mk_fd, mk_mod
from ..obl import entry
from ..vals import TD
from .c08 import outside
from .ops import *


def pure(v):
    """no instance of a subclass of a standard type"""
    t = getattr(v, "tz", None)
    return not v.sub and not (isinstance(t, Tz) and t.sub)


def stored_pure(c, lab, res):
    for x in res.v.f.values():
        if isinstance(x, (DT, DA, TM, TD)):
            c.hold(f"{lab}: stores exactly the standard type", not x.sub, info=res)


def us_of(c, n):
    return mk_fd(c.p.F, n, 1000)


# ------------------------------------------------------------------ to the standard library
for cls in DATETIMES + ("foreign",):
    nm = "SystemDateTime (any offset)" if cls == "foreign" else cls

    @entry("C26", f"{nm}.py_datetime")
    def _(c, cls=cls, nm=nm):
        x = c.system_any() if cls == "foreign" else c.local("a", c.choose(2)) if cls == "LocalDateTime" else c.value(cls)
        r = c.call(x, "py_datetime")
        lab = f"{nm}.py_datetime"
        if r.exc or not isinstance(r.v, DT):
            return c.fail(f"{lab}: returns a datetime", info=r)
        c.hold(f"{lab}: exactly the standard type", pure(r.v), info=r)
        c.eq(f"{lab}: local time, microseconds rounded down", r.v.w, add(c.dt(x).w, us_of(c, c.ns(x))))
        if cls == "LocalDateTime":
            return c.hold(f"{lab}: naive", r.v.tz is None, info=r)
        if r.v.tz is None:
            return c.fail(f"{lab}: aware", info=r)
        c.eq(f"{lab}: the same offset", lib.off_us(c.I, r.v), c.off_us(x))
        if cls == "ZonedDateTime":
            c.hold(f"{lab}: the same timezone", r.v.tz.kind == "zone" and r.v.tz.zid == c.dt(x).tz.zid, info=r)
        else:
            c.hold(f"{lab}: a fixed offset", r.v.tz.kind != "zone", info=r)


@entry("C26", "Date.py_date")
def _(c):
    x = c.date()
    r = c.call(x, "py_date")
    if r.exc or not isinstance(r.v, DA):
        return c.fail("py_date: returns a date", info=r)
    c.hold("py_date: exactly the standard type", not r.v.sub, info=r)
    c.eq("py_date: the same date", r.v.o, c.ord(x))


@entry("C26", "Time.py_time")
def _(c):
    x = c.time()
    r = c.call(x, "py_time")
    if r.exc or not isinstance(r.v, TM):
        return c.fail("py_time: returns a time", info=r)
    c.hold("py_time: exactly the standard type, naive", not r.v.sub and r.v.tz is None, info=r)
    c.eq("py_time: the same time, microseconds rounded down", r.v.u, us_of(c, c.wall_ns(x)))


@entry("C26", "TimeDelta.py_timedelta")
def _(c):
    x = c.tdelta()
    r = c.call(x, "py_timedelta")
    if r.exc or not isinstance(r.v, TD):
        return c.fail("py_timedelta: returns a timedelta", info=r)
    c.eq("py_timedelta: microseconds rounded down", r.v.us, us_of(c, c.total(x)))


# ------------------------------------------------------------------ from the standard library
def py(c, how):
    """a datetime: naive, with a fixed offset, with a ZoneInfo or in an unknown tzinfo; or of a subclass"""
    w = py_naive().w
    sub = c.choose(2, "subclass") == 1
    fold = c.choose(2, "fold")
    tz = {"naive": None, "utc": UTC, "fixed": Tz("fixed", sym("p.off_us", -DAYUS + 1, DAYUS - 1)), "zone": Tz("zone", zid="P"),
          "subzone": Tz("zone", zid="P", sub=True)}[how]
    d = DT(w, tz, fold, sub)
    if tz is not None and how != "utc":
        c.hold("input", True)
    return d


def moment(c, d):
    """UTC time in us"""
    return c.p.F.norm(sub(d.w, lib.off_us(c.I, d)))


for cls in ("Instant", "OffsetDateTime", "SystemDateTime", "ZonedDateTime", "LocalDateTime"):
    for how in ("naive", "utc", "fixed", "zone", "subzone"):
        @entry("C26", f"{cls}.from_py_datetime({how})")
        def _(c, cls=cls, how=how):
            d = py(c, how)
            r = c.call(cls, "from_py_datetime", d)
            lab = f"{cls}.from_py_datetime({how})"
            kind = {"LocalDateTime": ("naive",), "ZonedDateTime": ("zone",)}.get(cls, ("utc", "fixed", "zone", "subzone"))
            if how not in kind:
                return c.hold(f"{lab}: the wrong kind is refused with ValueError", r.exc and r.isa("ValueError"), info=r)
            bad = []
            if how != "naive":
                u = moment(c, d)
                bad = [lt(u, MINW), lt(MAXW, u)]
                if cls != "Instant" and how == "fixed":
                    bad.append(ne(mk_mod(c.p.F, d.tz.off, 10**6), 0))
                if how in ("zone", "subzone"):
                    bad += outside(c, d.w)
            if r.exc:
                return c.may_raise(f"{lab}: raises only if out of range or the offset has a fraction of a second", r, *bad)
            if not c.is_(r.v, cls):
                return c.fail(f"{lab}: returns a {cls}", info=r)
            stored_pure(c, lab, r)
            if how == "naive":
                c.eq(f"{lab}: the same local time", c.wall_ns(r.v), scale(d.w, 1000))
                return c.hold(f"{lab}: naive", c.dt(r.v).tz is None, info=r)
            c.eq(f"{lab}: the same moment", c.inst(r.v), scale(u, 1000))
            if cls in ("OffsetDateTime", "SystemDateTime"):
                c.eq(f"{lab}: the same local time", c.wall_ns(r.v), scale(d.w, 1000))
                c.eq(f"{lab}: the same offset", c.off_us(r.v), lib.off_us(c.I, d))
                c.hold(f"{lab}: a fixed offset", c.dt(r.v).tz.kind != "zone", info=r)
            if cls == "Instant":
                c.eq(f"{lab}: in UTC", c.off_us(r.v), 0)
            if cls == "ZonedDateTime":
                c.hold(f"{lab}: the same timezone", c.dt(r.v).tz.kind == "zone" and c.dt(r.v).tz.zid == "P", info=r)

for what in ("date", "datetime"):
    @entry("C26", f"Date.from_py_date({what})")
    def _(c, what=what):
        sb = c.choose(2, "subclass") == 1
        if what == "date":
            d = DA(sym("p.ord", 1, 3652059), sb)
            want = d.o
        else:
            w = py_naive().w
            d = DT(w, c.pick([None, UTC, Tz("zone", zid="P")]), c.choose(2), sb)
            want = lib.ord_of(c.I, w)
        r = c.call("Date", "from_py_date", d)
        if r.exc or not c.is_(r.v, "Date"):
            return c.fail("from_py_date: returns a Date", info=r)
        stored_pure(c, "from_py_date", r)
        c.hold("from_py_date: stores a date", isinstance(c.f(r.v, "da"), DA), info=r)
        c.eq("from_py_date: the same date", c.ord(r.v), want)


@entry("C26", "Time.from_py_time")
def _(c):
    t = TM(sym("p.tod", 0, DAYUS - 1), c.pick([None, UTC, Tz("fixed", sym("p.off_us", -DAYUS + 1, DAYUS - 1)), Tz("zone", zid="P")]), c.choose(2), c.choose(2) == 1)
    r = c.call("Time", "from_py_time", t)
    if t.tz is not None:
        return c.hold("from_py_time: an aware time is refused with ValueError", r.exc and r.isa("ValueError"), info=r)
    if r.exc or not c.is_(r.v, "Time"):
        return c.fail("from_py_time: returns a Time", info=r)
    stored_pure(c, "from_py_time", r)
    c.hold("from_py_time: naive", c.f(r.v, "tm").tz is None, info=r)
    c.eq("from_py_time: the same time", c.wall_ns(r.v), scale(t.u, 1000))
    c.eq("from_py_time: no hidden microseconds", mk_mod(c.p.F, c.f(r.v, "tm").u, 10**6), 0)


@entry("C26", "TimeDelta.from_py_timedelta")
def _(c):
    us = sym("py.us", -86399999913600000000, 86399999999999999999)
    r = c.call("TimeDelta", "from_py_timedelta", TD(us, c.choose(2) == 1))
    if r.exc:
        return c.may_raise("from_py_timedelta: raises only if out of range", r, lt(scale(us, 1000), -MAX_NS), lt(MAX_NS, scale(us, 1000)))
    if not c.is_(r.v, "TimeDelta"):
        return c.fail("from_py_timedelta: returns a TimeDelta", info=r)
    c.eq("from_py_timedelta: the same duration", c.total(r.v), scale(us, 1000))


for cls, m in [(k, "from_py_datetime") for k in DATETIMES] + [("Date", "from_py_date"), ("Time", "from_py_time"), ("TimeDelta", "from_py_timedelta")]:
    for what in ("int", "str", "None") + (("date",) if m == "from_py_datetime" else ("timedelta",) if m != "from_py_timedelta" else ("date",)):
        @entry("C26", f"{cls}.{m}({what})")
        def _(c, cls=cls, m=m, what=what):
            v = {"int": sym("arg.i"), "str": anystr(), "None": None, "date": DA(sym("p.ord", 1, 3652059)), "timedelta": TD(sym("p.tdus", 0, 10**9))}[what]
            r = c.call(cls, m, v)
            c.hold(f"{cls}.{m}: the wrong type is refused", r.exc and r.isa("TypeError", "ValueError", "AttributeError"), info=r)
