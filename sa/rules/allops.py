"""Everything a user can call, for the rules about effects (C19, C21): (name, kinds, fn)."""
from ..vals import _MISSING
from .deltas import DOPS
from .ops import *
from .ops import OPS

VALUES = ("Date", "YearMonth", "MonthDay", "Time") + DATETIMES + ("TimeDelta", "DateDelta", "DateTimeDelta")
ALL = [(n, k, fn) for n, _, k, fn in OPS] + [(n, frozenset(), lambda c, fn=fn: fn(c)[0]) for n, _, fn in DOPS]
KNOWN = {n for n, _, _ in ALL}


def more(name, *kinds):
    def deco(f):
        if name not in KNOWN:
            KNOWN.add(name)
            ALL.append((name, frozenset(kinds), f))
        return f
    return deco


def has(c, cls, m):
    return c.P.cls(cls).lookup(m) is not _MISSING


def bi(c, name, *a):
    return c.guard(lambda: c.I.call(c.I.builtins[name], list(a), {}))


def val(c, cls, n="a"):
    return c.local(n, c.choose(2)) if cls == "LocalDateTime" else c.system_any(n) if cls == "foreign" else c.value(cls, n)


PROPS = ("year", "month", "day", "hour", "minute", "second", "nanosecond", "offset", "tz")
OBSERVERS = ("year_month", "month_day", "day_of_week", "py_date", "py_time", "py_datetime", "py_timedelta", "format_common_iso", "date",
             "time", "instant", "local", "timestamp", "timestamp_millis", "timestamp_nanos", "is_leap", "in_days_of_24h", "in_hours",
             "in_minutes", "in_seconds", "in_milliseconds", "in_microseconds", "in_nanoseconds", "in_hrs_mins_secs_nanos", "in_months_days",
             "in_years_months_days", "date_part", "time_part", "in_months_days_secs_nanos", "format_rfc3339", "format_rfc2822",
             "__reduce__", "__copy__", "__str__", "__repr__", "__format__", "__bool__", "__hash__")

for cls in VALUES + ("foreign",):
    nm = "SystemDateTime (any offset)" if cls == "foreign" else cls
    for k in PROPS:
        @more(f"{nm}.{k}", "observe")
        def _(c, cls=cls, k=k):
            x = val(c, cls)
            return c.get(x, k) if has(c, x.cls.name, k) else None
    for m in OBSERVERS:
        @more(f"{nm}.{m}()", "observe")
        def _(c, cls=cls, m=m):
            x = val(c, cls)
            if not has(c, x.cls.name, m) or m == "__format__":
                return None
            return c.call(x, m)
    for f in ("hash", "str", "repr", "bool", "abs"):
        @more(f"{f}({nm})", "observe")
        def _(c, cls=cls, f=f):
            return bi(c, f, val(c, cls))

    @more(f"-{nm}", "observe")
    def _(c, cls=cls):
        return c.unary("neg", val(c, cls))
    for o in ("eq", "ne", "lt", "le", "gt", "ge"):
        for b in AWARE + ("foreign",) if cls in AWARE + ("foreign",) else (cls,):
            @more(f"{nm} {o} {b}", "observe")
            def _(c, cls=cls, o=o, b=b):
                return c.op(o, val(c, cls, "a"), val(c, b, "b"))
        @more(f"{nm} {o} int", "observe")
        def _(c, cls=cls, o=o):
            return c.op(o, val(c, cls, "a"), sym("arg.n"))
    for m in ("difference", "exact_eq", "days_until", "days_since"):
        @more(f"{nm}.{m}", "observe")
        def _(c, cls=cls, m=m):
            x = val(c, cls)
            if not has(c, x.cls.name, m):
                return None
            kw = {"ignore_dst": True} if cls == "LocalDateTime" and m == "difference" else {}
            b = c.pick(AWARE) if cls in AWARE and m == "difference" else cls
            return c.call(x, m, val(c, b, "b"), **kw)

for a in AWARE + ("foreign",):
    for b in AWARE + ("foreign",):
        @more(f"{a} - {b}", "observe")
        def _(c, a=a, b=b):
            return c.op("sub", val(c, a, "a"), val(c, b, "b"))

for cls in ("Date", "YearMonth", "MonthDay"):
    for fld in {"Date": ("year", "month", "day"), "YearMonth": ("year", "month"), "MonthDay": ("month", "day")}[cls]:
        @more(f"{cls}.replace({fld}=...)")
        def _(c, cls=cls, fld=fld):
            return c.call(c.value(cls), "replace", **{fld: sym(f"arg.{fld}")})

    @more(f"{cls}(...)")
    def _(c, cls=cls):
        return c.new(cls, *ints(c, *{"Date": ("year", "month", "day"), "YearMonth": ("year", "month"), "MonthDay": ("month", "day")}[cls]))

for m in ("add", "subtract"):
    @more(f"Date.{m}(days=...)")
    def _(c, m=m):
        return c.call(c.date(), m, days=sym("arg.days"))

    @more(f"Date.{m}(years=..., months=...)")
    def _(c, m=m):
        return c.call(c.date(), m, years=sym("arg.years"), months=sym("arg.months"))

    @more(f"Date.{m}(DateDelta)")
    def _(c, m=m):
        return c.call(c.date(), m, c.ddelta())

for o, s in (("add", "+"), ("sub", "-")):
    @more(f"Date {s} DateDelta")
    def _(c, o=o):
        return c.op(o, c.date(), c.ddelta())


@more("Date - Date", "slow")
def _(c):
    return c.op("sub", c.date("a"), c.date("b"))


@more("YearMonth.on_day")
def _(c):
    return c.call(c.year_month(), "on_day", sym("arg.day"))


@more("MonthDay.in_year")
def _(c):
    return c.call(c.month_day(), "in_year", sym("arg.year"))


@more("Date.from_py_date")
def _(c):
    return c.call("Date", "from_py_date", DA(sym("p.ord", 1, 3652059), c.choose(2) == 1))


@more("TimeDelta.from_py_timedelta")
def _(c):
    from ..vals import TD
    return c.call("TimeDelta", "from_py_timedelta", TD(sym("py.us", -86399999913600000000, 86399999999999999999)))


for cls in ("OffsetDateTime", "LocalDateTime"):
    @more(f"{cls}.strptime", "rfc2822")
    def _(c, cls=cls):
        return c.call(cls, "strptime", anystr(), anystr("f"))

for cls in ("TimeDelta", "DateDelta", "DateTimeDelta"):
    for s in ("*", "r*", "//", "%", "/"):
        @more(f"{cls} {s}")
        def _(c, cls=cls, s=s):
            x = c.value(cls)
            k = sym("arg.k")
            if s == "*":
                return c.op("mul", x, k)
            if s == "r*":
                return c.op("mul", k, x)
            return c.op({"//": "floordiv", "%": "mod", "/": "truediv"}[s], x, c.value(cls, "b"))
