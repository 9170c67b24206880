"""Catalogue of public operations on symbolic inputs, shared by the rules about results
(ranges, existence), effects and ambient state."""
from ..model import *

DIS = ("compatible", "earlier", "later", "raise")
UNITS = {"hours": 3600 * NS, "minutes": 60 * NS, "seconds": NS, "milliseconds": 10**6, "microseconds": 1000, "nanoseconds": 1}
IGN = {"OffsetDateTime": {"ignore_dst": True}, "LocalDateTime": {"ignore_dst": True}}

OPS = []     # (name, result class or None, kinds, fn)


def op(name, result, *kinds):
    def deco(f):
        OPS.append((name, result, frozenset(kinds), f))
        return f
    return deco


def ints(c, *names):
    return [sym(f"arg.{n}") for n in names]


def anystr(n="s"):
    return StrV((Rest(n),))


YMDHMS = ("year", "month", "day", "hour", "minute", "second")


def off_arg(c, how):
    """an offset argument and its value in us"""
    if how == "hours":
        h = sym("arg.offset_hours")
        return h, scale(h, 3600 * 10**6)
    t = c.tdelta("arg.offset")
    return t, None


# ------------------------------------------------------------------ constructors
@op("Time(...)", "Time", "ctor")
def _(c):
    h, m, s = ints(c, "hour", "minute", "second")
    return c.new("Time", h, m, s, nanosecond=sym("arg.nanosecond"))


@op("LocalDateTime(...)", "LocalDateTime", "ctor")
def _(c):
    return c.new("LocalDateTime", *ints(c, *YMDHMS), nanosecond=sym("arg.nanosecond"))


@op("Instant.from_utc(...)", "Instant", "ctor")
def _(c):
    return c.call("Instant", "from_utc", *ints(c, *YMDHMS), nanosecond=sym("arg.nanosecond"))


for how in ("hours", "delta"):
    @op(f"OffsetDateTime(..., offset={how})", "OffsetDateTime", "ctor")
    def _(c, how=how):
        return c.new("OffsetDateTime", *ints(c, *YMDHMS), nanosecond=sym("arg.nanosecond"), offset=off_arg(c, how)[0])

for d in DIS:
    @op(f"ZonedDateTime(..., disambiguate={d})", "ZonedDateTime", "ctor")
    def _(c, d=d):
        return c.new("ZonedDateTime", *ints(c, *YMDHMS), nanosecond=sym("arg.nanosecond"), tz="Z", disambiguate=d)

    @op(f"SystemDateTime(..., disambiguate={d})", "SystemDateTime", "ctor", "sys")
    def _(c, d=d):
        return c.new("SystemDateTime", *ints(c, *YMDHMS), nanosecond=sym("arg.nanosecond"), disambiguate=d)


# ------------------------------------------------------------------ now
@op("Instant.now", "Instant", "now")
def _(c):
    return c.call("Instant", "now")


@op("OffsetDateTime.now", "OffsetDateTime", "now")
def _(c):
    return c.call("OffsetDateTime", "now", off_arg(c, "delta")[0], ignore_dst=True)


@op("ZonedDateTime.now", "ZonedDateTime", "now")
def _(c):
    return c.call("ZonedDateTime", "now", "Z")


@op("SystemDateTime.now", "SystemDateTime", "now", "sys")
def _(c):
    return c.call("SystemDateTime", "now")


@op("Date.today_in_system_tz", "Date", "now", "sys")
def _(c):
    return c.call("Date", "today_in_system_tz")


# ------------------------------------------------------------------ timestamps
for cls in AWARE:
    for m in ("from_timestamp", "from_timestamp_millis", "from_timestamp_nanos"):
        @op(f"{cls}.{m}(int)", cls, *(["sys"] if cls == "SystemDateTime" else []))
        def _(c, cls=cls, m=m):
            k = {"OffsetDateTime": {"offset": c.tdelta("arg.offset"), "ignore_dst": True}, "ZonedDateTime": {"tz": "Z"}}.get(cls, {}) if cls != "x" else {}
            return c.call(cls, m, sym("arg.ts"), **k)

    @op(f"{cls}.from_timestamp(float)", cls, "float", *(["sys"] if cls == "SystemDateTime" else []))
    def _(c, cls=cls):
        k = {"OffsetDateTime": {"offset": c.tdelta("arg.offset"), "ignore_dst": True}, "ZonedDateTime": {"tz": "Z"}}.get(cls, {})
        return c.call(cls, "from_timestamp", lib.flt("arg.ts"), **k)


# ------------------------------------------------------------------ conversions
def conv(cls):
    sysk = ["sys"] if cls == "SystemDateTime" else []

    @op(f"{cls}.to_fixed_offset()", "OffsetDateTime")
    def _(c):
        return c.call(c.value(cls), "to_fixed_offset")

    for how in ("hours", "delta"):
        @op(f"{cls}.to_fixed_offset({how})", "OffsetDateTime")
        def _(c, how=how):
            return c.call(c.value(cls), "to_fixed_offset", off_arg(c, how)[0])

    @op(f"{cls}.to_tz", "ZonedDateTime")
    def _(c):
        return c.call(c.value(cls), "to_tz", "Z2")

    @op(f"{cls}.to_system_tz", "SystemDateTime", "sys")
    def _(c):
        return c.call(c.value(cls), "to_system_tz")
    if cls != "Instant":
        @op(f"{cls}.instant", "Instant")
        def _(c):
            return c.call(c.value(cls), "instant")

        @op(f"{cls}.local", "LocalDateTime")
        def _(c):
            return c.call(c.value(cls), "local")

        @op(f"{cls}.offset", "TimeDelta")
        def _(c):
            return c.get(c.value(cls), "offset")


for cls in AWARE:
    conv(cls)

for cls in DATETIMES:
    if cls == "Instant":
        continue

    @op(f"{cls}.date", "Date")
    def _(c, cls=cls):
        return c.call(c.value(cls), "date")

    @op(f"{cls}.time", "Time")
    def _(c, cls=cls):
        return c.call(c.value(cls), "time")


@op("Date.at", "LocalDateTime")
def _(c):
    return c.call(c.date("a"), "at", c.time("b"))


@op("Time.on", "LocalDateTime")
def _(c):
    return c.call(c.time("a"), "on", c.date("b"))


@op("LocalDateTime.assume_utc", "Instant")
def _(c):
    return c.call(c.local(), "assume_utc")


for how in ("hours", "delta"):
    @op(f"LocalDateTime.assume_fixed_offset({how})", "OffsetDateTime")
    def _(c, how=how):
        return c.call(c.local(), "assume_fixed_offset", off_arg(c, how)[0])

for d in DIS + (None,):
    @op(f"LocalDateTime.assume_tz({d})", "ZonedDateTime")
    def _(c, d=d):
        return c.call(c.local("a", c.choose(2)), "assume_tz", "Z", **({"disambiguate": d} if d else {}))

    @op(f"LocalDateTime.assume_system_tz({d})", "SystemDateTime", "sys")
    def _(c, d=d):
        return c.call(c.local("a", c.choose(2)), "assume_system_tz", **({"disambiguate": d} if d else {}))


# ------------------------------------------------------------------ standard library
def py_naive(n="p"):
    return DT(add(add(scale(sym(f"{n}.ord", 1, 3652059), DAYUS), scale(sym(f"{n}.sod", 0, 86399), 10**6)), sym(f"{n}.us", 0, 999999)))


@op("Instant.from_py_datetime(fixed)", "Instant")
def _(c):
    d = py_naive()
    return c.call("Instant", "from_py_datetime", DT(d.w, Tz("fixed", sym("p.off_us", -DAYUS + 1, DAYUS - 1)), c.choose(2), c.choose(2) == 1))


@op("Instant.from_py_datetime(zone)", "Instant")
def _(c):
    d = py_naive()
    return c.call("Instant", "from_py_datetime", DT(d.w, Tz("zone", zid="P"), c.choose(2)))


@op("OffsetDateTime.from_py_datetime(fixed)", "OffsetDateTime")
def _(c):
    d = py_naive()
    return c.call("OffsetDateTime", "from_py_datetime", DT(d.w, Tz("fixed", sym("p.off_us", -DAYUS + 1, DAYUS - 1)), c.choose(2), c.choose(2) == 1))


@op("OffsetDateTime.from_py_datetime(zone)", "OffsetDateTime")
def _(c):
    d = py_naive()
    return c.call("OffsetDateTime", "from_py_datetime", DT(d.w, Tz("zone", zid="P"), c.choose(2)))


@op("ZonedDateTime.from_py_datetime", "ZonedDateTime")
def _(c):
    d = py_naive()
    return c.call("ZonedDateTime", "from_py_datetime", DT(d.w, Tz("zone", zid="P"), c.choose(2), c.choose(2) == 1))


@op("SystemDateTime.from_py_datetime", "SystemDateTime", "foreign-offset")
def _(c):
    d = py_naive()
    return c.call("SystemDateTime", "from_py_datetime", DT(d.w, Tz("fixed", sym("p.off_us", -DAYUS + 1, DAYUS - 1)), c.choose(2)))


@op("LocalDateTime.from_py_datetime", "LocalDateTime")
def _(c):
    d = py_naive()
    return c.call("LocalDateTime", "from_py_datetime", DT(d.w, None, c.choose(2), c.choose(2) == 1))


@op("Time.from_py_time", "Time")
def _(c):
    return c.call("Time", "from_py_time", TM(sym("p.tod", 0, DAYUS - 1), None, c.choose(2), c.choose(2) == 1))


for cls in DATETIMES:
    @op(f"{cls}.py_datetime", None)
    def _(c, cls=cls):
        return c.call(c.value(cls), "py_datetime")


# ------------------------------------------------------------------ text
for cls in DATETIMES + ("Time", "Date", "YearMonth", "MonthDay", "TimeDelta", "DateDelta", "DateTimeDelta"):
    @op(f"{cls}.parse_common_iso(any string)", cls, "parse", *(["foreign-offset"] if cls == "SystemDateTime" else []))
    def _(c, cls=cls):
        return c.call(cls, "parse_common_iso", anystr())

    @op(f"{cls}.format_common_iso", None, "format")
    def _(c, cls=cls):
        return c.call(c.value(cls), "format_common_iso")

for cls in ("Instant", "OffsetDateTime"):
    @op(f"{cls}.parse_rfc3339(any string)", cls, "parse")
    def _(c, cls=cls):
        return c.call(cls, "parse_rfc3339", anystr())

    @op(f"{cls}.parse_rfc2822", cls, "rfc2822")
    def _(c, cls=cls):
        return c.call(cls, "parse_rfc2822", anystr())

    @op(f"{cls}.format_rfc3339", None, "format")
    def _(c, cls=cls):
        return c.call(c.value(cls), "format_rfc3339")


# ------------------------------------------------------------------ arithmetic
def arith(cls):
    sysk = ["sys"] if cls == "SystemDateTime" else []
    for meth in ("add", "subtract"):
        if cls != "Instant":
            @op(f"{cls}.{meth}(years=..., ..., days=...)", cls, "slow", *sysk)
            def _(c, meth=meth):
                x = c.value(cls)
                kw = {n: sym(f"arg.{n}") for n in ("years", "months", "weeks", "days")}
                return c.call(x, meth, **kw, **IGN.get(cls, {}))

            @op(f"{cls}.{meth}(days=..., nanoseconds=...)", cls, "slow", *sysk)
            def _(c, meth=meth):
                x = c.value(cls)
                kw = {n: sym(f"arg.{n}") for n in ("days", "nanoseconds")}
                return c.call(x, meth, **kw, **IGN.get(cls, {}))

            for dl in ("DateDelta", "TimeDelta", "DateTimeDelta"):
                @op(f"{cls}.{meth}({dl})", cls, "slow", *sysk)
                def _(c, meth=meth, dl=dl):
                    return c.call(c.value(cls), meth, c.value(dl, "d"), **IGN.get(cls, {}))

        @op(f"{cls}.{meth}(hours=..., ..., nanoseconds=...)", cls, *sysk)
        def _(c, meth=meth):
            x = c.value(cls)
            return c.call(x, meth, **{n: sym(f"arg.{n}") for n in UNITS}, **IGN.get(cls, {}))
    for o, s in (("add", "+"), ("sub", "-")):
        for dl in ("DateDelta", "TimeDelta", "DateTimeDelta"):
            if cls == "OffsetDateTime" or (cls == "LocalDateTime" and dl != "DateDelta") or (cls == "Instant" and dl != "TimeDelta"):
                continue

            @op(f"{cls} {s} {dl}", cls, "slow", *sysk)
            def _(c, o=o, dl=dl):
                return c.op(o, c.value(cls), c.value(dl, "d"))


for cls in DATETIMES:
    arith(cls)


# ------------------------------------------------------------------ replacement
REPL = {"LocalDateTime": (), "OffsetDateTime": ("offset",), "ZonedDateTime": ("tz",), "SystemDateTime": ()}


def repl(cls):
    sysk = ["sys"] if cls == "SystemDateTime" else []
    for fld in YMDHMS + ("nanosecond",) + REPL[cls]:
        @op(f"{cls}.replace({fld}=...)", cls, "slow", *sysk)
        def _(c, fld=fld):
            v = "Z9" if fld == "tz" else c.tdelta("arg.offset") if fld == "offset" else sym(f"arg.{fld}")
            return c.call(c.value(cls), "replace", **{fld: v}, **(IGN.get(cls, {}) if cls != "LocalDateTime" else {}))
    if cls in ("ZonedDateTime", "SystemDateTime"):
        for d in DIS:
            @op(f"{cls}.replace(hour=..., nanosecond=..., disambiguate={d})", cls, "slow", *sysk)
            def _(c, d=d):
                return c.call(c.value(cls), "replace", hour=sym("arg.hour"), nanosecond=sym("arg.nanosecond"), disambiguate=d)

            @op(f"{cls}.replace_date(disambiguate={d})", cls, "slow", *sysk)
            def _(c, d=d):
                return c.call(c.value(cls), "replace_date", c.date("b"), disambiguate=d)

            @op(f"{cls}.replace_time(disambiguate={d})", cls, "slow", *sysk)
            def _(c, d=d):
                return c.call(c.value(cls), "replace_time", c.time("b"), disambiguate=d)

    @op(f"{cls}.replace_date", cls, "slow", *sysk)
    def _(c):
        return c.call(c.value(cls), "replace_date", c.date("b"), **(IGN.get(cls, {}) if cls != "LocalDateTime" else {}))

    @op(f"{cls}.replace_time", cls, "slow", *sysk)
    def _(c):
        return c.call(c.value(cls), "replace_time", c.time("b"), **(IGN.get(cls, {}) if cls != "LocalDateTime" else {}))


for cls in REPL:
    repl(cls)

for fld in ("hour", "minute", "second", "nanosecond"):
    @op(f"Time.replace({fld}=...)", "Time")
    def _(c, fld=fld):
        return c.call(c.time(), "replace", **{fld: sym(f"arg.{fld}")})


# ------------------------------------------------------------------ rounding
def rnd(cls):
    sysk = ["sys"] if cls == "SystemDateTime" else []
    units = [("hour", 6), ("minute", 15), ("second", 1), ("millisecond", 250), ("nanosecond", 20)]
    if cls not in ("Time", "Instant", "TimeDelta"):
        units.append(("day", 1))
    for u, i in units:
        for mode in ("ceil", "floor", "half_even"):
            @op(f"{cls}.round({u!r}, {i}, {mode!r})", cls, "round", "slow", *sysk)
            def _(c, u=u, i=i, mode=mode):
                x = c.value(cls)
                return c.call(x, "round", u, i, mode, **({"ignore_dst": True} if cls == "OffsetDateTime" else {}))


for cls in DATETIMES + ("Time",):
    rnd(cls)

for cls in ("ZonedDateTime", "SystemDateTime"):
    sysk = ["sys"] if cls == "SystemDateTime" else []

    @op(f"{cls}.start_of_day", cls, *sysk)
    def _(c, cls=cls):
        return c.call(c.value(cls), "start_of_day")

    @op(f"{cls}.day_length", "TimeDelta", *sysk)
    def _(c, cls=cls):
        return c.call(c.value(cls), "day_length")

    @op(f"{cls}.is_ambiguous", None, *sysk)
    def _(c, cls=cls):
        return c.call(c.value(cls), "is_ambiguous")


# ------------------------------------------------------------------ pickling
for cls in DATETIMES + ("Time",):
    @op(f"unpickle({cls})", cls, "pickle", *(["foreign-offset"] if cls == "SystemDateTime" else []))
    def _(c, cls=cls):
        r = c.call(c.value(cls), "__reduce__")
        if r.exc:
            return r
        return c.guard(lambda: c.I.call(r.v[0], list(r.v[1]), {}))
