"""C27: constructors, properties and replace() address the right component."""
from .. import lib, strs
from ..dom import mk_cal, mk_dim, mk_fd, mk_mod, mk_ymd
from ..obl import entry
from .c08 import check as resolved_as
from .ops import *

FIELDS = {"Date": ("year", "month", "day"), "YearMonth": ("year", "month"), "MonthDay": ("month", "day"),
          "Time": ("hour", "minute", "second", "nanosecond"),
          "LocalDateTime": YMDHMS + ("nanosecond",), "OffsetDateTime": YMDHMS + ("nanosecond",),
          "ZonedDateTime": YMDHMS + ("nanosecond",), "SystemDateTime": YMDHMS + ("nanosecond",)}
LIM = {"year": (1, 9999), "month": (1, 12), "hour": (0, 23), "minute": (0, 59), "second": (0, 59), "nanosecond": (0, NS - 1)}
CLOCK = (("hour", 3600), ("minute", 60), ("second", 1))


def comps(c, x):
    """the components of a value, from its representation"""
    F = c.p.F
    cls = x.cls.name
    out = {}
    if cls in ("Date", "YearMonth", "MonthDay"):
        o = c.ord(x)
    elif cls == "Time":
        o = None
    else:
        o = lib.ord_of(c.I, c.dt(x).w)
    if o is not None:
        out = {k: F.norm(mk_cal(F, k, o)) for k in ("year", "month", "day")}
    if cls == "Time" or o is not None and cls in DATETIMES:
        ns = c.wall_ns(x)
        sod = mk_mod(F, mk_fd(F, ns, NS), 86400)
        out["hour"] = mk_fd(F, sod, 3600)
        out["minute"] = mk_mod(F, mk_fd(F, sod, 60), 60)
        out["second"] = mk_mod(F, sod, 60)
        out["nanosecond"] = c.ns(x)
    return {k: v for k, v in out.items() if k in FIELDS.get(cls, out)}


def bad_fields(c, v):
    """conditions under which the given fields are no date / time"""
    bad = []
    for k, x in v.items():
        if k in LIM:
            bad += [lt(x, LIM[k][0]), lt(LIM[k][1], x)]
    if "day" in v:
        dim = mk_dim(c.p.F, v.get("year", Lin(2000)), v["month"])
        bad += [lt(v["day"], 1), lt(dim, v["day"])]
    return bad


def built(c, res, cls, v, lab, more=(), only=None):
    """res is a value of cls with exactly these components, or there is no such value"""
    bad = bad_fields(c, v) + list(more)
    if res.exc:
        c.hold(f"{lab}: refuses with ValueError", res.isa("ValueError", "OverflowError"), info=res)
        return c.may_raise(f"{lab}: raises only if there is no such value", res, *bad)
    if not c.is_(res.v, cls):
        return c.fail(f"{lab}: returns a {cls}", info=res)
    got = comps(c, res.v)
    for k in got if only is None else only:
        if k in LIM:
            c.within(f"{lab}: {k} in range", v[k], *LIM[k])
        c.eq(f"{lab}: {k}", got[k], v[k])
    return res.v


def args(c, cls, n="arg"):
    return {k: sym(f"{n}.{k}") for k in FIELDS[cls]}


# ------------------------------------------------------------------ constructors
def ctor(cls, v):
    pos = [x for k, x in v.items() if k != "nanosecond"]
    return pos, ({"nanosecond": v["nanosecond"]} if "nanosecond" in v else {})


for cls in ("Date", "YearMonth", "MonthDay", "Time", "LocalDateTime"):
    @entry("C27", f"{cls}(...)")
    def _(c, cls=cls):
        v = args(c, cls)
        a, k = ctor(cls, v)
        built(c, c.new(cls, *a, **k), cls, v, f"{cls}()")

    @entry("C27", f"{cls}(...) by keyword")
    def _(c, cls=cls):
        v = args(c, cls)
        built(c, c.new(cls, **dict(reversed(v.items()))), cls, v, f"{cls}(keywords)")

    if cls in ("Time", "LocalDateTime"):
        @entry("C27", f"{cls}(...) with defaults")
        def _(c, cls=cls):
            v = args(c, cls)
            a, _ = ctor(cls, v)
            n = c.choose(4)
            n = n if cls == "Time" else n + 3
            keys = [k for k in FIELDS[cls] if k != "nanosecond"]
            want = {k: (x if i < n else Lin(0)) for i, (k, x) in enumerate((k, v[k]) for k in keys)}
            want["nanosecond"] = Lin(0)
            built(c, c.new(cls, *a[:n]), cls, want, f"{cls}() with {n} arguments")


@entry("C27", "Instant.from_utc(...)")
def _(c):
    v = {k: sym(f"arg.{k}") for k in FIELDS["LocalDateTime"]}
    a, k = ctor("Instant", v)
    r = c.call("Instant", "from_utc", *a, **k)
    x = built(c, r, "Instant", v, "Instant.from_utc()")
    if x is not None:
        c.eq("Instant.from_utc(): in UTC", c.off_us(x), 0)


for cls in AWARE:
    @entry("C27", f"{cls} with defaults")
    def _(c, cls=cls):
        v = {k: sym(f"arg.{k}") for k in FIELDS["LocalDateTime"]}
        a, _ = ctor(cls, v)
        n = c.choose(4) + 3
        kw = {"OffsetDateTime": {"offset": 0}, "ZonedDateTime": {"tz": Key("arg.tz")}}.get(cls, {})
        f = (lambda *a, **k: c.call(cls, "from_utc", *a, **k)) if cls == "Instant" else (lambda *a, **k: c.new(cls, *a, **kw, **k))
        lab = f"{cls}: omitted arguments are zero"
        full = f(*(list(a[:n]) + [Lin(0)] * (6 - n)), nanosecond=Lin(0))
        r = f(*a[:n])
        if full.exc or r.exc:
            return c.hold(lab, r.exc and full.exc and r.exc is full.exc, info=f"{r}, not {full}")
        if c.is_(r.v, cls):
            c.eq(lab, c.wall_ns(r.v), c.wall_ns(full.v), info=f"{n} arguments")
            c.eq(lab, c.off_us(r.v), c.off_us(full.v), info=f"{n} arguments")


def off_value(c, o):
    """(offset in us of an offset argument, conditions under which it is none)"""
    ns = scale(o, 3600 * NS) if isinstance(o, Lin) else c.total(o)
    return ns, [le(DAYNS, ns), le(ns, -DAYNS), ne(mk_mod(c.p.F, ns, NS), 0)]


for how in ("hours", "delta"):
    @entry("C27", f"OffsetDateTime(..., offset={how})")
    def _(c, how=how):
        v = args(c, "OffsetDateTime")
        o = off_arg(c, how)[0]
        a, k = ctor("OffsetDateTime", v)
        r = c.new("OffsetDateTime", *a, **k, offset=o)
        ns, bad = off_value(c, o)
        W = scale(sub(add(scale(mk_ymd(c.p.F, v["year"], v["month"], v["day"]), 86400),
                          add(add(scale(v["hour"], 3600), scale(v["minute"], 60)), v["second"])), 0), NS)
        u = sub(W, ns)
        x = built(c, r, "OffsetDateTime", v, "OffsetDateTime()", bad + [lt(u, MIN_INST), lt(MAX_INST, u)])
        if x is not None:
            c.eq("OffsetDateTime(): offset", scale(c.off_us(x), 1000), ns)

    @entry("C27", f"OffsetDateTime.replace(offset={how})")
    def _(c, how=how):
        x = c.offset()
        o = off_arg(c, how)[0]
        r = c.call(x, "replace", offset=o, ignore_dst=True)
        ns, bad = off_value(c, o)
        u = sub(scale(c.dt(x).w, 1000), ns)
        y = built(c, r, "OffsetDateTime", comps(c, x), "OffsetDateTime.replace(offset)", bad + [lt(u, MIN_INST), lt(MAX_INST, u)])
        if y is not None:
            c.eq("OffsetDateTime.replace(offset): offset", scale(c.off_us(y), 1000), ns)


# ------------------------------------------------------------------ properties
def val(c, cls):
    return c.system_any() if cls == "foreign" else c.value(cls)


for cls in tuple(FIELDS) + ("foreign",):
    nm = "SystemDateTime (any offset)" if cls == "foreign" else cls

    @entry("C27", f"{nm}: properties")
    def _(c, cls=cls, nm=nm):
        x = val(c, cls)
        for k, want in comps(c, x).items():
            r = c.get(x, k)
            if r.exc:
                c.fail(f"{nm}.{k}: does not raise", info=r)
                continue
            c.hold(f"{nm}.{k}: an integer", isinstance(r.v, (int, Lin)) and not isinstance(r.v, bool), info=r)
            c.eq(f"{nm}.{k}", r.v, want)
        if cls in AWARE + ("foreign",):
            r = c.get(x, "offset")
            if r.exc or not c.is_(r.v, "TimeDelta"):
                c.fail(f"{nm}.offset: a TimeDelta", info=r)
            else:
                c.eq(f"{nm}.offset", c.total(r.v), scale(c.off_us(x), 1000))
        if cls == "ZonedDateTime":
            r = c.get(x, "tz")
            c.hold(f"{nm}.tz: the timezone name", not r.exc and strs.eq(c.I, r.v, c.I.getattr(c.dt(x).tz, "key")) is True, info=r)


# ------------------------------------------------------------------ replace
def kw0(cls):
    return {"ignore_dst": True} if cls == "OffsetDateTime" else {}


def sets(cls):
    f = FIELDS[cls]
    out = [(k,) for k in f]
    if len(f) > 2:
        out += [tuple(k for k in f if k in ("year", "month", "day")), tuple(k for k in f if k not in ("year", "month", "day"))]
    out.append(f)
    if cls in ("Date", "LocalDateTime"):
        out += [("year", "month"), ("month", "day"), ("year", "day")]
    return [s for s in dict.fromkeys(out) if s]


for cls in FIELDS:
    for ks in sets(cls):
        slow = cls in ("ZonedDateTime", "SystemDateTime")
        if slow and len(ks) == 2:
            continue

        @entry("C27", f"{cls}.replace({', '.join(ks)})")
        def _(c, cls=cls, ks=ks, slow=slow):
            x = c.value(cls)
            if cls == "LocalDateTime":
                x = c.local("a", c.choose(2))
            new = {k: sym(f"arg.{k}") for k in ks}
            old = comps(c, x)
            v = {k: new.get(k, old[k]) for k in FIELDS[cls]}
            if not {"year", "month", "day"} & set(ks):
                for k in ("year", "month", "day"):
                    v.pop(k, None)
            r = c.call(x, "replace", **dict(reversed(new.items())), **kw0(cls))
            lab = f"{cls}.replace({', '.join(ks)})"
            more = []
            if cls in DATETIMES:
                F = c.p.F
                o = mk_ymd(F, v["year"], v["month"], v["day"]) if "year" in v else lib.ord_of(c.I, c.dt(x).w)
                W = add(scale(o, DAYUS), scale(add(add(scale(v["hour"], 3600), scale(v["minute"], 60)), v["second"]), 10**6))
            if slow:
                bad = bad_fields(c, v)
                if r.exc and not r.isa("RepeatedTime", "SkippedTime"):
                    w2 = [lt(W, MINW + 2 * DAYUS), lt(MAXW - 2 * DAYUS, W)]
                    return c.may_raise(f"{lab}: raises only if there is no such value", r, *bad, *w2)
                if r.exc or not c.is_(r.v, cls):
                    return c.fail(f"{lab}: returns a {cls}", info=r)
                for k in ks:
                    if k in LIM:
                        c.within(f"{lab}: {k} in range", new[k], *LIM[k])
                return resolved_as(c, r, cls, c.dt(x).tz.zid if cls == "ZonedDateTime" else "SYS", W, v["nanosecond"], c.off_us(x), lab)
            if cls == "OffsetDateTime":
                u = sub(W, c.off_us(x))
                more = [lt(u, MINW), lt(MAXW, u)]
            y = built(c, r, cls, v, lab, more, only=v)
            if y is None:
                return
            if cls in DATETIMES and "year" not in v:
                c.eq(f"{lab}: the date is kept", lib.ord_of(c.I, c.dt(y).w), lib.ord_of(c.I, c.dt(x).w))
            if cls == "OffsetDateTime":
                c.eq(f"{lab}: the offset is kept", c.off_us(y), c.off_us(x))
            if cls == "LocalDateTime":
                c.hold(f"{lab}: naive", c.dt(y).tz is None, info=r)

    NOT = [k for k in YMDHMS + ("nanosecond", "tz", "offset", "disambiguate") if k not in FIELDS[cls]]
    NOT = [k for k in NOT if not (k == "tz" and cls == "ZonedDateTime" or k == "offset" and cls == "OffsetDateTime"
                                  or k == "disambiguate" and cls in ("ZonedDateTime", "SystemDateTime"))]
    for k in NOT + ["tzinfo", "fold", "microsecond", "weekday"]:
        @entry("C27", f"{cls}.replace({k}=...) is refused")
        def _(c, cls=cls, k=k):
            x = c.value(cls)
            v = {"tzinfo": Tz("zone", zid="Z9"), "fold": c.choose(2), "tz": "Z9", "offset": c.tdelta("arg.offset"),
                 "disambiguate": "raise"}.get(k, sym(f"arg.{k}"))
            r = c.call(x, "replace", **{k: v}, **kw0(cls))
            c.hold(f"{cls}.replace({k}=): TypeError", r.exc and r.isa("TypeError"), info=r)


@entry("C27", "ZonedDateTime.replace(tz=...)")
def _(c):
    x = c.zoned()
    r = c.call(x, "replace", tz="Z9")
    resolved_as(c, r, "ZonedDateTime", "Z9", c.dt(x).w, c.ns(x), "compatible", "replace(tz)")


@entry("C27", "MonthDay.is_leap")
def _(c):
    x = c.month_day()
    r = c.call(x, "is_leap")
    if r.exc:
        return c.fail("is_leap: does not raise", info=r)
    v = comps(c, x)
    if c.I.truth(r.v):
        c.eq("is_leap: only in February", v["month"], 2)
        c.eq("is_leap: only on the 29th", v["day"], 29)
    else:
        c.prove("is_leap: true for February 29th", ne(v["month"], 2), ne(v["day"], 29))
