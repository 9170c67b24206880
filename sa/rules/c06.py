"""C06: calendar arithmetic: months first with clamping, then days, then exact time."""
from ..obl import entry
from .calspec import *

IGN = {"OffsetDateTime": {"ignore_dst": True}, "LocalDateTime": {"ignore_dst": True}}
LDT = ("LocalDateTime", "OffsetDateTime", "ZonedDateTime", "SystemDateTime")


def amounts(c, names):
    kw = {n: sym(f"arg.{n}") for n in names}
    g = lambda n: kw.get(n, Lin(0))
    return kw, add(scale(g("years"), 12), g("months")), add(scale(g("weeks"), 7), g("days")), g("nanoseconds")


def check_date(c, x, res, m, d, sg, lab):
    o, bad = shifted(c, c.ord(x), scale(m, sg), scale(d, sg))
    if res.exc:
        return c.may_raise(f"{lab}: raises only if a date is out of range", res, *bad)
    if not c.is_(res.v, "Date"):
        return c.fail(f"{lab}: returns a Date", info=res)
    c.eq(f"{lab}: months first with clamping, then days", c.ord(res.v), o)


def check_dt(c, x, res, m, d, ns, sg, lab, split=True):
    cls = x.cls.name
    F = c.p.F
    w = F.norm(c.dt(x).w)
    o0 = lib.ord_of(c.I, w)
    tod = sub(w, scale(o0, DAYUS_))
    o, bad = shifted(c, o0, scale(m, sg), scale(d, sg))
    W = add(scale(o, DAYUS_), tod)                       # local time after the date shift
    W_ns = add(scale(W, 1000), c.ns(x))
    tot = scale(ns, sg)
    if res.exc:
        mid = sub(W_ns, 0)
        end = add(W_ns, tot)
        m_ = 2 * DAYNS if cls != "LocalDateTime" else 0
        return c.may_raise(f"{lab}: raises only if a result is out of range", res, *bad, lt(tot, -MAX_NS), lt(MAX_NS, tot),
                           lt(mid, MIN_INST + m_), lt(MAX_INST - m_, mid), lt(end, MIN_INST + m_), lt(MAX_INST - m_, end))
    if not c.is_(res.v, cls):
        return c.fail(f"{lab}: returns a {cls}", info=res)
    r = res.v
    if cls in ("LocalDateTime", "OffsetDateTime"):
        c.eq(f"{lab}: months first with clamping, then days, then time", c.wall_ns(r), add(W_ns, tot))
        if cls == "OffsetDateTime":
            c.eq(f"{lab}: offset kept", c.off_us(r), c.off_us(x))
        return
    zid = "SYS" if cls == "SystemDateTime" else c.dt(x).tz.zid
    if cls == "ZonedDateTime":
        t = c.dt(r).tz
        c.hold(f"{lab}: timezone kept", t is not None and t.kind == "zone" and t.zid == zid, info=res)
    if split and c.I.truth(eq(m, 0)) and c.I.truth(eq(d, 0)):
        return c.eq(f"{lab}: exact time is added to the moment", c.inst(r), add(c.inst(x), tot))
    c.prove(f"{lab}: local time of the shifted date (in the timezone), then exact time",
            *[eq(c.inst(r), add(sub(W_ns, scale(lib.off(c.I, zid, W, f), NS)), tot)) for f in (0, 1)],
            info=f"{c.inst(r)!r} for local time {W!r}")


for meth, sg in (("add", 1), ("subtract", -1)):
    for names in (("years",), ("months",), ("weeks",), ("days",), DATE_UNITS):
        @entry("C06", f"Date.{meth}({', '.join(names)})")
        def _(c, meth=meth, sg=sg, names=names):
            x = c.date()
            kw, m, d, _ = amounts(c, names)
            check_date(c, x, c.call(x, meth, **kw), m, d, sg, f"Date.{meth}")

    @entry("C06", f"Date.{meth}(DateDelta)")
    def _(c, meth=meth, sg=sg):
        x, dd = c.date(), c.ddelta()
        check_date(c, x, c.call(x, meth, dd), c.months(dd), c.days(dd), sg, f"Date.{meth} delta")

    @entry("C06", f"Date {'+' if sg > 0 else '-'} DateDelta")
    def _(c, meth=meth, sg=sg):
        x, dd = c.date(), c.ddelta()
        check_date(c, x, c.op("add" if sg > 0 else "sub", x, dd), c.months(dd), c.days(dd), sg, f"Date {'+' if sg > 0 else '-'} delta")

    for cls in LDT:
        for names in (("years",), ("months",), ("weeks",), ("days",), DATE_UNITS, ("days", "nanoseconds"), ("months", "nanoseconds")):
            @entry("C06", f"{cls}.{meth}({', '.join(names)})")
            def _(c, meth=meth, sg=sg, names=names, cls=cls):
                x = c.value(cls)
                kw, m, d, n = amounts(c, names)
                check_dt(c, x, c.call(x, meth, **kw, **IGN.get(cls, {})), m, d, n, sg, f"{cls}.{meth}")

        for dl in ("DateDelta", "DateTimeDelta"):
            @entry("C06", f"{cls}.{meth}({dl})")
            def _(c, meth=meth, sg=sg, dl=dl, cls=cls):
                x, t = c.value(cls), c.value(dl, "d")
                m, d, n = c.parts(t)
                check_dt(c, x, c.call(x, meth, t, **IGN.get(cls, {})), m, d, n, sg, f"{cls}.{meth} delta")

            if cls == "OffsetDateTime" or (cls == "LocalDateTime" and dl != "DateDelta"):
                continue

            @entry("C06", f"{cls} {'+' if sg > 0 else '-'} {dl}")
            def _(c, meth=meth, sg=sg, dl=dl, cls=cls):
                x, t = c.value(cls), c.value(dl, "d")
                z = c.choose(2, "date part zero")
                if z:
                    dd = c.P.build("DateDelta", mo=Lin(0), dy=Lin(0))
                    t = dd if dl == "DateDelta" else c.P.build("DateTimeDelta", dd=dd, td=c.f(t, "td"))
                m, d, n = c.parts(t)
                check_dt(c, x, c.op("add" if sg > 0 else "sub", x, t), m, d, n, sg, f"{cls} {'+' if sg > 0 else '-'} delta", split=z)
