"""C08: repeated and skipped local times follow the disambiguate argument."""
from .. import lib
from ..dom import mk_dim, mk_mod
from ..obl import entry
from .calspec import shifted, ymd_of
from .ops import *

RANGE = ("ValueError", "OverflowError")


def resolved(c, zid, W, dis):
    """what a local time W (us) in a zone means under a setting: ("at", offset in s) or ("raise", class)"""
    k = lib.resolve_kind(c.I, zid, W)
    o = lambda f: lib.off(c.I, zid, W, f)
    if k == "normal":
        return "at", o(0), k
    if isinstance(dis, Lin):
        # keep the offset `dis` (us) if one of the candidates has it, else "compatible"
        a, b = (scale(o(f), 10**6) for f in (0, 1))
        if k == "fold":
            return "at", o(1 if not c.I.truth(eq(dis, a)) and c.I.truth(eq(dis, b)) else 0), k
        # the candidate a moment later has the offset after the gap, the other the one before
        return "at", o(1 if not c.I.truth(eq(dis, b)) and c.I.truth(eq(dis, a)) else 0), k
    if dis == "raise":
        return "raise", ("RepeatedTime" if k == "fold" else "SkippedTime"), k
    if k == "fold":
        return "at", o(1 if dis == "later" else 0), k
    return "at", o(1 if dis == "earlier" else 0), k


def outside(c, W):
    m = 2 * DAYUS
    return [lt(W, MINW + m), lt(MAXW - m, W)]


def check(c, res, cls, zid, W, ns, dis, lab, bad=(), then=0):
    """res: result of resolving local time W (us) + ns under dis, then shifting by `then` ns"""
    F = c.p.F
    W = F.norm(W)
    if res.exc and not res.isa("RepeatedTime", "SkippedTime"):
        conds = list(bad) + outside(c, W)
        if then != 0:
            end = add(scale(W, 1000), then)
            conds += [lt(then, -MAX_NS), lt(MAX_NS, then), lt(end, MIN_INST + 2 * DAYNS), lt(MAX_INST - 2 * DAYNS, end)]
        return c.may_raise(f"{lab}: raises something else only if a value is out of range", res, *conds)
    how, what, kind = resolved(c, zid, W, dis)
    dis = "the original's offset" if isinstance(dis, Lin) else dis
    if how == "raise":
        return c.hold(f"{lab}: {dis} raises {what}", res.exc is not None and res.isa(what), info=f"{res} for a {kind} time {W!r}")
    if res.exc:
        return c.fail(f"{lab}: {dis} does not raise", info=f"{res} for a {kind} time {W!r}")
    if not c.is_(res.v, cls):
        return c.fail(f"{lab}: returns a {cls}", info=res)
    want = add(add(scale(sub(W, scale(what, 10**6)), 1000), ns), then)
    c.eq(f"{lab}: {kind} time resolved by {dis}", c.inst(res.v), want)
    if then == 0:
        c.eq(f"{lab}: nanoseconds", c.ns(res.v), ns)
        if kind != "gap":
            c.eq(f"{lab}: the local time is as asked", c.dt(res.v).w, W)
    if cls == "ZonedDateTime":
        t = c.dt(res.v).tz
        c.hold(f"{lab}: timezone", t is not None and t.kind == "zone" and t.zid == zid, info=res)


def fields(c):
    y, m, d = c.s("arg.y", 1, 9999), c.s("arg.mo", 1, 12), c.s("arg.d", 1, 31)
    c.I.assume(le(d, mk_dim(c.p.F, y, m)))
    h, mi, s = c.s("arg.h", 0, 23), c.s("arg.mi", 0, 59), c.s("arg.s", 0, 59)
    ns = c.s("arg.ns", 0, NS - 1)
    W = add(scale(mk_ymd(c.p.F, y, m, d), DAYUS), scale(add(add(scale(h, 3600), scale(mi, 60)), s), 10**6))
    return (y, m, d, h, mi, s), ns, W


KW = {"ZonedDateTime": {"tz": "Z"}, "SystemDateTime": {}}
ASSUME = {"ZonedDateTime": "assume_tz", "SystemDateTime": "assume_system_tz"}


def zid_of(c, x):
    return "SYS" if x.cls.name == "SystemDateTime" else c.dt(x).tz.zid


def values(cls):
    return [cls] + (["foreign"] if cls == "SystemDateTime" else [])


def val(c, v):
    return c.system_any("a") if v == "foreign" else c.value(v)


for cls in ("ZonedDateTime", "SystemDateTime"):
    for dis in DIS + (None,):
        eff = dis or "compatible"
        kd = {"disambiguate": dis} if dis else {}
        lab0 = f" ({dis or 'default'})"

        @entry("C08", f"{cls}(...){lab0}")
        def _(c, cls=cls, eff=eff, kd=kd):
            a, ns, W = fields(c)
            r = c.new(cls, *a, nanosecond=ns, **KW[cls], **kd)
            check(c, r, cls, "Z" if cls == "ZonedDateTime" else "SYS", W, ns, eff, f"{cls}()")

        @entry("C08", f"LocalDateTime.{ASSUME[cls]}{lab0}")
        def _(c, cls=cls, eff=eff, kd=kd):
            x = c.local("a", c.choose(2))
            r = c.call(x, ASSUME[cls], *(["Z"] if cls == "ZonedDateTime" else []), **kd)
            check(c, r, cls, "Z" if cls == "ZonedDateTime" else "SYS", c.dt(x).w, c.ns(x), eff, ASSUME[cls])

    for dis in DIS:
        for v in values(cls):
            @entry("C08", f"{v if v == cls else cls + ' (foreign)'}.replace_date ({dis})")
            def _(c, cls=cls, dis=dis, v=v):
                x, d = val(c, v), c.date("b")
                w = c.dt(x).w
                W = add(sub(w, scale(lib.ord_of(c.I, w), DAYUS)), scale(c.ord(d), DAYUS))
                r = c.call(x, "replace_date", d, disambiguate=dis)
                check(c, r, cls, zid_of(c, x), W, c.ns(x), dis, f"{cls}.replace_date")

            @entry("C08", f"{v if v == cls else cls + ' (foreign)'}.replace_time ({dis})")
            def _(c, cls=cls, dis=dis, v=v):
                x, t = val(c, v), c.time("b")
                W = add(scale(lib.ord_of(c.I, c.dt(x).w), DAYUS), c.f(t, "tm").u)
                r = c.call(x, "replace_time", t, disambiguate=dis)
                check(c, r, cls, zid_of(c, x), W, c.ns(t), dis, f"{cls}.replace_time")

        @entry("C08", f"{cls}.replace(hour=..., nanosecond=...) ({dis})")
        def _(c, cls=cls, dis=dis):
            x = c.value(cls)
            h, n = c.s("arg.h", 0, 23), c.s("arg.ns", 0, NS - 1)
            w = c.dt(x).w
            F = c.p.F
            tod = sub(w, scale(lib.ord_of(c.I, w), DAYUS))
            W = add(sub(w, tod), add(scale(h, 3600 * 10**6), mk_mod(F, tod, 3600 * 10**6)))
            r = c.call(x, "replace", hour=h, nanosecond=n, disambiguate=dis)
            check(c, r, cls, zid_of(c, x), W, n, dis, f"{cls}.replace(hour)")

        @entry("C08", f"{cls}.replace(year, month, day) ({dis})")
        def _(c, cls=cls, dis=dis):
            x = c.value(cls)
            w = c.dt(x).w
            (y, m, d, *_), _, _ = fields(c)
            W = add(sub(w, scale(lib.ord_of(c.I, w), DAYUS)), scale(mk_ymd(c.p.F, y, m, d), DAYUS))
            r = c.call(x, "replace", year=y, month=m, day=d, disambiguate=dis)
            check(c, r, cls, zid_of(c, x), W, c.ns(x), dis, f"{cls}.replace(date)")

        if cls == "ZonedDateTime":
            @entry("C08", f"ZonedDateTime.replace(tz=...) ({dis})")
            def _(c, dis=dis):
                x = c.value("ZonedDateTime")
                r = c.call(x, "replace", tz="Z9", disambiguate=dis)
                check(c, r, "ZonedDateTime", "Z9", c.dt(x).w, c.ns(x), dis, "ZonedDateTime.replace(tz)")

        for meth, sg in (("add", 1), ("subtract", -1)):
            @entry("C08", f"{cls}.{meth}(months, days) ({dis})")
            def _(c, cls=cls, dis=dis, meth=meth, sg=sg):
                x = c.value(cls)
                m, d = sym("arg.months"), sym("arg.days")
                shift_case(c, x, c.call(x, meth, months=m, days=d, disambiguate=dis), m, d, 0, sg, dis, f"{cls}.{meth}")

            @entry("C08", f"{cls}.{meth}(DateDelta) ({dis})")
            def _(c, cls=cls, dis=dis, meth=meth, sg=sg):
                x, t = c.value(cls), c.ddelta()
                m, d, n = c.parts(t)
                shift_case(c, x, c.call(x, meth, t, disambiguate=dis), m, d, 0, sg, dis, f"{cls}.{meth} delta")

            @entry("C08", f"{cls}.{meth}(days, nanoseconds) ({dis})")
            def _(c, cls=cls, dis=dis, meth=meth, sg=sg):
                x = c.value(cls)
                d, n = sym("arg.days"), sym("arg.ns_")
                shift_case(c, x, c.call(x, meth, days=d, nanoseconds=n, disambiguate=dis), Lin(0), d, n, sg, dis, f"{cls}.{meth} days and time")


def shift_case(c, x, res, m, d, n, sg, dis, lab):
    F = c.p.F
    w = F.norm(c.dt(x).w)
    o0 = lib.ord_of(c.I, w)
    then = scale(n, sg) if n else 0
    bad = []
    if c.I.truth(eq(m, 0)) and c.I.truth(eq(d, 0)):
        # no calendar shift: the moment stays
        if res.exc:
            if then == 0:
                return c.fail(f"{lab}: no shift, no exception", info=res)
            end = add(c.inst(x), then)
            return c.may_raise(f"{lab}: raises only if out of range", res, lt(then, -MAX_NS), lt(MAX_NS, then),
                               lt(end, MIN_INST + 2 * DAYNS), lt(MAX_INST - 2 * DAYNS, end))
        return c.eq(f"{lab}: no calendar shift keeps the moment (plus the exact time)", c.inst(res.v), add(c.inst(x), then))
    o, out = shifted(c, o0, scale(m, sg), scale(d, sg))
    W = add(sub(w, scale(o0, DAYUS)), scale(o, DAYUS))
    if res.exc and not res.isa("RepeatedTime", "SkippedTime") and out:
        bad = out
    check(c, res, x.cls.name, zid_of(c, x), W, c.ns(x), dis, lab, bad, then)


for bad in ("foo", "Earlier", "lat"):
    for cls in ("ZonedDateTime", "SystemDateTime"):
        @entry("C08", f"{cls}: disambiguate={bad!r}")
        def _(c, cls=cls, bad=bad):
            x = c.value(cls)
            k = c.choose(7, "operation")
            l = c.local("l", 0)
            a, ns, W = fields(c)
            c.I.assume(lt(MINW + 2 * DAYUS, c.dt(x).w))
            r = [lambda: c.new(cls, *a, nanosecond=ns, **KW[cls], disambiguate=bad),
                 lambda: c.call(l, ASSUME[cls], *(["Z"] if cls == "ZonedDateTime" else []), disambiguate=bad),
                 lambda: c.call(x, "replace", nanosecond=ns, disambiguate=bad),
                 lambda: c.call(x, "replace_date", c.date("b"), disambiguate=bad),
                 lambda: c.call(x, "replace_time", c.time("b"), disambiguate=bad),
                 lambda: c.call(x, "add", days=1, disambiguate=bad),
                 lambda: c.call(x, "subtract", months=1, disambiguate=bad)][k]()
            c.hold(f"{cls}: another setting is refused", r.exc is not None and r.isa("ValueError", "OverflowError"), info=r)
