"""C13: timestamps convert exactly in both directions."""
from ..dom import mk_fd, mk_mod
from .. import lib
from ..obl import entry
from .ops import *

UNITS_T = {"timestamp": NS, "timestamp_millis": 10**6, "timestamp_nanos": 1}


def kw(c, cls):
    return {"OffsetDateTime": {"offset": c.tdelta("arg.offset"), "ignore_dst": True}, "ZonedDateTime": {"tz": "Z"}}.get(cls, {})


def conds(c, cls, k, i):
    bad = [lt(i, MIN_INST), lt(MAX_INST, i)]
    if cls == "OffsetDateTime":
        o = c.total(k["offset"])
        w = add(i, o)
        bad += [lt(w, MIN_INST), lt(MAX_INST, w), le(DAYNS, o), le(o, -DAYNS), ne(mk_mod(c.p.F, o, NS), 0)]
    elif cls != "Instant":
        sec = mk_fd(c.p.F, i, NS)
        bad += [lt(sec, MIN_INST // NS + 2 * 86400), lt(MAX_INST // NS - 2 * 86400, sec)]
    return bad


for v in AWARE + ("foreign",):
    cls = "SystemDateTime" if v == "foreign" else v
    nm = "SystemDateTime (any offset)" if v == "foreign" else v
    for m, u in UNITS_T.items():
        @entry("C13", f"{nm}.{m}")
        def _(c, v=v, m=m, u=u, cls=cls):
            x = c.system_any() if v == "foreign" else c.value(v)
            r = c.call(x, m)
            if r.exc:
                return c.fail(f"{cls}.{m}: never raises", info=r)
            c.hold(f"{cls}.{m}: an integer", isinstance(r.v, (int, Lin)) and not isinstance(r.v, bool), info=r)
            c.eq(f"{cls}.{m}: the exact Unix time rounded down", r.v, mk_fd(c.p.F, sub(c.inst(x), UNIX), u))

        if v == "foreign":
            continue

        @entry("C13", f"{cls}.from_{m}")
        def _(c, cls=cls, m=m, u=u):
            t = sym("arg.ts")
            k = kw(c, cls)
            r = c.call(cls, "from_" + m, t, **k)
            i = add(scale(t, u), UNIX)
            lab = f"{cls}.from_{m}"
            if r.exc:
                return c.may_raise(f"{lab}: raises only if out of range", r, *conds(c, cls, k, i))
            if not c.is_(r.v, cls):
                return c.fail(f"{lab}: returns a {cls}", info=r)
            c.eq(f"{lab}: exactly that moment", c.inst(r.v), i)
            if cls == "OffsetDateTime":
                c.eq(f"{lab}: the requested offset", scale(c.off_us(r.v), 1000), c.total(k["offset"]))
            if cls == "ZonedDateTime":
                tz = c.dt(r.v).tz
                c.hold(f"{lab}: the requested timezone", tz is not None and tz.kind == "zone" and tz.zid == "Z", info=r)
            b = c.call(r.v, m)
            if b.exc:
                return c.fail(f"{cls}.{m} of from_{m}: never raises", info=b)
            c.eq(f"{cls}.{m} of from_{m}: the same number", b.v, t)

        if cls == "OffsetDateTime":
            @entry("C13", f"{cls}.from_{m} (offset in hours)")
            def _(c, cls=cls, m=m, u=u):
                t, h = sym("arg.ts"), sym("arg.offset_hours")
                r = c.call(cls, "from_" + m, t, offset=h, ignore_dst=True)
                i = add(scale(t, u), UNIX)
                o = scale(h, 3600 * NS)
                w = add(i, o)
                if r.exc:
                    return c.may_raise(f"OffsetDateTime.from_{m}: raises only if out of range", r, lt(i, MIN_INST), lt(MAX_INST, i), lt(w, MIN_INST),
                                       lt(MAX_INST, w), le(DAYNS, o), le(o, -DAYNS))
                c.eq(f"OffsetDateTime.from_{m}: exactly that moment", c.inst(r.v), i)
                c.eq(f"OffsetDateTime.from_{m}: the requested offset", scale(c.off_us(r.v), 1000), o)

    if v == "foreign":
        continue

    @entry("C13", f"{cls}.from_timestamp(float)")
    def _(c, cls=cls):
        t = lib.flt("arg.ts")
        k = kw(c, cls)
        r = c.call(cls, "from_timestamp", t, **k)
        lab = f"{cls}.from_timestamp(float)"
        exact = scale(t.num, NS)           # nanoseconds since 1970, times lib.FSCALE
        if r.exc:
            if not r.isa("ValueError", "OverflowError"):
                return c.fail(f"{lab}: raises only ValueError or OverflowError", info=r)
            i = add(mk_fd(c.p.F, exact, lib.FSCALE), UNIX)
            near = [x for b in conds(c, cls, k, i) for x in (b,)]
            return c.may_raise(f"{lab}: raises only if out of range", r, *near, lt(MAX_INST - 2, i), lt(i, MIN_INST + 2),
                               *([lt(MAX_INST - 2, add(i, c.total(k["offset"]))), lt(add(i, c.total(k["offset"])), MIN_INST + 2)]
                                 if cls == "OffsetDateTime" else []))
        got = scale(sub(c.inst(r.v), UNIX), lib.FSCALE)
        one = 2 * lib.FSCALE
        c.prove(f"{lab}: that moment, to the nanosecond", le(got, add(exact, one)), info=r)
        c.prove(f"{lab}: that moment, to the nanosecond", le(exact, add(got, one)), info=r)

    for m in ("timestamp_millis", "timestamp_nanos"):
        @entry("C13", f"{cls}.from_{m}(not an integer)")
        def _(c, cls=cls, m=m):
            k = {"OffsetDateTime": {"offset": 1, "ignore_dst": True}, "ZonedDateTime": {"tz": "Z"}}.get(cls, {})
            t = (1.5, 2.0, None, "3")[c.choose(4)]
            r = c.call(cls, "from_" + m, t, **k)
            c.hold(f"{cls}.from_{m}: only integers", r.exc is not None, info=r)
