"""C05: adding exact time shifts the instant by exactly that amount."""
from .. import lib
from ..model import *
from ..obl import entry

UNITS = {"hours": 3600 * NS, "minutes": 60 * NS, "seconds": NS, "milliseconds": 10**6, "microseconds": 1000, "nanoseconds": 1}


def units(c):
    kw, tot = {}, Lin(0)
    for n, k in UNITS.items():
        v = sym(f"arg.{n}")
        kw[n] = v
        tot = add(tot, v, k)
    return kw, tot


def outside(c, x, target, shift):
    """conditions under which the result cannot be represented"""
    conds = [lt(shift, -MAX_NS), lt(MAX_NS, shift), lt(target, MIN_INST), lt(MAX_INST, target)]
    n = x.cls.name
    if n in ("ZonedDateTime", "SystemDateTime"):
        # the local time is out of range too, for some offset
        conds += [lt(target, MIN_INST + DAYNS), lt(MAX_INST - DAYNS, target)]
    elif n == "OffsetDateTime":
        w = add(target, scale(c.off_us(x), 1000))
        conds += [lt(w, MIN_INST), lt(MAX_INST, w)]
    return conds


def check_shift(c, x, res, shift, label):
    n = x.cls.name
    if n == "LocalDateTime":
        target = add(c.wall_ns(x), shift)
        if res.exc:
            return c.may_raise(f"{label}: exception only if the result is out of range", res,
                               lt(shift, -MAX_NS), lt(MAX_NS, shift), lt(target, MIN_INST), lt(MAX_INST, target))
        c.hold(f"{label}: returns a {n}", c.is_(res.v, n), info=res)
        return c.eq(f"{label}: wall clock moves by exactly the total", c.wall_ns(res.v), target)
    target = add(c.inst(x), shift)
    if res.exc:
        return c.may_raise(f"{label}: exception only if the result is out of range", res, *outside(c, x, target, shift))
    if not c.is_(res.v, n):
        return c.fail(f"{label}: returns a {n}", info=res)
    c.eq(f"{label}: instant moves by exactly the total", c.inst(res.v), target)
    if n == "OffsetDateTime":
        c.eq(f"{label}: offset kept", c.off_us(res.v), c.off_us(x))
    if n == "ZonedDateTime":
        a, b = c.dt(x).tz, c.dt(res.v).tz
        c.hold(f"{label}: timezone kept", b.kind == "zone" and a.zid == b.zid, info=f"{a} vs {b}")


EXTRA = {"Instant": {}, "OffsetDateTime": {"ignore_dst": True}, "ZonedDateTime": {}, "SystemDateTime": {},
         "LocalDateTime": {"ignore_dst": True}}


def mk(cls, meth, sg):
    @entry("C05", f"{cls}.{meth}(hours=..., ..., nanoseconds=...)")
    def kwargs(c):
        x = c.value(cls)
        kw, tot = units(c)
        check_shift(c, x, c.call(x, meth, **kw, **EXTRA[cls]), scale(tot, sg), f"{cls}.{meth} keywords")

    for u, k in UNITS.items():
        @entry("C05", f"{cls}.{meth}({u}=...)")
        def one(c, u=u, k=k):
            x = c.value(cls)
            v = sym(f"arg.{u}")
            check_shift(c, x, c.call(x, meth, **{u: v}, **EXTRA[cls]), scale(v, sg * k), f"{cls}.{meth} one keyword")

    if cls != "Instant":
        @entry("C05", f"{cls}.{meth}(TimeDelta)")
        def pos(c):
            x, t = c.value(cls), c.tdelta()
            check_shift(c, x, c.call(x, meth, t, **EXTRA[cls]), scale(c.total(t), sg), f"{cls}.{meth} delta")


for cls in DATETIMES:
    mk(cls, "add", 1)
    mk(cls, "subtract", -1)

for cls in ("Instant", "ZonedDateTime", "SystemDateTime"):
    for op, sg in (("add", 1), ("sub", -1)):
        @entry("C05", f"{cls} {'+' if sg > 0 else '-'} TimeDelta")
        def oper(c, cls=cls, op=op, sg=sg):
            x, t = c.value(cls), c.tdelta()
            check_shift(c, x, c.op(op, x, t), scale(c.total(t), sg), f"{cls} {op}")

for a in AWARE:
    for b in AWARE:
        for form in ("-", "difference"):
            @entry("C05", f"{a} {form} {b}")
            def diff(c, a=a, b=b, form=form):
                x, y = c.value(a, "a"), c.value(b, "b")
                r = c.op("sub", x, y) if form == "-" else c.call(x, "difference", y)
                lab = f"{a} {form} {b}"
                if r.exc:
                    return c.fail(f"{lab}: never raises", info=r)
                if not c.is_(r.v, "TimeDelta"):
                    return c.fail(f"{lab}: returns a TimeDelta", info=r)
                c.eq(f"{lab}: exactly the elapsed nanoseconds", c.total(r.v), sub(c.inst(x), c.inst(y)))


@entry("C05", "LocalDateTime.difference")
def ldiff(c):
    x, y = c.local("a", c.choose(2)), c.local("b", 0)
    r = c.call(x, "difference", y, ignore_dst=True)
    if r.exc:
        return c.fail("LocalDateTime.difference: never raises", info=r)
    c.eq("LocalDateTime.difference: exactly the elapsed nanoseconds", c.total(r.v), sub(c.wall_ns(x), c.wall_ns(y)))


# ------------------------------------------------------------------ fractional amounts
def mk_float(cls, meth, sg, u, k):
    @entry("C05", f"{cls}.{meth}({u}=float)")
    def _(c):
        x = c.value(cls)
        # few: the product of the doubles is off by less than half a nanosecond
        v = lib.flt(f"arg.few.{u}", 2**52 // k)
        r = c.call(x, meth, **{u: v}, **EXTRA[cls])
        lab = f"{cls}.{meth} of a float"
        exact = scale(v.num, sg * k)            # nanoseconds, times lib.FSCALE
        pos = c.wall_ns if cls == "LocalDateTime" else c.inst
        if r.exc:
            if not r.isa("ValueError", "OverflowError"):
                return c.fail(f"{lab}: raises only ValueError or OverflowError", info=r)
            t = add(scale(pos(x), lib.FSCALE), exact)

            def outside(t, room=4):
                return [lt(t, (MIN_INST + room) * lib.FSCALE), lt((MAX_INST - room) * lib.FSCALE, t)]
            conds = outside(t)
            if cls in ("ZonedDateTime", "SystemDateTime"):
                conds += outside(t, DAYNS + 4)
            elif cls == "OffsetDateTime":
                conds += outside(add(t, scale(c.off_us(x), 1000 * lib.FSCALE)))
            return c.may_raise(f"{lab}: exception only if the result is out of range", r, *conds)
        if not c.is_(r.v, cls):
            return c.fail(f"{lab}: returns a {cls}", info=r)
        got, one = scale(sub(pos(r.v), pos(x)), lib.FSCALE), 2 * lib.FSCALE
        c.prove(f"{lab}: moves by that amount, to the nanosecond", le(got, add(exact, one)), info=r)
        c.prove(f"{lab}: moves by that amount, to the nanosecond", le(exact, add(got, one)), info=r)


for cls in DATETIMES:
    for u, k in UNITS.items():
        if u != "nanoseconds":
            mk_float(cls, "add", 1, u, k)
            mk_float(cls, "subtract", -1, u, k)
