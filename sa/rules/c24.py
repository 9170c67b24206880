"""C24: construction, arithmetic and decomposition of deltas are exact."""
from ..obl import entry
from .deltas import *

LIM = (MAX_MONTHS, MAX_DAYS, MAX_NS)


def excused(c, cls, exp):
    """split until it is known whether the exact result is not representable"""
    I = c.I
    m, d, n = exp
    for x, lim in ((m, MAX_MONTHS), (d, MAX_DAYS), (n, MAX_NS)):
        if I.truth(lt(lim, x)) or I.truth(lt(x, -lim)):
            return True
    pos = any([I.truth(lt(0, x)) for x in (m, d, n)])
    neg = any([I.truth(lt(x, 0)) for x in (m, d, n)])
    return pos and neg


def exact(c, res, cls, exp, lab):
    if res.exc:
        return c.hold(f"{lab}: refused only if the exact result is out of range or of mixed sign", excused(c, cls, exp), info=res)
    if not c.is_(res.v, cls):
        return c.fail(f"{lab}: returns a {cls}", info=res)
    for got, want, what in zip(c.parts(res.v), exp, ("months", "days", "nanoseconds")):
        c.eq(f"{lab}: exact {what}", got, want)


for name, result, fn in DOPS:
    @entry("C24", name)
    def _(c, fn=fn, result=result, name=name):
        res, exp = fn(c)
        exact(c, res, result, exp, name)


for dl in DELTAS:
    for b, kw in (("bool", "__bool__"),):
        @entry("C24", f"bool({dl})")
        def _(c, dl=dl):
            x = c.value(dl, "a")
            r = c.guard(lambda: c.I.truth(c.I.call(c.I.getattr(x, "__bool__"), [], {})))
            if r.exc:
                return c.fail("bool() never raises", info=r)
            ps = c.parts(x)
            if r.v:
                c.hold(f"bool({dl}) is true only of a nonzero delta", any([c.I.truth(ne(p, 0)) for p in ps]))
            else:
                for p in ps:
                    c.eq(f"bool({dl}) is false only of a zero delta", p, 0)

@entry("C24", "DateTimeDelta.date_part, time_part")
def _(c):
    x = c.dtdelta("a")
    d, t = c.call(x, "date_part"), c.call(x, "time_part")
    if d.exc or t.exc or not c.is_(d.v, "DateDelta") or not c.is_(t.v, "TimeDelta"):
        return c.fail("the parts are a DateDelta and a TimeDelta", info=(d, t))
    m, dd, n = c.parts(x)
    c.eq("date_part: months", c.months(d.v), m)
    c.eq("date_part: days", c.days(d.v), dd)
    c.eq("time_part: nanoseconds", c.total(t.v), n)


def tup(c, res, n, lab):
    v = res.v
    if res.exc or not isinstance(v, tuple) or len(v) != n:
        c.fail(f"{lab}: returns {n} integers", info=res)
        return None
    out = []
    for x in v:
        if not isinstance(x, (int, Lin)) or isinstance(x, bool):
            c.fail(f"{lab}: returns {n} integers", info=res)
            return None
        out.append(c.num(x))
    return out


def signed_parts(c, lab, total, parts, weights, bounds):
    """the parts recompose to the total; parts[i] in 0..bounds[i]-1 with the sign of the total"""
    s = Lin(0)
    for p, w in zip(parts, weights):
        s = add(s, p, w)
    c.eq(f"{lab}: components recompose to the value", s, total)
    if c.I.truth(le(0, total)):
        for p, b in zip(parts, bounds):
            c.prove(f"{lab}: components have the sign of the value", le(0, p), info=f"{p!r} >= 0")
            if b:
                c.prove(f"{lab}: components are in the range of their unit", lt(p, b), info=f"{p!r} < {b}")
    else:
        for p, b in zip(parts, bounds):
            c.prove(f"{lab}: components have the sign of the value", le(p, 0), info=f"{p!r} <= 0")
            if b:
                c.prove(f"{lab}: components are in the range of their unit", lt(-b, p), info=f"{p!r} > {-b}")


@entry("C24", "TimeDelta.in_hrs_mins_secs_nanos")
def _(c):
    x = c.tdelta("a")
    v = tup(c, c.call(x, "in_hrs_mins_secs_nanos"), 4, "in_hrs_mins_secs_nanos")
    if v:
        signed_parts(c, "in_hrs_mins_secs_nanos", c.total(x), v, (3600 * NS, 60 * NS, NS, 1), (None, 60, 60, NS))


@entry("C24", "TimeDelta.in_nanoseconds")
def _(c):
    x = c.tdelta("a")
    r = c.call(x, "in_nanoseconds")
    if r.exc or not isinstance(r.v, (int, Lin)):
        return c.fail("in_nanoseconds returns an integer", info=r)
    c.eq("in_nanoseconds: exact", r.v, c.total(x))


@entry("C24", "DateDelta.in_months_days")
def _(c):
    x = c.ddelta("a")
    v = tup(c, c.call(x, "in_months_days"), 2, "in_months_days")
    if v:
        c.eq("in_months_days: months", v[0], c.months(x))
        c.eq("in_months_days: days", v[1], c.days(x))


@entry("C24", "DateDelta.in_years_months_days")
def _(c):
    x = c.ddelta("a")
    v = tup(c, c.call(x, "in_years_months_days"), 3, "in_years_months_days")
    if v:
        signed_parts(c, "in_years_months_days", c.months(x), v[:2], (12, 1), (None, 12))
        c.eq("in_years_months_days: days", v[2], c.days(x))


@entry("C24", "DateTimeDelta.in_months_days_secs_nanos")
def _(c):
    x = c.dtdelta("a")
    v = tup(c, c.call(x, "in_months_days_secs_nanos"), 4, "in_months_days_secs_nanos")
    if v:
        m, d, n = c.parts(x)
        c.eq("in_months_days_secs_nanos: months", v[0], m)
        c.eq("in_months_days_secs_nanos: days", v[1], d)
        signed_parts(c, "in_months_days_secs_nanos", n, v[2:], (NS, 1), (None, NS))


def quotient(c, op):
    neg = c.choose(2) == 1
    x = c.tdelta("a")
    y = c.tdelta("bn", lo=-MAX_NS, hi=-1) if neg else c.tdelta("bp", lo=0, hi=MAX_NS)
    a, b = c.total(x), c.total(y)
    r = c.op(op, x, y)
    if r.exc:
        c.may_raise(f"TimeDelta {op}: raises only for a zero divisor", r, eq(b, 0))
        return c.hold(f"TimeDelta {op}: raises ZeroDivisionError", r.isa("ZeroDivisionError"), info=r)
    return x, y, a, b, r.v, neg


@entry("C24", "TimeDelta // TimeDelta")
def _(c):
    q = quotient(c, "floordiv")
    if q:
        x, y, a, b, v, neg = q
        from ..lib import fdv
        c.eq("TimeDelta // TimeDelta: floor of the exact quotient", v, fdv(c.I, a, b))


@entry("C24", "TimeDelta % TimeDelta")
def _(c):
    q = quotient(c, "mod")
    if q:
        x, y, a, b, v, neg = q
        if not c.is_(v, "TimeDelta"):
            return c.fail("TimeDelta % TimeDelta returns a TimeDelta", info=v)
        from ..dom import mul
        from ..lib import fdv
        c.eq("TimeDelta % TimeDelta: exact remainder", c.total(v), sub(a, mul(b, fdv(c.I, a, b))))


def const_attr(cls, name, want):
    @entry("C24", f"{cls}.{name}")
    def _(c):
        r = c.get(cls, name)
        if r.exc or not c.is_(r.v, cls):
            return c.fail(f"{cls}.{name} is a {cls}", info=r)
        for got, w in zip(c.parts(r.v), want):
            c.eq(f"{cls}.{name}: documented value", got, w)


for cls in DELTAS:
    const_attr(cls, "ZERO", (0, 0, 0))
const_attr("TimeDelta", "MIN", (0, 0, -MAX_NS))
const_attr("TimeDelta", "MAX", (0, 0, MAX_NS))


for _name, _unit in (("in_days_of_24h", 86400 * NS), ("in_hours", 3600 * NS), ("in_minutes", 60 * NS), ("in_seconds", NS),
                     ("in_milliseconds", 10**6), ("in_microseconds", 1000)):
    @entry("C24", f"TimeDelta.{_name}")
    def _(c, name=_name, unit=_unit):
        from math import ceil
        from ..vals import FloatSym, FloatV
        top = (MAX_NS, 2**40)[c.choose(2)]
        x = c.tdelta("a" if top == MAX_NS else "s", lo=-top, hi=top)
        r = c.call(x, name)
        if not isinstance(r.v, (int, Lin, FloatV, FloatSym)) or isinstance(r.v, bool):
            return c.fail(f"{name} returns a number", info=r)
        if isinstance(r.v, FloatSym):
            return c.undecided(f"{name}: the exact ratio, up to rounding of the float", f"{r.v!r}")
        num, den, err = (r.v.num, r.v.den, r.v.err) if isinstance(r.v, FloatV) else (L(r.v), 1, 0.0)
        room = top / unit * 2.0**-49
        if err > room:
            return c.undecided(f"{name}: the exact ratio, up to rounding of the float", f"{r.v!r}")
        # |num/den - total/unit| <= room
        d = sub(scale(num, unit), scale(c.total(x), den))
        most = ceil(room * den * unit)
        c.within(f"{name}: the exact ratio, up to rounding of the float", d, -most, most)


@entry("C24", "TimeDelta / TimeDelta")
def _(c):
    from ..vals import FloatSym
    q = quotient(c, "truediv")
    if q:
        x, y, a, b, v, neg = q
        want = f"({a!r}/{b!r})"
        if isinstance(v, FloatSym) and v.name == want:
            return c.hold("TimeDelta / TimeDelta: the ratio of the totals in one division", True)
        if isinstance(v, (int, Lin)):
            return c.fail("TimeDelta / TimeDelta is a float", info=v)
        c.undecided("TimeDelta / TimeDelta: the ratio of the totals in one division", f"{v!r}, not {want}")


# ------------------------------------------------------------------ fractional components
FUNITS = {"hours": 3600 * NS, "minutes": 60 * NS, "seconds": NS, "milliseconds": 10**6, "microseconds": 1000}


def whole(c, lab, r):
    """the result holds a whole number of nanoseconds"""
    from ..vals import FloatSym, FloatV
    v = r.v.f.get(c.P.roles["TimeDelta"]["ns"]) if c.is_(r.v, "TimeDelta") else r.v
    if isinstance(v, (float, FloatSym, FloatV)) or not c.is_(r.v, "TimeDelta"):
        c.fail(f"{lab}: a whole number of nanoseconds", info=r)
        return None
    return c.total(r.v)


for _k, _u in FUNITS.items():
    for _how in ("TimeDelta", "function"):
        @entry("C24", f"{_k} as float, {_how}")
        def _(c, k=_k, u=_u, how=_how):
            small = c.choose(2)
            # small: the product of the doubles is off by less than half a nanosecond
            x = lib.flt(f"arg.few.{k}", 2**52 // u) if small else lib.flt(f"arg.some.{k}", 2 * MAX_NS // u)
            r = c.new("TimeDelta", **{k: x}) if how == "TimeDelta" else c.func(k, x)
            lab = f"{k} as float"
            exact = scale(x.num, u)            # nanoseconds, times lib.FSCALE
            if r.exc:
                room = (4 if small else MAX_NS // 2**40) * lib.FSCALE
                return c.may_raise(f"{lab}: ValueError only if out of range", r,
                                   *([lt(MAX_NS * lib.FSCALE - room, exact), lt(exact, room - MAX_NS * lib.FSCALE)] if r.isa("ValueError") else []))
            t = whole(c, lab, r)
            if t is not None and small:
                one = 2 * lib.FSCALE
                c.prove(f"{lab}: that duration, to the nanosecond", le(scale(t, lib.FSCALE), add(exact, one)), info=r)
                c.prove(f"{lab}: that duration, to the nanosecond", le(exact, add(scale(t, lib.FSCALE), one)), info=r)


for _op in ("mul", "rmul", "truediv"):
    @entry("C24", f"TimeDelta {_op} float")
    def _(c, op=_op):
        x, y = c.tdelta("a"), lib.flt("arg.x")
        r = c.op("mul", y, x) if op == "rmul" else c.op(op, x, y)
        lab = f"TimeDelta {op} float"
        if r.exc:
            return c.hold(f"{lab}: raises only ValueError or ZeroDivisionError", r.isa("ValueError", "ZeroDivisionError"), info=r)
        if whole(c, lab, r) is not None:
            c.hold(f"{lab}: a whole number of nanoseconds", True)
