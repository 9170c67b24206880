"""Catalogue of the operations that produce deltas (C04, C24, C25)."""
from ..model import *

TU = {"hours": 3600 * NS, "minutes": 60 * NS, "seconds": NS, "milliseconds": 10**6, "microseconds": 1000, "nanoseconds": 1}
DU = {"years": (12, 0), "months": (1, 0), "weeks": (0, 7), "days": (0, 1)}
DELTAS = ("TimeDelta", "DateDelta", "DateTimeDelta")

DOPS = []    # (name, result class, fn) ; fn(c) -> (result, expected (months, days, ns) or None)


def dop(name, result):
    def deco(f):
        DOPS.append((name, result, f))
        return f
    return deco


def zero():
    return [Lin(0), Lin(0), Lin(0)]


def kwargs(c, names):
    kw, tot = {}, zero()
    for n in names:
        v = kw[n] = sym(f"arg.{n}")
        if n in TU:
            tot[2] = add(tot[2], v, TU[n])
        else:
            m, d = DU[n]
            tot[0] = add(tot[0], v, m)
            tot[1] = add(tot[1], v, d)
    return kw, tuple(tot)


for cls, names in (("TimeDelta", tuple(TU)), ("DateDelta", tuple(DU)), ("DateTimeDelta", tuple(DU) + tuple(TU))):
    @dop(f"{cls}(all units)", cls)
    def _(c, cls=cls, names=names):
        kw, tot = kwargs(c, names)
        return c.new(cls, **kw), tot

    for n in names:
        @dop(f"{cls}({n}=...)", cls)
        def _(c, cls=cls, n=n):
            kw, tot = kwargs(c, (n,))
            return c.new(cls, **kw), tot

    @dop(f"{cls}()", cls)
    def _(c, cls=cls):
        return c.new(cls), tuple(zero())

for n in list(TU) + list(DU):
    @dop(f"{n}()", "TimeDelta" if n in TU else "DateDelta")
    def _(c, n=n):
        kw, tot = kwargs(c, (n,))
        return c.func(n, kw[n]), tot

PLUS = {("TimeDelta", "TimeDelta"): "TimeDelta", ("DateDelta", "DateDelta"): "DateDelta"}
for a in DELTAS:
    for b in DELTAS:
        for o, sg in (("add", 1), ("sub", -1)):
            r = PLUS.get((a, b), "DateTimeDelta")

            @dop(f"{a} {'+' if sg > 0 else '-'} {b}", r)
            def _(c, a=a, b=b, o=o, sg=sg):
                x, y = c.value(a, "a"), c.value(b, "b")
                return c.op(o, x, y), tuple(add(p, q, sg) for p, q in zip(c.parts(x), c.parts(y)))

for a in DELTAS:
    for form in ("left", "right"):
        @dop(f"{a} * int ({form})", a)
        def _(c, a=a, form=form):
            x, n = c.value(a, "a"), sym("arg.factor")
            r = c.op("mul", x, n) if form == "left" else c.op("mul", n, x)
            from ..dom import mul
            return r, tuple(mul(p, n) for p in c.parts(x))

    @dop(f"-{a}", a)
    def _(c, a=a):
        x = c.value(a, "a")
        return c.unary("neg", x), tuple(scale(p, -1) for p in c.parts(x))

    @dop(f"+{a}", a)
    def _(c, a=a):
        x = c.value(a, "a")
        return c.call(x, "__pos__"), c.parts(x)

    @dop(f"abs({a})", a)
    def _(c, a=a):
        if a == "TimeDelta":
            neg = c.choose(2) == 1
            x = c.tdelta("an", lo=-MAX_NS, hi=-1) if neg else c.tdelta("ap", lo=0, hi=MAX_NS)
            sg = -1 if neg else 1
        else:
            sg = (1, -1)[c.choose(2)]
            x = (c.ddelta if a == "DateDelta" else c.dtdelta)("a", sg)
        return c.unary("abs", x), tuple(scale(p, sg) for p in c.parts(x))


@dop("TimeDelta.from_py_timedelta", "TimeDelta")
def _(c):
    t = sym("py.us", -86399999913600000000, 86399999999999999999)
    return c.call("TimeDelta", "from_py_timedelta", TD(t)), (Lin(0), Lin(0), scale(t, 1000))
