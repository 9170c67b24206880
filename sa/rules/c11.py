"""C11: equality, ordering and hashing agree and use the right key."""
from .. import lib
from ..obl import entry
from .ops import *

OPN = {"eq": eq, "ne": ne, "lt": lt, "le": le, "gt": lambda a, b: lt(b, a), "ge": lambda a, b: le(b, a)}


def key(c, v):
    n = v.cls.name
    if n in AWARE:
        return c.inst(v)
    if n in ("Date", "YearMonth", "MonthDay"):
        return c.ord(v)
    if n in ("Time", "LocalDateTime"):
        return c.wall_ns(v)
    return c.total(v)


def same_key(c, x, y):
    """assume the two values equal"""
    n = x.cls.name
    if n in AWARE:
        c.I.assume(eq(c.ns(x), c.ns(y)))
        a, b = (lib.inst_us(c.I, c.dt(v)) for v in (x, y))
        c.I.assume(eq(a, b))
    elif n in ("Time", "LocalDateTime"):
        c.I.assume(eq(c.ns(x), c.ns(y)))
        a, b = (c.f(v, "tm").u if n == "Time" else c.dt(v).w for v in (x, y))
        c.I.assume(eq(a, b))
    elif n in ("DateDelta", "DateTimeDelta"):
        for a, b in zip(c.parts(x), c.parts(y)):
            c.I.assume(eq(a, b))
    else:
        c.I.assume(eq(key(c, x), key(c, y)))


def pair(c, a, b):
    mk = lambda t, n: c.system_any(n) if t == "foreign" else c.local(n, c.choose(2)) if t == "LocalDateTime" else c.value(t, n)
    return mk(a, "a"), mk(b, "b")


KINDS = AWARE + ("foreign",)
PAIRS = [(a, b) for a in KINDS for b in KINDS] + [(t, t) for t in ("Date", "YearMonth", "MonthDay", "Time", "LocalDateTime", "TimeDelta")]
NAME = {"foreign": "SystemDateTime (any offset)"}

for a, b in PAIRS:
    for op in OPN:
        @entry("C11", f"{NAME.get(a, a)} {op} {NAME.get(b, b)}")
        def _(c, a=a, b=b, op=op):
            x, y = pair(c, a, b)
            r = c.op(op, x, y)
            lab = f"{op} compares by the key"
            if r.exc:
                return c.fail(f"{lab}: no exception", info=r)
            v = c.I.truth(r.v)
            k1, k2 = key(c, x), key(c, y)
            if op in ("eq", "ne") and a not in ("Date", "YearMonth", "MonthDay", "TimeDelta"):
                # the parts above the second decide first
                s1, s2 = (sub(k, c.ns(z)) for k, z in ((k1, x), (k2, y)))
                n1, n2 = c.ns(x), c.ns(y)
                c.I.truth(lt(s1, s2)) or c.I.truth(lt(s2, s1)) or c.I.truth(lt(n1, n2)) or c.I.truth(lt(n2, n1))
            cond = OPN[op](k1, k2)
            c.prove(lab, cond if v else c.I.not_(cond), info=f"{r.v!r} for {k1!r} {op} {k2!r}")

    @entry("C11", f"hash({NAME.get(a, a)}) and hash({NAME.get(b, b)})")
    def _(c, a=a, b=b):
        x, y = pair(c, a, b)
        same_key(c, x, y)
        hashes(c, x, y)


def hashes(c, x, y):
    h = [c.guard(lambda v=v: c.I.call(c.I.builtins["hash"], [v], {})) for v in (x, y)]
    for r in h:
        if r.exc:
            return c.fail("equal values have equal hashes: hashable", info=r)
    e = c.op("eq", h[0].v, h[1].v)
    if e.exc:
        return c.fail("equal values have equal hashes", info=e)
    c.prove("equal values have equal hashes", e.v, info=f"{h[0].v!r} vs {h[1].v!r}")


for t in ("DateDelta", "DateTimeDelta"):
    for op in ("eq", "ne"):
        @entry("C11", f"{t} {op} {t}")
        def _(c, t=t, op=op):
            x, y = c.value(t, "a"), c.value(t, "b")
            r = c.op(op, x, y)
            if r.exc:
                return c.fail(f"{op} compares all components: no exception", info=r)
            v = c.I.truth(r.v)
            ps = list(zip(c.parts(x), c.parts(y)))
            if v == (op == "eq"):
                for p, q in ps:
                    c.prove(f"{op} compares all components", eq(p, q), info=f"{r.v!r}")
            else:
                c.prove(f"{op} compares all components", *[ne(p, q) for p, q in ps], info=f"{r.v!r}")

    @entry("C11", f"hash({t})")
    def _(c, t=t):
        x, y = c.value(t, "a"), c.value(t, "b")
        same_key(c, x, y)
        hashes(c, x, y)
