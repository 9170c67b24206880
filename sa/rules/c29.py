"""C29: the difference of two dates in months and days, and in days."""
from ..dom import mk_cal, mk_dim, mk_fd, mk_mod, sub
from ..obl import entry
from .calspec import *


def two_dates(c, case):
    """dates a and b, with (year, month, day) of each; what the calendar says about their order:
    the later of two dates is not in an earlier month, and dates in one month are as far apart as their days"""
    F = c.p.F
    a, b = c.date("a"), c.date("b")
    oa, ob = c.ord(a), c.ord(b)
    if case == "the same month":
        at = [mk_cal(F, k, oa) for k in ("year", "month", "day")]
        bt = [mk_cal(F, k, ob) for k in ("year", "month", "day")]
        for x, y in zip(at, (bt[0], bt[1], add(bt[2], sub(oa, ob)))):
            F.rw[x.t[0][0][0]] = y
        F.rebase()
    ta, tb = ymd_of(c, oa), ymd_of(c, ob)
    D = F.norm(sub(add(scale(ta[0], 12), ta[1]), add(scale(tb[0], 12), tb[1])))
    if case == "a later month":
        c.I.assume(le(1, D))
        c.I.assume(lt(ob, oa))
    elif case == "an earlier month":
        c.I.assume(le(D, -1))
        c.I.assume(lt(oa, ob))
    return a, b, oa, ob, ta, tb, D


def clamped(c, day, y, m):
    dim = c.p.F.norm(mk_dim(c.p.F, y, m))
    return day if c.I.truth(le(day, dim)) else dim


for case, sg in (("a later month", 1), ("the same month", 0), ("an earlier month", -1)):
    @entry("C29", f"Date - Date in {case}")
    def _(c, case=case, sg=sg):
        a, b, oa, ob, (ya, ma, da), (yb, mb, db), D = two_dates(c, case)
        F = c.p.F
        lab = f"Date - Date in {case}"
        r = c.op("sub", a, b)
        if r.exc:
            return c.fail(f"{lab}: always defined", info=r)
        if not c.is_(r.v, "DateDelta"):
            return c.fail(f"{lab}: a DateDelta", info=r)
        m, d = c.months(r.v), c.days(r.v)
        if not sg:
            c.eq(f"{lab}: no months", m, 0)
            return c.eq(f"{lab}: the days between", d, sub(oa, ob))
        x = clamped(c, db, ya, ma)        # b's day in the month of a
        if c.I.truth(eq(m, D)):
            c.eq(f"{lab}: months and days lead from the second date to the first", d, sub(da, x))
            c.prove(f"{lab}: days with the sign of the months", le(0, scale(d, sg)), info=r)
            return
        if not c.I.truth(eq(m, sub(D, sg))):
            return c.fail(f"{lab}: as many months as possible", info=f"{r}, months apart {D!r}")
        c.prove(f"{lab}: as many months as possible", lt(scale(da, sg), scale(x, sg)), info=r)
        q = F.norm(sub(ma, 1 + sg))
        y2, m2 = F.norm(add(ya, mk_fd(F, q, 12))), F.norm(add(mk_mod(F, q, 12), 1))
        x2 = clamped(c, db, y2, m2)
        n = mk_dim(F, y2, m2) if sg > 0 else scale(mk_dim(F, ya, ma), -1)
        c.eq(f"{lab}: months and days lead from the second date to the first", d, add(sub(da, x2), n))
        c.prove(f"{lab}: days with the sign of the months", le(0, scale(d, sg)), info=r)
        c.prove(f"{lab}: months with the sign of the difference", le(0, scale(m, sg)), info=r)

for name, sg in (("days_until", 1), ("days_since", -1)):
    @entry("C29", f"Date.{name}")
    def _(c, name=name, sg=sg):
        a, b = c.date("a"), c.date("b")
        r = c.call(a, name, b)
        if r.exc:
            return c.fail(f"Date.{name}: always defined", info=r)
        c.eq(f"Date.{name}: the days between", c.num(r.v), scale(sub(c.ord(b), c.ord(a)), sg))
