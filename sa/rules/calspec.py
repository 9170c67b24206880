"""Expected results of calendar arithmetic."""
from .. import lib
from ..dom import mk_cal, mk_dim, mk_fd, mk_mod, mk_ymd
from ..model import *

DATE_UNITS = ("years", "months", "weeks", "days")
DAYUS_ = lib.DAYUS


def ymd_of(c, o):
    F = c.p.F
    o = F.norm(o)
    y, m, d = (mk_cal(F, k, o) for k in ("year", "month", "day"))
    c.I.assume(le(d, mk_dim(F, y, m)))
    return y, m, d


def shifted(c, o, months, days):
    """(ordinal after months and days, conditions under which there is none)"""
    F = c.p.F
    y, m, d = ymd_of(c, o)
    q = F.norm(add(sub(m, 1), months))
    y2 = F.norm(add(y, mk_fd(F, q, 12)))
    m2 = F.norm(add(mk_mod(F, q, 12), 1))
    dim = F.norm(mk_dim(F, y2, m2))
    bad = [lt(y2, 1), lt(9999, y2)]
    if c.I.truth(lt(d, dim)) or c.I.truth(le(d, dim)):
        d2 = d
    else:
        d2 = dim
    o1 = F.norm(mk_ymd(F, y2, m2, d2))
    if F.norm(months) == Lin(0):
        o1 = F.norm(o)
    o2 = F.norm(add(o1, days))
    return o2, bad + [lt(o2, 1), lt(3652059, o2)]
