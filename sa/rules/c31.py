"""C31: RFC 2822 text and strptime: what the codecs of the standard library decode is what the value has."""
from ..dom import mk_cal, mk_fd, mk_mod
from ..lib import MONTHS, WEEKDAYS, decoded
from ..obl import entry
from ..text import *
from .ops import *

SHORT = "Sat, 15 Aug 2020 23:12:00"
TEXTS = (SHORT + " GMT", SHORT + " -0000", SHORT + " +0000", SHORT, SHORT + " +0230", "nonsense")


def rfc_text(c, x):
    F, d = c.p.F, c.dt(x)
    o = mk_fd(F, d.w, DAYUS)
    y, m, dd = (F.norm(mk_cal(F, k, o)) for k in ("year", "month", "day"))
    t = [WEEKDAYS[c.I.const_int(F.norm(mk_mod(F, add(o, Lin(6)), 7)))][:3], ", ", Dec(dd, 2), " ",
         MONTHS[c.I.const_int(m) - 1][:3], " ", Dec(y, 4), " "]
    t += hms_text(c, mk_fd(F, mk_mod(F, d.w, DAYUS), 10**6)) + [" "]
    if c.is_(x, "Instant"):
        return t + ["GMT"]
    secs = F.norm(mk_fd(F, c.off_us(x), 10**6))
    return t + [p for p in off_text(c, secs) if p != ":"]


for cls in ("Instant", "OffsetDateTime"):
    @entry("C31", f"{cls}.format_rfc2822")
    def _(c, cls=cls):
        x = c.value(cls)
        r = c.call(x, "format_rfc2822")
        if r.exc:
            return c.fail(f"{cls}.format_rfc2822: every value can be written", info=r)
        same_text(c, f"{cls}.format_rfc2822", r.v, rfc_text(c, x))

    @entry("C31", f"{cls}.parse_rfc2822")
    def _(c, cls=cls):
        s = c.pick(TEXTS)
        r = c.call(cls, "parse_rfc2822", s)
        d = decoded(c.I, "rfc2822", lambda: c.undecided(f"{cls}.parse_rfc2822: decodes with email.utils"), s)
        lab = f"{cls}.parse_rfc2822"
        if cls == "Instant":
            ok = d is not None and (d.tz is UTC or d.tz is None and "-0000" in s)
        else:
            ok = d is not None and d.tz is not None
        result(c, lab, cls, r, d, ok)


def result(c, lab, cls, r, d, ok):
    """r: the outcome; d: what the standard library decodes (None: rejected); ok: of the right kind"""
    if not ok:
        if not r.exc:
            return c.fail(f"{lab}: ValueError for text that is not of this type", info=r)
        return c.hold(f"{lab}: ValueError for text that is not of this type", r.isa("ValueError"))
    o = Lin(0) if d.tz is None else lib.off_us(c.I, d)
    bad = []
    if cls == "OffsetDateTime":
        u = sub(d.w, o)
        bad = [lt(u, MINW), lt(MAXW, u), ne(mk_mod(c.p.F, o, 10**6), 0)]
    if r.exc:
        if not r.isa("ValueError"):
            return c.fail(f"{lab}: ValueError only", info=r)
        return c.may_raise(f"{lab}: accepts what the standard library decodes", r, *bad)
    if not c.is_(r.v, cls):
        return c.fail(f"{lab}: a value of the class", info=r)
    for b in bad:
        c.prove(f"{lab}: rejects instants outside the range and sub-second offsets", c.I.not_(b), info=r)
    F = c.p.F
    c.eq(f"{lab}: the wall time decoded", c.wall_ns(r.v), scale(d.w, 1000))
    if cls == "OffsetDateTime":
        c.eq(f"{lab}: the offset decoded", c.off_us(r.v), o)


for cls in ("LocalDateTime", "OffsetDateTime"):
    @entry("C31", f"{cls}.strptime")
    def _(c, cls=cls):
        s, f = "2020-08-15 23:12", "%Y-%m-%d %H:%M"
        r = c.call(cls, "strptime", s, f)
        d = decoded(c.I, "strptime", lambda: c.undecided(f"{cls}.strptime: decodes with datetime.strptime"), s, f)
        ok = d is not None and (d.tz is None) == (cls == "LocalDateTime")
        result(c, f"{cls}.strptime", cls, r, d, ok)
