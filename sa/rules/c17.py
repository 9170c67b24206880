"""C17: what a parser returns is what the text says."""
from .. import lib
from ..dom import mk_dim, mk_ymd
from ..obl import entry
from .ops import *

FRACS = range(10)      # number of fraction digits


class Text:
    """a text under construction, with what it means"""

    def __init__(self, c):
        self.c, self.p, self.bad = c, [], []

    def lit(self, s):
        self.p.append(s)
        return self

    def num(self, name, width, lo, hi):
        v = self.c.s(f"text.{name}{width}", 0, 10 ** width - 1)
        self.p.append(Dec(v, width))
        self.bad += [lt(v, lo), lt(hi, v)]
        return v

    def date(self, month_day=False, year_month=False):
        F = self.c.p.F
        y = Lin(4) if month_day else self.num("year", 4, 1, 9999)
        self.lit("--" if month_day else "-")
        m = self.num("month", 2, 1, 12)
        if year_month:
            d = Lin(1)
        else:
            self.lit("-")
            d = self.num("day", 2, 1, 31)
            self.bad.append(lt(mk_dim(F, y, m), d))
        self.y, self.m, self.d = y, m, d
        return self

    def ordinal(self):
        return mk_ymd(self.c.p.F, self.y, self.m, self.d)

    def time(self, k):
        h = self.num("hour", 2, 0, 23)
        self.lit(":")
        mi = self.num("minute", 2, 0, 59)
        self.lit(":")
        s = self.num("second", 2, 0, 59)
        self.ns = Lin(0)
        if k:
            self.lit(".")
            f = self.num("fraction", k, 0, 10 ** k - 1)
            self.ns = scale(f, 10 ** (9 - k))
        self.us = scale(add(add(scale(h, 3600), scale(mi, 60)), s), 10**6)
        return self

    def offset(self, form):
        """form: 'Z' or (sign, with seconds)"""
        if isinstance(form, str):
            self.lit(form)
            self.off = Lin(0)
            return self
        sign, secs = form
        self.lit(sign)
        h = self.num("offset_hours", 2, 0, 23)
        self.lit(":")
        m = self.num("offset_minutes", 2, 0, 59)
        o = add(scale(h, 3600), scale(m, 60))
        if secs:
            self.lit(":")
            o = add(o, self.num("offset_seconds", 2, 0, 59))
        self.off = scale(o, -10**6 if sign == "-" else 10**6)
        return self

    def utc(self, w):
        u = sub(w, self.off)
        self.bad += [lt(u, MINW), lt(MAXW, u)]

    def text(self):
        return StrV(self.p)


def check(c, t, cls, r, lab, offset=None, zid=None):
    if r.exc:
        far = []
        if cls == "ZonedDateTime":
            # no timezone changes its offset within two days of the limits of the range
            w = add(scale(t.ordinal(), DAYUS), t.us)
            far = [lt(w, MINW + 2 * DAYUS), lt(MAXW - 2 * DAYUS, w)]
        if not r.isa("ValueError"):
            return c.may_raise(f"{lab}: fails with ValueError", r, *far)
        if cls == "ZonedDateTime" and not all(c.I.decide(b) is False for b in t.bad):
            # with valid fields, the offset must not be one of the timezone's
            ok = all(not c.I.truth(b) for b in t.bad)
            if not ok:
                return
        elif cls != "ZonedDateTime":
            return c.may_raise(f"{lab}: fails only if a field is out of range", r, *t.bad)
        k = lib.resolve_kind(c.I, zid, w)
        if k == "gap":
            return
        for f in ((0, 1) if k == "fold" else (0,)):
            c.may_raise(f"{lab}: fails only if the timezone does not have the offset then", r,
                        ne(scale(lib.off(c.I, zid, w, f), 10**6), t.off), *far)
        return
    x = r.v
    if not c.is_(x, cls):
        return c.fail(f"{lab}: returns a {cls}", info=r)
    # out of range fields were not accepted
    for b in t.bad:
        if not isinstance(b, bool):
            c.prove(f"{lab}: accepts only fields in range", b.neg(), info=r)
    if cls in ("Date", "YearMonth", "MonthDay"):
        return c.eq(f"{lab}: the date", c.ord(x), t.ordinal())
    c.eq(f"{lab}: the fraction", c.ns(x), t.ns)
    if cls == "Time":
        return c.eq(f"{lab}: the time of day", c.f(x, "tm").u, t.us)
    c.eq(f"{lab}: date and time", c.dt(x).w, add(scale(t.ordinal(), DAYUS), t.us))
    if cls != "LocalDateTime":
        c.eq(f"{lab}: the offset", c.off_us(x), t.off)
    if cls == "ZonedDateTime":
        z = c.dt(x).tz
        c.hold(f"{lab}: the timezone", z.kind == "zone" and z.zid == zid, info=repr(z))


for cls, kw in (("Date", {}), ("YearMonth", {"year_month": True}), ("MonthDay", {"month_day": True})):
    @entry("C17", f"{cls}.parse_common_iso")
    def _(c, cls=cls, kw=kw):
        t = Text(c).date(**kw)
        check(c, t, cls, c.call(cls, "parse_common_iso", t.text()), f"{cls}.parse_common_iso")

for k in FRACS:
    @entry("C17", f"Time.parse_common_iso, {k} fraction digits")
    def _(c, k=k):
        t = Text(c).time(k)
        check(c, t, "Time", c.call("Time", "parse_common_iso", t.text()), "Time.parse_common_iso")

    @entry("C17", f"LocalDateTime.parse_common_iso, {k} fraction digits")
    def _(c, k=k):
        t = Text(c).date().lit("T").time(k)
        check(c, t, "LocalDateTime", c.call("LocalDateTime", "parse_common_iso", t.text()), "LocalDateTime.parse_common_iso")

    for cls in AWARE:
        for rfc in (False, True):
            m = "parse_rfc3339" if rfc else "parse_common_iso"
            if rfc and cls not in ("Instant", "OffsetDateTime"):
                continue

            @entry("C17", f"{cls}.{m}, {k} fraction digits")
            def _(c, cls=cls, rfc=rfc, m=m, k=k):
                t = Text(c).date().lit(c.pick(("T", "t", " ", "_"), "separator") if rfc else "T").time(k)
                if cls == "Instant":
                    t.offset("Z")
                    t.p[-1] = c.pick(("Z", "z", "+00:00", "-00:00") if rfc else ("Z", "+00:00"), "designator")
                elif rfc:
                    t.offset(c.pick((("+", False), ("-", False), "Z", "z"), "offset"))
                else:
                    t.offset(c.pick((("+", False), ("-", False), ("+", True), ("-", True), "Z"), "offset"))
                zid = None
                if cls == "ZonedDateTime":
                    t.lit("[")
                    t.p += [Key("text.tz"), "]"]
                    zid = "text.tz"
                s = t.text()
                if cls != "Instant":
                    t.utc(add(scale(t.ordinal(), DAYUS), t.us))
                check(c, t, cls, c.call(cls, m, s), f"{cls}.{m}", zid=zid)
