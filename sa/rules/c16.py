"""C16: ISO 8601 / RFC 3339 output spells the value."""
from .. import lib
from ..dom import mk_cal, mk_fd, mk_mod
from ..obl import entry
from ..text import *
from .c14 import same
from .ops import *

CLASSES = ("Date", "YearMonth", "MonthDay", "Time") + DATETIMES


def iso_text(c, x, sep="T", with_secs=True, z=None):
    """what the text of a value must be"""
    F, cls = c.p.F, x.cls.name
    if cls in ("Date", "YearMonth", "MonthDay"):
        t = date_text(c, c.ord(x))
        return t if cls == "Date" else t[:3] if cls == "YearMonth" else ["--"] + t[2:]
    if cls == "Time":
        return hms_text(c, mk_fd(F, c.f(x, "tm").u, 10**6)) + frac_text(c, c.ns(x))
    w = c.dt(x).w
    t = date_text(c, mk_fd(F, w, DAYUS)) + [sep] + hms_text(c, mk_fd(F, mk_mod(F, w, DAYUS), 10**6)) + frac_text(c, c.ns(x))
    if cls == "LocalDateTime":
        return t
    if cls == "Instant":
        return t + ["Z"]
    t += off_text(c, F.norm(mk_fd(F, c.off_us(x), 10**6)), with_secs)
    if cls == "ZonedDateTime":
        t += ["[", Key(c.dt(x).tz.zid), "]"]
    return t


def values(c, cls):
    if cls == "SystemDateTime" and c.choose(2, "system or parsed offset"):
        return c.system_any()
    if cls == "LocalDateTime":
        return c.local("a", c.choose(2, "fold"))
    return c.value(cls)


def check(c, lab, r, want):
    if r.exc:
        return c.fail(f"{lab}: every value can be written", info=r)
    same_text(c, lab, r.v, want)


for cls in CLASSES:
    @entry("C16", f"{cls}.format_common_iso")
    def _(c, cls=cls):
        x = values(c, cls)
        r = c.call(x, "format_common_iso")
        check(c, f"{cls}.format_common_iso", r, iso_text(c, x))

    @entry("C16", f"str({cls})")
    def _(c, cls=cls):
        x = values(c, cls)
        r = c.guard(lambda: c.I.call(c.I.builtins["str"], [x], {}))
        check(c, f"str({cls})", r, iso_text(c, x))

    @entry("C16", f"repr({cls})")
    def _(c, cls=cls):
        x = values(c, cls)
        r = c.guard(lambda: c.I.call(c.I.builtins["repr"], [x], {}))
        check(c, f"repr({cls})", r, [cls + "("] + iso_text(c, x, " ") + [")"])

    @entry("C16", f"{cls}: its text is read back as the value")
    def _(c, cls=cls):
        x = values(c, cls)
        if cls == "ZonedDateTime":
            # no timezone repeats an hour within a day of the limits of the range
            d = c.dt(x)
            for f in (0, 1):
                c.in_utc(d.w, scale(lib.off(c.I, d.tz.zid, d.w, f), 10**6))
        r = c.call(x, "format_common_iso")
        if r.exc:
            return
        y = c.call(cls, "parse_common_iso", r.v)
        if y.exc:
            return c.fail(f"{cls}: parse_common_iso accepts what format_common_iso writes", info=f"{r} {y}")
        same(c, f"{cls} written and read back", x, y.v)

for cls in ("Instant", "OffsetDateTime"):
    @entry("C16", f"{cls}.format_rfc3339")
    def _(c, cls=cls):
        x = values(c, cls)
        r = c.call(x, "format_rfc3339")
        check(c, f"{cls}.format_rfc3339", r, iso_text(c, x, " ", with_secs=False))

    @entry("C16", f"{cls}: its RFC 3339 text is read back as the value")
    def _(c, cls=cls):
        x = values(c, cls)
        if cls == "OffsetDateTime" and c.I.truth(ne(mk_mod(c.p.F, c.off_us(x), 60 * 10**6), 0)):
            return     # seconds of the offset are not part of the format
        r = c.call(x, "format_rfc3339")
        if r.exc:
            return
        y = c.call(cls, "parse_rfc3339", r.v)
        if y.exc:
            return c.fail(f"{cls}: parse_rfc3339 accepts what format_rfc3339 writes", info=f"{r} {y}")
        same(c, f"{cls} written and read back (RFC 3339)", x, y.v)
