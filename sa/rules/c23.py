"""C23: ISO 8601 durations are written and read exactly."""
from .. import strs
from ..dom import mk_fd, mk_mod
from ..obl import entry
from ..text import *
from . import c18
from .c14 import same
from .deltas import *

H, MI, S = 3600 * NS, 60 * NS, NS
ONCE = 1     # least number of digits: numbers are written without padding


def magnitude(c, cls, x):
    """(negative?, months, days, nanoseconds) of the absolute value"""
    F = c.p.F
    ps = [F.norm(L(p)) for p in c.parts(x)]
    neg = any([c.I.truth(lt(p, 0)) for p in ps])
    return neg, [F.norm(scale(p, -1)) if neg else p for p in ps]


def comps(c, spec):
    t = []
    for v, unit in spec:
        v = c.p.F.norm(v)
        if c.I.truth(ne(v, 0)):
            t += [Dec(v, ONCE), unit]
    return t


def date_part(c, m, d):
    F = c.p.F
    return comps(c, [(mk_fd(F, m, 12), "Y"), (mk_mod(F, m, 12), "M"), (d, "D")])


def time_part(c, n):
    F = c.p.F
    t = comps(c, [(mk_fd(F, n, H), "H"), (mk_mod(F, mk_fd(F, n, MI), 60), "M")])
    s, f = F.norm(mk_mod(F, mk_fd(F, n, S), 60)), F.norm(mk_mod(F, n, S))
    frac = frac_text(c, f)
    if frac or c.I.truth(ne(s, 0)):
        t += [Dec(s, ONCE), *frac, "S"]
    return t


def iso_text(c, cls, x):
    neg, (m, d, n) = magnitude(c, cls, x)
    sg = ["-"] if neg else []
    if cls == "TimeDelta":
        return sg + ["PT"] + (time_part(c, n) or ["0S"])
    t = date_part(c, m, d)
    if cls == "DateTimeDelta":
        tt = time_part(c, n)
        t += ["T", *tt] if tt else []
    return sg + ["P"] + (t or ["0D"])


def repr_text(c, cls, x):
    if cls != "TimeDelta":
        return [f"{cls}("] + iso_text(c, cls, x) + [")"]
    F = c.p.F
    neg, (_, _, n) = magnitude(c, cls, x)
    s = mk_fd(F, n, S)
    return ["TimeDelta("] + (["-"] if neg else []) + [Dec(F.norm(mk_fd(F, n, H)), 2)] + hms_text(c, s)[1:] + frac_text(c, F.norm(mk_mod(F, n, S))) + [")"]


def check(c, lab, r, want):
    if r.exc:
        return c.fail(f"{lab}: every value can be written", info=r)
    same_text(c, lab, r.v, want)


for cls in DELTAS:
    @entry("C23", f"{cls}.format_common_iso")
    def _(c, cls=cls):
        x = c.value(cls)
        check(c, f"{cls}.format_common_iso", c.call(x, "format_common_iso"), iso_text(c, cls, x))

    @entry("C23", f"str({cls})")
    def _(c, cls=cls):
        x = c.value(cls)
        check(c, f"str({cls})", c.guard(lambda: c.I.call(c.I.builtins["str"], [x], {})), iso_text(c, cls, x))

    @entry("C23", f"repr({cls})")
    def _(c, cls=cls):
        x = c.value(cls)
        check(c, f"repr({cls})", c.guard(lambda: c.I.call(c.I.builtins["repr"], [x], {})), repr_text(c, cls, x))

    @entry("C23", f"{cls}: its text is read back as the value")
    def _(c, cls=cls):
        x = c.value(cls)
        r = c.call(x, "format_common_iso")
        if r.exc:
            return
        y = c.call(cls, "parse_common_iso", r.v)
        if y.exc:
            return c.fail(f"{cls}: parse_common_iso accepts what format_common_iso writes", info=f"{r} {y}")
        same(c, f"{cls} written and read back", x, y.v)


# ------------------------------------------------------------------ reading
DATE_UNITS = (("Y", 12, 0), ("M", 1, 0), ("W", 0, 7), ("D", 0, 1))
TIME_UNITS = (("H", H), ("M", MI), ("S", S))


def read(c, cls, sign, du, tu, frac, width):
    """a text with the given components; returns (text, months, days, nanoseconds)"""
    ps = ["-"] if sign < 0 else ["+"] if sign == 2 else []
    ps.append("P")
    m = d = n = Lin(0)
    sg = -1 if sign < 0 else 1

    def num(unit):
        v = c.s(f"text.{unit}.{width}", 0, 10**8 - 1 if width == 1 else 10 ** width - 1)
        ps.append(Dec(v, width))
        return v

    for u, wm, wd in DATE_UNITS:
        if u in du:
            v = num(u)
            ps.append(u)
            m, d = add(m, v, sg * wm), add(d, v, sg * wd)
    if tu:
        ps.append("T")
    for u, w in TIME_UNITS:
        if u in tu:
            v = num("T" + u)
            n = add(n, v, sg * w)
            if u == "S" and frac:
                f = c.s(f"text.fraction{frac}", 0, 10 ** frac - 1)
                ps += [".", Dec(f, frac)]
                n = add(n, f, sg * 10 ** (9 - frac))
            ps.append(u)
    return StrV(ps), m, d, n


def subsets(xs):
    return [[x for i, x in enumerate(xs) if k >> i & 1] for k in range(1 << len(xs))]


DS = subsets("YMWD")
TS = subsets("HMS")
CASES = {"TimeDelta": [([], t) for t in TS if t], "DateDelta": [(d, []) for d in DS if d],
         "DateTimeDelta": [(d, t) for d in DS for t in TS if d or t]}


def reading(cls, du, tu, widths, fracs):
    lab = "P" + "".join("n" + u for u in du) + ("T" if tu else "") + "".join("n" + u for u in tu)

    def run(c):
        sign = c.pick((1, -1, 2))
        w = c.pick(widths)
        k = c.pick(fracs) if "S" in tu else 0
        s, m, d, n = read(c, cls, sign, du, tu, k, w)
        r = c.call(cls, "parse_common_iso", s)
        if r.exc:
            out = any([c.I.truth(lt(lim, v)) or c.I.truth(lt(v, -lim)) for v, lim in ((m, MAX_MONTHS), (d, MAX_DAYS), (n, MAX_NS))])
            if not r.isa("ValueError"):
                return c.fail(f"{cls} from {lab}: refused with ValueError", info=r)
            return c.hold(f"{cls} from {lab}: refused only if out of range", out, info=f"{s} {r}")
        if not c.is_(r.v, cls):
            return c.fail(f"{cls} from {lab}: a {cls}", info=r)
        for got, want, what in zip(c.parts(r.v), (m, d, n), ("months", "days", "nanoseconds")):
            c.eq(f"{cls} from {lab}: {what}", got, want, info=f"{s}")
    return lab, run


for cls in DELTAS:
    for du, tu in CASES[cls]:
        full = cls != "DateTimeDelta"
        lab, run = reading(cls, du, tu, (1, 2, 8) if full else (1, 3), range(10) if full else (0, 1, 9))
        entry("C23", f"{cls} read from {lab}")(run)
        if not full and "S" in tu:
            _, run = reading(cls, du, tu, (1, 2, 8), range(10))
            entry("C23", f"{cls} read from {lab}, every width", tier="thorough")(run)


# ------------------------------------------------------------------ any other text
for cls in DELTAS:
    @entry("C23", f"{cls}.parse_common_iso of any string")
    def _(c, cls=cls):
        s = c18.anystr()
        c18.check(c, cls, "parse_common_iso", s, c.call(cls, "parse_common_iso", s), f"{cls}.parse_common_iso")
