"""C18: what the parsers accept, and how they fail."""
import re

from .. import lang, lib, strs
from ..obl import entry
from ..model import Broken
from ..vals import _MISSING
from .ops import *

D = r"[0-9]{4}-[0-9]{2}-[0-9]{2}"
T = r"[0-9]{2}:[0-9]{2}:[0-9]{2}(?:\.[0-9]{1,9})?"
OFF = r"[+-][0-9]{2}:[0-9]{2}"
GRAMMAR = {
    ("Date", "parse_common_iso"): D,
    ("YearMonth", "parse_common_iso"): D[:-9],
    ("MonthDay", "parse_common_iso"): "-" + D[8:],
    ("Time", "parse_common_iso"): T,
    ("LocalDateTime", "parse_common_iso"): D + "T" + T,
    ("Instant", "parse_common_iso"): D + "T" + T + r"(?:Z|\+00:00)",
    ("Instant", "parse_rfc3339"): D + "[Tt _]" + T + r"(?:[Zz]|[+-]00:00)",
    ("OffsetDateTime", "parse_common_iso"): D + "T" + T + rf"(?:Z|{OFF}(?::[0-9]{{2}})?)",
    ("OffsetDateTime", "parse_rfc3339"): D + "[Tt _]" + T + rf"(?:[Zz]|{OFF})",
    ("SystemDateTime", "parse_common_iso"): D + "T" + T + rf"(?:Z|{OFF}(?::[0-9]{{2}})?)",
    ("ZonedDateTime", "parse_common_iso"): D + "T" + T + rf"(?:Z|{OFF}(?::[0-9]{{2}})?)\[[^\]]{{1,255}}\]",
    ("TimeDelta", "parse_common_iso"): r"[+-]?PT(?:[0-9]+H)?(?:[0-9]+M)?(?:[0-9]+(?:\.[0-9]{1,9})?S)?",
    ("DateDelta", "parse_common_iso"): r"[+-]?P(?:[0-9]+Y)?(?:[0-9]+M)?(?:[0-9]+W)?(?:[0-9]+D)?",
    ("DateTimeDelta", "parse_common_iso"): r"[+-]?P(?:[0-9]+Y)?(?:[0-9]+M)?(?:[0-9]+W)?(?:[0-9]+D)?(?:T(?:[0-9]+H)?(?:[0-9]+M)?(?:[0-9]+(?:\.[0-9]{1,9})?S)?)?",
}
# texts of the grammar's shape that say nothing
EMPTY = r"[+-]?PT?|[+-]?P[0-9YMWD]+T"


_SEEN: dict = {}


def excluded(c, ps):
    """item lists of texts that this trace rules out; None: and others that are not known"""
    out = []
    for qs, B, value in getattr(c.I.p, "strconds", ()):
        qs = strs.flat(c.I, StrV(qs))
        at = [i for i in range(len(ps) - len(qs) + 1) if all(x is y or x == y for x, y in zip(ps[i:], qs))]
        if not at:
            if any(isinstance(q, (Ch, Rest)) for q in qs):
                return None
            continue
        head, tail = strs.items_of(c.I, ps[:at[0]]), strs.items_of(c.I, ps[at[0] + len(qs):])
        if value:
            # contains one character: not all others
            one = [x for x in B[0] if x.hi == 1] if len(B) == 1 else []
            if len(one) != 1 or len(B[0]) != 3:
                return None
            B = [[lang.Item(strs.ANY - one[0].set, 0, strs.BIG)]]
        out += [tuple(head) + tuple(b) + tuple(tail) for b in B]
    return out


def related(how, c, ps, rx):
    """language inclusion or intersection of the text on this trace with a grammar"""
    items = strs.items_of(c.I, ps)
    # texts which the trace rules out count as included
    more = tuple(excluded(c, ps) or ()) if how == "in" else ()
    key = (how, rx, tuple((i.set, i.lo, i.hi) for i in items), more)
    if key not in _SEEN:
        f = lang.included if how == "in" else lang.intersects
        _SEEN[key] = f(lang.nfa_of_items([items]), lang.nfa_of_items(lang.regex_items(rx, re.ASCII) + list(more)))
    return _SEEN[key]


def check(c, cls, m, s, r, lab):
    if r.exc:
        if r.isa("ValueError"):
            return c.hold(f"{lab}: fails only with ValueError", True)
        if cls == "ZonedDateTime" and r.isa("ZoneInfoNotFoundError", "OSError"):
            return c.hold(f"{lab}: fails only with ValueError", True)
        if cls == "ZonedDateTime" and r.isa("OverflowError"):
            y = year_of(c, s)
            if y is not None:
                # no timezone changes its offset in the first or the last year
                return c.may_raise(f"{lab}: fails only with ValueError", r, lt(y, 2), lt(9998, y))
        return c.fail(f"{lab}: fails only with ValueError", info=r)
    c.hold(f"{lab}: returns a {cls}", c.is_(r.v, cls), info=r)
    ps = strs.flat(c.I, s)
    w = related("in", c, ps, GRAMMAR[cls, m])
    lab2 = f"{lab}: accepts only the documented format"
    if w is None:
        c.hold(lab2, True)
        if cls.endswith("Delta"):
            w = related("meets", c, ps, EMPTY)
            if w is None:
                c.hold(f"{lab}: accepts no duration without components", True)
            elif related("in", c, ps, EMPTY) is None:
                c.fail(f"{lab}: accepts no duration without components", info=f"accepts {lang.show(w)!r}")
            else:
                c.undecided(f"{lab}: accepts no duration without components", f"perhaps {lang.show(w)!r}")
        return
    if precise(c, ps):
        return c.fail(lab2, info=f"accepts {lang.show(w)!r}, returns {r.v!r}"[:600])
    c.undecided(lab2, f"perhaps {lang.show(w)!r}")


def precise(c, ps):
    """nothing but the listed pieces restricts the text on this trace"""
    for p in ps:
        if isinstance(p, (Rest,)) and (c.I.p.strfacts.get(p.id) or getattr(c.I.p, "ascii", {}).get(p.id)):
            return False
        if not isinstance(p, (str, Ch, Rest, Key)):
            return False
    if any(isinstance(k, tuple) and k and k[0] in ("streq", "strhas", "strin", "isdigit") for k in c.p.F.preds):
        return False
    return excluded(c, ps) is not None


def year_of(c, s):
    try:
        h, _ = strs.split_at(c.I, strs.flat(c.I, s), 4)
        v = strs.to_int(c.I, strs.mk(h))
        return L(v)
    except Exception:
        return None


for (cls, m) in GRAMMAR:
    @entry("C18", f"{cls}.{m} of any string")
    def _(c, cls=cls, m=m):
        if c.P.cls(cls).lookup(m) is _MISSING:
            raise Broken(f"{cls}.{m}")
        s = anystr()
        check(c, cls, m, s, c.call(cls, m, s), f"{cls}.{m}")


# the moments these texts describe lie beyond the supported range by as much as their offset
LIMITS = [("0001-01-01T00:00:00", MINW, ("+00:00:01", "+00:17:30", "+14:00", "+23:59:59")),
          ("9999-12-31T23:59:59", MAXW - 999_999, ("-00:00:01", "-04:56:02", "-12:00", "-23:59:59"))]

for cls in ("OffsetDateTime", "SystemDateTime", "ZonedDateTime"):
    for text, w, offs in LIMITS:
        @entry("C18", f"{cls}.parse_common_iso at the limits of the range, {text[:4]}")
        def _(c, cls=cls, text=text, w=w, offs=offs):
            o = c.pick(offs, "offset")
            ps = [text + o]
            if cls == "ZonedDateTime":
                # no timezone changes its offset within two days of the limits
                if lib.resolve_kind(c.I, "text.tz", Lin(w)) != "normal":
                    return
                ps += ["[", Key("text.tz"), "]"]
            r = c.call(cls, "parse_common_iso", StrV(ps))
            lab = f"{cls}.parse_common_iso: a moment out of range is a ValueError"
            if cls == "ZonedDateTime" and r.isa("ZoneInfoNotFoundError", "OSError"):
                return
            c.hold(lab, r.exc and r.isa("ValueError"), info=f"{text + o}: {r!r}")
