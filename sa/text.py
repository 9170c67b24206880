"""Comparison of the text an operation produces with the text the specification asks for.

Both are sequences of pieces (literals, zero-padded numbers, trimmed fractions, timezone keys).
They are walked side by side; numbers become numeric obligations.  Where the two cannot be
aligned, the obligation is `TextEq`: it is refuted only by a valuation of the trace under which
the two texts really differ."""
from __future__ import annotations

from . import strs
from .dom import mk_fd, mk_mod, L
from .vals import *


class TextEq:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __repr__(self):
        return f"text {self.b!r}"

    def differs(self, v):
        """under a valuation: True / False / None (cannot be rendered)"""
        x, y = render(v, self.a), render(v, self.b)
        if x is None or y is None:
            return None
        return x != y


def render(v, ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, Dec):
            n = v.lin(p.lin)
            out.append(("-" if n < 0 else "") + str(abs(n)).zfill(p.width if n >= 0 else p.width - 1))
        elif isinstance(p, RS):
            n = v.lin(p.piece.lin)
            if n < 0:
                return None
            out.append(str(n).zfill(p.piece.width).rstrip("0"))
        elif isinstance(p, LJ):
            r = render(v, p.p)
            if r is None:
                return None
            out.append(r.ljust(p.width, p.fill))
        elif isinstance(p, Key):
            out.append(f"<{p.zid}>")
        else:
            return None
    return "".join(out)


def fixed(F, p):
    """Dec of certain width"""
    lo, hi = F.bounds(p.lin, deep=True)
    return lo >= 0 and hi < 10 ** p.width


def same_text(c, label, got, want):
    """got: abstract string; want: list of pieces"""
    I, F = c.I, c.p.F
    if not isinstance(got, (str, StrV)):
        if isinstance(got, Unk):
            raise Unsupported(f"text {got!r}")
        return c.fail(f"{label}: a string", info=got)
    a, b = strs.flat(I, got), strs.flat(I, StrV(list(want)))
    a0, b0 = list(a), list(b)
    todo = []
    while a or b:
        if not a or not b:
            return differ(c, label, a0, b0)
        x, y = a[0], b[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return differ(c, label, a0, b0)
            for s in (a, b):
                if len(s[0]) == n:
                    s.pop(0)
                else:
                    s[0] = s[0][n:]
            continue
        if isinstance(x, Key) and isinstance(y, Key) and x.zid == y.zid:
            a.pop(0), b.pop(0)
            continue
        if isinstance(x, RS) and isinstance(y, RS) and x.piece.width == y.piece.width:
            todo.append((x.piece.lin, y.piece.lin))
            a.pop(0), b.pop(0)
            continue
        if isinstance(x, Dec) and isinstance(y, Dec):
            fx, fy = fixed(F, x), fixed(F, y)
            if x.width == y.width and fx == fy:
                todo.append((x.lin, y.lin))
                a.pop(0), b.pop(0)
                continue
            if fx and fy:
                n = min(x.width, y.width)
                for s in (a, b):
                    h, t = strs.split_at(I, [s[0]], n)
                    s[0:1] = h + t
                continue
            # widths 1 and the like: equal if the values are and both need no padding
            if not fx and not fy and max(x.width, y.width) == 1:
                todo.append((x.lin, y.lin))
                a.pop(0), b.pop(0)
                continue
            return differ(c, label, a0, b0)
        if isinstance(x, Dec) != isinstance(y, Dec) and isinstance(x, (Dec, str)) and isinstance(y, (Dec, str)):
            d, s = (x, y) if isinstance(x, Dec) else (y, x)
            if not fixed(F, d) or not s[:d.width].isdecimal() or len(s) < d.width:
                return differ(c, label, a0, b0)
            todo.append((d.lin, L(int(s[:d.width]))))
            for q in (a, b):
                if q[0] is d:
                    q.pop(0)
                elif len(q[0]) == d.width:
                    q.pop(0)
                else:
                    q[0] = q[0][d.width:]
            continue
        return differ(c, label, a0, b0)
    c.hold(f"{label}: layout", True)
    for l, r in todo:
        c.eq(f"{label}: fields", l, r, info=f"writes {a0} for {b0}")


def differ(c, label, a, b):
    c.prove(f"{label}: layout", TextEq(a, b), info=f"writes {a}")


# ------------------------------------------------------------------ specifications
def date_text(c, o):
    from .dom import mk_cal
    F = c.p.F
    return [Dec(mk_cal(F, "year", o), 4), "-", Dec(mk_cal(F, "month", o), 2), "-", Dec(mk_cal(F, "day", o), 2)]


def hms_text(c, s):
    F = c.p.F
    return [Dec(mk_fd(F, s, 3600), 2), ":", Dec(mk_mod(F, mk_fd(F, s, 60), 60), 2), ":", Dec(mk_mod(F, s, 60), 2)]


def frac_text(c, ns):
    if c.I.truth(BV("eq", L(ns))):
        return []
    return [".", RS(Dec(L(ns), 9))]


def off_text(c, secs, with_secs=True):
    from .dom import scale
    F = c.p.F
    neg = not c.I.truth(BV("ge", L(secs)))
    a = F.norm(scale(secs, -1) if neg else L(secs))
    t = ["-" if neg else "+"] + hms_text(c, a)[:3]
    if with_secs and not c.I.truth(BV("eq", mk_mod(F, a, 60))):
        t += [":", Dec(mk_mod(F, a, 60), 2)]
    return t
