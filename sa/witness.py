"""Concretisation of abstract states: find a valuation of the symbols of a trace that satisfies
every fact of the trace (and some extra conditions), to show that an unproven obligation is
really refuted by the abstract semantics.  Only abstract terms are evaluated here; no code of
the analysed program runs."""
from __future__ import annotations

import calendar
import math
import operator
import datetime as _dt
import random
from fractions import Fraction
from math import ceil, floor

from .dom import INF, Lin, sub
from .vals import BP, BV

DAYUS = 86400 * 10**6
FREE = ("sym", "int", "frac", "len")     # kinds of atoms that take any value within their bounds


class Reject(Exception):
    pass


class Zone:
    """piecewise constant UTC offset with transitions days apart (offsets in s, times in us)"""

    def __init__(self, base, trans=()):
        self.base, self.trans = base, sorted(trans)

    def at(self, inst):
        o = self.base
        for t, n in self.trans:
            if inst >= t:
                o = n
        return o

    def wall(self, w, fold):
        o = self.base
        for t, n in self.trans:
            a, b = t + min(o, n) * 10**6, t + max(o, n) * 10**6
            if w >= b:
                o = n
            elif w >= a:
                return n if fold else o
            else:
                return o
        return o

    def fold(self, inst):
        o = self.base
        for t, n in self.trans:
            if inst >= t:
                if n < o and inst < t + (o - n) * 10**6:
                    return 1
                o = n
        return 0

    def __repr__(self):
        return f"Zone({self.base}, {[(show_us(t), n) for t, n in self.trans]})"


def show_us(us):
    try:
        return str(_dt.datetime.min + _dt.timedelta(microseconds=us - DAYUS))
    except OverflowError:
        return str(us)


FSCALE = 1 << 300      # as in lib


def is_flt(a):
    """the symbol of a double given by the user (its value, times FSCALE)"""
    return a.kind == "sym" and a.args[0].startswith("flt:")


class Val:
    def __init__(self, F, rng):
        self.F, self.rng = F, rng
        self.syms = {}
        self.zones = {}
        self.memo = {}

    def lin(self, l):
        s = l.c
        for m, k in l.t:
            p = k
            for a in m:
                p *= self.atom(a)
            s += p
        return s

    def atom(self, a):
        v = self.memo.get(a)
        if v is None:
            if a in self.F.rw and a.kind in FREE:
                v = self.lin(self.F.rw[a])
            else:
                v = self._atom(a)
            self.memo[a] = v
        return v

    def zone(self, zid):
        return self.zones.setdefault(zid, Zone(0))

    def _atom(self, a):
        k = a.kind
        if k == "fd":
            return self.lin(a.args[0]) // a.args[1]
        if k == "fdv":
            d = self.lin(a.args[1])
            if d == 0:
                raise Reject
            return self.lin(a.args[0]) // d
        if k in ("year", "month", "day"):
            o = self.lin(a.args[0])
            if not 1 <= o <= 3652059:
                raise Reject
            return getattr(_dt.date.fromordinal(o), k)
        if k == "ymd":
            try:
                return _dt.date(*[self.lin(x) for x in a.args]).toordinal()
            except (ValueError, OverflowError):
                raise Reject
        if k == "dim":
            y, m = [self.lin(x) for x in a.args]
            if not (1 <= y <= 9999 and 1 <= m <= 12):
                raise Reject
            return calendar.monthrange(y, m)[1]
        if k == "off":
            z, w, f = a.args
            return self.zone(z).wall(self.lin(w), self.lin(f))
        if k == "zoff":
            return self.zone(a.args[0]).at(self.lin(a.args[1]))
        if k == "zfold":
            return self.zone(a.args[0]).fold(self.lin(a.args[1]))
        if k == "fl":
            x = self.float(a.args[1])
            if x != x or x in (INF, -INF):
                raise Reject
            x = Fraction(x) * FSCALE
            if x.denominator != 1:
                raise Reject
            return int(x)
        if k == "inexact":
            return self.inexact(*a.args)
        if k == "ndig":
            n = self.lin(a.args[0])
            if n < 0:
                raise Reject
            return max(a.args[1], len(str(n)))
        if k == "rslen":
            return len(str(self.lin(a.args[0])).zfill(a.args[1]).rstrip("0"))
        return self.sym(a)

    def inexact(self, num, den, _, how):
        *how, tree = how
        if how[0] == "ts":      # datetime.fromtimestamp
            frac, whole = math.modf(self.float(tree))
            return int(whole) * 10**6 + round(frac * 1e6)
        x = self.float(tree) if tree else float(self.lin(num)) / den
        if how[0] == "floor":
            return math.floor(x)
        if how[0] == "round":
            return round(x)
        if how[0] in ("whole", "digits"):
            return int(f"{x:.{how[1]}f}".split(".")[how[0] == "digits"])
        return int(x)

    def float(self, t):
        """evaluates a floating point computation, with doubles"""
        try:
            if t[0] in ("q", "d"):
                return self.lin(t[1]) / t[2]
            x = [self.float(u) for u in t[1:]]
            return {"neg": operator.neg, "add": operator.add, "sub": operator.sub, "mul": operator.mul,
                    "truediv": operator.truediv, "floordiv": operator.floordiv, "mod": operator.mod}[t[0]](*x)
        except (OverflowError, ZeroDivisionError):
            raise Reject

    def sym(self, a):
        v = self.syms.get(a)
        if v is None:
            v = self.syms[a] = self.pick(a)
        if is_flt(a):
            x = Fraction(v, FSCALE)
            v = int(Fraction(float(x)) * FSCALE)
        return v

    def pick(self, a):
        r = self.rng
        lo, hi = self.F.atom_iv(a)
        if lo == -INF and hi == INF:
            lo, hi = -10**24, 10**24
        elif lo == -INF:
            lo = hi - 10**24
        elif hi == INF:
            hi = lo + 10**24
        if lo == hi:
            return lo
        if is_flt(a):
            x = r.choice((0, 0, 1, 2, r.randrange(-10**6, 10**6), r.randrange(-10**11, 10**11)))
            e = r.choice((0.0, 0.5, 2.0**-r.randrange(1, 60), r.random(), 10.0**-r.randrange(1, 30), 0.5e-9))
            return min(max(int(Fraction(x + r.choice((1, -1)) * e) * FSCALE), lo), hi)
        c = r.randrange(10)
        if c > 7:            # about a round number
            x = r.choice((10**3, 10**6, 10**9, 86400 * 10**9)) * r.randrange(-10**r.randrange(1, 12), 10**r.randrange(1, 12))
            x += r.choice((0, 1, -1, 30, -30))
            if lo <= x <= hi:
                return x
        if c == 0:
            return lo + r.choice((0, 0, 1, 2))if hi - lo > 2 else lo
        if c == 1:
            return hi - r.choice((0, 0, 1, 2)) if hi - lo > 2 else hi
        if c in (2, 3):      # small magnitude
            m = 10 ** r.randrange(1, 19)
            x = r.randrange(-m, m + 1)
            if lo <= x <= hi:
                return x
        if c == 4:
            m = 10 ** r.randrange(1, 13)
            x = m * r.randrange(-50, 51) + r.choice((0, 0, 1, -1))
            if lo <= x <= hi:
                return x
        return r.randint(lo, hi)


def collect(F, conds, kinds):
    out = []
    seen = set()

    def walk(l):
        for a in l.atoms():
            walk_atom(a)

    def walk_atom(a):
        if a in seen:
            return
        seen.add(a)
        for x in a.args:
            if isinstance(x, Lin):
                walk(x)
        if a in F.rw:
            walk(F.rw[a])
        out.append(a)
    for P in F.iv:
        walk(P)
    for P, _ in F.neq:
        walk(P)
    for a in list(F.rw):
        walk_atom(a)
    for _, w, _ in kinds:
        walk(w)
    for c in conds:
        walk(c.lin)
    return out


def holds(v, c):
    x = v.lin(c.lin)
    return x >= 0 if c.op == "ge" else (x == 0 if c.op == "eq" else x != 0)


def find(p, conds, tries=400, seed=0, late=()):
    """a valuation satisfying the facts of trace p and conds, or None"""
    F = p.F
    conds = [c for c in conds if not isinstance(c, bool)]
    conds = [c if not isinstance(c, BP) else None for c in conds]
    if None in conds:
        conds = [c for c in conds if c is not None]
    atoms = collect(F, conds, p.kinds)
    zids = {}
    for a in atoms:
        if a.kind in ("off", "zoff", "zfold"):
            zids.setdefault(a.args[0], []).append(a)
    if any(a.kind in ("isoweek", "foff", "hash") for a in atoms):
        return None
    cal = list({a.args[:2]: a for a in atoms if a.kind in ("year", "month", "day", "ymd", "dim")}.values())
    rng = random.Random(seed)
    offs = [0, 3600, -3600, 7200, 19800, -12600, 1800, 37, -86399, 86399, 43200, -43200]
    for t in range(tries):
        v = Val(F, rng)
        try:
            for z, az in zids.items():
                b = rng.choice(offs) if rng.random() < .85 else rng.randint(-86399, 86399)
                v.zones[z] = Zone(b)
            if cal and t % 2:
                _dates(v, cal, F, rng)
            if zids:
                _place(v, zids, p, rng, offs)
            for rep in range(12):
                bad = _violated(v, F, p, conds)
                if bad is None:
                    if not all(f(v) for f in late):
                        break
                    return describe(v, atoms)
                if not _repair(v, bad, F, rng):
                    break
                v.memo = {}
                if zids and rep % 3 == 2:
                    _place(v, zids, p, rng, offs)
        except Reject:
            continue
        except (OverflowError, ValueError):
            continue
    return None


def _dates(v, cal, F, rng):
    """move the dates to ends of months, of years that are peculiar"""
    y = rng.choice((1, 4, 1900, 2000, 2004, 2023, 2024, 2100, 2100, 9999, rng.randint(1, 9999)))
    for a in cal:
        try:
            d = _dt.date(min(max(y + rng.choice((0, 0, 0, 1, -1)), 1), 9999), rng.choice((1, 2, 2, 3, 3, 12, rng.randint(1, 12))),
                         rng.choice((1, 2, 15, 27, 28, 29, 30, 31)))
        except ValueError:
            continue
        if a.kind in ("ymd", "dim"):
            goals = zip(a.args, (d.year, d.month, d.day))
        else:
            goals = ((a.args[0], d.toordinal()),)
        for l, x in goals:
            try:
                if v.lin(l) != x:
                    _repair(v, (l, x, x), F, rng)
                    v.memo = {}
            except (Reject, OverflowError):
                v.memo = {}


def _place(v, zids, p, rng, offs):
    for z, az in zids.items():
        zone = v.zones[z] = Zone(v.zones[z].base)
        v.memo = {}
        pts = []
        for a in az:
            try:
                x = v.lin(a.args[1])
                pts.append(x - zone.base * 10**6 if a.kind == "off" else x)
            except Reject:
                pass
        want = [(v.lin(w) - zone.base * 10**6, k) for zz, w, k in p.kinds if zz == z]
        trans = []
        cur = zone.base
        cands = sorted(set(pts))
        for x in cands:
            if trans and x - trans[-1][0] < 4 * DAYUS:
                continue
            k = next((k for y, k in want if y == x), None)
            if k is None:
                k = rng.choice(("normal", "normal", "gap", "fold", "edge"))
            if k == "normal":
                continue
            size = rng.choice((3600, 3600, 1800, 7200, 86400 if abs(cur) < 80000 else 3600, 1))
            if k == "gap":
                n = cur + size
                T = x - rng.randrange(0, size) * 10**6 + 0
            elif k == "fold":
                n = cur - size
                T = x + rng.randrange(0, size) * 10**6 + 10**6
                # wall x+cur in [T+n, T+cur)
            else:
                n = cur + rng.choice((size, -size))
                T = x + rng.randint(-90000, 90000) * 10**6
            if not -86400 < n < 86400:
                continue
            trans.append((T - T % 10**6 if k != "fold" else T, n))
            cur = n
        v.zones[z] = Zone(zone.base, trans)
        v.memo = {}


def _violated(v, F, p, conds):
    """None if all facts hold, else (lin, lo, hi) of one that does not"""
    bad = []
    for a, l in F.rw.items():
        if a.kind in FREE:
            v.atom(a)      # bounds are tested below
        else:
            d = v.atom(a) - v.lin(l)
            if d:
                bad.append((sub(Lin(0, (((a,), 1),)), l), 0, 0))
    for a in list(v.syms) + [a for a in v.memo]:
        lo, hi = F.atom_iv(a)
        x = v.atom(a)
        if not lo <= x <= hi:
            bad.append((Lin(0, (((a,), 1),)), lo, hi))
    for P, (lo, hi) in F.iv.items():
        x = v.lin(P)
        if not lo <= x <= hi:
            bad.append((P, lo, hi))
    for P, c in F.neq:
        if v.lin(P) == c:
            bad.append((P, c + 1, c + 1))
    for z, w, k in p.kinds:
        zone = v.zone(z)
        x = v.lin(w)
        d = zone.wall(x, 0) - zone.wall(x, 1)
        if (k == "normal" and d) or (k == "fold" and d <= 0) or (k == "gap" and d >= 0):
            raise Reject
    for r in p.exists:
        zone = v.zone(r[0])
        x = v.lin(r[1])
        if zone.wall(x, 0) < zone.wall(x, 1):
            raise Reject
    for c in conds:
        x = v.lin(c.lin)
        if c.op == "ge" and x < 0:
            bad.append((c.lin, 0, INF))
        elif c.op == "eq" and x:
            bad.append((c.lin, 0, 0))
        elif c.op == "ne" and not x:
            bad.append((c.lin, 1, 1))
    return v.rng.choice(bad) if bad else None


def _flat_terms(v, l, out, k=Fraction(1), depth=0):
    """approximate derivative of l by each free symbol"""
    for m, c in l.t:
        rest = k * c
        if len(m) == 2:
            for i in (0, 1):
                o = v.atom(m[1 - i])
                if o:
                    _term(v, m[i], out, rest * o, depth)
        elif len(m) == 1:
            _term(v, m[0], out, rest, depth)


def _term(v, a, out, k, depth):
    if depth > 6:
        return
    if a.kind in FREE and a in v.F.rw:
        _flat_terms(v, v.F.rw[a], out, k, depth + 1)
    elif a.kind == "fd":
        _flat_terms(v, a.args[0], out, k / a.args[1], depth + 1)
    elif a.kind == "year":
        _flat_terms(v, a.args[0], out, k / 365, depth + 1)
    elif a.kind == "ymd":
        _flat_terms(v, a.args[2], out, k, depth + 1)
        _flat_terms(v, a.args[0], out, k * 365, depth + 1)
    elif a.kind in FREE:
        out.append((a, k))


def _repair(v, bad, F, rng):
    l, lo, hi = bad
    x = v.lin(l)
    if x < lo:
        target = lo if rng.random() < .7 or hi == INF else min(hi, lo + rng.randrange(0, 1000))
    else:
        target = hi if rng.random() < .7 or lo == -INF else max(lo, hi - rng.randrange(0, 1000))
    d = target - x
    terms = []
    _flat_terms(v, l, terms)
    terms = [t for t in terms if t[1]]
    if not terms:
        return False
    a, k = rng.choice(terms)
    step = d / k
    step = floor(step) if step < 0 else ceil(step)
    if not step:
        step = 1 if d > 0 else -1
    v.syms[a] = v.sym(a) + step
    return True


def describe(v, atoms):
    out = {}
    for a in atoms:
        if a.kind in FREE:
            try:
                out[repr(a)] = v.atom(a) if not is_flt(a) else repr(v.atom(a) / FSCALE)
            except Reject:
                pass
    for z, zone in v.zones.items():
        out[f"zone {z}"] = repr(zone)
    return out
