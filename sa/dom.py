"""Numeric domain: integer linear forms over interned value numbers, and interval facts.

A `Lin` is  const + sum(coef * monomial)  where a monomial is a product of interned atoms.
Atoms are either free symbols (fields, arguments) or applications of a known function
(floor division by a constant, calendar functions, timezone offset functions ...).
The constructors (`mk_fd`, `mk_year`, ...) keep applications in normal form, so that two
computations of the same quantity get the same value number.
"""
from __future__ import annotations

from math import gcd, lcm

INF = float("inf")


class Infeasible(Exception):
    """the abstract state is contradictory: this path does not exist"""


class Atom:
    __slots__ = ("kind", "args", "uid", "lo", "hi", "name")
    table: dict = {}

    def __repr__(self):
        if self.kind == "sym":
            return self.args[0]
        return f"{self.kind}({', '.join(map(repr, self.args))})"


def atom(kind, *args, lo=-INF, hi=INF):
    key = (kind, args)
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args = kind, args
        a.uid = len(Atom.table)
        a.lo, a.hi = lo, hi
        Atom.table[key] = a
    return a


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t  # tuple of (mono, coef), sorted; mono = tuple of atoms sorted by uid
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, tuple((tuple(a.uid for a in m), k) for m, k in self.t)))
        return self._h

    @property
    def const(self):
        return not self.t

    def __repr__(self):
        if not self.t:
            return str(self.c)
        out = []
        for m, k in self.t:
            s = "*".join(map(repr, m))
            if k == 1:
                out.append(f"+ {s}")
            elif k == -1:
                out.append(f"- {s}")
            else:
                out.append(f"{'+' if k > 0 else '-'} {abs(k)}*{s}")
        if self.c:
            out.append(f"{'+' if self.c > 0 else '-'} {abs(self.c)}")
        r = " ".join(out)
        return r[2:] if r.startswith("+ ") else r

    def atoms(self):
        for m, _ in self.t:
            yield from m


def mono_key(m):
    return tuple(a.uid for a in m)


def _mk(c, d):
    items = [(m, k) for m, k in d.items() if k]
    items.sort(key=lambda x: mono_key(x[0]))
    return Lin(c, tuple(items))


def L(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, Atom):
        return Lin(0, (((x,), 1),))
    if isinstance(x, bool):
        return Lin(int(x))
    if isinstance(x, int):
        return Lin(x)
    raise TypeError(f"not an integer: {x!r}")


def sym(name, lo=-INF, hi=INF):
    return L(atom("sym", name, lo=lo, hi=hi))


def add(a, b, kb=1):
    a, b = L(a), L(b)
    if not b.t:
        return Lin(a.c + kb * b.c, a.t) if b.c else a
    d = dict(a.t)
    for m, k in b.t:
        d[m] = d.get(m, 0) + kb * k
    return _mk(a.c + kb * b.c, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    a = L(a)
    if k == 0:
        return Lin(0)
    if k == 1:
        return a
    return Lin(a.c * k, tuple((m, c * k) for m, c in a.t))


def mul(a, b):
    a, b = L(a), L(b)
    if a.const:
        return scale(b, a.c)
    if b.const:
        return scale(a, b.c)
    d: dict = {}
    for m1, k1 in list(a.t) + [((), a.c)]:
        for m2, k2 in list(b.t) + [((), b.c)]:
            m = tuple(sorted(m1 + m2, key=lambda x: x.uid))
            d[m] = d.get(m, 0) + k1 * k2
    c = d.pop((), 0)
    return _mk(c, d)


def coef_gcd(l: Lin):
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    return g


def single_atom(l: Lin):
    """the atom if l is exactly one atom, else None"""
    if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1 and len(l.t[0][0]) == 1:
        return l.t[0][0][0]
    return None


def prim(l: Lin):
    """(P, k, c) with l == k*P + c, P constant-free with gcd 1 and positive leading coef"""
    g = coef_gcd(l)
    if g == 0:
        return None, 0, l.c
    if l.t[0][1] < 0:
        g = -g
    return Lin(0, tuple((m, k // g) for m, k in l.t)), g, l.c


# --------------------------------------------------------------------------- state of facts
class Facts:
    """Interval facts about linear forms, disequalities, opaque predicates, rewrites."""

    def __init__(self):
        self.iv: dict = {}      # prim form -> (lo, hi)
        self.neq: set = set()   # (prim form, const)
        self.preds: dict = {}   # opaque predicate -> bool
        self.rw: dict = {}      # atom -> Lin  (aliases)
        self.version = 0
        self._memo: dict = {}
        self._nmemo: dict = {}

    # ---- bounds -----------------------------------------------------------------
    def atom_bounds(self, a: Atom):
        k = a.kind
        lo, hi = a.lo, a.hi
        if k == "fd":
            l, h = self.bounds(a.args[0])
            c = a.args[1]
            lo = max(lo, l // c if l != -INF else -INF)
            hi = min(hi, h // c if h != INF else INF)
        elif k == "ymd":
            l, h = self.bounds(a.args[0])
            if 1 < l <= 9999:
                lo = max(lo, _dt.date(l, 1, 1).toordinal())
            if 1 <= h < 9999:
                hi = min(hi, _dt.date(h, 12, 31).toordinal())
        elif k == "day":
            # no more than the days of its month, where that is known
            m = self.bounds(L(atom("month", a.args[0], lo=1, hi=12)))
            if m[0] == m[1]:
                y = L(atom("year", a.args[0], lo=1, hi=9999))
                hi = min(hi, self.bounds(mk_dim(self, self.norm(y), m[0]))[1])
        elif k == "dim":
            m = self.bounds(a.args[1])
            if m == (2, 2):
                leap = self._leap(a.args[0])
                lo, hi = (28, 29) if leap is None else (28 + leap, 28 + leap)
            elif m[0] == m[1] and 1 <= m[0] <= 12:
                lo = hi = _MONTH[m[0]]
        return lo, hi

    def _leap(self, y):
        """whether y is a leap year, from what is known of its remainders"""
        rem = [self.decide_eq0(sub(y, scale(mk_fd(self, y, n), n))) for n in (4, 100, 400)]
        if rem[2] or rem[0] and rem[1] is False:
            return True
        if rem[0] is False or rem[1] and rem[2] is False:
            return False
        return None

    def mono_bounds(self, m):
        lo, hi = 1, 1
        if len(m) == 2 and m[0] is m[1]:
            lo, hi = self.lin_iv(L(m[0]))
            v = [lo * lo, hi * hi]
            return (0 if lo <= 0 <= hi else min(v)), max(v)
        for a in m:
            l, h = self.atom_iv(a)
            vals = [_imul(x, y) for x in (lo, hi) for y in (l, h)]
            lo, hi = min(vals), max(vals)
        return lo, hi

    def atom_iv(self, a):
        lo, hi = self.atom_bounds(a)
        f = self.iv.get(L(a))
        if f:
            lo, hi = max(lo, f[0]), min(hi, f[1])
        return lo, hi

    def lin_iv(self, l):
        return self.bounds(l)

    def bounds(self, l, deep=0):
        l = L(l)
        if not l.t:
            return l.c, l.c
        key = (l, deep)
        r = self._memo.get(key)
        if r is None:
            self._memo[key] = (-INF, INF)  # recursion guard
            r = self._bounds(l, deep)
            self._memo[key] = r
        return r

    def _bounds(self, l, deep):
        P, k, c = prim(l)
        lo, hi = -INF, INF
        f = self.iv.get(P)
        if f:
            lo, hi = _scale_iv(f, k, c)
        # plain sum
        slo, shi = l.c, l.c
        for m, kk in l.t:
            a, b = self.mono_bounds(m)
            if kk < 0:
                a, b = b, a
            slo = slo + kk * a if abs(a) != INF else -INF
            shi = shi + kk * b if abs(b) != INF else INF
            if slo != slo:
                slo = -INF
            if shi != shi:
                shi = INF
        lo, hi = max(lo, slo), min(hi, shi)
        # remainder patterns  y - c*fd(y,c)
        for pat, rng in self._mod_patterns(l):
            rest = sub(l, pat)
            if len(rest.t) >= len(l.t):
                continue
            a, b = self.bounds(rest)
            lo, hi = max(lo, a + rng[0]), min(hi, b + rng[1])
        # each y//c lies between (y-c+1)/c and y/c
        fds = [(m, k) for m, k in l.t if len(m) == 1 and m[0].kind == "fd"]
        if len(fds) > 1:
            C = lcm(*(m[0].args[1] for m, _ in fds))
            least = most = 0
            for m, k in l.t:
                if (m, k) in fds:
                    y, d = m[0].args
                    a, b = sub(y, Lin(d - 1)), y
                    if k < 0:
                        a, b = b, a
                    least, most = add(least, a, k * (C // d)), add(most, b, k * (C // d))
                else:
                    t = Lin(0, ((m, k * C),))
                    least, most = add(least, t), add(most, t)
            if len(least.t) < len(l.t):
                a, b = self.bounds(least)[0], self.bounds(most)[1]
                if a != -INF:
                    lo = max(lo, l.c - (-a // C))
                if b != INF:
                    hi = min(hi, l.c + b // C)
        if deep:
            for Q, (qlo, qhi) in list(self.iv.items()):
                cand = set()
                qd = dict(Q.t)
                for m, kk in l.t:
                    if m in qd and kk % qd[m] == 0:
                        cand.add(kk // qd[m])
                for kq in cand:
                    rest = sub(l, scale(Q, kq))
                    a, b = self.bounds(rest, deep - 1) if deep > 1 else self.bounds(rest)
                    x, y = _scale_iv((qlo, qhi), kq, 0)
                    lo, hi = max(lo, a + x), min(hi, b + y)
        if lo > hi:
            raise Infeasible
        return lo, hi

    def _mod_patterns(self, l):
        fds = [(m[0], k) for m, k in l.t if len(m) == 1 and m[0].kind in ("fd", "fdv")]
        for a, k in fds:
            if a.kind == "fdv":
                continue
            y, c = a.args
            if k % c == 0:
                kk = -k // c
                yield scale(sub(y, scale(L(a), c)), kk), _scale_iv((0, c - 1), kk, 0)
            # fd(y,a') - b*fd(y,a'b)
            for d in {x.args[1] for x, _ in fds if x is not a and x.kind == "fd"} | {1000, 1000000, 10**9, 60, 3600}:
                if c % d == 0 and d != c:
                    b = c // d
                    if k % b == 0:
                        kk = -k // b
                        yield scale(sub(mk_fd(self, y, d), scale(L(a), b)), kk), _scale_iv((0, b - 1), kk, 0)

    # ---- queries ----------------------------------------------------------------
    def decide_ge0(self, l, deep=1):
        l = self.norm(l)
        lo, hi = self.bounds(l, deep=deep)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        P, k, c = prim(l)
        # l = k*P + c ; with lo==0 edge handled by ints. disequality at the edge:
        if lo == -1 and self._is_neq(l, -1):
            return True
        if hi == 0 and self._is_neq(l, 0):
            return False
        return None

    def _is_neq(self, l, v):
        P, k, c = prim(l)
        if P is None:
            return l.c != v
        if (v - c) % k:
            return True
        return (P, (v - c) // k) in self.neq

    def decide_eq0(self, l):
        l = self.norm(l)
        if l.const:
            return l.c == 0
        P, k, c = prim(l)
        if c % k:
            return False
        if (P, -c // k) in self.neq:
            return False
        lo, hi = self.bounds(l, deep=1)
        if lo > 0 or hi < 0:
            return False
        if lo == hi == 0:
            return True
        return None

    # ---- assumptions ------------------------------------------------------------
    def _touch(self):
        self.version += 1
        self._memo = {}
        self._nmemo = {}

    def assume_ge0(self, l):
        l = L(l)
        P, k, c = prim(l)
        if P is None:
            if c < 0:
                raise Infeasible
            return
        # k*P + c >= 0
        lo, hi = self.iv.get(P, (-INF, INF))
        if k > 0:
            lo = max(lo, -(c // k))
        else:
            hi = min(hi, c // -k)
        while (P, lo) in self.neq:
            lo += 1
        while (P, hi) in self.neq:
            hi -= 1
        if lo > hi:
            raise Infeasible
        self.iv[P] = (lo, hi)
        self._touch()
        b = self.bounds(P, deep=1)
        if b[0] == b[1] == 0 and lo != hi:
            lo = hi = b[0]
            self.iv[P] = b
            self._touch()
        a = single_atom(P)
        if a is not None and a.kind == "fd":
            y, d = a.args
            if lo != -INF:
                self.assume_ge0(sub(y, d * lo))
            if hi != INF:
                self.assume_ge0(sub(Lin(d * hi + d - 1), y))
        if len(P.t) > 1:
            self._edges(P, lo, hi)
        n = len(self.rw)
        self._solve(P)
        if len(self.rw) > n:
            self.rebase()

    def _edges(self, P, lo, hi):
        """a sum at the very edge of its range: every term is at its edge"""
        slo = shi = 0
        ends = []
        for m, k in P.t:
            a, b = self.mono_bounds(m)
            if k < 0:
                a, b = b, a
            slo, shi = slo + _imul(k, a), shi + _imul(k, b)
            ends.append((m, a, b))
        for edge, val, which in ((hi, slo, 1), (lo, shi, 2)):
            if abs(val) != INF and edge == val:
                for e in ends:
                    m, v = e[0], e[which]
                    if len(m) == 1 and m[0].kind in ("sym", "fd") and self.iv.get(L(m[0])) != (v, v):
                        self.assume_eq0(sub(L(m[0]), v))
                return

    def _solve(self, P):
        lo, hi = self.iv.get(P, (-INF, INF))
        if lo != hi:
            return
        # P == lo: use as a rewrite for a free symbol with unit coefficient
        cands = [(m[0], k) for m, k in P.t if len(m) == 1 and m[0].kind in ("sym", "len") and abs(k) == 1 and m[0] not in self.rw]
        self._divides(P, lo)
        cands = [x for x in cands if not any(self._occurs(x[0], o) for m, k in P.t for o in m if o is not x[0])]
        if not cands and len(P.t) == 2 and all(len(m) == 1 and m[0].kind == "fd" for m, k in P.t):
            # floor(y/c) == d*floor(y/cd) + r: keep the coarser one
            (m1, k1), (m2, k2) = P.t
            for (m, k), n in (((m1, k1), m2[0]), ((m2, k2), m1[0])):
                if abs(k) == 1 and m[0] not in self.rw and m[0].args[0] == n.args[0] and m[0].args[1] < n.args[1]:
                    cands = [(m[0], k)]
        if not cands:
            # rewrite a compound atom (e.g. fd(..) == 3)
            if len(P.t) == 1 and len(P.t[0][0]) == 1 and abs(P.t[0][1]) == 1:
                a = P.t[0][0][0]
                self.rw[a] = Lin(lo * P.t[0][1])
                self._touch()
            return
        a, k = cands[-1]
        rest = _mk(0, {m: c for m, c in P.t if m != (a,)})
        al, ah = self.atom_iv(a)
        self.rw[a] = e = scale(sub(Lin(lo), rest), k)
        self._touch()
        if a.kind == "sym":
            # the bounds of the eliminated symbol hold for what replaces it
            l, h = self.bounds(e)
            if al != -INF and l < al:
                self.assume_ge0(sub(e, al))
            if ah != INF and h > ah:
                self.assume_ge0(sub(Lin(ah), e))
        if a.kind == "fd":
            (l, h), (y, d) = self.bounds(e), a.args
            if l != -INF:
                self.assume_ge0(sub(y, d * l))
            if h != INF:
                self.assume_ge0(sub(Lin(d * h + d - 1), y))

    def _divides(self, P, v):
        """s - c*fd(s, c) == v: write the symbol s as c*q + v"""
        if len(P.t) != 2:
            return
        (m1, k1), (m2, k2) = P.t
        for (m, k), (n, j) in (((m1, k1), (m2, k2)), ((m2, k2), (m1, k1))):
            if len(m) == len(n) == 1 and m[0].kind == "sym" and n[0].kind == "fd" and m[0] not in self.rw:
                y, c = n[0].args
                if y == L(m[0]) and j == -c * k:
                    lo, hi = self.bounds(y)
                    q = sym(f"{m[0]!r}//{c}")
                    self.rw[m[0]] = add(scale(q, c), v * k)
                    self._touch()
                    if lo != -INF:
                        self.assume_ge0(sub(scale(q, c), lo - v * k))
                    if hi != INF:
                        self.assume_ge0(sub(Lin(hi - v * k), scale(q, c)))
                    return

    def rebase(self):
        """restate the facts in terms of the rewritten symbols"""
        new = []
        self._touch()
        for Q, v in list(self.neq):
            if self.decide_eq0(sub(Q, v)) is True:
                raise Infeasible
        for Q, (lo, hi) in list(self.iv.items()):
            n = self.norm(Q)
            if n == Q:
                continue
            if n.const:
                if not lo <= n.c <= hi:
                    raise Infeasible
                continue
            P, k, c = prim(n)
            l2 = -((c - lo) // k) if lo != -INF else -INF
            h2 = (hi - c) // k if hi != INF else INF
            if k < 0:
                l2 = -((hi - c) // -k) if hi != INF else -INF
                h2 = (c - lo) // -k if lo != -INF else INF
            a, b = self.iv.get(P, (-INF, INF))
            if l2 > a or h2 < b:
                self.iv[P] = (max(a, l2), min(b, h2))
                if max(a, l2) > min(b, h2):
                    raise Infeasible
                at = single_atom(P)
                if at is not None and at.kind == "fd":
                    new.append((at, max(a, l2), min(b, h2)))
        self._touch()
        same = []
        for a, e in list(self.rw.items()):
            if a.kind == "sym" or not a.args or not any(isinstance(x, Lin) for x in a.args):
                continue
            args = [self.norm(x) if isinstance(x, Lin) else x for x in a.args]
            if args == list(a.args):
                continue
            r = rebuild(self, a, args)
            at = single_atom(r)
            if at is None or at is a:
                continue
            if at not in self.rw:
                if not any(self._occurs(at, x) for x in self.norm(e).atoms()):
                    self.rw[at] = e
                    self._touch()
            elif self.rw[at] != e:
                same.append(sub(self.rw[at], e))
        for d in same:
            if not self.norm(d).const:
                self.assume_eq0(self.norm(d))
            elif self.norm(d).c:
                raise Infeasible
        for at, lo, hi in new:
            y, d = at.args
            if lo != -INF:
                self.assume_ge0(sub(y, d * lo))
            if hi != INF:
                self.assume_ge0(sub(Lin(d * hi + d - 1), y))

    def tighten(self, rounds=3):
        """bounds of single terms that follow from the bounds of sums"""
        for _ in range(rounds):
            changed = False
            for P, (lo, hi) in list(self.iv.items()):
                if len(P.t) < 2:
                    continue
                parts = []
                slo = shi = 0
                for m, k in P.t:
                    a, b = self.mono_bounds(m)
                    if k < 0:
                        a, b = b, a
                    a, b = _imul(k, a), _imul(k, b)
                    parts.append((m, k, a, b))
                    slo, shi = slo + a, shi + b
                if slo > hi or shi < lo:
                    raise Infeasible
                for m, k, a, b in parts:
                    if len(m) != 1 or m[0] in self.rw:
                        continue
                    # k*m <= hi - (the least of the others), k*m >= lo - (the greatest)
                    if hi != INF and slo != -INF and b > hi - (slo - a):
                        self.assume_ge0(sub(Lin(hi - (slo - a)), scale(L(m[0]), k)))
                        changed = True
                    if lo != -INF and shi != INF and a < lo - (shi - b):
                        self.assume_ge0(sub(scale(L(m[0]), k), lo - (shi - b)))
                        changed = True
                    if changed:
                        break
            if not changed:
                return

    def _occurs(self, a, inside):
        if inside is a:
            return True
        return any(
            self._occurs(a, y)
            for x in inside.args
            if isinstance(x, Lin)
            for y in x.atoms()
        )

    def assume_eq0(self, l):
        if self.decide_eq0(l) is False:
            raise Infeasible
        self.assume_ge0(l)
        self.assume_ge0(scale(l, -1))

    def assume_ne0(self, l):
        l = L(l)
        if self.decide_eq0(l) is True:
            raise Infeasible
        P, k, c = prim(l)
        if P is None or c % k:
            return
        v = -c // k
        self.neq.add((P, v))
        lo, hi = self.iv.get(P, (-INF, INF))
        blo, bhi = self.bounds(P)
        if blo == v:
            self.assume_ge0(sub(P, Lin(v + 1)))
        elif bhi == v:
            self.assume_ge0(sub(Lin(v - 1), P))
        self._touch()

    # ---- normalisation ----------------------------------------------------------
    def norm(self, l):
        l = L(l)
        if not l.t:
            return l
        r = self._nmemo.get(l)
        if r is not None:
            return r
        self._nmemo[l] = l
        cur = l
        for _ in range(8):
            out = Lin(cur.c)
            for m, k in cur.t:
                p = Lin(1)
                for a in m:
                    p = mul(p, self._norm_atom(a))
                out = add(out, p, k)
            if out == cur:
                break
            cur = out
        # point intervals
        P, k, c = prim(cur)
        if P is not None and P in self.iv:
            lo, hi = self.iv[P]
            if lo == hi:
                cur = Lin(k * lo + c)
        self._nmemo[l] = cur
        return cur

    def _norm_atom(self, a):
        if a in self.rw:
            return self.norm(self.rw[a])
        f = self.iv.get(L(a))
        if f and f[0] == f[1]:
            return Lin(f[0])
        if a.kind == "sym" or not a.args:
            return L(a)
        new = [self.norm(x) if isinstance(x, Lin) else x for x in a.args]
        r = rebuild(self, a, new)
        if isinstance(r, Lin):
            at = single_atom(r)
            if at is not None and at in self.rw:
                return self.rw[at]
        return r


def _imul(x, y):
    if x == 0 or y == 0:
        return 0
    return x * y


def _scale_iv(iv, k, c):
    lo, hi = iv
    a = _imul(lo, k) + c
    b = _imul(hi, k) + c
    return (a, b) if a <= b else (b, a)


# --------------------------------------------------------------------------- constructors
def mk_fd(f: Facts, x, c):
    """floor(x / c) for constant c"""
    x = L(x)
    if c < 0:
        return mk_fd(f, scale(x, -1), -c)
    if c == 0:
        raise ZeroDivisionError
    if c == 1:
        return x
    if x.const:
        return Lin(x.c // c)
    q: dict = {}
    r: dict = {}
    for m, k in x.t:
        if k % c == 0:
            q[m] = k // c
        else:
            r[m] = k
    qc, rc = divmod(x.c, c)
    Q = _mk(qc, q)
    if not r:
        return Q
    R = _mk(rc, r)
    # common divisor of the coefficients and of c
    g = gcd(coef_gcd(R), c)
    if g > 1:
        R = Lin(R.c // g, tuple((m, k // g) for m, k in R.t))
        c2 = c // g
        return add(Q, mk_fd(f, R, c2))
    # nested floor divisions: fd(fd(y,a) + rest, c) = fd(y + a*rest, a*c)
    for m, k in R.t:
        if k == 1 and len(m) == 1 and m[0].kind == "fd":
            y, a = m[0].args
            rest = sub(R, L(m[0]))
            return add(Q, mk_fd(f, add(y, scale(rest, a)), a * c))
    if f is not None:
        # the same where k*fd(y,a) is known to be fd(y, a/k)
        for m, k in R.t:
            if k > 1 and len(m) == 1 and m[0].kind == "fd" and m[0].args[1] % k == 0:
                y, a = m[0].args
                w = Atom.table.get(("fd", (y, a // k)))
                if w is not None and w in f.rw:
                    n = f.norm(L(w))
                    if n.t == ((m, k),):
                        rest = _mk(R.c - n.c, {x: j for x, j in R.t if x != m})
                        return add(Q, mk_fd(f, add(y, scale(rest, a // k)), a // k * c))
    lo, hi = f.bounds(R) if f is not None else (-INF, INF)
    if lo != -INF and hi != INF and lo // c == hi // c:
        return add(Q, Lin(lo // c))
    # a part that is smaller than the common divisor of the others and of c does not count
    if f is not None and len(R.t) > 1:
        for d in sorted({gcd(k, c) for _, k in R.t}, reverse=True):
            if d == 1:
                break
            B = _mk(R.c % d, {m: k for m, k in R.t if k % d})
            lo, hi = f.bounds(B)
            if lo != -INF and hi != INF and lo // d == hi // d:
                A = _mk(R.c // d + lo // d, {m: k // d for m, k in R.t if k % d == 0})
                return add(Q, mk_fd(f, A, c // d))
    return add(Q, L(atom("fd", R, c)))


def mk_mod(f, x, c):
    return sub(x, scale(mk_fd(f, x, c), c))


def mk_fdv(f, x, y):
    x, y = L(x), L(y)
    y = f.norm(y)
    if y.const:
        return mk_fd(f, x, y.c)
    if f is not None:
        x = f.norm(x)
    if x == Lin(0):
        return Lin(0)
    if f is not None and f.bounds(y)[0] > 0:
        # k*y + r with 0 <= r < y
        for k in (0, 1, -1, 2, -2):
            r = sub(x, scale(y, k))
            if r == Lin(0) or f.bounds(r)[0] >= 0 and f.bounds(sub(y, r))[0] > 0:
                return Lin(k)
    return L(atom("fdv", x, y))


import datetime as _dt  # only the proleptic Gregorian calendar, for constants


def mk_ymd(f, y, m, d):
    y, m, d = L(y), L(m), L(d)
    if y.const and m.const and d.const:
        try:
            return Lin(_dt.date(y.c, m.c, d.c).toordinal())
        except (ValueError, OverflowError):
            pass
    a, b, c = single_atom(y), single_atom(m), single_atom(d)
    if a and b and c and a.kind == "year" and b.kind == "month" and c.kind == "day" \
            and a.args[0] == b.args[0] == c.args[0]:
        return a.args[0]
    if a and b and a.kind == "year" and b.kind == "month" and a.args[0] == b.args[0]:
        # another day of the same month
        return add(a.args[0], sub(d, mk_cal(f, "day", a.args[0])))
    for x, kind in ((a, "year"), (b, "month")):
        if x and x.kind == kind:
            # the other of year and month is known by its value
            o = x.args[0]
            if all(f.lin_iv(sub(p, mk_cal(f, w, o))) == (0, 0) for p, w in ((y, "year"), (m, "month"))):
                return add(o, sub(d, mk_cal(f, "day", o)))
    return L(atom("ymd", y, m, d, lo=1, hi=3652059))


_MONTH = (None, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
_CAL = {"year": (1, 9999), "month": (1, 12), "day": (1, 31)}


def mk_cal(f, which, o):
    o = L(o)
    if o.const and 1 <= o.c <= 3652059:
        return Lin(getattr(_dt.date.fromordinal(o.c), which))
    a = single_atom(o)
    if a and a.kind == "ymd":
        return a.args[("year", "month", "day").index(which)]
    for mono, k in o.t:
        if k == -1 and len(mono) == 1 and mono[0].kind == "day":
            base = mono[0].args[0]
            d = sub(add(o, L(mono[0])), base)
            lo = f.lin_iv(d)[0]
            if lo is not None and lo >= 1:
                y, m = mk_cal(f, "year", base), mk_cal(f, "month", base)
                room = f.lin_iv(sub(mk_dim(f, y, m), d))[0]
                if room is not None and room >= 0:
                    return {"year": y, "month": m, "day": d}[which]
    lo, hi = _CAL[which]
    return L(atom(which, o, lo=lo, hi=hi))


def mk_dim(f, y, m):
    import calendar
    y, m = L(y), L(m)
    if m.const and 1 <= m.c <= 12 and m.c != 2:
        return Lin(calendar.monthrange(2001, m.c)[1])
    if m.const and y.const and 1 <= m.c <= 12:
        return Lin(calendar.monthrange(y.c, m.c)[1])
    if y.const:
        y = Lin(4 if calendar.isleap(y.c) else 1)
    return L(atom("dim", y, m, lo=28, hi=31))


def whole(f, us):
    """the start of the second (transitions happen at whole seconds)"""
    return scale(mk_fd(f, us, 10**6), 10**6)


def mk_off(f, zone, wall, fold):
    """UTC offset (s) of local time `wall` (us) in a zone, for a given fold"""
    return L(atom("off", zone, whole(f, wall), L(fold), lo=-86399, hi=86399))


def mk_zoff(f, zone, inst):
    """UTC offset (s) of a zone at an instant (us)"""
    return L(atom("zoff", zone, whole(f, inst), lo=-86399, hi=86399))


def rebuild(f, a: Atom, args):
    k = a.kind
    if k == "fd":
        return mk_fd(f, args[0], args[1])
    if k == "fdv":
        return mk_fdv(f, args[0], args[1])
    if k in _CAL:
        return mk_cal(f, k, args[0])
    if k == "ymd":
        return mk_ymd(f, *args)
    if k == "dim":
        return mk_dim(f, *args)
    if args == list(a.args):
        return L(a)
    return L(atom(k, *args, lo=a.lo, hi=a.hi))
