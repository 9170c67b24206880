"""Regular languages of string shapes: regex syntax trees -> shapes / automata, inclusion."""
from __future__ import annotations

try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c
import re

from .vals import Ch, Dec, Key, LJ, Opq, RS, Rest, Unsupported

ASCII = frozenset(chr(i) for i in range(128))
ANY = ASCII | {"ud", "uo", "uw", "us"}   # unicode digit / other / word char / space (non-ascii)
DIGITS = frozenset("0123456789")
INF = 10 ** 9


class Item:
    """charset repeated lo..hi times"""
    __slots__ = ("set", "lo", "hi")

    def __init__(self, set, lo=1, hi=1):
        self.set, self.lo, self.hi = frozenset(set), lo, hi

    def __eq__(self, o):
        return isinstance(o, Item) and (self.set, self.lo, self.hi) == (o.set, o.lo, o.hi)

    def __hash__(self):
        return hash((self.set, self.lo, self.hi))

    def __repr__(self):
        return f"[{''.join(sorted(self.set))[:12]}]{{{self.lo},{self.hi}}}"


def _category(c, ascii_):
    import string
    name = str(c)
    if name.endswith("CATEGORY_DIGIT"):
        return DIGITS | (frozenset() if ascii_ else {"ud"})
    if name.endswith("CATEGORY_NOT_DIGIT"):
        return ANY - _category("CATEGORY_DIGIT", ascii_)
    if name.endswith("CATEGORY_SPACE"):
        return frozenset(" \t\n\r\f\v") | (frozenset() if ascii_ else {"us"} | frozenset("\x1c\x1d\x1e\x1f"))
    if name.endswith("CATEGORY_NOT_SPACE"):
        return ANY - _category("CATEGORY_SPACE", ascii_)
    if name.endswith("CATEGORY_WORD"):
        return frozenset(string.ascii_letters + string.digits + "_") | (frozenset() if ascii_ else {"ud", "uw"})
    if name.endswith("CATEGORY_NOT_WORD"):
        return ANY - _category("CATEGORY_WORD", ascii_)
    raise Unsupported(f"regex category {name}")


def _fold_case(s, ignore):
    if not ignore:
        return frozenset(s)
    return frozenset(x for c in s for x in ({c.lower(), c.upper()} if len(c) == 1 else {c}))


def _chr(o):
    c = chr(o)
    if o < 128:
        return c
    return "ud" if c.isdecimal() else "uo"


def in_set(av, ascii_, ign):
    neg = False
    out = set()
    for op, v in av:
        if op is sre_c.NEGATE:
            neg = True
        elif op is sre_c.LITERAL:
            out |= _fold_case({_chr(v)}, ign)
        elif op is sre_c.RANGE:
            for o in range(v[0], min(v[1], 127) + 1):
                out |= _fold_case({chr(o)}, ign)
            if v[1] > 127:
                out |= {"ud", "uo", "uw", "us"}
        elif op is sre_c.CATEGORY:
            out |= _category(v, ascii_)
        else:
            raise Unsupported(f"regex set {op}")
    return ANY - out if neg else frozenset(out)


class Shape:
    """one alternative: items, and group number -> (start, end) item indexes"""

    def __init__(self, items=(), groups=None, anchored_end=False):
        self.items = tuple(items)
        self.groups = dict(groups or {})
        self.anchored_end = anchored_end

    def cat(self, o):
        n = len(self.items)
        g = dict(self.groups)
        g.update({k: (a + n, b + n) for k, (a, b) in o.groups.items()})
        return Shape(self.items + o.items, g, o.anchored_end)


_shape_cache: dict = {}
MAX_SHAPES = 5000


def shapes(pattern, flags=0):
    """(list of Shape, ngroups, groupindex) for a pattern without nested unbounded repeats"""
    key = (pattern, int(flags))
    if key in _shape_cache:
        return _shape_cache[key]
    try:
        tree = sre_parse.parse(pattern, int(flags))
    except re.error as e:
        raise Unsupported(f"bad regex {pattern!r}: {e}")
    fl = tree.state.flags
    ascii_ = bool(fl & re.ASCII)
    ign = bool(fl & re.IGNORECASE)
    dotall = bool(fl & re.DOTALL)

    def seq(sub):
        cur = [Shape()]
        for op, av in sub:
            nxt = one(op, av)
            cur = [a.cat(b) for a in cur for b in nxt]
            if len(cur) > MAX_SHAPES:
                raise Unsupported("regex too large")
        return cur

    def one(op, av):
        if op is sre_c.LITERAL:
            return [Shape([Item(_fold_case({_chr(av)}, ign))])]
        if op is sre_c.NOT_LITERAL:
            return [Shape([Item(ANY - _fold_case({_chr(av)}, ign))])]
        if op is sre_c.ANY:
            return [Shape([Item(ANY if dotall else ANY - {"\n"})])]
        if op is sre_c.IN:
            return [Shape([Item(in_set(av, ascii_, ign))])]
        if op is sre_c.BRANCH:
            out = []
            for alt in av[1]:
                out += seq(alt)
            return out
        if op is sre_c.SUBPATTERN:
            g, _, _, sub = av
            r = seq(sub)
            if g is not None:
                for s in r:
                    s.groups[g] = (0, len(s.items))
            return r
        if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT":
            lo, hi, sub = av
            hi = INF if hi is sre_c.MAXREPEAT else hi
            r = seq(sub)
            if len(r) == 1 and len(r[0].items) == 1 and r[0].items[0].lo == r[0].items[0].hi == 1:
                groups = {g: (0, 1) for g in r[0].groups}
                if lo == 0 and groups:
                    pass
                else:
                    it = Item(r[0].items[0].set, lo, hi)
                    if lo == hi and lo <= 64 and not groups:
                        return [Shape([Item(it.set, lo, lo)])]
                    return [Shape([it], groups)]
            if hi <= 4:
                out = []
                order = range(hi, lo - 1, -1) if op is not sre_c.MIN_REPEAT else range(lo, hi + 1)
                for k in order:
                    cur = [Shape()]
                    for _ in range(k):
                        cur = [a.cat(b) for a in cur for b in r]
                    out += cur
                return out
            raise Unsupported("regex repeat")
        if op is sre_c.AT:
            if av in (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING):
                return [Shape()]
            if av is sre_c.AT_END_STRING:
                return [Shape((), {}, True)]
            if av is sre_c.AT_END:
                return [Shape((), {}, True), Shape([Item({"\n"})], {}, True)]
            raise Unsupported("regex anchor")
        raise Unsupported(f"regex op {op}")

    r = (seq(tree), tree.state.groups - 1, dict(tree.state.groupdict))
    _shape_cache[key] = r
    return r


# ------------------------------------------------------------------ automata
class NFA:
    def __init__(self):
        self.n = 1
        self.eps = {}
        self.tr = {}     # state -> list of (set, target)
        self.acc = set()

    def new(self):
        self.n += 1
        return self.n - 1

    def closure(self, states):
        out = set(states)
        todo = list(states)
        while todo:
            s = todo.pop()
            for t in self.eps.get(s, ()):
                if t not in out:
                    out.add(t)
                    todo.append(t)
        return frozenset(out)


def nfa_of_items(list_of_items):
    """NFA of a union of item sequences"""
    a = NFA()
    end = a.new()
    a.acc.add(end)
    for items in list_of_items:
        cur = a.new()
        a.eps.setdefault(0, []).append(cur)
        for it in items:
            for _ in range(it.lo):
                nx = a.new()
                a.tr.setdefault(cur, []).append((it.set, nx))
                cur = nx
            if it.hi >= INF:
                a.tr.setdefault(cur, []).append((it.set, cur))
                nx = a.new()
                a.eps.setdefault(cur, []).append(nx)
                cur = nx
            else:
                outs = [cur]
                for _ in range(it.hi - it.lo):
                    nx = a.new()
                    a.tr.setdefault(cur, []).append((it.set, nx))
                    cur = nx
                    outs.append(cur)
                j = a.new()
                for o in outs:
                    a.eps.setdefault(o, []).append(j)
                cur = j
        a.eps.setdefault(cur, []).append(end)
    return a


def regex_items(pattern, flags=0):
    return [s.items for s in shapes(pattern, flags)[0]]


def included(A, B):
    """None if L(A) is a subset of L(B), else an example string (list of characters)"""
    sets = {s for m in (A, B) for l in m.tr.values() for s, _ in l}
    # alphabet classes: a representative per equivalence class
    sig = {}
    for c in ANY:
        sig.setdefault(tuple(c in s for s in sets), c)
    # prefer readable representatives
    for c in "0123456789PTHMSYWDZ+-:.[ ]aA":
        sig[tuple(c in s for s in sets)] = c
    alpha = list(sig.values())
    start = (A.closure({0}), B.closure({0}))
    seen = {start}
    todo = [(start, ())]
    while todo:
        (sa, sb), word = todo.pop(0)
        if sa & A.acc and not sb & B.acc:
            return list(word)
        for c in alpha:
            na = {t for s in sa for st, t in A.tr.get(s, ()) if c in st}
            if not na:
                continue
            nb = {t for s in sb for st, t in B.tr.get(s, ()) if c in st}
            k = (A.closure(na), B.closure(nb))
            if k not in seen:
                seen.add(k)
                todo.append((k, word + (c,)))
                if len(seen) > 200000:
                    raise Unsupported("automaton too large")
    return None


def intersects(A, B):
    """an example word in both languages, or None"""
    sets = {s for m in (A, B) for l in m.tr.values() for s, _ in l}
    sig = {}
    for c in ANY:
        sig.setdefault(tuple(c in s for s in sets), c)
    alpha = list(sig.values())
    start = (A.closure({0}), B.closure({0}))
    seen = {start}
    todo = [(start, ())]
    while todo:
        (sa, sb), word = todo.pop(0)
        if sa & A.acc and sb & B.acc:
            return list(word)
        for c in alpha:
            na = {t for s in sa for st, t in A.tr.get(s, ()) if c in st}
            nb = {t for s in sb for st, t in B.tr.get(s, ()) if c in st}
            if not na or not nb:
                continue
            k = (A.closure(na), B.closure(nb))
            if k not in seen:
                seen.add(k)
                todo.append((k, word + (c,)))
    return None


def show(word):
    return "".join({"ud": "٣", "uo": "¤", "uw": "é", "us": "\u00a0"}.get(c, c) for c in word)
