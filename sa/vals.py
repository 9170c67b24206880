"""Abstract values."""
from __future__ import annotations

import itertools

from .dom import L, Lin

_uid = itertools.count()


class Unsupported(Exception):
    """a construct the analysis does not model: the path is undecided, never an alarm"""


class PyExc(Exception):
    """an exception raised by the analysed program"""

    def __init__(self, obj, site=None):
        self.obj = obj
        self.site = site


class ClsV:
    def __init__(self, name, bases=(), d=None, native=False, module=None):
        self.name, self.bases, self.d = name, tuple(bases), dict(d or {})
        self.native = native
        self.module = module
        self.new = None          # native constructor: f(I, cls, args, kwargs)
        self.mro = _c3(self)
        self.frozen = False
        self.members = None      # enum members
        self.node = None

    def __repr__(self):
        return f"<class {self.name}>"

    def lookup(self, name):
        for c in self.mro:
            if name in c.d:
                return c.d[name]
        return _MISSING

    def lookup_cls(self, name):
        for c in self.mro:
            if name in c.d:
                return c
        return None

    def issub(self, other):
        return other in self.mro


class _Missing:
    def __repr__(self):
        return "<missing>"


_MISSING = _Missing()


def _c3(c):
    seqs = [list(b.mro) for b in c.bases] + [list(c.bases)]
    out = [c]
    while any(seqs):
        seqs = [s for s in seqs if s]
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported("mro")
        out.append(h)
        for s in seqs:
            if s and s[0] is h:
                s.pop(0)
    return out


class ObjV:
    def __init__(self, cls, fields=None, frozen=False):
        self.cls = cls
        self.f = dict(fields or {})
        self.frozen = frozen
        self.uid = next(_uid)

    def __repr__(self):
        return f"{self.cls.name}({', '.join(f'{k}={v!r}' for k, v in self.f.items())})"


class FuncV:
    def __init__(self, node, mod, closure, defaults, kwdefaults, name, cls=None):
        self.node, self.mod, self.closure = node, mod, closure
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name, self.cls = name, cls
        self.attrs = {}

    def __repr__(self):
        return f"<function {self.name}>"


class NTV(tuple):
    """a named tuple: cls (ClsV or None) and the names of its fields"""
    cls = None
    fields = ()


def mk_nt(cls, fields, vals):
    v = NTV(vals)
    v.cls, v.fields = cls, tuple(fields)
    return v


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class Bound:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn

    def __repr__(self):
        return f"<bound {self.fn!r} of {self.self_!r}>"


class Prop:
    def __init__(self, fget):
        self.fget = fget


class CMeth:
    def __init__(self, fn):
        self.fn = fn


class SMeth:
    def __init__(self, fn):
        self.fn = fn


class ModV:
    def __init__(self, name, d=None):
        self.name, self.d = name, dict(d or {})

    def __repr__(self):
        return f"<module {self.name}>"


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Unk:
    """unknown value; using it taints the path"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"?({self.why})"


class Foreign:
    """an object of a type the library knows nothing about"""

    def __init__(self, name="foreign", cls=None):
        self.name = name
        self.cls = cls

    def __repr__(self):
        return f"<{self.name}>"


# --- booleans -----------------------------------------------------------------
class BV:
    """lin >= 0  /  lin == 0  /  lin != 0, decided lazily"""
    __slots__ = ("op", "lin")

    def __init__(self, op, lin):
        self.op, self.lin = op, L(lin)

    def neg(self):
        if self.op == "ge":
            return BV("ge", L(-1) if False else _negm1(self.lin))
        return BV("ne" if self.op == "eq" else "eq", self.lin)

    def __repr__(self):
        return f"({self.lin!r} {dict(ge='>=', eq='==', ne='!=')[self.op]} 0)"


def _negm1(l):
    from .dom import add, scale
    return add(scale(l, -1), Lin(-1))


class BP:
    """opaque predicate"""
    __slots__ = ("key", "pos")

    def __init__(self, key, pos=True):
        self.key, self.pos = key, pos

    def neg(self):
        return BP(self.key, not self.pos)

    def __repr__(self):
        return f"{'' if self.pos else 'not '}{self.key}"


# --- floats -------------------------------------------------------------------
class FloatV:
    """a double near num/den; |double - num/den| <= err (err==0: exact);
    `tree` is the computation that leads to it, for evaluating it under a valuation"""

    def __init__(self, num, den=1, err=0.0, tree=None):
        self.num, self.den, self.err = num, den, err
        self.tree = tree or (("q", num, den) if err == 0 else None)

    def __repr__(self):
        return f"float({self.num!r}/{self.den}±{self.err:g})"


class FloatSym:
    """an arbitrary float argument"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"float:{self.name}"


# --- standard library -----------------------------------------------------------
class Tz:
    __slots__ = ("kind", "off", "zid", "sub")

    def __init__(self, kind, off=None, zid=None, sub=False):
        self.kind, self.off, self.zid, self.sub = kind, off, zid, sub

    def __repr__(self):
        return {"utc": "UTC", "fixed": f"fixed({self.off!r})"}.get(self.kind, f"{self.kind}:{self.zid}")


class DT:
    __slots__ = ("w", "tz", "fold", "sub")

    def __init__(self, w, tz=None, fold=0, sub=False):
        self.w, self.tz, self.fold, self.sub = w, tz, fold, sub

    def __repr__(self):
        return f"datetime[{self.w!r} tz={self.tz!r} fold={self.fold!r}]"


class DA:
    __slots__ = ("o", "sub")

    def __init__(self, o, sub=False):
        self.o, self.sub = o, sub

    def __repr__(self):
        return f"date[{self.o!r}]"


class TM:
    __slots__ = ("u", "tz", "fold", "sub")

    def __init__(self, u, tz=None, fold=0, sub=False):
        self.u, self.tz, self.fold, self.sub = u, tz, fold, sub

    def __repr__(self):
        return f"time[{self.u!r} tz={self.tz!r}]"


class TD:
    __slots__ = ("us", "sub")

    def __init__(self, us, sub=False):
        self.us, self.sub = us, sub

    def __repr__(self):
        return f"timedelta[{self.us!r}]"


class RangeV:
    """range(start, stop) with a bound that is not constant"""
    step = 1

    def __init__(self, start, stop):
        self.start, self.stop = start, stop

    def __repr__(self):
        return f"range({self.start!r}, {self.stop!r})"


class BytesV:
    def __init__(self, fmt, vals):
        self.fmt, self.vals = fmt, tuple(vals)

    def __repr__(self):
        return f"bytes[{self.fmt} {self.vals!r}]"


class HashV:
    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return f"hash{self.key!r}"


class EnumSym:
    def __init__(self, cls, value):
        self.cls, self.value = cls, value

    def __repr__(self):
        return f"{self.cls.name}({self.value!r})"


class RegexV:
    def __init__(self, pattern, flags):
        self.pattern, self.flags = pattern, flags

    def __repr__(self):
        return f"re({self.pattern!r})"


class MatchV:
    def __init__(self, groups, whole, names=None):
        self.groups, self.whole = groups, whole
        self.names = names or {}


# --- strings --------------------------------------------------------------------
class StrV:
    __slots__ = ("p",)

    def __init__(self, pieces):
        self.p = tuple(pieces)

    def __repr__(self):
        return "s" + repr(list(self.p))


class Dec:
    """decimal digits of lin >= 0, zero padded to width"""
    __slots__ = ("lin", "width")

    def __init__(self, lin, width):
        self.lin, self.width = L(lin), width

    def __repr__(self):
        return f"<{self.lin!r}:0{self.width}>"

    def __eq__(self, o):
        return isinstance(o, Dec) and self.lin == o.lin and self.width == o.width

    def __hash__(self):
        return hash((self.lin, self.width))


class RS:
    """a zero padded decimal (value != 0) without its trailing zeros"""
    __slots__ = ("piece",)

    def __init__(self, piece):
        self.piece = piece

    def __repr__(self):
        return f"rstrip{self.piece!r}"

    def __eq__(self, o):
        return isinstance(o, RS) and self.piece == o.piece

    def __hash__(self):
        return hash(self.piece)


class Ch:
    """lo..hi characters of a set; `id` names this part of the input"""
    __slots__ = ("id", "set", "lo", "hi")

    def __init__(self, id, set, lo, hi):
        self.id, self.set, self.lo, self.hi = id, set, lo, hi

    def __repr__(self):
        n = len(self.set)
        s = "".join(sorted(self.set)) if n < 14 else f"{n} chars"
        return f"<{self.id}:[{s}]{{{self.lo},{self.hi}}}>"


class Rest:
    """any string"""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"<{self.id}:any>"


class LJ:
    """piece(s) padded on the right"""
    __slots__ = ("p", "width", "fill")

    def __init__(self, p, width, fill):
        self.p, self.width, self.fill = tuple(p), width, fill

    def __repr__(self):
        return f"ljust({list(self.p)!r},{self.width})"


class Key:
    """name of a timezone"""
    __slots__ = ("zid",)

    def __init__(self, zid):
        self.zid = zid

    def __repr__(self):
        return f"<key {self.zid}>"

    def __eq__(self, o):
        return isinstance(o, Key) and o.zid == self.zid

    def __hash__(self):
        return hash(self.zid)


class Opq:
    """text nobody looks at (reprs in error messages)"""
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"<text {self.what}>"
