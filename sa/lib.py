"""Models of builtins and of the standard library used by the analysed code."""
from __future__ import annotations

import ast
import struct as _struct

from . import strs
from .dom import (INF, Infeasible, L, Lin, add, atom, coef_gcd, mk_cal, mk_dim, mk_fd, mk_fdv, mk_mod,
                  mk_off, mk_ymd, mk_zoff, mul, scale, single_atom, sub, sym)
from .vals import *
from .vals import _MISSING

DAYUS = 86400 * 10**6
EPOCH = 719163
MINW = DAYUS
MAXW = DAYUS * 3652060 - 1
MAXTD = 10**9 * DAYUS - 1
MINTD = -999999999 * DAYUS
UTC = Tz("utc")

T: dict = {}
SHARED: set = set()     # ids of containers that exist before the analysed call
OBJ = ClsV("object", (), native=True)
OBJ.native_base = True


def ty(name, *bases, new=None):
    c = ClsV(name, bases or (OBJ,), native=True)
    c.native_base = new is None
    c.new = new
    T[name] = c
    return c


# --------------------------------------------------------------------------- helpers
def lin(I, v):
    if isinstance(v, (BV, BP)):
        return Lin(int(I.truth(v)))
    if isinstance(v, bool):
        return Lin(int(v))
    if isinstance(v, (int, Lin)):
        return L(v)
    if isinstance(v, Unk):
        I.taint(f"number from {v.why}")
        return L(sym_fresh(I, "unk"))
    if isinstance(v, HashV):
        return L(atom("hash", repr(v.key)))
    return None


def need_int(I, v, what="an integer is required"):
    l = lin(I, v)
    if l is None:
        if isinstance(v, EnumSym):
            raise Unsupported("enum as int")
        I.raise_("TypeError", f"{what} (got {v!r})")
    return l


def sym_fresh(I, base, lo=-INF, hi=INF):
    I.p.nsym = getattr(I.p, "nsym", 0) + 1
    return sym(f"{base}{I.p.nsym}", lo, hi)


def require(I, cond, exc, msg=""):
    if not I.truth(cond):
        I.raise_(exc, msg)


def ge(a, b=0):
    return BV("ge", sub(a, b))


def in_range(I, l, lo, hi, exc, msg=""):
    require(I, ge(l, lo), exc, msg)
    require(I, BV("ge", sub(hi, l)), exc, msg)


def out(v):
    if isinstance(v, Lin) and v.const:
        return v.c
    return v


def mk_td(I, us):
    us = I.p.F.norm(L(us))
    in_range(I, us, MINTD, MAXTD, "OverflowError", "days out of range for timedelta")
    return TD(us)


def mk_dt(I, w, tz=None, fold=0, sub_=False):
    w = I.p.F.norm(L(w))
    in_range(I, w, MINW, MAXW, "OverflowError", "date value out of range")
    return DT(w, tz, fold, sub_)


def mk_da(I, o, sub_=False):
    o = I.p.F.norm(L(o))
    in_range(I, o, 1, 3652059, "OverflowError", "date value out of range")
    return DA(o, sub_)


def ord_of(I, w):
    return mk_fd(I.p.F, I.p.F.norm(w), DAYUS)


def tod_us(I, w):
    w = I.p.F.norm(w)
    return sub(w, scale(mk_fd(I.p.F, w, DAYUS), DAYUS))


def date_of(d, I):
    return d.o if isinstance(d, DA) else ord_of(I, d.w)


def check_ymd(I, y, m, d):
    """validity of a calendar date, returns ordinal"""
    F = I.p.F
    y, m, d = F.norm(y), F.norm(m), F.norm(d)
    a, b, c = single_atom(y), single_atom(m), single_atom(d)
    if a and b and c and (a.kind, b.kind, c.kind) == ("year", "month", "day") and a.args == b.args == c.args:
        return a.args[0]
    in_range(I, y, 1, 9999, "ValueError", "year is out of range")
    in_range(I, m, 1, 12, "ValueError", "month must be in 1..12")
    m = F.norm(m)
    y = F.norm(y)
    require(I, ge(d, 1), "ValueError", "day is out of range for month")
    dm = dim(I, y, m)
    # a day taken from `day(o)` with the year and month of the same date is always valid
    require(I, BV("ge", sub(dm, d)), "ValueError", "day is out of range for month")
    o = F.norm(mk_ymd(F, y, m, d))
    if single_atom(o) is None:
        I.assume(ge(o, 1))
        I.assume(ge(sub(Lin(3652059), o), 0))
    return o


def dim(I, y, m):
    F = I.p.F
    y, m = F.norm(y), F.norm(m)
    r = F.norm(mk_dim(F, y, m))
    a, b = single_atom(y), single_atom(m)
    if a and b and a.kind == "year" and b.kind == "month" and a.args == b.args:
        # the day of that very date does not exceed it
        I.assume(BV("ge", sub(r, mk_cal(F, "day", a.args[0]))))
    elif b and b.kind == "month" and y.const and y.c % 4 == 0 and (y.c % 100 or y.c % 400 == 0):
        # the months of a leap year are as long as those of any year
        I.assume(BV("ge", sub(r, mk_cal(F, "day", b.args[0]))))
    return r


def check_time(I, h, mi, s, us):
    in_range(I, h, 0, 23, "ValueError", "hour must be in 0..23")
    in_range(I, mi, 0, 59, "ValueError", "minute must be in 0..59")
    in_range(I, s, 0, 59, "ValueError", "second must be in 0..59")
    in_range(I, us, 0, 999999, "ValueError", "microsecond must be in 0..999999")
    return add(add(scale(h, 3600 * 10**6), scale(mi, 60 * 10**6)), add(scale(s, 10**6), us))


def check_fold(I, f):
    f = need_int(I, f)
    if f.const:
        if f.c not in (0, 1):
            I.raise_("ValueError", "fold must be either 0 or 1")
        return f.c
    if I.truth(BV("eq", f)):
        return 0
    require(I, BV("eq", sub(f, 1)), "ValueError", "fold")
    return 1


def check_tz(I, tz):
    if tz is None or isinstance(tz, Tz):
        return tz
    if isinstance(tz, Unk):
        I.taint("unknown tz")
        return Tz("foreign", zid="unk")
    I.raise_("TypeError", "tzinfo argument must be None or of a tzinfo subclass")


def args_of(I, name, names, args, kwargs, defaults):
    vals = dict(zip(names, args))
    if len(args) > len(names):
        I.raise_("TypeError", f"{name}() takes at most {len(names)} arguments")
    for k, v in kwargs.items():
        if k not in names:
            I.raise_("TypeError", f"{name}() got an unexpected keyword argument {k!r}")
        if k in vals:
            I.raise_("TypeError", f"{name}() got multiple values for {k!r}")
        vals[k] = v
    out_ = []
    for n in names:
        if n in vals:
            out_.append(vals[n])
        elif n in defaults:
            out_.append(defaults[n])
        else:
            I.raise_("TypeError", f"{name}() missing argument {n!r}")
    return out_


# --------------------------------------------------------------------------- timezones
def tz_is(I, a, b):
    if a is b:
        return True
    if a.kind == "utc" and b.kind == "utc":
        return True
    if {a.kind, b.kind} == {"utc", "fixed"}:
        f = a if a.kind == "fixed" else b
        return BV("eq", f.off)       # timezone(timedelta(0)) is timezone.utc
    if a.kind == b.kind == "zone":
        return a.zid == b.zid and a.sub == b.sub
    if a.kind == b.kind == "foreign":
        return a.zid == b.zid
    if a.kind == b.kind == "fixed":
        return False
    return False


def same_w(I, a, b):
    """the same second"""
    F = I.p.F
    a, b = F.norm(a), F.norm(b)
    return a == b or F.norm(sub(mk_fd(F, a, 10**6), mk_fd(F, b, 10**6))) == Lin(0)


def kind_of(I, zid, w):
    for z, w2, k in I.p.kinds:
        if z == zid and same_w(I, w, w2):
            return k
    return None


def exists_rec(I, zid, w):
    for r in I.p.exists:
        if r[0] == zid and same_w(I, w, r[1]):
            return r
    return None


def off(I, zid, w, fold):
    """UTC offset in seconds of a local time (us) under a fold"""
    F = I.p.F
    w = F.norm(w)
    if isinstance(fold, Lin):
        if not fold.const:
            a = single_atom(F.norm(fold))
            if a is not None and a.kind == "zfold" and a.args[0] == zid and a not in F.rw:
                inst = a.args[1]
                z = F.norm(mk_zoff(F, zid, inst))
                if same_w(I, add(inst, scale(z, 10**6)), w):
                    return z
        fold = check_fold(I, fold)
    r = exists_rec(I, zid, w)
    if r is not None and r[2] is not None and not r[3]:
        # the fold of the instant decides which of the two offsets is the known one
        r[3] = True
        fa = atom("zfold", zid, r[2], lo=0, hi=1)
        f0 = 0 if I.truth(BV("eq", L(fa))) else 1
        at = single_atom(mk_off(F, zid, w, f0))
        if at is not None:
            F.rw[at] = F.norm(mk_zoff(F, zid, r[2]))
            F._touch()
    return F.norm(mk_off(F, zid, w, fold))


def resolve_kind(I, zid, w):
    """split: the local time is ordinary, repeated or skipped"""
    F = I.p.F
    w = F.norm(w)
    k = kind_of(I, zid, w)
    if k:
        return k
    r = exists_rec(I, zid, w)
    o0, o1 = off(I, zid, w, 0), off(I, zid, w, 1)
    opts = ["normal", "fold"] + ([] if r is not None else ["gap"])
    k = opts[I.p.choose(len(opts), f"kind of {w!r}")]
    d = sub(o0, o1)
    if k == "normal":
        I.assume(BV("eq", d))
        a1 = single_atom(o1)
        a0 = single_atom(o0)
        if a1 is not None and a1.kind == "off" and a1 not in F.rw and o0 != o1:
            F.rw[a1] = o0
            F.rebase()
        elif a0 is not None and a0.kind == "off" and a0 not in F.rw and o0 != o1:
            F.rw[a0] = o1
            F.rebase()
    elif k == "fold":
        I.assume(BV("ge", add(d, Lin(-1))))
    else:
        I.assume(BV("ge", sub(Lin(-1), d)))
    I.p.kinds.append((zid, w, k))
    I.p.trail.append((f"{k} time in {zid}", I.site))
    if k != "gap" and r is None:
        I.p.exists.append([zid, w, None, True])
    return k


def from_utc(I, inst, zid):
    """local time (w, fold, offset) of an instant"""
    F = I.p.F
    inst = F.norm(inst)
    # inst == w - 1e6*off(zid, w, f) ?
    cand = None
    for m, k in inst.t:
        if len(m) == 1 and m[0].kind in ("off", "zoff") and m[0].args[0] == zid and k == -10**6:
            a = m[0]
            o = L(a)
            w = F.norm(add(inst, scale(o, 10**6)))
            if a.kind == "off" and same_w(I, a.args[1], w):
                cand = (w, a.args[2], o)
                break
    if cand is None:
        for z, w2, i2, _ in I.p.exists:
            if z == zid and i2 is not None and same_w(I, i2, inst):
                o = sub(F.norm(w2), F.norm(i2))
                return F.norm(add(inst, o)), L(atom("zfold", zid, F.norm(i2), lo=0, hi=1)), o
        # an offset may have been rewritten: look at known local times
        known = [a for a in F.rw if a.kind == "off"]
        known += [a for P, (lo, hi) in F.iv.items() if lo == hi for a in [single_atom(P)] if a is not None and a.kind == "off"]
        for z, w2, i2, _ in list(I.p.exists) + [(z, w, None, None) for z, w, k in I.p.kinds] + [(a.args[0], a.args[1], None, None) for a in known]:
            if z != zid:
                continue
            for f in (0, 1):
                o = F.norm(mk_off(F, zid, F.norm(w2), f))
                if same_w(I, sub(w2, scale(o, 10**6)), inst):
                    cand = (F.norm(add(inst, scale(o, 10**6))), L(f), o)
                    break
            if cand:
                break
    if cand is not None:
        w, f, o = cand
        f = f.c if isinstance(f, Lin) and f.const else f
        r = exists_rec(I, zid, w)
        if r is not None:
            k = kind_of(I, zid, w)
            if k == "normal":
                return w, 0, scale(o, 10**6)
            return w, f, scale(o, 10**6)
        k = resolve_kind(I, zid, w)
        o = F.norm(o)
        if k == "normal":
            return w, 0, scale(o, 10**6)
        if k == "fold":
            return w, f, scale(o, 10**6)
        other = off(I, zid, w, 1 - f)
        w2 = F.norm(add(inst, scale(other, 10**6)))
        if exists_rec(I, zid, w2) is None:
            I.p.exists.append([zid, w2, None, True])
            for ff in (0, 1):
                a = single_atom(mk_off(F, zid, w2, ff))
                if a is not None and a not in F.rw:
                    F.rw[a] = other
            F._touch()
            I.p.kinds.append((zid, w2, "normal"))
        return w2, 0, scale(other, 10**6)
    z = F.norm(mk_zoff(F, zid, inst))
    w = F.norm(add(inst, scale(z, 10**6)))
    if exists_rec(I, zid, w) is None:
        I.p.exists.append([zid, w, inst, False])
    return w, L(atom("zfold", zid, inst, lo=0, hi=1)), scale(z, 10**6)


def off_us(I, d, fold=None):
    """utcoffset of an aware datetime in us (None: tz gives None)"""
    tz = d.tz
    f = d.fold if fold is None else fold
    if tz.kind == "utc":
        return Lin(0)
    if tz.kind == "fixed":
        return I.p.F.norm(tz.off)
    if tz.kind == "zone":
        return scale(off(I, tz.zid, d.w, f), 10**6)
    # foreign tzinfo
    none = BP(("foreign-offset-none", tz.zid))
    if I.truth(none):
        return None
    ff = f if isinstance(f, int) else 0
    return L(atom("foff", tz.zid, I.p.F.norm(d.w), ff, lo=-DAYUS + 1, hi=DAYUS - 1))


def inst_us(I, d, fold=None):
    o = off_us(I, d, fold)
    return None if o is None else I.p.F.norm(sub(d.w, o))


def to_utc(I, d):
    if d.tz is None:
        I.effect("systz", "naive datetime interpreted in the system timezone")
        o = scale(off(I, "SYS", d.w, d.fold), 10**6)
    else:
        if d.tz.kind == "utc":
            return d
        o = off_us(I, d)
        if o is None:
            I.effect("systz", "naive datetime interpreted in the system timezone")
            o = scale(off(I, "SYS", d.w, d.fold), 10**6)
    w = I.p.F.norm(sub(d.w, o))
    in_range(I, w, MINW, MAXW, "OverflowError", "date value out of range")
    return DT(w, UTC, 0, d.sub)


def astimezone(I, d, tz):
    if isinstance(tz, Unk):
        I.taint("astimezone(unknown)")
        return Unk("datetime")
    if tz is not None and not isinstance(tz, Tz):
        I.raise_("TypeError", "tz argument must be an instance of tzinfo")
    if tz is not None and d.tz is not None and I.truth(tz_is(I, d.tz, tz)):
        return d
    u = to_utc(I, d)
    if tz is None:
        I.effect("systz", "astimezone() without argument")
        w, f, o = from_utc(I, u.w, "SYS")
        in_range(I, w, MINW, MAXW, "OverflowError", "date value out of range")
        return DT(w, mk_fixed(I, o), 0, d.sub)
    if tz.kind == "utc":
        return u
    if tz.kind == "fixed":
        w = I.p.F.norm(add(u.w, tz.off))
        in_range(I, w, MINW, MAXW, "OverflowError", "date value out of range")
        return DT(w, tz, 0, d.sub)
    if tz.kind == "zone":
        w, f, o = from_utc(I, u.w, tz.zid)
        in_range(I, w, MINW, MAXW, "OverflowError", "date value out of range")
        return DT(w, tz, f, d.sub)
    raise Unsupported("astimezone(foreign)")


def mk_fixed(I, o):
    o = I.p.F.norm(L(o))
    if o.const and o.c == 0:
        return UTC
    return Tz("fixed", o)


def new_timezone(I, cls, args, kwargs):
    o, name = args_of(I, "timezone", ("offset", "name"), args, kwargs, {"name": None})
    if not isinstance(o, TD):
        if isinstance(o, Unk):
            I.taint("timezone(unknown)")
            return Tz("fixed", sym_fresh(I, "unkoff"))
        I.raise_("TypeError", "timezone() argument 1 must be datetime.timedelta")
    in_range(I, o.us, -DAYUS + 1, DAYUS - 1, "ValueError", "offset must be strictly between -24h and 24h")
    return mk_fixed(I, o.us)


def new_zoneinfo(I, cls, args, kwargs):
    (key,) = args_of(I, "ZoneInfo", ("key",), args, kwargs, {})
    if isinstance(key, str):
        return Tz("zone", zid=key)
    if isinstance(key, StrV):
        ps = strs.flat(I, key)
        if len(ps) == 1 and isinstance(ps[0], Key):
            return Tz("zone", zid=ps[0].zid)
        if len(ps) == 1 and isinstance(ps[0], (Ch, Rest)):
            k = ("zone-exists", ps[0].id)
            if not I.truth(BP(k)):
                I.raise_(T["ZoneInfoNotFoundError"], "No time zone found")
            return Tz("zone", zid="in:" + strs.base_id(I, ps[0].id))
        if I.p.choose(2, "zone?") == 1:
            I.raise_(T["ZoneInfoNotFoundError"], "No time zone found")
        return Tz("zone", zid="in:" + repr(ps))
    if isinstance(key, Unk):
        I.taint("ZoneInfo(unknown)")
        return Tz("zone", zid="unk")
    I.raise_("TypeError", "expected str")


# --------------------------------------------------------------------------- datetime constructors
def new_td(I, cls, args, kwargs):
    names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
    vals = args_of(I, "timedelta", names, args, kwargs, {n: 0 for n in names})
    fac = (DAYUS, 10**6, 1, 1000, 60 * 10**6, 3600 * 10**6, 7 * DAYUS)
    tot = Lin(0)
    for v, f in zip(vals, fac):
        if isinstance(v, FloatV):
            l, ok = float_times(I, v, f)
            tot = add(tot, l)
            continue
        if isinstance(v, (float, FloatSym)):
            I.taint("float timedelta")
            tot = add(tot, sym_fresh(I, "ftd"))
            continue
        tot = add(tot, need_int(I, v, "unsupported type for timedelta component"), f)
    return mk_td(I, tot)


def new_da(I, cls, args, kwargs):
    y, m, d = [need_int(I, v) for v in args_of(I, "date", ("year", "month", "day"), args, kwargs, {})]
    return DA(check_ymd(I, y, m, d))


def new_tm(I, cls, args, kwargs):
    names = ("hour", "minute", "second", "microsecond", "tzinfo", "fold")
    h, mi, s, us, tz, fold = args_of(I, "time", names, args, kwargs,
                                     dict(hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0))
    h, mi, s, us = [need_int(I, v) for v in (h, mi, s, us)]
    return TM(I.p.F.norm(check_time(I, h, mi, s, us)), check_tz(I, tz), check_fold(I, fold))


def new_dt(I, cls, args, kwargs):
    names = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo", "fold")
    y, mo, d, h, mi, s, us, tz, fold = args_of(
        I, "datetime", names, args, kwargs,
        dict(hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0))
    y, mo, d, h, mi, s, us = [need_int(I, v) for v in (y, mo, d, h, mi, s, us)]
    tz = check_tz(I, tz)
    o = check_ymd(I, y, mo, d)
    u = check_time(I, h, mi, s, us)
    return DT(I.p.F.norm(add(scale(o, DAYUS), u)), tz, check_fold(I, fold))


# --------------------------------------------------------------------------- native attributes
def comp(I, w, which):
    F = I.p.F
    w = F.norm(w)
    u = tod_us(I, w)
    if which == "hour":
        r = mk_fd(F, u, 3600 * 10**6)
    elif which == "minute":
        r = sub(mk_fd(F, u, 60 * 10**6), scale(mk_fd(F, u, 3600 * 10**6), 60))
    elif which == "second":
        r = sub(mk_fd(F, u, 10**6), scale(mk_fd(F, u, 60 * 10**6), 60))
    elif which == "microsecond":
        r = mk_mod(F, u, 10**6)
    else:
        r = mk_cal(F, which, mk_fd(F, w, DAYUS))
    return out(F.norm(r))


def method(fn, name):
    b = Builtin(name, fn)
    return b


def native_attr(I, v, name):
    if isinstance(v, (DT, DA, TM, TD, Tz)):
        r = dt_attr(I, v, name)
        if r is not _MISSING:
            return r
    if isinstance(v, (str, StrV)):
        r = str_attr(I, v, name)
        if r is not _MISSING:
            return r
    if isinstance(v, MatchV):
        return match_attr(I, v, name)
    if isinstance(v, RegexV):
        if name in ("fullmatch", "match"):
            return Builtin(name, lambda I, a, k: strs.regex_match(I, v, a[0], name == "fullmatch"))
        if name == "pattern":
            return v.pattern
        raise Unsupported(f"regex.{name}")
    if isinstance(v, dict):
        r = dict_attr(I, v, name)
        if r is not _MISSING:
            return r
    if isinstance(v, list):
        return list_attr(I, v, name)
    if isinstance(v, (set, frozenset)):
        r = set_attr(I, v, name)
        if r is not _MISSING:
            return r
    if isinstance(v, NTV):
        r = nt_attr(I, v, name)
        if r is not _MISSING:
            return r
    if isinstance(v, tuple):
        if name == "index":
            def f(I, a, k):
                for i, x in enumerate(v):
                    if I.truth(I.compare("eq", x, a[0])):
                        return i
                I.raise_("ValueError", "tuple.index(x): x not in tuple")
            return Builtin(name, f)
        if name == "count":
            return Builtin(name, lambda I, a, k: sum(1 for x in v if I.truth(I.compare("eq", x, a[0]))))
    if isinstance(v, (int, Lin, BV, BP)) and not isinstance(v, (BytesV,)):
        if name == "bit_length":
            raise Unsupported("bit_length")
        if name == "is_integer":
            return Builtin(name, lambda I, a, k: True)
        if name in ("real", "numerator"):
            return v
    if isinstance(v, (FloatV, FloatSym)):
        if name == "is_integer":
            def isint(I, a, k):
                if isinstance(v, FloatV) and v.den == 1:
                    return True
                if isinstance(v, FloatV):
                    return BV("eq", mk_mod(I.p.F, v.num, v.den))
                return BP(("is_integer", v.name))
            return Builtin(name, isint)
    if isinstance(v, EnumSym):
        if name in ("value", "_value_"):
            return v.value
        raise Unsupported("enum attribute")
    if name == "__class__":
        return I.type_of(v)
    if name == "__doc__":
        return None
    if name.startswith("__") and name[2:-2] in ("eq", "ne", "lt", "le", "gt", "ge"):
        op = name[2:-2]
        return Builtin(name, lambda I, a, k: I.compare(op, v, a[0]))
    if name.startswith("__") and name[2:-2] in ("add", "sub", "mul", "floordiv", "mod", "neg", "abs"):
        op = name[2:-2]
        if op == "neg":
            return Builtin(name, lambda I, a, k: I.neg(v))
        if op == "abs":
            return Builtin(name, lambda I, a, k: b_abs(I, [v], {}))
        return Builtin(name, lambda I, a, k: I.binop(op, v, a[0]))
    if isinstance(v, (Builtin, Bound)):
        if name == "__name__":
            return getattr(v, "name", "?")
        if name == "__self__" and isinstance(v, Bound):
            return v.self_
    if isinstance(v, (SMeth, CMeth)):
        return I.getattr(v.fn, name)
    if isinstance(v, Prop) and name == "fget":
        return v.fget
    real = real_class(v)
    if real is not None and hasattr(real, name):
        raise Unsupported(f"{real.__name__}.{name}")
    return _MISSING


def real_class(v):
    import datetime as _d
    import zoneinfo as _z
    for t, c in ((bool, bool), ((int, Lin), int), ((BV, BP), bool), ((str, StrV), str), ((float, FloatV, FloatSym), float), (tuple, tuple), (list, list),
                 (dict, dict), (frozenset, frozenset), (set, set), ((bytes, BytesV), bytes), (DT, _d.datetime), (DA, _d.date), (TM, _d.time), (TD, _d.timedelta)):
        if isinstance(v, t):
            return c
    if isinstance(v, Tz):
        return _d.timezone if v.kind in ("utc", "fixed") else _z.ZoneInfo
    return None


def real_named(name):
    import builtins as _b
    import datetime as _d
    import zoneinfo as _z
    if name in ("datetime", "date", "time", "timedelta", "timezone"):
        return getattr(_d, name)
    if name == "ZoneInfo":
        return _z.ZoneInfo
    r = getattr(_b, name, None)
    return r if isinstance(r, type) else None


TM_FIELDS = ("tm_year", "tm_mon", "tm_mday", "tm_hour", "tm_min", "tm_sec", "tm_wday", "tm_yday", "tm_isdst")


def nt_attr(I, v, name):
    if name in v.fields:
        return v[v.fields.index(name)]
    if name == "_fields":
        return v.fields
    if name == "_asdict":
        return Builtin(name, lambda I, a, k: dict(zip(v.fields, v)))
    if name == "_replace":
        return Builtin(name, lambda I, a, k: mk_nt(v.cls, v.fields, [k.get(n, x) for n, x in zip(v.fields, v)]))
    if v.cls is not None:
        c = v.cls.lookup(name)
        if c is not _MISSING:
            return I.bind(c, v, v.cls)
        if name == "__class__":
            return v.cls
    return _MISSING


def make_namedtuple(I, cls, fields, defaults):
    def new(I, c, args, kwargs):
        return mk_nt(c, fields, args_of(I, cls.name, tuple(fields), list(args), dict(kwargs), dict(defaults)))
    cls.new = new
    cls.d["_make"] = Builtin("_make", lambda I, a, k: new(I, cls, list(I.iterate(a[0])), {}))
    cls.d["_fields"] = tuple(fields)
    return cls


def namedtuple(I, a, k):
    name, f = a[0], a[1] if len(a) > 1 else k["field_names"]
    f = f.replace(",", " ").split() if isinstance(f, str) else list(I.iterate(f))
    d = list(I.iterate(k["defaults"])) if k.get("defaults") is not None else []
    return make_namedtuple(I, ClsV(name, (I.builtins["tuple"],)), f, dict(zip(f[len(f) - len(d):], d)))


def dt_attr(I, v, name):
    F = I.p.F
    M = lambda fn: Builtin(name, fn)
    if isinstance(v, DT):
        if name in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
            return comp(I, v.w, name)
        if name == "tzinfo":
            return v.tz
        if name == "fold":
            return v.fold
        if name == "replace":
            return M(lambda I, a, k: dt_replace(I, v, a, k))
        if name == "astimezone":
            return M(lambda I, a, k: astimezone(I, v, args_of(I, "astimezone", ("tz",), a, k, {"tz": None})[0]))
        if name == "utcoffset":
            def f(I, a, k):
                if v.tz is None:
                    return None
                o = off_us(I, v)
                return None if o is None else TD(o)
            return M(f)
        if name == "date":
            return M(lambda I, a, k: DA(ord_of(I, v.w)))
        if name == "time":
            return M(lambda I, a, k: TM(tod_us(I, v.w), None, v.fold))
        if name == "timetz":
            return M(lambda I, a, k: TM(tod_us(I, v.w), v.tz, v.fold))
        if name == "timestamp":
            def f(I, a, k):
                if v.tz is None:
                    I.effect("systz", "timestamp of naive datetime")
                    i = sub(v.w, scale(off(I, "SYS", v.w, v.fold), 10**6))
                else:
                    i = inst_us(I, v)
                    if i is None:
                        raise Unsupported("timestamp")
                return mk_float(I, sub(i, EPOCH * DAYUS), 10**6)
            return M(f)
        if name == "isoformat":
            return M(lambda I, a, k: iso_dt(I, v, a, k))
        if name == "isoweekday":
            return M(lambda I, a, k: out(F.norm(add(mk_mod(F, add(ord_of(I, v.w), Lin(6)), 7), Lin(1)))))
        if name == "weekday":
            return M(lambda I, a, k: out(F.norm(mk_mod(F, add(ord_of(I, v.w), Lin(6)), 7))))
        if name == "toordinal":
            return M(lambda I, a, k: out(ord_of(I, v.w)))
        if name in ("timetuple", "utctimetuple"):
            def f(I, a, k):
                d = to_utc(I, v) if name == "utctimetuple" and v.tz is not None else v
                c = [comp(I, d.w, x) for x in ("year", "month", "day", "hour", "minute", "second")]
                wd = out(mk_mod(F, add(ord_of(I, d.w), Lin(6)), 7))
                return mk_nt(None, TM_FIELDS, tuple(c) + (wd, Unk("yday"), Unk("isdst")))
            return M(f)
        if name == "tzname":
            return M(lambda I, a, k: mk_opq("tzname"))
        if name in ("min", "max"):
            return DT(L(MINW if name == "min" else MAXW))
    elif isinstance(v, DA):
        if name in ("year", "month", "day"):
            return out(F.norm(mk_cal(F, name, F.norm(v.o))))
        if name == "replace":
            return M(lambda I, a, k: da_replace(I, v, a, k))
        if name == "isoformat":
            return M(lambda I, a, k: iso_da(I, v.o))
        if name == "isoweekday":
            return M(lambda I, a, k: out(F.norm(add(mk_mod(F, add(v.o, Lin(6)), 7), Lin(1)))))
        if name == "weekday":
            return M(lambda I, a, k: out(F.norm(mk_mod(F, add(v.o, Lin(6)), 7))))
        if name == "toordinal":
            return M(lambda I, a, k: out(F.norm(v.o)))
        if name == "timetuple":
            return M(lambda I, a, k: mk_nt(None, TM_FIELDS, tuple(out(F.norm(mk_cal(F, n, v.o))) for n in ("year", "month", "day")) + (
                0, 0, 0, out(mk_mod(F, add(v.o, Lin(6)), 7)), Unk("yday"), -1)))
    elif isinstance(v, TM):
        if name in ("hour", "minute", "second", "microsecond"):
            return comp(I, v.u, name)
        if name == "tzinfo":
            return v.tz
        if name == "fold":
            return v.fold
        if name == "replace":
            return M(lambda I, a, k: tm_replace(I, v, a, k))
        if name == "isoformat":
            return M(lambda I, a, k: iso_time(I, v, a, k))
        if name == "utcoffset":
            raise Unsupported("time.utcoffset")
    elif isinstance(v, TD):
        us = F.norm(v.us)
        if name == "days":
            return out(mk_fd(F, us, DAYUS))
        if name == "seconds":
            return out(F.norm(sub(mk_fd(F, us, 10**6), scale(mk_fd(F, us, DAYUS), 86400))))
        if name == "microseconds":
            return out(F.norm(mk_mod(F, us, 10**6)))
        if name == "total_seconds":
            return M(lambda I, a, k: mk_float(I, v.us, 10**6))
    elif isinstance(v, Tz):
        if name == "key" and v.kind == "zone":
            return StrV((Key(v.zid),))
        if name == "utc" and v.kind in ("utc", "fixed"):
            return UTC
        if name == "utcoffset":
            def f(I, a, k):
                d = a[0]
                if d is None:
                    if v.kind in ("utc", "fixed"):
                        return TD(v.off if v.kind == "fixed" else Lin(0))
                    return None
                return TD(off_us(I, DT(d.w, v, d.fold)))
            return M(f)
        if name == "fromutc":
            def f(I, a, k):
                d = a[0]
                return astimezone(I, DT(d.w, UTC, 0, d.sub), v)
            return M(f)
        if name in ("tzname", "dst"):
            return M(lambda I, a, k: mk_opq("tzname"))
    if name == "strftime" and isinstance(v, (DT, DA, TM)):
        return M(lambda I, a, k: strftime(I, v, a[0]))
    if name == "__format__" and isinstance(v, (DT, DA, TM)):
        return M(lambda I, a, k: strftime(I, v, a[0]))
    return _MISSING


def decoded(I, codec, f, *text):
    """what a codec of the standard library makes of a text: the same every time it is asked"""
    memo = I.p.__dict__.setdefault("decoded", {})
    key = (codec,) + tuple(repr(strs.flat(I, x)) for x in text)
    if key not in memo:
        memo[key] = f()
    return memo[key]


def mk_opq(what):
    return StrV((Opq(what),))


_DT_FIELDS = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo", "fold")


def dt_replace(I, v, a, k):
    cur = {n: None for n in _DT_FIELDS}
    vals = args_of(I, "replace", _DT_FIELDS, a, k, {n: _MISSING for n in _DT_FIELDS})
    g = dict(zip(_DT_FIELDS, vals))
    tz = v.tz if g["tzinfo"] is _MISSING else check_tz(I, g["tzinfo"])
    fold = v.fold if g["fold"] is _MISSING else check_fold(I, g["fold"])
    F = I.p.F
    w = F.norm(v.w)
    if all(g[n] is _MISSING for n in ("year", "month", "day")):
        o = ord_of(I, w)
    else:
        ymd = [need_int(I, comp(I, w, n) if g[n] is _MISSING else g[n]) for n in ("year", "month", "day")]
        o = check_ymd(I, *ymd)
    tn = ("hour", "minute", "second", "microsecond")
    if all(g[n] is _MISSING for n in tn):
        u = tod_us(I, w)
    else:
        t = [need_int(I, comp(I, w, n) if g[n] is _MISSING else g[n]) for n in tn]
        u = check_time(I, *t)
    return DT(F.norm(add(scale(o, DAYUS), u)), tz, fold, v.sub)


def da_replace(I, v, a, k):
    names = ("year", "month", "day")
    vals = args_of(I, "replace", names, a, k, {n: _MISSING for n in names})
    F = I.p.F
    ymd = [need_int(I, mk_cal(F, n, F.norm(v.o)) if x is _MISSING else x) for n, x in zip(names, vals)]
    return DA(check_ymd(I, *ymd), v.sub)


def tm_replace(I, v, a, k):
    names = ("hour", "minute", "second", "microsecond", "tzinfo", "fold")
    vals = args_of(I, "replace", names, a, k, {n: _MISSING for n in names})
    g = dict(zip(names, vals))
    tz = v.tz if g["tzinfo"] is _MISSING else check_tz(I, g["tzinfo"])
    fold = v.fold if g["fold"] is _MISSING else check_fold(I, g["fold"])
    t = [need_int(I, comp(I, v.u, n) if g[n] is _MISSING else g[n]) for n in names[:4]]
    return TM(I.p.F.norm(check_time(I, *t)), tz, fold, v.sub)


def combine(I, a, k):
    d, t, tz = args_of(I, "combine", ("date", "time", "tzinfo"), a, k, {"tzinfo": _MISSING})
    if isinstance(d, Unk) or isinstance(t, Unk):
        I.taint("combine unknown")
        return Unk("datetime")
    if not isinstance(d, (DA, DT)):
        I.raise_("TypeError", "combine() argument 1 must be datetime.date")
    if not isinstance(t, TM):
        I.raise_("TypeError", "combine() argument 2 must be datetime.time")
    z = t.tz if tz is _MISSING else check_tz(I, tz)
    return DT(I.p.F.norm(add(scale(date_of(d, I), DAYUS), t.u)), z, t.fold)


def dec(l, w):
    return Dec(l, w)


def iso_da(I, o):
    F = I.p.F
    o = F.norm(o)
    return strs.mk([dec(mk_cal(F, "year", o), 4), "-", dec(mk_cal(F, "month", o), 2), "-", dec(mk_cal(F, "day", o), 2)])


def iso_tm_pieces(I, u):
    F = I.p.F
    u = F.norm(u)
    c = lambda n: L(comp(I, u, n))
    ps = [dec(c("hour"), 2), ":", dec(c("minute"), 2), ":", dec(c("second"), 2)]
    us = c("microsecond")
    if I.truth(BV("ne", us)):
        ps += [".", dec(us, 6)]
    return ps


def iso_tm(I, u):
    return strs.mk(iso_tm_pieces(I, u))


def iso_time(I, v, a, k):
    (spec,) = args_of(I, "isoformat", ("timespec",), a, k, {"timespec": "auto"})
    if v.tz is not None:
        raise Unsupported("isoformat of an aware time")
    return strs.mk(iso_spec(I, F_norm(I, v.u), spec))


def F_norm(I, l):
    return I.p.F.norm(l)


def iso_spec(I, u, spec):
    if not isinstance(spec, str):
        raise Unsupported("isoformat arguments")
    c = lambda n: L(comp(I, u, n))
    if spec == "auto":
        return iso_tm_pieces(I, u)
    ps = [dec(c("hour"), 2)]
    if spec == "hours":
        return ps
    ps += [":", dec(c("minute"), 2)]
    if spec == "minutes":
        return ps
    ps += [":", dec(c("second"), 2)]
    if spec == "seconds":
        return ps
    us = c("microsecond")
    if spec == "microseconds":
        return ps + [".", dec(us, 6)]
    if spec == "milliseconds":
        return ps + [".", dec(mk_fd(I.p.F, us, 1000), 3)]
    I.raise_("ValueError", "Unknown timespec value")


def iso_off(I, o):
    """pieces of a UTC offset (us)"""
    F = I.p.F
    sign = "+"
    if not I.truth(ge(o, 0)):
        sign = "-"
        o = scale(o, -1)
    o = F.norm(o)
    s = mk_fd(F, o, 10**6)
    h, m = mk_fd(F, s, 3600), sub(mk_fd(F, s, 60), scale(mk_fd(F, s, 3600), 60))
    sec = mk_mod(F, s, 60)
    us = mk_mod(F, o, 10**6)
    ps = [sign, dec(h, 2), ":", dec(m, 2)]
    hasus = I.truth(BV("ne", us))
    if hasus or I.truth(BV("ne", sec)):
        ps += [":", dec(sec, 2)]
        if hasus:
            ps += [".", dec(us, 6)]
    return ps


def iso_dt(I, v, a, k):
    sep, spec = args_of(I, "isoformat", ("sep", "timespec"), a, k, {"sep": "T", "timespec": "auto"})
    if not isinstance(sep, str) or not isinstance(spec, str):
        raise Unsupported("isoformat arguments")
    F = I.p.F
    w = F.norm(v.w)
    o = ord_of(I, w)
    u = tod_us(I, w)
    ps = strs.flat(I, iso_da(I, o)) + [sep]
    ps += iso_spec(I, u, spec)
    if v.tz is not None:
        oo = off_us(I, v)
        if oo is not None:
            ps += iso_off(I, oo)
    return strs.mk(ps)


# fromisoformat / fromtimestamp
_DATE_ISO = r"(\d{4})-(\d{2})-(\d{2})|(\d{4})(\d{2})(\d{2})|(\d{4})-W(\d{2})(?:-(\d))?|(\d{4})W(\d{2})(\d)?"
_DT_ISO = r"(\d{4})-(\d{2})-(\d{2})(?s:.)(\d{2}):(\d{2}):(\d{2})"


def date_fromiso(I, a, k):
    import re
    s = a[0]
    if isinstance(s, Unk):
        I.taint("fromisoformat(unknown)")
        return Unk("date")
    if not isinstance(s, (str, StrV)):
        I.raise_("TypeError", "fromisoformat: argument must be str")
    m = strs.regex_match(I, RegexV(_DATE_ISO, re.A), s, True)
    if m is None:
        I.raise_("ValueError", "Invalid isoformat string")
    g = m.groups
    if g[1] is not None:
        return DA(check_ymd(I, *[L(strs.to_int(I, x)) for x in g[1:4]]))
    if g[4] is not None:
        return DA(check_ymd(I, *[L(strs.to_int(I, x)) for x in g[4:7]]))
    y, wk, d = (g[7], g[8], g[9]) if g[7] is not None else (g[10], g[11], g[12])
    y, wk, d = L(strs.to_int(I, y)), L(strs.to_int(I, wk)), L(strs.to_int(I, d) if d is not None else 1)
    if I.p.choose(2, "iso week valid") == 1:
        I.raise_("ValueError", "Invalid isocalendar")
    return DA(L(atom("isoweek", y, wk, d, lo=1, hi=3652059)))


def dt_fromiso(I, a, k):
    import re
    s = a[0]
    if not isinstance(s, (str, StrV)):
        I.raise_("TypeError", "fromisoformat: argument must be str")
    m = strs.regex_match(I, RegexV(_DT_ISO, re.A), s, True)
    if m is None:
        if I.p.choose(2, "other ISO form") == 0:
            I.raise_("ValueError", "Invalid isoformat string")
        I.taint("datetime.fromisoformat of another form")
        return Unk("datetime")
    g = [L(strs.to_int(I, x)) for x in m.groups[1:7]]
    o = check_ymd(I, *g[:3])
    return DT(I.p.F.norm(add(scale(o, DAYUS), check_time(I, *g[3:], Lin(0)))))


def dt_fromts(I, a, k):
    t, tz = args_of(I, "fromtimestamp", ("timestamp", "tz"), a, k, {"tz": None})
    if isinstance(t, FloatV):
        us = float_times(I, t, 10**6, "ts")[0]
    elif isinstance(t, (float, FloatSym)):
        I.taint("float timestamp")
        us = sym_fresh(I, "fts")
    else:
        us = scale(need_int(I, t), 10**6)
    w = I.p.F.norm(add(us, EPOCH * DAYUS))
    in_range(I, w, MINW, MAXW, "ValueError", "year is out of range")
    tz = check_tz(I, tz)
    if tz is None:
        I.effect("systz", "fromtimestamp without tz")
        w, f, _ = from_utc(I, w, "SYS")
        return DT(w, None, f)
    return astimezone(I, DT(w, UTC), tz)


# --------------------------------------------------------------------------- floats
def mk_float(I, num, den=1, err=0.0, tree=None):
    """the double nearest to num/den"""
    from math import gcd
    num = I.p.F.norm(L(num))
    if tree is None and err == 0:
        tree = ("q", num, den)
    if num.const:
        g = gcd(num.c, den)
    else:
        g = gcd(gcd(coef_gcd(num), num.c), den)
    if g > 1:
        num = Lin(num.c // g, tuple((m, c // g) for m, c in num.t))
        den //= g
    if den & (den - 1):
        I.p.lossy = True      # not a dyadic fraction: rounded whatever its size
    lo, hi = I.p.F.bounds(num, deep=True)
    M = max(abs(lo), abs(hi)) / den if INF not in (abs(lo), abs(hi)) else INF
    e = err
    if not (den == 1 and M <= 2**53 and err == 0):
        e = err + (M * 2.0**-53 if M != INF else INF)
    return FloatV(num, den, e, tree)


def float_times(I, v, f, how=None):
    """int(v*f) as used by timedelta/fromtimestamp: (Lin, exact)"""
    if v.den == 1 and v.err == 0:
        return scale(v.num, f), True
    x = mk_float(I, scale(v.num, f), v.den, v.err * f, v.tree and ("mul", v.tree, ("q", Lin(f), 1)))
    if how and v.tree and not int_known(x, "round"):
        return inexact(I, x, how, v.tree), True
    return float_to_int(I, x, "round"), True


FSCALE = 1 << 300       # doubles of 2**-247 and more are whole multiples of 1/FSCALE; smaller ones are not looked at


def flt(name, most=2.0**63):
    """an arbitrary double (within +-most)"""
    m = int(most) * FSCALE
    k = sym("flt:" + name, -m, m)
    return FloatV(k, FSCALE, 0.0, ("d", k, FSCALE))


def float_iv(I, t):
    """interval of doubles that contains the value of a floating point computation"""
    from fractions import Fraction as Q
    from math import inf, nextafter
    F = I.p.F
    if t[0] in ("q", "d"):
        out = []
        for b, side in zip(F.bounds(t[1], deep=True), (inf, -inf)):
            if b in (INF, -INF):
                out.append(float(b))
                continue
            try:
                x = b / t[2]
            except OverflowError:
                x = inf if b > 0 else -inf
            else:
                if t[0] == "d" and (Q(x) < Q(b, t[2]) if side > 0 else Q(x) > Q(b, t[2])):
                    x = nextafter(x, side)
            out.append(x)
        return tuple(out)
    args = [float_iv(I, u) for u in t[1:]]
    a = args[0]
    try:
        if t[0] == "neg":
            return -a[1], -a[0]
        b = args[1]
        if t[0] == "add":
            r = a[0] + b[0], a[1] + b[1]
        elif t[0] == "sub":
            r = a[0] - b[1], a[1] - b[0]
        elif t[0] == "mul":
            r = [x * y for x in a for y in b]
        elif t[0] == "truediv" and b[0] > 0:
            r = [x / y for x in a for y in b]
        elif t[0] == "floordiv" and b[0] == b[1] > 0:
            r = [x // b[0] for x in a]
        elif t[0] == "mod" and b[0] == b[1] > 0:
            r = (0.0, b[0])
        else:
            return -inf, inf
        if any(x != x for x in r):
            return -inf, inf
        return min(r), max(r)
    except (OverflowError, ZeroDivisionError):
        return -inf, inf


def close(I, n, m, num, den, err):
    """learn that n/m is within err of num/den"""
    if err == INF or err != err:
        return
    from fractions import Fraction as Q
    from math import ceil
    num = I.p.F.norm(num)
    slack = ceil(Q(err) * den * m) + 1
    d = sub(scale(n, den), scale(num, m))
    for x in (d, scale(d, -1)):
        I.assume(ge(add(x, Lin(slack)), 0))


def as_double(I, v):
    """the double v as an exact multiple of 1/FSCALE; None if its computation is not known"""
    from fractions import Fraction as Q
    from math import ceil, floor
    if v.err == 0:
        return v
    if not v.tree:
        return None
    memo = I.p.__dict__.setdefault("doubles", {})
    d = memo.get(v.tree)
    if d is None:
        I.p.nsym = getattr(I.p, "nsym", 0) + 1
        d = memo[v.tree] = L(atom("fl", I.p.nsym, v.tree))
        lo, hi = float_iv(I, v.tree)
        if lo != -INF:
            I.assume(ge(sub(d, Lin(floor(Q(lo) * FSCALE))), 0))
        if hi != INF:
            I.assume(ge(sub(Lin(ceil(Q(hi) * FSCALE)), d), 0))
        close(I, d, FSCALE, v.num, v.den, v.err)
    return FloatV(d, FSCALE, 0.0, ("d", d, FSCALE))


def inexact(I, v, how, *more):
    """an integer obtained from the double v by the operation `how`"""
    import math
    tree = more[-1] if more and isinstance(more[-1], tuple) else v.tree
    more = tuple(x for x in more if not isinstance(x, tuple))
    I.p.nsym = getattr(I.p, "nsym", 0) + 1
    r = L(atom("inexact", I.p.F.norm(v.num), v.den, I.p.nsym, (how, *more, tree)))
    if how in ("trunc", "floor", "round", "ts"):
        if v.tree:
            f = {"trunc": math.trunc, "floor": math.floor}.get(how, round)
            lo, hi = float_iv(I, v.tree)
            if how == "ts":
                lo, hi = lo - 1 - abs(lo) * 2.0**-40, hi + 1 + abs(hi) * 2.0**-40
            if lo != -INF:
                I.assume(ge(sub(r, Lin(f(lo))), 0))
            if hi != INF:
                I.assume(ge(sub(Lin(f(hi)), r), 0))
        close(I, r, 1, v.num, v.den, v.err + 1)
    return r


def int_known(v, how):
    """is the integer made of the double v the one made of the number it stands for?"""
    if v.den == 1:
        return v.err == 0 or (how == "round" and v.err < 0.49)
    return v.err == 0 or v.err < 0.5 / v.den


def float_to_int(I, v, how="trunc"):
    F = I.p.F
    num, den = F.norm(v.num), v.den
    if not int_known(v, how):
        I.p.events.append(("inexact", f"{v!r} converted to int", I.site, num, getattr(I.p, "lossy", False)))
        return inexact(I, v, how)
    if den == 1:
        return num
    if how == "floor":
        return mk_fd(F, num, den)
    if how == "round":
        if den % 2 == 0 and I.truth(BV("eq", mk_mod(F, sub(scale(num, 2), den), 2 * den))):
            q = F.norm(mk_fd(F, num, den))      # a tie: to even
            return q if I.truth(BV("eq", mk_mod(F, q, 2))) else add(q, Lin(1))
        return mk_fd(F, add(scale(num, 2), Lin(den)), 2 * den)
    if I.truth(ge(num, 0)):
        return F.norm(mk_fd(F, num, den))
    return F.norm(scale(mk_fd(F, scale(num, -1), den), -1))


def as_float(I, v):
    if isinstance(v, (FloatV, FloatSym)):
        return v
    if isinstance(v, float):
        n, d = v.as_integer_ratio()
        return FloatV(Lin(n), d, 0.0)
    l = lin(I, v)
    if l is None:
        return None
    return mk_float(I, l)


def float_binop(I, op, a, b):
    if isinstance(a, FloatSym) or isinstance(b, FloatSym):
        na = a.name if isinstance(a, FloatSym) else repr(a)
        nb = b.name if isinstance(b, FloatSym) else repr(b)
        return FloatSym(f"{op}({na},{nb})")
    fa, fb = as_float(I, a), as_float(I, b)
    if fa is None or fb is None:
        I.raise_("TypeError", f"unsupported operand type(s) for {op}")
    F = I.p.F
    tree = (op, fa.tree, fb.tree) if fa.tree and fb.tree else None
    if op in ("add", "sub"):
        from math import lcm
        den = lcm(fa.den, fb.den)
        num = add(scale(fa.num, den // fa.den), scale(fb.num, den // fb.den), 1 if op == "add" else -1)
        return mk_float(I, num, den, fa.err + fb.err, tree)
    if op == "mul":
        num = mul(fa.num, fb.num)
        ba = max(map(abs, F.bounds(fa.num))) / fa.den
        bb = max(map(abs, F.bounds(fb.num))) / fb.den
        e = (fa.err * bb if fa.err else 0) + (fb.err * ba if fb.err else 0)
        return mk_float(I, num, fa.den * fb.den, e, tree)
    if op == "truediv" and F.norm(fb.num).const:
        c = F.norm(fb.num).c
        if c == 0:
            I.raise_("ZeroDivisionError", "float division by zero")
        num, den = scale(fa.num, fb.den), fa.den * c
        if den < 0:
            num, den = scale(num, -1), -den
        return mk_float(I, num, den, fa.err * fb.den / abs(c), tree)
    if op in ("floordiv", "mod") and F.norm(fb.num).const and fb.err == 0:
        r = float_divmod(I, op, fa, F.norm(fb.num).c, fb.den, tree)
        if r is not None:
            return r
    return FloatSym(f"{op}({a!r},{b!r})")


def float_divmod(I, op, a, n, d, tree):
    """a // (n/d) or a % (n/d), where a is a double"""
    F = I.p.F
    if n == 0:
        I.raise_("ZeroDivisionError", "float modulo")
    if n < 0:
        return None
    if a.err:
        I.p.events.append(("inexact", f"{op} of {a!r}", I.site, a.num, getattr(I.p, "lossy", False)))
        if not tree:
            return None
        if a.den == 1 and d == 1:
            # a whole number: so is the result
            q = FloatV(a.num, n, a.err / n, tree)
            if op == "floordiv":
                r = inexact(I, q, "trunc")
            else:
                r = inexact(I, FloatV(a.num, 1, INF, tree), "trunc")
                I.assume(ge(Lin(n - 1), r))
            return FloatV(r, 1, 0.0, ("q", r, 1))
        a = as_double(I, a)
    num = F.norm(a.num)
    q = F.norm(mk_fd(F, scale(num, d), a.den * n))
    if op == "floordiv":
        return FloatV(q, 1, 0.0, ("q", q, 1))
    den = a.den * d
    r = F.norm(sub(scale(num, d), scale(q, a.den * n)))
    if den == 1:
        return mk_float(I, r)
    # the remainder of a double no smaller than the divisor is a multiple of its last bit, so it is a double too
    if I.truth(ge(num, 0)) or I.truth(ge(scale(add(scale(num, d), Lin(a.den * n)), -1), 0)):
        return FloatV(r, den, 0.0, ("d", r, den))
    return as_double(I, FloatV(r, den, n / d * 2.0**-53, tree))


# --------------------------------------------------------------------------- operators
def native_binop(I, op, a, b):
    F = I.p.F
    isnum = lambda v: isinstance(v, (int, Lin))
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, int) and isinstance(b, int):
        if op in ("pow", "lshift") and b > 5000:
            raise Unsupported("huge number")
        if op == "pow" and b < 0:
            return native_binop(I, op, float(a), b)
        try:
            return {
                "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b,
                "floordiv": lambda: a // b, "mod": lambda: a % b, "pow": lambda: a**b,
                "truediv": lambda: mk_truediv(I, a, b), "or": lambda: a | b, "and": lambda: a & b,
                "xor": lambda: a ^ b, "lshift": lambda: a << b, "rshift": lambda: a >> b,
            }[op]()
        except ZeroDivisionError:
            I.raise_("ZeroDivisionError", "division by zero")
    if isnum(a) and isnum(b):
        la, lb = F.norm(L(a)), F.norm(L(b))
        if op == "add":
            return out(add(la, lb))
        if op == "sub":
            return out(sub(la, lb))
        if op == "mul":
            return out(mul(la, lb))
        if op in ("floordiv", "mod"):
            if lb.const:
                if lb.c == 0:
                    I.raise_("ZeroDivisionError", "division by zero")
                q = mk_fd(F, la, lb.c)
            else:
                if I.truth(BV("eq", lb)):
                    I.raise_("ZeroDivisionError", "division by zero")
                q = fdv(I, la, lb)
            r = q if op == "floordiv" else sub(la, mul(q, lb))
            return out(F.norm(r))
        if op == "truediv":
            return mk_truediv(I, la, lb)
        if op == "pow" and la.const and not lb.const:
            e = I.const_int(lb)
            if e < 0:
                raise Unsupported("int to a negative power")
            return la.c**e
        if op == "pow" and lb.const and 0 <= lb.c <= 4:
            r = Lin(1)
            for _ in range(lb.c):
                r = mul(r, la)
            return out(r)
        raise Unsupported(f"int {op}")
    if isinstance(a, HashV) or isinstance(b, HashV):
        if op in ("xor", "add", "mul", "or", "and"):
            return HashV((op, a.key if isinstance(a, HashV) else a, b.key if isinstance(b, HashV) else b))
    if isinstance(a, (FloatV, FloatSym, float)) or isinstance(b, (FloatV, FloatSym, float)):
        if (isnum(a) or isinstance(a, (FloatV, FloatSym, float))) and (isnum(b) or isinstance(b, (FloatV, FloatSym, float))):
            return float_binop(I, op, a, b)
        if op == "mul" and isinstance(a, TD):
            raise Unsupported("timedelta * float")
    if op == "mod" and isinstance(a, (str, StrV)):
        c = strs.const(I, a)
        if c is None:
            raise Unsupported("% formatting with a symbolic format")
        return str_printf(I, c, b)
    # strings
    if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)) and op == "add":
        return strs.concat(I, [a, b])
    if op == "mul":
        if isinstance(b, (str, StrV, tuple, list)) and isnum(a):
            a, b = b, a
        if isinstance(a, (str, StrV)) and isnum(b):
            lb = F.norm(L(b))
            n = I.const_int(lb)
            return strs.concat(I, [a] * max(0, n))
        if isinstance(a, (tuple, list)) and isnum(b):
            return a * I.const_int(b)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "add":
        return a + b
    if isinstance(a, list) and isinstance(b, list) and op == "add":
        return a + b
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return {"or": a | b, "and": a & b, "sub": a - b, "xor": a ^ b}[op]
    if isinstance(a, dict) and isinstance(b, dict) and op == "or":
        return {**a, **b}
    if isinstance(a, (set, frozenset)) and op == "sub" and isinstance(b, dict):
        I.raise_("TypeError", "set - dict")
    # dates
    if isinstance(a, TD) and isinstance(b, TD):
        if op == "add":
            return mk_td(I, add(a.us, b.us))
        if op == "sub":
            return mk_td(I, sub(a.us, b.us))
        if op in ("floordiv", "mod", "truediv"):
            lb = F.norm(b.us)
            if I.truth(BV("eq", lb)):
                I.raise_("ZeroDivisionError", "division by zero")
            if op == "truediv":
                if lb.const:
                    return mk_float(I, a.us, lb.c)
                return FloatSym("td/td")
            q = fdv(I, F.norm(a.us), lb)
            return out(q) if op == "floordiv" else mk_td(I, sub(a.us, mul(q, lb)))
    if isinstance(a, TD) and isnum(b) or isinstance(b, TD) and isnum(a):
        if op == "mul":
            t, n = (a, b) if isinstance(a, TD) else (b, a)
            return mk_td(I, mul(F.norm(t.us), F.norm(L(n))))
        if op == "floordiv" and isinstance(a, TD):
            lb = F.norm(L(b))
            if I.truth(BV("eq", lb)):
                I.raise_("ZeroDivisionError", "division by zero")
            return mk_td(I, fdv(I, F.norm(a.us), lb))
        if op == "truediv" and isinstance(a, TD):
            lb = F.norm(L(b))
            if lb.const and lb.c > 0:
                # round half even; exact when divisible
                if I.decide(BV("eq", mk_mod(F, F.norm(a.us), lb.c))):
                    return mk_td(I, mk_fd(F, F.norm(a.us), lb.c))
            raise Unsupported("timedelta / int")
    if isinstance(a, (DT, DA)) and isinstance(b, TD) and op in ("add", "sub"):
        k = 1 if op == "add" else -1
        if isinstance(a, DT):
            return mk_dt(I, add(a.w, b.us, k), a.tz, 0, a.sub)
        d = mk_fd(F, F.norm(b.us), DAYUS)
        return mk_da(I, add(a.o, d, k), a.sub)
    if isinstance(b, (DT, DA)) and isinstance(a, TD) and op == "add":
        return native_binop(I, op, b, a)
    if op == "sub" and isinstance(a, DT) and isinstance(b, DT):
        if (a.tz is None) != (b.tz is None):
            I.raise_("TypeError", "can't subtract offset-naive and offset-aware datetimes")
        if a.tz is None or I.truth(tz_is(I, a.tz, b.tz)):
            return TD(F.norm(sub(a.w, b.w)))
        x, y = inst_us(I, a), inst_us(I, b)
        if x is None or y is None:
            raise Unsupported("subtract with utcoffset None")
        return TD(F.norm(sub(x, y)))
    if op == "sub" and isinstance(a, DA) and isinstance(b, DA):
        return TD(F.norm(scale(sub(a.o, b.o), DAYUS)))
    I.raise_("TypeError", f"unsupported operand type(s) for {op}: {a!r}, {b!r}")


def fdv(I, x, y):
    """floor division by a variable (nonzero) number"""
    F = I.p.F
    if y.const:
        return mk_fd(F, x, y.c)
    x, y = F.norm(x), F.norm(y)
    q = mk_fdv(F, x, y)
    a = single_atom(q)
    if a is not None and a.kind == "fdv":
        pos = I.decide(ge(y, 1))
        r = sub(x, mul(q, y))
        if pos:
            I.assume(ge(r, 0))
            I.assume(BV("ge", sub(sub(y, 1), r)))
            lo, hi = F.bounds(x)
            if lo >= 0:
                I.assume(ge(q, 0))
        elif I.decide(ge(-1, y)):
            I.assume(ge(0, r))
            I.assume(BV("ge", sub(sub(r, y), 1)))
    return q


def mk_truediv(I, a, b):
    a, b = L(a), L(b)
    if b.const:
        if b.c == 0:
            I.raise_("ZeroDivisionError", "division by zero")
        if b.c < 0:
            return mk_float(I, scale(a, -1), -b.c)
        return mk_float(I, a, b.c)
    if I.truth(BV("eq", b)):
        I.raise_("ZeroDivisionError", "division by zero")
    return FloatSym(f"({a!r}/{b!r})")


def rel(op, d):
    """d <op> 0"""
    if op == "eq":
        return BV("eq", d)
    if op == "ne":
        return BV("ne", d)
    if op == "lt":
        return BV("ge", sub(Lin(-1), d))
    if op == "le":
        return BV("ge", scale(d, -1))
    if op == "gt":
        return BV("ge", add(d, Lin(-1)))
    return BV("ge", d)


def dec_bv(I, b):
    d = I.decide(b)
    return b if d is None else d


def native_cmp(I, op, a, b):
    F = I.p.F
    num = lambda v: isinstance(v, (int, Lin, BV, BP))
    if num(a) and num(b):
        if isinstance(a, (BV, BP)) and isinstance(b, bool) and op in ("eq", "ne"):
            return a if b == (op == "eq") else a.neg()
        if isinstance(a, (BV, BP)):
            a = I.truth(a)
        if isinstance(b, (BV, BP)):
            b = I.truth(b)
        return dec_bv(I, rel(op, sub(L(a), L(b))))
    fl = lambda v: isinstance(v, (float, FloatV, FloatSym))
    if (fl(a) or num(a)) and (fl(b) or num(b)):
        if isinstance(a, FloatSym) or isinstance(b, FloatSym):
            return BP((op, repr(a), repr(b)))
        x, y = as_double(I, as_float(I, a)), as_double(I, as_float(I, b))
        if x is None or y is None:
            return BP((op, repr(a), repr(b)))
        return dec_bv(I, rel(op, sub(scale(x.num, y.den), scale(y.num, x.den))))
    if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
        if op == "eq":
            return strs.eq(I, a, b)
        if op == "ne":
            return I.not_(strs.eq(I, a, b))
        ca, cb = strs.const(I, a), strs.const(I, b)
        if ca is not None and cb is not None:
            return {"lt": ca < cb, "le": ca <= cb, "gt": ca > cb, "ge": ca >= cb}[op]
        return BP((op, repr(a), repr(b)))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and isinstance(a, tuple) == isinstance(b, tuple):
        return seq_cmp(I, op, a, b)
    if isinstance(a, TD) and isinstance(b, TD):
        return dec_bv(I, rel(op, sub(a.us, b.us)))
    if isinstance(a, DA) and isinstance(b, DA):
        return dec_bv(I, rel(op, sub(a.o, b.o)))
    if isinstance(a, TM) and isinstance(b, TM):
        if a.tz is None and b.tz is None:
            return dec_bv(I, rel(op, sub(a.u, b.u)))
        if (a.tz is None) != (b.tz is None):
            if op in ("eq", "ne"):
                return op == "ne"
            I.raise_("TypeError", "can't compare offset-naive and offset-aware times")
        raise Unsupported("aware time comparison")
    if isinstance(a, DT) and isinstance(b, DT):
        return dt_cmp(I, op, a, b)
    if isinstance(a, Tz) and isinstance(b, Tz):
        if op not in ("eq", "ne"):
            I.raise_("TypeError", "tz order")
        r = tz_is(I, a, b)
        if a.kind == b.kind == "fixed":
            r = BV("eq", sub(a.off, b.off))
        return r if op == "eq" else I.not_(r)
    if isinstance(a, HashV) and isinstance(b, HashV):
        return hash_eq(I, a.key, b.key) if op == "eq" else I.not_(hash_eq(I, a.key, b.key))
    if isinstance(a, (dict, set, frozenset)) and isinstance(b, (dict, set, frozenset)):
        if op == "eq":
            return a == b
        if op == "ne":
            return a != b
        if isinstance(a, (set, frozenset)):
            return {"le": a <= b, "lt": a < b, "ge": a >= b, "gt": a > b}[op]
    if isinstance(a, BytesV) and isinstance(b, BytesV) and op in ("eq", "ne"):
        r = a.fmt == b.fmt and I.truth(seq_cmp(I, "eq", a.vals, b.vals))
        return r if op == "eq" else not r
    if isinstance(a, EnumSym) or isinstance(b, EnumSym):
        return BP((op, repr(a), repr(b)))
    if op == "eq":
        return a is b
    if op == "ne":
        return a is not b
    I.raise_("TypeError", f"'{op}' not supported between instances of {a!r} and {b!r}")


def hash_eq(I, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return all(I.truth(hash_eq(I, x, y)) for x, y in zip(a, b))
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        return dec_bv(I, BV("eq", sub(L(a), L(b))))
    return a == b


def seq_cmp(I, op, a, b):
    if op in ("eq", "ne"):
        if len(a) != len(b):
            return op == "ne"
        for x, y in zip(a, b):
            if not I.truth(I.compare("eq", x, y)):
                return op == "ne"
        return op == "eq"
    # (A, c) vs (B, d) with c, d bounded compares like one number when the pair is
    # made of two scalars: keep it one linear comparison
    if len(a) == len(b) == 2:
        k = pair_key(I, a, b)
        if k is not None:
            return dec_bv(I, rel(op, k))
    for x, y in zip(a, b):
        if not I.truth(I.compare("eq", x, y)):
            return I.compare(op, x, y)
    la, lb = len(a), len(b)
    return {"lt": la < lb, "le": la <= lb, "gt": la > lb, "ge": la >= lb}[op]


def pair_key(I, a, b):
    """difference of the lexicographic keys of two pairs, as one linear form"""
    F = I.p.F
    x, y = a[0], b[0]
    d1 = None
    if isinstance(x, TM) and isinstance(y, TM) and x.tz is None and y.tz is None:
        d1 = sub(x.u, y.u)
    elif isinstance(x, DA) and isinstance(y, DA):
        d1 = sub(x.o, y.o)
    elif isinstance(x, DT) and isinstance(y, DT):
        if x.tz is None and y.tz is None:
            d1 = sub(x.w, y.w)
        elif x.tz is not None and y.tz is not None and x.tz.kind == y.tz.kind == "utc":
            d1 = sub(x.w, y.w)
        else:
            return None
    elif isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
        d1 = sub(L(x), L(y))
    elif isinstance(x, TD) and isinstance(y, TD):
        d1 = sub(x.us, y.us)
    if d1 is None:
        return None
    if not all(isinstance(v, (int, Lin)) for v in (a[1], b[1])):
        return None
    lo1, hi1 = F.bounds(F.norm(L(a[1])), deep=True)
    lo2, hi2 = F.bounds(F.norm(L(b[1])), deep=True)
    if INF in (abs(lo1), abs(hi1), abs(lo2), abs(hi2)):
        return None
    if lo1 < 0 or lo2 < 0 or max(hi1, hi2) >= 10**9:
        return None
    d1 = F.norm(d1)
    g = coef_gcd(d1) or 1
    from math import gcd
    g = gcd(g, d1.c) or 1
    f = 10**9
    d1 = Lin(d1.c // g, tuple((m, c // g) for m, c in d1.t))
    return add(scale(d1, f), sub(L(a[1]), L(b[1])))


def dt_cmp(I, op, a, b):
    F = I.p.F
    if (a.tz is None) != (b.tz is None):
        if op in ("eq", "ne"):
            return op == "ne"
        I.raise_("TypeError", "can't compare offset-naive and offset-aware datetimes")
    if a.tz is None or I.truth(tz_is(I, a.tz, b.tz)):
        return dec_bv(I, rel(op, sub(a.w, b.w)))
    x, y = inst_us(I, a), inst_us(I, b)
    if x is None or y is None:
        raise Unsupported("comparison with utcoffset None")
    if op in ("eq", "ne"):
        # inter-zone equality: a time whose offset depends on fold equals nothing
        for d in (a, b):
            if d.tz.kind == "zone" and resolve_kind(I, d.tz.zid, d.w) != "normal":
                return op == "ne"
            if d.tz.kind == "foreign":
                I.taint("comparison with foreign tzinfo")
        x, y = inst_us(I, a), inst_us(I, b)
    return dec_bv(I, rel(op, sub(x, y)))


# --------------------------------------------------------------------------- strings
str_truth = strs.truth
str_const = strs.const
str_concat = strs.concat
str_getitem = strs.getitem
str_contains = strs.contains
str_chars = strs.chars


def str_attr(I, s, name):
    M = lambda fn: Builtin(name, fn)
    C = lambda: strs.const(I, s)

    def cs(v):
        r = strs.const(I, v) if isinstance(v, (str, StrV)) else None
        if r is None:
            raise Unsupported(f"str.{name} with symbolic argument")
        return r

    if name in ("startswith", "endswith"):
        return M(lambda I, a, k: strs.startswith(I, s, a[0], name == "endswith"))
    if name == "isascii":
        return M(lambda I, a, k: strs.is_ascii(I, s))
    if name in ("isdigit", "isdecimal", "isnumeric"):
        return M(lambda I, a, k: I.truth(strs.truth(I, s)) and strs.only_digits(I, s, name))
    if name == "rstrip":
        return M(lambda I, a, k: strs.rstrip(I, s, cs(a[0]) if a else None))
    if name in ("ljust",):
        return M(lambda I, a, k: strs.ljust(I, s, I.const_int(a[0]), cs(a[1]) if len(a) > 1 else " "))
    if name in ("rjust", "zfill"):
        def f(I, a, k):
            c = C()
            w = I.const_int(a[0])
            fill = "0" if name == "zfill" else (cs(a[1]) if len(a) > 1 else " ")
            if c is not None:
                return c.zfill(w) if name == "zfill" else c.rjust(w, fill)
            ps = strs.flat(I, s)
            if len(ps) == 1 and isinstance(ps[0], Dec) and fill == "0":
                return strs.mk([Dec(ps[0].lin, max(w, ps[0].width))])
            ln = strs.str_len(I, s)
            if isinstance(ln, int) and ln >= w:
                return s
            raise Unsupported(name)
        return M(f)
    if name == "partition":
        return M(lambda I, a, k: strs.partition(I, s, cs(a[0])))
    if name == "replace":
        return M(lambda I, a, k: strs.replace(I, s, cs(a[0]), cs(a[1]), I.const_int(a[2]) if len(a) > 2 else -1))
    if name == "join":
        def f(I, a, k):
            outp = []
            for i, x in enumerate(I.iterate(a[0])):
                if i:
                    outp.append(s)
                if not isinstance(x, (str, StrV, Unk)):
                    I.raise_("TypeError", "sequence item: expected str")
                outp.append(x)
            return strs.concat(I, outp)
        return M(f)
    if name in ("removeprefix", "removesuffix"):
        def f(I, a, k):
            p = cs(a[0])
            if I.truth(strs.startswith(I, s, p, name == "removesuffix")):
                return strs.getitem(I, s, slice(len(p), None) if name == "removeprefix" else slice(None, -len(p)))
            return s
        return M(f)
    if name in ("format", "format_map"):
        def f(I, a, k):
            c = C()
            if c is None:
                raise Unsupported("format on symbolic string")
            return str_format(I, c, a, k)
        return M(f)
    if name == "__len__":
        return M(lambda I, a, k: strs.str_len(I, s))
    if name in ("split", "rsplit", "upper", "lower", "strip", "lstrip", "find", "rfind", "rindex", "count", "index", "encode",
                "isalpha", "isupper", "islower", "isspace", "title", "splitlines", "rpartition", "casefold", "isalnum",
                "swapcase", "capitalize", "center", "translate"):
        def f(I, a, k):
            c = C()
            if c is not None and not k:
                args = [strs.const(I, x) if isinstance(x, StrV) else x for x in a]
                if all(x is y is None or isinstance(x, (str, int)) for x, y in zip(args, a)):
                    try:
                        return getattr(c, name)(*args)
                    except ValueError as e:
                        I.raise_("ValueError", str(e))
            if name == "split" and len(a) >= 1:
                return split(I, s, cs(a[0]), I.const_int(a[1]) if len(a) > 1 else -1)
            if name in ("upper", "lower"):
                ps = strs.flat(I, s)
                if all(isinstance(p, (str, Dec, RS)) or (isinstance(p, Ch) and p.set <= strs.DIGITS) for p in ps):
                    return strs.mk([getattr(p, name)() if isinstance(p, str) else p for p in ps])
                outp = []
                for p in ps:
                    if isinstance(p, Ch) and p.lo == p.hi == 1:
                        cases = {getattr(x, name)() if len(x) == 1 else x for x in p.set}
                        if len(cases) == 1:
                            outp.append(next(iter(cases)))
                            continue
                        raise Unsupported(name)
                    if isinstance(p, str):
                        outp.append(getattr(p, name)())
                    elif isinstance(p, (Dec, RS)) or (isinstance(p, Ch) and p.set <= strs.DIGITS):
                        outp.append(p)
                    else:
                        raise Unsupported(name)
                return strs.mk(outp)
            if name in ("find", "index", "rfind", "rindex") and len(a) == 1 and c is not None and isinstance(a[0], StrV):
                # which character of a constant text
                fx = strs.flat(I, a[0])
                if len(fx) == 1 and isinstance(fx[0], Ch) and fx[0].lo == fx[0].hi == 1 and len(set(c)) == len(c):
                    for i, x in enumerate(c):
                        if I.truth(strs.eq(I, a[0], x)):
                            return i
                    if "index" in name:
                        I.raise_("ValueError", "substring not found")
                    return -1
            if name in ("find", "index") and len(a) == 1:
                before, m, _ = strs.partition(I, s, cs(a[0]))
                if m == "":
                    if name == "index":
                        I.raise_("ValueError", "substring not found")
                    return -1
                return strs.str_len(I, before)
            if name == "strip" and not a or name == "lstrip":
                ps = strs.flat(I, s)
                if all(isinstance(p, (Dec, RS)) or (isinstance(p, str) and not p.isspace()) for p in ps):
                    return s
            raise Unsupported(f"str.{name}")
        return M(f)
    return _MISSING


def split(I, s, sep, maxn):
    outp = []
    cur = s
    while maxn != 0:
        a, m, b = strs.partition(I, cur, sep)
        if m == "":
            break
        outp.append(a)
        cur = b
        maxn -= 1
    return outp + [cur]


def str_printf(I, c, arg):
    import re as _re
    args = list(arg) if isinstance(arg, tuple) else [arg]
    outp, pos, n = [], 0, 0
    for m in _re.finditer(r"%(?:\((\w+)\))?([-+ 0#]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])", c):
        outp.append(c[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == "%":
            outp.append("%")
            continue
        if width == "*":
            raise Unsupported("% formatting: *")
        if key is not None:
            if not isinstance(arg, dict):
                I.raise_("TypeError", "format requires a mapping")
            v = arg[key]
        else:
            if n >= len(args):
                I.raise_("TypeError", "not enough arguments for format string")
            v = args[n]
            n += 1
        if conv in "sr":
            v = py_repr(I, v) if conv == "r" else py_str(I, v)
            if prec is not None:
                v = strs.getitem(I, v, slice(None, int(prec)))
            outp.append(py_format(I, v, ("<" if "-" in flags else ">") + width if width else ""))
        elif conv in "dif" and (conv == "f") == (prec is not None) and not set(flags) - set("0+"):
            if conv != "f":
                if isinstance(v, (FloatV, FloatSym, float)):
                    raise Unsupported("%d of a float")
                if not isinstance(v, (int, Lin, BV, BP)):
                    I.raise_("TypeError", "%d format: a real number is required")
                if isinstance(v, (bool, BV, BP)):
                    v = 1 if I.truth(v) else 0
            outp.append(py_format(I, v, ("+" if "+" in flags else "") + ("0" if "0" in flags and width else "") + (width or "") + (f".{prec}f" if conv == "f" else "d")))
        else:
            raise Unsupported(f"% formatting: {m.group()}")
    outp.append(c[pos:])
    if "%" in _re.sub(r"%(?:\((\w+)\))?([-+ 0#]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])", "", c):
        raise Unsupported("% formatting")
    if not isinstance(arg, dict) and n < len(args):
        I.raise_("TypeError", "not all arguments converted during string formatting")
    return strs.concat(I, outp)


WEEKDAYS = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()
MONTHS = "January February March April May June July August September October November December".split()


def strftime(I, v, fmt):
    """datetime/date/time.strftime as CPython does it on glibc: %Y is not padded"""
    f = strs.const(I, fmt)
    if f is None:
        raise Unsupported("symbolic strftime format")
    F = I.p.F
    outp, i = [], 0
    while i < len(f):
        if f[i] != "%":
            outp.append(f[i])
            i += 1
            continue
        c = f[i + 1:i + 2]
        i += 2
        if isinstance(v, DA):
            get = lambda n: L(out(F.norm(mk_cal(F, n, F.norm(v.o))))) if n in ("year", "month", "day") else Lin(0)
        elif isinstance(v, TM):
            if c in "YmdFjaAbBxcuw":
                raise Unsupported("date in time.strftime")
            get = lambda n: L(comp(I, v.u, n))
        else:
            get = lambda n: L(comp(I, v.w, n))
        names = {"m": "month", "d": "day", "H": "hour", "M": "minute", "S": "second"}
        if c in "aAbBh":
            # names as in the C locale
            if c in "aA":
                o = v.o if isinstance(v, DA) else ord_of(I, v.w)
                n = WEEKDAYS[I.const_int(F.norm(mk_mod(F, add(o, Lin(6)), 7)))]
            else:
                n = MONTHS[I.const_int(F.norm(get("month"))) - 1]
            outp.append(n if c in "AB" else n[:3])
        elif c in names:
            outp.append(strs.mk([Dec(get(names[c]), 2)]))
        elif c == "Y":
            outp.append(strs.mk([Dec(get("year"), 1)]))
        elif c == "f":
            outp.append(strs.mk([Dec(get("microsecond"), 6)]))
        elif c in ("T", "X"):
            outp.append(strs.mk([Dec(get("hour"), 2), ":", Dec(get("minute"), 2), ":", Dec(get("second"), 2)]))
        elif c == "F":
            outp.append(strs.mk([Dec(get("year"), 1), "-", Dec(get("month"), 2), "-", Dec(get("day"), 2)]))
        elif c == "%":
            outp.append("%")
        elif c in ("z", ":") and isinstance(v, DT):
            colon = c == ":"
            if colon:
                if f[i:i + 1] != "z":
                    raise Unsupported("strftime %:")
                i += 1
            oo = off_us(I, v) if v.tz is not None else None
            if oo is not None:
                outp += [x for x in iso_off(I, oo) if colon or x != ":"]
        else:
            raise Unsupported(f"strftime %{c}")
    return strs.concat(I, [x if isinstance(x, (str, StrV)) else strs.mk([x]) for x in outp])


def str_format(I, c, a, k):
    import string
    outp = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(c):
        outp.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            raise Unsupported("format field")
        if conv == "r":
            v = py_repr(I, v)
        outp.append(py_format(I, v, spec or ""))
    return strs.concat(I, outp)


def py_format(I, v, spec):
    if isinstance(v, (bool,)) and not spec:
        return str(v)
    if isinstance(v, (BV, BP)):
        v = I.truth(v)
        return str(v) if not spec else format(v, spec)
    if isinstance(v, (int, float)):
        return format(v, spec)
    if isinstance(v, Lin):
        l = I.p.F.norm(v)
        if l.const:
            return format(l.c, spec)
        import re as _re
        if spec[:1] == "+":
            m = _re.fullmatch(r"\+(0?)(\d+)?d?", spec)
            if not m or (m[2] and not m[1]):
                raise Unsupported(f"format spec {spec!r}")
            w = int(m[2]) - 1 if m[2] else 1
            pos = I.truth(ge(l, 0))
            return strs.mk(["+" if pos else "-", Dec(l if pos else scale(l, -1), max(w, 1))])
        m = _re.fullmatch(r"(?:0>|0=|0)?(\d+)?d?", spec)
        if not m:
            raise Unsupported(f"format spec {spec!r}")
        w = int(m[1]) if m[1] else 1
        if m[1] and not spec.startswith("0"):
            raise Unsupported(f"format spec {spec!r}")
        if I.truth(ge(l, 0)):
            return strs.mk([Dec(l, w)])
        if w > 1:
            if spec.startswith("0>"):
                raise Unsupported("0> of negative")
            return strs.mk(["-", Dec(scale(l, -1), w - 1)])
        return strs.mk(["-", Dec(scale(l, -1), 1)])
    if isinstance(v, FloatV):
        import re as _re
        m = _re.fullmatch(r"\.(\d+)f", spec)
        if not m:
            return mk_opq("float")
        n = int(m[1])
        F = I.p.F
        q10 = scale(v.num, 10**n)
        if coef_gcd(q10) % v.den or q10.c % v.den:
            # rounded to fewer digits than the value has
            from math import gcd
            g = gcd(coef_gcd(q10), gcd(q10.c, v.den))
            if v.err * 10.0**n >= 0.4 * g / v.den:
                return mk_opq("rounded float")
            twice = add(scale(q10, 2), Lin(v.den))
            if I.truth(BV("eq", mk_mod(F, twice, 2 * v.den))):
                I.taint("rounding of a tie")
            q = F.norm(mk_fd(F, twice, 2 * v.den))
        else:
            q = Lin(q10.c // v.den, tuple((mm, c // v.den) for mm, c in q10.t))
        if v.err >= 0.5 * 10.0**-n:
            I.p.events.append(("inexact", f"{v!r} formatted with {n} digits", I.site, v.num, getattr(I.p, "lossy", False)))
            if I.p.F.bounds(v.num, deep=True)[0] < 0:
                return mk_opq("inexact float")
            w, f = inexact(I, v, "whole", n), inexact(I, v, "digits", n)
            for c in (ge(w), ge(f), ge(10**n - 1, f)):
                I.assume(c)
            return strs.mk([Dec(w, 1), ".", Dec(f, n)])
        sign = ""
        if not I.truth(ge(q, 0)):
            sign, q = "-", scale(q, -1)
        if n == 0:
            return strs.mk([sign, Dec(q, 1)])
        return strs.mk([sign, Dec(F.norm(mk_fd(F, q, 10**n)), 1), ".", Dec(F.norm(mk_mod(F, q, 10**n)), n)])
    if isinstance(v, (str, StrV)):
        if not spec:
            return v
        c = strs.const(I, v)
        if c is not None:
            return format(c, spec)
        import re as _re
        m = _re.fullmatch(r"0>(\d+)", spec)
        ps = strs.flat(I, v)
        if m and len(ps) == 1 and isinstance(ps[0], Dec):
            return strs.mk([Dec(ps[0].lin, max(int(m[1]), ps[0].width))])
        m = _re.fullmatch(r"(.)<(\d+)s?", spec)
        if m:
            return strs.ljust(I, v, int(m[2]), m[1])
        m = _re.fullmatch(r"(?:.?[<>^])?(\d+)s?", spec)
        n = strs.str_len(I, v) if m else None
        if m and isinstance(n, int) and n >= int(m[1]):
            return v
        raise Unsupported("format of text")
    if isinstance(v, ObjV):
        m = v.cls.lookup("__format__")
        if m is not _MISSING:
            return I.call_method(v, "__format__", [spec])
        return py_str(I, v)
    if isinstance(v, Unk):
        return mk_opq(v.why)
    if isinstance(v, (DT, DA, TM)):
        return strftime(I, v, spec) if spec else py_str(I, v)
    return mk_opq(repr(v))


def py_str(I, v):
    if isinstance(v, (str, StrV)):
        return v
    if isinstance(v, ObjV):
        m = v.cls.lookup("__str__")
        if m is not _MISSING:
            return I.call(I.bind(m, v, v.cls), [], {})
        if is_exception_cls(v.cls):
            return mk_opq("exception text")
        return py_repr(I, v)
    if isinstance(v, DT):
        return iso_dt(I, v, [" "], {})
    if isinstance(v, DA):
        return iso_da(I, v.o)
    if isinstance(v, TM):
        return iso_tm(I, v.u)
    if isinstance(v, (int, Lin, BV, BP, float, FloatV)):
        if isinstance(v, float):
            return str(v)
        if isinstance(v, FloatV):
            return mk_opq("float")
        return py_format(I, v, "")
    if v is None:
        return "None"
    if isinstance(v, Tz) and v.kind == "zone":
        return StrV((Key(v.zid),))
    return mk_opq(f"str({v!r})")


def py_repr(I, v):
    if isinstance(v, ObjV):
        m = v.cls.lookup("__repr__")
        if m is not _MISSING:
            return I.call(I.bind(m, v, v.cls), [], {})
        return mk_opq(f"repr {v.cls.name}")
    if isinstance(v, (int, float, str)) or v is None:
        return repr(v)
    return mk_opq("repr")


# --------------------------------------------------------------------------- match / containers
def match_group(I, m, k):
    if isinstance(k, str):
        if k not in m.names:
            I.raise_("IndexError", "no such group")
        return m.groups[m.names[k]]
    i = I.const_int(k)
    if not 0 <= i < len(m.groups):
        I.raise_("IndexError", "no such group")
    return m.groups[i]


def match_attr(I, m, name):
    M = lambda fn: Builtin(name, fn)
    if name == "groups":
        def f(I, a, k):
            d = a[0] if a else k.get("default")
            return tuple(d if g is None else g for g in m.groups[1:])
        return M(f)
    if name == "group":
        def f(I, a, k):
            if not a:
                return m.groups[0]
            r = [match_group(I, m, x) for x in a]
            return r[0] if len(r) == 1 else tuple(r)
        return M(f)
    if name == "groupdict":
        return M(lambda I, a, k: {n: m.groups[i] for n, i in m.names.items()})
    if name == "string":
        return m.whole
    if name in ("lastindex", "lastgroup", "pos", "endpos", "re", "regs", "expand"):
        raise Unsupported(f"match.{name}")
    if name == "__getitem__":
        return M(lambda I, a, k: match_group(I, m, a[0]))
    if name in ("end", "start", "span"):
        def f(I, a, k):
            g = m.groups[I.const_int(a[0]) if a else 0]
            if a and I.const_int(a[0]) != 0:
                # start of a group: only for a leading group
                if name == "end" and a[0] == 1:
                    return strs.str_len(I, g)
                raise Unsupported("match position")
            if name == "start":
                return 0
            return strs.str_len(I, g)
        return M(f)
    return _MISSING


def dict_attr(I, d, name):
    M = lambda fn: Builtin(name, fn)

    def mut(I):
        if id(d) in SHARED:
            I.effect("mutate", "shared dict")
            snap = dict(d)
            for kk in snap:
                I.p.undo.append((d, kk, snap[kk]))

    if name == "get":
        def f(I, a, k):
            key = a[0]
            if isinstance(key, (StrV, Lin)):
                for kk in d:
                    if I.truth(I.compare("eq", key, kk)):
                        return d[kk]
            elif isinstance(key, (Foreign, ObjV, DT, TD)):
                pass
            elif isinstance(key, (list, dict, set)):
                I.raise_("TypeError", "unhashable")
            elif key in d:
                return d[key]
            return a[1] if len(a) > 1 else None
        return M(f)
    if name == "pop":
        def f(I, a, k):
            mut(I)
            if a[0] in d:
                return d.pop(a[0])
            if len(a) > 1:
                return a[1]
            I.raise_("KeyError", a[0])
        return M(f)
    if name == "items":
        return M(lambda I, a, k: [(x, y) for x, y in d.items()])
    if name == "keys":
        return M(lambda I, a, k: list(d))
    if name == "values":
        return M(lambda I, a, k: list(d.values()))
    if name == "copy":
        return M(lambda I, a, k: dict(d))
    if name == "update":
        def f(I, a, k):
            mut(I)
            if a:
                d.update(a[0] if isinstance(a[0], dict) else dict(I.iterate(a[0])))
            d.update(k)
        return M(f)
    if name == "setdefault":
        def f(I, a, k):
            mut(I)
            return d.setdefault(a[0], a[1] if len(a) > 1 else None)
        return M(f)
    if name == "clear":
        def f(I, a, k):
            mut(I)
            d.clear()
        return M(f)
    return _MISSING


def list_attr(I, l, name):
    M = lambda fn: Builtin(name, fn)

    def mut(I):
        if id(l) in SHARED:
            I.effect("mutate", "shared list")

    if name == "append":
        return M(lambda I, a, k: (mut(I), l.append(a[0]), None)[-1])
    if name == "extend":
        return M(lambda I, a, k: (mut(I), l.extend(I.iterate(a[0])), None)[-1])
    if name == "insert":
        return M(lambda I, a, k: (mut(I), l.insert(I.const_int(a[0]), a[1]), None)[-1])
    if name == "pop":
        def f(I, a, k):
            mut(I)
            try:
                return l.pop(*[I.const_int(x) for x in a])
            except IndexError:
                I.raise_("IndexError", "pop")
        return M(f)
    if name == "reverse":
        return M(lambda I, a, k: (mut(I), l.reverse(), None)[-1])
    if name == "copy":
        return M(lambda I, a, k: list(l))
    raise Unsupported(f"list.{name}")


def set_attr(I, s, name):
    M = lambda fn: Builtin(name, fn)
    if name in ("isdisjoint", "issubset", "issuperset", "union", "intersection", "difference"):
        return M(lambda I, a, k: getattr(s, name)(I.iterate(a[0])))
    if name in ("add", "discard", "remove", "update", "clear", "pop"):
        def f(I, a, k):
            if id(s) in SHARED:
                I.effect("mutate", "shared set")
            return getattr(s, name)(*a)
        return M(f)
    if name == "copy":
        return M(lambda I, a, k: set(s))
    return _MISSING


# --------------------------------------------------------------------------- objects / classes
def all_slots(cls):
    """attribute names an instance may have, or None if it has a __dict__"""
    out_ = set()
    for c in cls.mro:
        if c.native:
            if c.name in ("object", "ABC", "Generic"):
                continue
            return None
        if "__slots__" not in c.d:
            return None
        s = c.d["__slots__"]
        out_ |= set([s] if isinstance(s, str) else s)
    return out_


def obj_attr(I, v, name):
    if name == "args" and is_exception_cls(v.cls):
        return v.f.get("args", ())
    if name == "name" and is_exception_cls(v.cls):
        return v.f["args"][0] if v.f.get("args") else None
    if name == "__dict__":
        if all_slots(v.cls) is not None:
            return _MISSING
        return v.f
    if name == "__hash__":
        return Builtin("__hash__", lambda I, a, k: HashV(("id", v.uid)))
    if name in ("__eq__", "__ne__"):
        return Builtin(name, lambda I, a, k: (True if name == "__eq__" else False) if a[0] is v else NotImplemented)
    if name == "__str__":
        return Builtin("__str__", lambda I, a, k: py_repr(I, v))
    if name == "__repr__":
        return Builtin("__repr__", lambda I, a, k: mk_opq("repr"))
    if name == "__setattr__":
        return Builtin(name, lambda I, a, k: I.setattr(v, a[0], a[1]))
    if name in ("with_traceback",):
        return Builtin(name, lambda I, a, k: v)
    return _MISSING


def cls_attr(I, c, name):
    if name == "__name__" or name == "__qualname__":
        return c.name
    if name == "__module__":
        return c.module or "builtins"
    if name == "__new__":
        return Builtin("__new__", lambda I, a, k: object_new(I, a[0]))
    if name == "__doc__":
        return None
    if name == "__mro__":
        return tuple(c.mro)
    if name == "__init_subclass__":
        return Builtin(name, lambda I, a, k: None)
    if name == "__slots__":
        return _MISSING
    if name == "__members__" and c.members is not None:
        return dict(c.members)
    if name in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__hash__", "__add__", "__sub__", "__setattr__"):
        if name == "__setattr__":
            return Builtin(name, lambda I, a, k: I.setattr(a[0], a[1], a[2]))
        if c.native:
            op = name[2:-2]
            if op == "hash":
                return Builtin(name, lambda I, a, k: py_hash(I, a[0]))
            if op in ("add", "sub"):
                return Builtin(name, lambda I, a, k: I.binop(op, a[0], a[1]))
            return Builtin(name, lambda I, a, k: I.compare(op, a[0], a[1]))
    if c.native and c.name in ("datetime", "date", "time", "timedelta", "timezone", "str", "int"):
        # unbound method
        def f(I, a, k):
            m = native_attr(I, a[0], name) if a else _MISSING
            if m is _MISSING:
                if hasattr(real_named(c.name), name):
                    raise Unsupported(f"{c.name}.{name}")
                I.raise_("AttributeError", name)
            return I.call(m, a[1:], k)
        if hasattr(real_named(c.name), name):
            return Builtin(name, f)
        return _MISSING
    real = real_named(c.name) if c.native else None
    if real is not None and hasattr(real, name):
        def g(I, a, k):
            if not a:
                raise Unsupported(f"{c.name}.{name}")
            m = native_attr(I, a[0], name)
            if m is _MISSING:
                raise Unsupported(f"{c.name}.{name}")
            return I.call(m, a[1:], k)
        return Builtin(name, g)
    return _MISSING


def super_attr(I, s, name):
    if name == "__init__":
        def f(I, a, k):
            if isinstance(s.obj, ObjV) and is_exception_cls(s.obj.cls):
                s.obj.f["args"] = tuple(a)
            return None
        return Builtin(name, f)
    if name == "__new__":
        return Builtin(name, lambda I, a, k: object_new(I, a[0]))
    if name in ("__eq__", "__ne__"):
        return Builtin(name, lambda I, a, k: NotImplemented)
    if name == "__init_subclass__":
        return Builtin(name, lambda I, a, k: None)
    if name == "__setattr__":
        return Builtin(name, lambda I, a, k: I.setattr(s.obj, a[0], a[1]))
    if name == "__hash__":
        return Builtin(name, lambda I, a, k: HashV(("id", s.obj.uid)))
    if name == "__repr__":
        return Builtin(name, lambda I, a, k: mk_opq("repr"))
    return _MISSING


def foreign_attr(I, v, name):
    if name == "__class__":
        return I.type_of(v)
    I.p.events.append(("foreign-attr", name, I.site))
    return _MISSING


def object_new(I, cls):
    if not isinstance(cls, ClsV):
        I.raise_("TypeError", "object.__new__(X): X is not a type object")
    return ObjV(cls, {}, frozen=False)


def is_exception_cls(c):
    return any(x.name == "BaseException" for x in c.mro)


def enum_call(I, cls, args):
    v = args[0]
    if isinstance(v, ObjV) and v.cls is cls:
        return v
    if isinstance(v, Lin):
        return EnumSym(cls, v)
    for m in cls.members.values():
        if I.truth(I.compare("eq", m.f["value"], v)):
            return m
    I.raise_("ValueError", f"{v!r} is not a valid {cls.name}")


def make_dataclass(I, cls, node):
    names = []
    for s in node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            names.append(s.target.id)

    def init(I, a, k):
        self = a[0]
        vals = args_of(I, cls.name, names, a[1:], k, {n: cls.d[n] for n in names if n in cls.d})
        for n, v in zip(names, vals):
            I.setattr(self, n, v)

    b = Builtin("__init__", init)
    b.is_method = True
    cls.d["__init__"] = b


def make_generator(I, fn, sc):
    # run eagerly, collecting yielded values
    vals = []
    from .interp import ReturnSig
    saved = I.on_yield
    I.on_yield = lambda v: vals.append(v)
    try:
        I.exec_block(fn.node.body, sc)
    except ReturnSig:
        pass
    finally:
        I.on_yield = saved
    return vals


def py_hash(I, v):
    F = I.p.F
    if isinstance(v, (int, Lin, BV, BP)):
        return HashV(("n", out(F.norm(lin(I, v)))))
    if isinstance(v, tuple):
        return HashV(("t",) + tuple(py_hash(I, x).key for x in v))
    if isinstance(v, (str, StrV)):
        c = strs.const(I, v)
        return HashV(("s", c if c is not None else repr(strs.flat(I, v))))
    if isinstance(v, DT):
        if v.tz is None:
            return HashV(("dt", F.norm(v.w)))
        i = inst_us(I, v, 0)
        if i is None:
            return HashV(("dt", F.norm(v.w)))
        return HashV(("dt", i))
    if isinstance(v, DA):
        return HashV(("da", F.norm(v.o)))
    if isinstance(v, TM):
        return HashV(("tm", F.norm(v.u)))
    if isinstance(v, TD):
        return HashV(("td", F.norm(v.us)))
    if isinstance(v, ObjV):
        m = v.cls.lookup("__hash__")
        if m is not _MISSING and m is not None:
            if v.cls.lookup_cls("__hash__").native:
                return HashV(("id", v.uid))
            # a class defining __eq__ without __hash__ below is unhashable
            ce, ch = v.cls.mro.index(v.cls.lookup_cls("__eq__")) if v.cls.lookup_cls("__eq__") else 99, v.cls.mro.index(v.cls.lookup_cls("__hash__"))
            if ce < ch:
                I.raise_("TypeError", "unhashable type")
            r = I.call(I.bind(m, v, v.cls), [], {})
            if isinstance(r, (int, Lin)):
                return HashV(("n", r))
            return r
        if v.cls.lookup("__eq__") is not _MISSING:
            I.raise_("TypeError", "unhashable type")
        return HashV(("id", v.uid))
    if isinstance(v, HashV):
        return v
    if isinstance(v, (list, dict, set)):
        I.raise_("TypeError", "unhashable type")
    if isinstance(v, Tz):
        return HashV(("tz", repr(v)))
    return HashV(("other", repr(v)))


# --------------------------------------------------------------------------- builtins
def b_abs(I, a, k):
    v = a[0]
    if isinstance(v, (BV, BP)):
        return int(I.truth(v))
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Lin):
        return v if I.truth(ge(v, 0)) else scale(v, -1)
    if isinstance(v, TD):
        return v if I.truth(ge(v.us, 0)) else mk_td(I, scale(v.us, -1))
    if isinstance(v, ObjV):
        if v.cls.lookup("__abs__") is _MISSING:
            I.raise_("TypeError", "bad operand type for abs()")
        return I.call_method(v, "__abs__", [])
    if isinstance(v, FloatV):
        return v if I.truth(ge(v.num, 0)) else FloatV(scale(v.num, -1), v.den, v.err, v.tree and ("neg", v.tree))
    if isinstance(v, FloatSym):
        return FloatSym(f"abs({v.name})")
    if isinstance(v, Unk):
        return v
    I.raise_("TypeError", "bad operand type for abs()")


def b_divmod(I, a, k):
    x, y = a
    return (I.binop("floordiv", x, y), I.binop("mod", x, y))


def b_minmax(name):
    op = "le" if name == "min" else "ge"

    def f(I, a, k):
        items = list(I.iterate(a[0])) if len(a) == 1 else list(a)
        if not items:
            if "default" in k:
                return k["default"]
            I.raise_("ValueError", "empty sequence")
        key = k.get("key")
        best = items[0]
        kb = I.call(key, [best]) if key else best
        for x in items[1:]:
            kx = I.call(key, [x]) if key else x
            if not I.truth(I.compare(op, kb, kx)):
                best, kb = x, kx
        return best
    return f


def new_int(I, cls, args, kwargs):
    if not args:
        return 0
    v = args[0]
    if len(args) > 1 or kwargs:
        raise Unsupported("int with base")
    if isinstance(v, (BV, BP)):
        return int(I.truth(v))
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, Lin)):
        return v
    if isinstance(v, (str, StrV)):
        return strs.to_int(I, v)
    if isinstance(v, float):
        return int(v)
    if isinstance(v, FloatV):
        return out(float_to_int(I, v))
    if isinstance(v, FloatSym):
        I.p.events.append(("float-int", v.name, I.site))
        I.taint("int of a float")
        return sym_fresh(I, "fint")
    if isinstance(v, Unk):
        I.taint("int(unknown)")
        return sym_fresh(I, "unk")
    if isinstance(v, ObjV):
        for m in ("__int__", "__index__"):
            if v.cls.lookup(m) is not _MISSING:
                return I.call_method(v, m, [])
    if isinstance(v, HashV):
        return v
    I.raise_("TypeError", "int() argument must be a string or a number")


def new_bool(I, cls, args, kwargs):
    if not args:
        return False
    v = args[0]
    if isinstance(v, (BV, BP)):
        return v
    if isinstance(v, Lin):
        return dec_bv(I, BV("ne", v))
    if isinstance(v, ObjV) and v.cls.lookup("__bool__") is not _MISSING:
        r = I.call_method(v, "__bool__", [])
        return r
    return I.truth(v)


def new_float(I, cls, args, kwargs):
    v = args[0] if args else 0
    if isinstance(v, (str, StrV)):
        c = strs.const(I, v)
        if c is not None:
            try:
                return as_float(I, float(c))
            except ValueError:
                I.raise_("ValueError", "could not convert string to float")
        # digits with a fraction
        try:
            whole, dot, frac = strs.partition(I, v, ".")
            w = strs.to_int(I, whole)
            if dot:
                f = strs.to_int(I, strs.ljust(I, frac, 9, "0"))
                num = add(scale(L(w), 10**9), L(f))
                return mk_float(I, num, 10**9)
            return mk_float(I, L(w))
        except Unsupported:
            if I.p.choose(2, "float(text)") == 0:
                I.raise_("ValueError", "could not convert string to float")
            I.taint("float of text")
            return FloatSym("text")
    r = as_float(I, v)
    if r is None:
        I.raise_("TypeError", "float() argument")
    return r


def new_str(I, cls, args, kwargs):
    return py_str(I, args[0]) if args else ""


def new_tuple(I, cls, args, kwargs):
    return tuple(I.iterate(args[0])) if args else ()


def new_list(I, cls, args, kwargs):
    return list(I.iterate(args[0])) if args else []


def new_dict(I, cls, args, kwargs):
    d = {}
    if args:
        d.update(args[0] if isinstance(args[0], dict) else {I.const_key(x): y for x, y in (I.iterate(p) for p in I.iterate(args[0]))})
    d.update(kwargs)
    return d


def new_set(I, cls, args, kwargs):
    s = set(I.const_key(x) for x in I.iterate(args[0])) if args else set()
    return frozenset(s) if cls.name == "frozenset" else s


def new_type(I, cls, args, kwargs):
    if len(args) == 1:
        return I.type_of(args[0])
    raise Unsupported("type()")


def new_object(I, cls, args, kwargs):
    return object_new(I, cls)


def b_len(I, a, k):
    v = a[0]
    if isinstance(v, (str, StrV)):
        return strs.str_len(I, v)
    if isinstance(v, (tuple, list, dict, set, frozenset, range)):
        return len(v)
    if isinstance(v, BytesV):
        try:
            return _struct.calcsize(v.fmt)
        except _struct.error:
            raise Unsupported("len bytes")
    if isinstance(v, ObjV) and v.cls.lookup("__len__") is not _MISSING:
        return I.call_method(v, "__len__", [])
    if isinstance(v, Unk):
        I.taint("len(unknown)")
        return sym_fresh(I, "unklen", 0)
    I.raise_("TypeError", "object has no len()")


def b_sum(I, a, k):
    r = a[1] if len(a) > 1 else k.get("start", 0)
    for x in I.iterate(a[0]):
        r = I.binop("add", r, x)
    return r


def b_round(I, a, k):
    v = a[0]
    if len(a) > 1 and a[1] is not None:
        if isinstance(v, (int, Lin)):
            n = I.const_int(a[1])
            if n >= 0:
                return v
        raise Unsupported("round with digits")
    if isinstance(v, (int, Lin)):
        return v
    if isinstance(v, FloatV):
        return out(float_to_int(I, v, "round"))
    raise Unsupported("round")


def b_getattr(I, a, k):
    name = strs.const(I, a[1])
    if name is None:
        raise Unsupported("getattr with symbolic name")
    return I.getattr(a[0], name, a[2] if len(a) > 2 else _MISSING)


def b_setattr(I, a, k):
    I.setattr(a[0], strs.const(I, a[1]), a[2])


def b_hasattr(I, a, k):
    return I.getattr(a[0], strs.const(I, a[1]), None) is not None


def b_map(I, a, k):
    seqs = [I.iterate(x) for x in a[1:]]
    return [I.call(a[0], list(xs)) for xs in zip(*seqs)]


def b_filter(I, a, k):
    return [x for x in I.iterate(a[1]) if I.truth(I.call(a[0], [x]) if a[0] is not None else x)]


def b_next(I, a, k):
    s = a[0]
    if isinstance(s, list):
        if s:
            return s.pop(0)
        if len(a) > 1:
            return a[1]
        I.raise_("StopIteration")
    raise Unsupported("next")


def b_range(I, a, k):
    if len(a) < 3 and any(isinstance(x, Lin) for x in a):
        lo, hi = a if len(a) == 2 else (0, a[0])
        if all(isinstance(x, (int, Lin)) for x in (lo, hi)):
            return RangeV(lo, hi)
    return range(*[I.const_int(x) for x in a])


def b_pow(I, a, k):
    return I.binop("pow", a[0], a[1])


def b_sorted(I, a, k):
    items = list(I.iterate(a[0]))
    key = k.get("key")
    out_ = []
    for x in items:
        kx = I.call(key, [x]) if key else x
        j = len(out_)
        while j > 0 and I.truth(I.compare("lt", kx, out_[j - 1][0])):
            j -= 1
        out_.insert(j, (kx, x))
    r = [x for _, x in out_]
    return r[::-1] if k.get("reverse") else r


def make_builtins(I):
    b = {}
    T.clear()

    def B(name, fn):
        b[name] = Builtin(name, fn)

    global OBJ
    OBJ = ClsV("object", (), native=True)
    OBJ.native_base = True
    OBJ.new = None
    T["object"] = b["object"] = OBJ

    def cl(name, *bases, new=None):
        c = ty(name, *bases, new=new)
        b[name] = c
        return c

    cl("int", new=new_int)
    cl("bool", b["int"], new=new_bool)
    cl("float", new=new_float)
    cl("str", new=new_str)
    cl("tuple", new=new_tuple)
    cl("list", new=new_list)
    cl("dict", new=new_dict)
    cl("set", new=new_set)
    cl("frozenset", new=new_set)
    cl("bytes")
    cl("complex")
    cl("type", new=new_type)
    ty("NoneType")
    ty("function")
    ty("builtin_function")
    ty("NotImplementedType")
    ty("foreign")
    # object() -> fresh opaque instance
    OBJ.new = None
    exc = {
        "BaseException": (), "Exception": ("BaseException",), "ValueError": ("Exception",), "TypeError": ("Exception",),
        "ArithmeticError": ("Exception",), "OverflowError": ("ArithmeticError",), "ZeroDivisionError": ("ArithmeticError",),
        "LookupError": ("Exception",), "KeyError": ("LookupError",), "IndexError": ("LookupError",),
        "AttributeError": ("Exception",), "NameError": ("Exception",), "UnboundLocalError": ("NameError",),
        "AssertionError": ("Exception",), "RuntimeError": ("Exception",), "NotImplementedError": ("RuntimeError",),
        "RecursionError": ("RuntimeError",), "StopIteration": ("Exception",), "ImportError": ("Exception",),
        "ModuleNotFoundError": ("ImportError",), "OSError": ("Exception",), "UnicodeError": ("ValueError",),
        "UnicodeDecodeError": ("UnicodeError",), "UnicodeEncodeError": ("UnicodeError",),
        "KeyboardInterrupt": ("BaseException",), "SystemExit": ("BaseException",), "GeneratorExit": ("BaseException",),
        "Warning": ("Exception",), "DeprecationWarning": ("Warning",), "UserWarning": ("Warning",),
        "MemoryError": ("Exception",), "EOFError": ("Exception",), "FloatingPointError": ("ArithmeticError",),
    }
    for n, bs in exc.items():
        cl(n, *[b[x] for x in bs] or [OBJ])
    b["IOError"] = b["OSError"]
    ty("struct.error", b["Exception"])
    ty("re.error", b["Exception"])
    ty("ZoneInfoNotFoundError", b["KeyError"])

    B("abs", b_abs)
    B("divmod", b_divmod)
    B("min", b_minmax("min"))
    B("max", b_minmax("max"))
    B("len", b_len)
    B("sum", b_sum)
    B("round", b_round)
    B("pow", b_pow)
    B("isinstance", lambda I, a, k: I.isinstance_(a[0], a[1]))
    B("issubclass", lambda I, a, k: any(a[0].issub(c) for c in (a[1] if isinstance(a[1], tuple) else (a[1],))))
    B("getattr", b_getattr)
    B("setattr", b_setattr)
    B("hasattr", b_hasattr)
    B("repr", lambda I, a, k: py_repr(I, a[0]))
    B("format", lambda I, a, k: py_format(I, a[0], strs.const(I, a[1]) if len(a) > 1 else ""))
    B("hash", lambda I, a, k: py_hash(I, a[0]))
    B("map", b_map)
    B("filter", b_filter)
    B("zip", lambda I, a, k: [tuple(x) for x in zip(*[I.iterate(y) for y in a])])
    B("enumerate", lambda I, a, k: [(i + (k.get("start", a[1] if len(a) > 1 else 0)), x) for i, x in enumerate(I.iterate(a[0]))])
    B("range", b_range)
    B("iter", lambda I, a, k: list(I.iterate(a[0])))
    B("next", b_next)
    B("reversed", lambda I, a, k: list(I.iterate(a[0]))[::-1])
    B("sorted", b_sorted)
    B("any", lambda I, a, k: any(I.truth(x) for x in I.iterate(a[0])))
    B("all", lambda I, a, k: all(I.truth(x) for x in I.iterate(a[0])))
    B("callable", lambda I, a, k: isinstance(a[0], (FuncV, Builtin, Bound, ClsV)))
    B("id", lambda I, a, k: sym_fresh(I, "id"))
    B("print", lambda I, a, k: I.effect("io", "print"))
    B("open", lambda I, a, k: (I.effect("io", "open"), Unk("file"))[1])
    B("input", lambda I, a, k: (I.effect("io", "input"), Unk("input"))[1])
    B("chr", lambda I, a, k: chr(I.const_int(a[0])))
    B("ord", b_ord)
    B("vars", lambda I, a, k: I.getattr(a[0], "__dict__"))
    b["NotImplemented"] = NotImplemented
    b["Ellipsis"] = Ellipsis
    b["None"] = None
    b["True"] = True
    b["False"] = False
    b["__debug__"] = True
    b["property"] = Builtin("property", lambda I, a, k: Prop(a[0]))
    b["classmethod"] = Builtin("classmethod", lambda I, a, k: CMeth(a[0]))
    b["staticmethod"] = Builtin("staticmethod", lambda I, a, k: SMeth(a[0]))
    b["super"] = Builtin("super", lambda I, a, k: SuperV(a[0], a[1]))

    # standard library types
    ty("tzinfo")
    ty("timezone", T["tzinfo"], new=new_timezone)
    ty("ZoneInfo", T["tzinfo"], new=new_zoneinfo)
    ty("subZoneInfo", T["ZoneInfo"])
    ty("foreigntz", T["tzinfo"])
    ty("timedelta", new=new_td)
    ty("date", new=new_da)
    ty("datetime", T["date"], new=new_dt)
    ty("time", new=new_tm)
    for n in ("datetime", "date", "time", "timedelta"):
        ty("sub" + n, T[n])
        T["sub" + n].new = None
    d = T["datetime"].d
    d["combine"] = Builtin("combine", lambda I, a, k: combine(I, a, k))
    d["fromisoformat"] = Builtin("fromisoformat", dt_fromiso)
    d["fromtimestamp"] = Builtin("fromtimestamp", dt_fromts)
    d["min"], d["max"] = DT(L(MINW)), DT(L(MAXW))

    def dnow(I, a, k):
        I.effect("clock", "datetime.now")
        tz = args_of(I, "now", ("tz",), a, k, {"tz": None})[0]
        if tz is None:
            I.effect("systz", "datetime.now")
            return DT(sym_fresh(I, "clock", MINW, MAXW))
        return astimezone(I, DT(sym_fresh(I, "clock", MINW, MAXW), UTC), tz)
    d["now"] = Builtin("now", dnow)
    d["utcnow"] = Builtin("utcnow", lambda I, a, k: (I.effect("clock", "utcnow"), DT(sym_fresh(I, "clock", MINW, MAXW)))[1])
    d["today"] = Builtin("today", lambda I, a, k: dnow(I, [], {}))

    def strptime(I, a, k):
        if len(a) != 2 or k:
            I.raise_("TypeError", "strptime() takes 2 positional arguments")
        if not all(isinstance(x, (str, StrV)) for x in a):
            I.raise_("TypeError", "strptime() arguments must be str")

        def f():
            w = sym_fresh(I, "strptime", MINW, MAXW)
            if I.p.choose(2, "strptime ok") == 1:
                return None
            if I.p.choose(2, "strptime tz") == 0:
                return DT(w)
            o = sym_fresh(I, "strptimeoff", -DAYUS + 1, DAYUS - 1)
            return DT(w, Tz("fixed", o))
        d = decoded(I, "strptime", f, *a)
        if d is None:
            I.raise_("ValueError", "time data does not match format")
        return d
    d["strptime"] = Builtin("strptime", strptime)

    def from_ordinal(I, a, k):
        o = need_int(I, a[0])
        in_range(I, o, 1, 3652059, "ValueError", "ordinal")
        return DA(o)
    d["fromordinal"] = Builtin("fromordinal", lambda I, a, k: DT(scale(from_ordinal(I, a, k).o, DAYUS)))
    dd = T["date"].d
    dd["fromisoformat"] = Builtin("fromisoformat", date_fromiso)
    dd["fromordinal"] = Builtin("fromordinal", from_ordinal)
    dd["min"], dd["max"] = DA(L(1)), DA(L(3652059))

    def dtoday(I, a, k):
        I.effect("clock", "date.today")
        I.effect("systz", "date.today")
        return DA(sym_fresh(I, "today", 1, 3652059))
    dd["today"] = Builtin("today", dtoday)

    def date_fromts(I, a, k):
        I.effect("systz", "date.fromtimestamp")
        return DA(sym_fresh(I, "today", 1, 3652059))
    dd["fromtimestamp"] = Builtin("fromtimestamp", date_fromts)

    def tm_fromiso(I, a, k):
        import re
        m = strs.regex_match(I, RegexV(r"(\d{2}):(\d{2}):(\d{2})", re.A), a[0], True)
        if m is None:
            if I.p.choose(2, "other ISO time") == 0:
                I.raise_("ValueError", "Invalid isoformat string")
            I.taint("time.fromisoformat of another form")
            return Unk("time")
        g = [L(strs.to_int(I, x)) for x in m.groups[1:4]]
        return TM(I.p.F.norm(check_time(I, *g, Lin(0))))
    T["time"].d["fromisoformat"] = Builtin("fromisoformat", tm_fromiso)
    T["time"].d["min"], T["time"].d["max"] = TM(L(0)), TM(L(DAYUS - 1))
    T["timedelta"].d["min"], T["timedelta"].d["max"] = TD(L(MINTD)), TD(L(MAXTD))
    T["timedelta"].d["resolution"] = TD(L(1))
    T["timezone"].d["utc"] = UTC
    T["timezone"].d["min"] = Tz("fixed", L(-86399 * 10**6))
    T["ZoneInfo"].d["no_cache"] = Builtin("no_cache", lambda I, a, k: Unk("ZoneInfo.no_cache"))
    return b


def b_ord(I, a, k):
    c = strs.const(I, a[0])
    if c is not None and len(c) == 1:
        return ord(c)
    raise Unsupported("ord")


# --------------------------------------------------------------------------- struct
_FMT = {"b": (1, 1), "B": (1, 0), "h": (2, 1), "H": (2, 0), "i": (4, 1), "I": (4, 0), "l": (4, 1), "L": (4, 0), "q": (8, 1), "Q": (8, 0)}


def parse_fmt(I, fmt):
    f = strs.const(I, fmt)
    if f is None:
        raise Unsupported("symbolic struct format")
    order = "@"
    if f and f[0] in "<>=!@":
        order, f = f[0], f[1:]
    outp = []
    n = ""
    for c in f:
        if c.isdigit():
            n += c
            continue
        if c == " ":
            continue
        if c not in _FMT:
            raise Unsupported(f"struct code {c}")
        outp += [c] * (int(n) if n else 1)
        n = ""
    return order, outp


def s_pack(I, a, k):
    order, codes = parse_fmt(I, a[0])
    vals = a[1:]
    if len(vals) != len(codes):
        I.raise_(T["struct.error"], "pack expected a different number of items")
    outv = []
    for c, v in zip(codes, vals):
        size, signed = _FMT[c]
        l = lin(I, v)
        if l is None:
            I.raise_(T["struct.error"], "required argument is not an integer")
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
        in_range(I, l, lo, hi, T["struct.error"], "argument out of range")
        outv.append(l)
    return BytesV(order + "".join(codes), outv)


def layout(order, codes):
    """[(offset, size, signed)]"""
    outp = []
    pos = 0
    for c in codes:
        size, signed = _FMT[c]
        if order == "@":
            if c in "lL":
                size = 8
            pos += (-pos) % size
        outp.append((pos, size, signed))
        pos += size
    return outp, pos


def s_unpack(I, a, k):
    order, codes = parse_fmt(I, a[0])
    data = a[1]
    if isinstance(data, Unk):
        I.taint("unpack(unknown)")
        return tuple(Unk("field") for _ in codes)
    if not isinstance(data, BytesV):
        I.raise_("TypeError", "a bytes-like object is required")
    o2, c2 = parse_fmt(I, data.fmt)
    if data.fmt == "raw":
        raise Unsupported("raw bytes")
    l1, n1 = layout(order, codes)
    l2, n2 = layout(o2, c2)
    if n1 != n2:
        I.raise_(T["struct.error"], "unpack requires a buffer of a different size")
    big = lambda o: o in ">!"
    src = {(p, s): (sg, v) for (p, s, sg), v in zip(l2, data.vals)}
    outv = []
    for p, s, sg in l1:
        if (p, s) not in src or (big(order) != big(o2) and s > 1):
            outv.append(L(atom("garbled", repr(data.fmt), p, s)))
            continue
        sg0, v = src[(p, s)]
        if sg0 != sg:
            half = 1 << (8 * s - 1)
            if sg:
                if I.truth(ge(v, half)):
                    v = sub(v, 2 * half)
            elif not I.truth(ge(v, 0)):
                v = add(v, 2 * half)
        outv.append(out(I.p.F.norm(v)))
    return tuple(outv)


# --------------------------------------------------------------------------- modules
def make_modules(I):
    mods = {}

    def mod(name, **d):
        m = ModV(name, d)
        m.native = True
        mods[name] = m
        return m

    ident = Builtin("identity", lambda I, a, k: a[0])
    mod("datetime", date=T["date"], datetime=T["datetime"], time=T["time"], timedelta=T["timedelta"],
        timezone=T["timezone"], tzinfo=T["tzinfo"], UTC=UTC, MINYEAR=1, MAXYEAR=9999)
    mod("zoneinfo", ZoneInfo=T["ZoneInfo"], ZoneInfoNotFoundError=T["ZoneInfoNotFoundError"])

    def monthrange(I, a, k):
        y, m = need_int(I, a[0]), need_int(I, a[1])
        in_range(I, m, 1, 12, "ValueError", "bad month number")
        return (sym_fresh(I, "weekday", 0, 6), out(dim(I, y, m)))
    mod("calendar", monthrange=Builtin("monthrange", monthrange),
        isleap=Builtin("isleap", lambda I, a, k: BV("eq", sub(dim(I, need_int(I, a[0]), Lin(2)), 29))))

    def fmod(I, a, k):
        x, y = as_float(I, a[0]), as_float(I, a[1])
        F = I.p.F
        if isinstance(x, FloatV) and isinstance(y, FloatV) and x.den == 1 and y.den == 1 and F.norm(y.num).const:
            c = abs(F.norm(y.num).c)
            if x.err:
                I.p.events.append(("inexact", f"fmod of {x!r}", I.site, x.num, getattr(I.p, "lossy", False)))
                return FloatV(sym_fresh(I, "inexact"), 1, 0.0)
            if I.truth(ge(x.num, 0)):
                return mk_float(I, mk_mod(F, x.num, c))
            return mk_float(I, scale(mk_mod(F, scale(x.num, -1), c), -1))
        return FloatSym("fmod")

    def trunc(how):
        def f(I, a, k):
            v = a[0]
            if isinstance(v, (int, Lin)):
                return v
            if isinstance(v, FloatV):
                if how == "ceil":
                    return out(scale(float_to_int(I, FloatV(scale(v.num, -1), v.den, v.err), "floor"), -1))
                return out(float_to_int(I, v, how))
            I.taint(how)
            return sym_fresh(I, "fint")
        return f

    def copysign(I, a, k):
        x, y = as_float(I, b_abs(I, [a[0]], {})), a[1]
        pos = I.truth(I.compare("ge", y, 0))
        return x if pos else I.neg(x)
    mod("math", fmod=Builtin("fmod", fmod), floor=Builtin("floor", trunc("floor")), trunc=Builtin("trunc", trunc("trunc")),
        ceil=Builtin("ceil", trunc("ceil")), inf=float("inf"), copysign=Builtin("copysign", copysign),
        modf=Builtin("modf", lambda I, a, k: (_ for _ in ()).throw(Unsupported("modf"))))
    mod("struct", pack=Builtin("pack", s_pack), unpack=Builtin("unpack", s_unpack), error=T["struct.error"],
        Struct=Builtin("Struct", new_struct))

    def clock(scale_):
        def f(I, a, k):
            I.effect("clock", "time")
            n = sum(1 for e in I.p.effects if e[0] == "clock")
            # the real clock: between 1970 and the last days of year 9999
            v = sym_fresh(I, "clock_ns", 0, (253402300799 - 3 * 86400) * 10**9)
            prev = I.p.__dict__.setdefault("clocks", [])
            if prev and getattr(I.p, "clock_span", None):
                I.assume(BV("ge", sub(v, prev[-1])))
                I.assume(BV("ge", sub(add(prev[0], I.p.clock_span), v)))
            prev.append(v)
            return v if scale_ == 1 else mk_float(I, v, scale_)
        return f
    tm = mod("time", time_ns=Builtin("time_ns", clock(1)), time=Builtin("time", clock(10**9)),
             monotonic_ns=Builtin("monotonic_ns", clock(1)), monotonic=Builtin("monotonic", clock(10**9)),
             perf_counter_ns=Builtin("perf_counter_ns", clock(1)), perf_counter=Builtin("perf_counter", clock(10**9)))
    for n in ("timezone", "altzone", "daylight"):
        tm.d[n] = Foreign("time." + n)
    for n in ("localtime", "mktime", "tzset", "strftime"):
        def f(I, a, k, n=n):
            I.effect("systz", f"time.{n}")
            I.taint(n)
            return Unk(n)
        tm.d[n] = Builtin(n, f)

    def re_compile(I, a, k):
        p = strs.const(I, a[0])
        if p is None:
            raise Unsupported("symbolic regex")
        fl = a[1] if len(a) > 1 else k.get("flags", 0)
        return RegexV(p, int(fl))
    import re

    def re_fn(full):
        def f(I, a, k):
            p = a[0] if isinstance(a[0], RegexV) else RegexV(strs.const(I, a[0]), int(a[2]) if len(a) > 2 else int(k.get("flags", 0)))
            return strs.regex_match(I, p, a[1], full)
        return f
    mod("re", compile=Builtin("compile", re_compile), ASCII=int(re.A), A=int(re.A), IGNORECASE=int(re.I), I=int(re.I),
        DOTALL=int(re.S), S=int(re.S), VERBOSE=int(re.X), X=int(re.X), UNICODE=int(re.U), U=int(re.U), M=int(re.M), MULTILINE=int(re.M),
        fullmatch=Builtin("fullmatch", re_fn(True)), match=Builtin("match", re_fn(False)), error=T["re.error"],
        Pattern=T["foreign"], Match=T["foreign"])
    mod("sys", version_info=(3, 12, 3, "final", 0), maxsize=2**63 - 1, modules={})
    abc = ClsV("ABC", (T["object"],), native=True)
    abc.native_base = True
    mod("abc", ABC=abc, abstractmethod=ident, ABCMeta=I.builtins["type"])
    en = ClsV("Enum", (T["object"],), native=True)
    en.native_base = True
    ien = ClsV("IntEnum", (en,), native=True)
    ien.native_base = True
    mod("enum", Enum=en, IntEnum=ien, unique=ident)
    gen = ClsV("Generic", (T["object"],), native=True)
    gen.native_base = True
    sub_ = T["foreign"]
    mod("typing", TYPE_CHECKING=False, overload=ident, no_type_check=ident, final=ident, cast=Builtin("cast", lambda I, a, k: a[1]),
        Any=sub_, Callable=sub_, ClassVar=sub_, Literal=sub_, Mapping=sub_, Union=sub_, Optional=sub_, Iterator=sub_, Iterable=sub_,
        Sequence=sub_, Tuple=sub_, Dict=sub_, List=sub_, Type=sub_, NoReturn=sub_, Generic=gen, Protocol=gen, Final=sub_,
        TypeVar=Builtin("TypeVar", lambda I, a, k: sub_), NamedTuple=ClsV("NamedTuple", (I.builtins["tuple"],), native=True))
    mod("collections", namedtuple=Builtin("namedtuple", namedtuple), OrderedDict=I.builtins["dict"])
    mod("__future__", annotations=None)

    def format_dt(I, a, k):
        d, gmt = args_of(I, "format_datetime", ("dt", "usegmt"), a, k, {"usegmt": False})
        if not isinstance(d, DT):
            raise Unsupported(f"format_datetime of {d!r}")
        if I.truth(gmt):
            if d.tz is None or d.tz.kind == "zone" or (
                    d.tz.kind != "utc" and not I.truth(BV("eq", off_us(I, d)))):
                I.raise_("ValueError", "usegmt option requires a UTC datetime")
            zone = " GMT"
        else:
            zone = " %z" if d.tz is not None else " -0000"
        return strs.concat(I, [strftime(I, d, "%a, %d %b "), strs.mk([Dec(L(comp(I, d.w, "year")), 4)]),
                               strftime(I, d, " %H:%M:%S" + zone)])

    def parse_2822(I, a, k):
        s = args_of(I, "parsedate_to_datetime", ("data",), a, k, {})[0]
        if not isinstance(s, (str, StrV)):
            I.raise_("TypeError", "expected str")

        def f():
            if I.p.choose(2, "rfc2822 ok") == 1:
                return None
            sod = sym_fresh(I, "rfc_sod", 0, 86399)
            o = sym_fresh(I, "rfc_ord", 1, 3652059)
            w = add(scale(o, DAYUS), scale(sod, 10**6))
            c = I.p.choose(3, "rfc2822 tz")
            if c == 0:
                return DT(w)
            if c == 1:
                return DT(w, UTC)
            o = scale(sym_fresh(I, "rfc_off", -86399, 86399), 10**6)
            if not I.truth(BV("ne", o)):
                return DT(w, UTC)
            return DT(w, Tz("fixed", o))
        d = decoded(I, "rfc2822", f, s)
        if d is None:
            # OverflowError: numbers too large for a datetime
            big = decoded(I, "rfc2822 overflow", lambda: I.p.choose(2, "rfc2822 overflow"), s)
            I.raise_(("ValueError", "OverflowError")[big], "Invalid date value or format")
        return d
    mod("email.utils", format_datetime=Builtin("format_datetime", format_dt),
        parsedate_to_datetime=Builtin("parsedate_to_datetime", parse_2822))
    mod("email", utils=mods["email.utils"])

    def ctxmgr(I, a, k):
        f = a[0]
        b = Builtin("contextmanager", lambda I, a2, k2: Unk("context manager"))
        b.wrapped = f
        return b
    mod("contextlib", contextmanager=Builtin("contextmanager", ctxmgr))
    mod("dataclasses", dataclass=Builtin("dataclass", lambda I, a, k: a[0] if a else ident))

    def env(I, a, k):
        I.effect("env", "environment")
        return Unk("environ")
    osm = mod("os", getenv=Builtin("getenv", env), environ=Foreign("os.environ"))
    mod("locale", getlocale=Builtin("getlocale", env), setlocale=Builtin("setlocale", env))
    for n in ("random", "randint", "choice"):
        pass

    def rnd(I, a, k):
        I.effect("random", "random source")
        return Unk("random")
    mod("random", random=Builtin("random", rnd), randint=Builtin("randint", rnd), choice=Builtin("choice", rnd))
    mod("functools", lru_cache=Builtin("lru_cache", lambda I, a, k: remembering(a[0]) if a and isinstance(a[0], (FuncV, CMeth, SMeth)) else
                          Builtin("lru_cache", lambda I, a, k: remembering(a[0]))),
        cache=Builtin("cache", lambda I, a, k: remembering(a[0])), partial=Builtin("partial", b_partial), wraps=Builtin("wraps", lambda I, a, k: ident),
        total_ordering=Builtin("total_ordering", total_ordering), reduce=Builtin("reduce", b_reduce), cached_property=Builtin("cached_property", lambda I, a, k: Prop(a[0])))

    def opf(name):
        return Builtin(name, lambda I, a, k: I.binop(name, a[0], a[1]))

    def cpf(name):
        return Builtin(name, lambda I, a, k: I.compare(name, a[0], a[1]))
    def itemgetter(I, a, k):
        return Builtin("itemgetter", lambda I, b, kk: I.getitem(b[0], a[0]) if len(a) == 1 else tuple(I.getitem(b[0], x) for x in a))

    def attrgetter(I, a, k):
        def one(I, v, path):
            for n in path.split("."):
                v = I.getattr(v, n)
            return v
        return Builtin("attrgetter", lambda I, b, kk: one(I, b[0], a[0]) if len(a) == 1 else tuple(one(I, b[0], x) for x in a))

    def methodcaller(I, a, k):
        return Builtin("methodcaller", lambda I, b, kk: I.call(I.getattr(b[0], a[0]), list(a[1:]), dict(k)))
    make_itertools(mod)
    mod("operator", itemgetter=Builtin("itemgetter", itemgetter), methodcaller=Builtin("methodcaller", methodcaller), **{n: opf(n) for n in ("add", "sub", "mul", "floordiv", "mod", "truediv")}, **{n: cpf(n) for n in ("eq", "ne", "lt", "le", "gt", "ge")},
        neg=Builtin("neg", lambda I, a, k: I.neg(a[0])), attrgetter=Builtin("attrgetter", attrgetter),
        not_=Builtin("not_", lambda I, a, k: not I.truth(a[0])), truth=Builtin("truth", lambda I, a, k: I.truth(a[0])),
        is_=Builtin("is_", lambda I, a, k: I.is_(a[0], a[1])), is_not=Builtin("is_not", lambda I, a, k: I.not_(I.is_(a[0], a[1]))),
        getitem=Builtin("getitem", lambda I, a, k: I.getitem(a[0], a[1])),
        contains=Builtin("contains", lambda I, a, k: I.contains(a[0], a[1])), index=Builtin("index", lambda I, a, k: a[0]))
    return mods


def remembering(f):
    """functools.lru_cache"""
    if not isinstance(f, FuncV):
        return f
    g = FuncV(f.node, f.mod, f.closure, f.defaults, f.kwdefaults, f.name, f.cls)
    g.attrs = {"remembers": True}
    return g


def equal_arg(I, v):
    """any argument that a cache does not tell apart from v"""
    if isinstance(v, DT):
        c = I.p.choose(3 if v.tz is not None else 2, "equal argument of a cache")
        if c == 1 and (v.tz is None or v.tz.kind == "zone") and isinstance(v.fold, int):
            return DT(v.w, v.tz, 1 - v.fold, v.sub)
        if c == 2 and v.tz.kind in ("utc", "fixed", "zone"):
            if v.tz.kind == "zone":
                I.assume(BV("eq", sub(off_us(I, v, 0), off_us(I, v, 1))))
                tz = Tz("zone", zid=f"{v.tz.zid}~")
            else:
                tz = Tz("fixed", scale(sym_fresh(I, "cacheoff", -86399, 86399), 10**6))
            return astimezone(I, DT(inst_us(I, v), UTC, 0, v.sub), tz)
    elif isinstance(v, ObjV) and v.cls.name != "Instant":
        f = {k: x if not (isinstance(x, DT) and x.tz is not None) else equal_arg(I, x) for k, x in v.f.items()}
        if any(f[k] is not v.f[k] for k in f):
            return ObjV(v.cls, f, v.frozen)
    return v


def total_ordering(I, a, k):
    c = a[0]
    roots = [n for n in ("__lt__", "__gt__", "__le__", "__ge__") if c.lookup(n) is not _MISSING]
    if not roots:
        I.raise_("ValueError", "must define at least one ordering operation: < > <= >=")
    root = next(n for n in ("__lt__", "__le__", "__gt__", "__ge__") if n in roots)
    rule = {    # name: (not of the root's answer, combined with equality by)
        "__lt__": {"__gt__": (True, "and ne"), "__le__": (False, "or eq"), "__ge__": (True, None)},
        "__le__": {"__ge__": (True, "or eq"), "__lt__": (False, "and ne"), "__gt__": (True, None)},
        "__gt__": {"__lt__": (True, "and ne"), "__ge__": (False, "or eq"), "__le__": (True, None)},
        "__ge__": {"__le__": (True, "or eq"), "__gt__": (False, "and ne"), "__lt__": (True, None)},
    }[root]

    def make(neg, comb):
        def f(I, a, k):
            x, y = a
            r = I.call_method(x, root, [y])
            if r is NotImplemented:
                return r
            r = I.truth(r)
            if neg:
                r = not r
            if comb == "and ne":
                return r and not I.truth(I.compare("eq", x, y))
            if comb == "or eq":
                return r or I.truth(I.compare("eq", x, y))
            return r
        b = Builtin("total_ordering", f)
        b.is_method = True
        return b
    for n, (neg, comb) in rule.items():
        if n not in roots:
            c.d[n] = make(neg, comb)
    return c


def make_itertools(mod):
    def B(n, f):
        return Builtin(n, f)

    def islice(I, a, k):
        xs = list(I.iterate(a[0]))
        return xs[slice(*[None if x is None else I.const_int(x) for x in a[1:]])]

    def takewhile(I, a, k):
        r = []
        for x in I.iterate(a[1]):
            if not I.truth(I.call(a[0], [x])):
                break
            r.append(x)
        return r

    def dropwhile(I, a, k):
        r, on = [], False
        for x in I.iterate(a[1]):
            if not on and I.truth(I.call(a[0], [x])):
                continue
            on = True
            r.append(x)
        return r

    def accumulate(I, a, k):
        r = []
        for x in I.iterate(a[0]):
            r.append(x if not r else (I.call(a[1], [r[-1], x]) if len(a) > 1 else I.binop("add", r[-1], x)))
        return r

    def zip_longest(I, a, k):
        xs = [list(I.iterate(x)) for x in a]
        n = max(map(len, xs), default=0)
        return [tuple(x[i] if i < len(x) else k.get("fillvalue") for x in xs) for i in range(n)]

    def product(I, a, k):
        import itertools
        return [tuple(x) for x in itertools.product(*[list(I.iterate(x)) for x in a])]
    chain = ClsV("chain", (T["object"],), native=True)
    chain.new = lambda I, c, a, k: [y for x in a for y in I.iterate(x)]
    chain.d["from_iterable"] = B("from_iterable", lambda I, a, k: [y for x in I.iterate(a[0]) for y in I.iterate(x)])
    mod("itertools", chain=chain, islice=B("islice", islice), takewhile=B("takewhile", takewhile), dropwhile=B("dropwhile", dropwhile),
        accumulate=B("accumulate", accumulate), zip_longest=B("zip_longest", zip_longest), product=B("product", product),
        starmap=B("starmap", lambda I, a, k: [I.call(a[0], list(I.iterate(x))) for x in I.iterate(a[1])]),
        pairwise=B("pairwise", lambda I, a, k: (lambda xs: list(zip(xs, xs[1:])))(list(I.iterate(a[0])))))


def b_partial(I, a, k):
    f, pre, kw = a[0], a[1:], dict(k)
    return Builtin("partial", lambda I, a2, k2: I.call(f, list(pre) + list(a2), {**kw, **k2}))


def b_reduce(I, a, k):
    items = list(I.iterate(a[1]))
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        acc = I.call(a[0], [acc, x])
    return acc


def new_struct(I, a, k):
    fmt = a[0]
    m = ModV("Struct", {"pack": Builtin("pack", lambda I, a2, k2: s_pack(I, [fmt] + a2, k2)),
                        "unpack": Builtin("unpack", lambda I, a2, k2: s_unpack(I, [fmt] + a2, k2)),
                        "format": fmt, "size": layout(*parse_fmt(I, fmt))[1]})
    return m
