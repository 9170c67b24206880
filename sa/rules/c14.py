"""C14: pickling is lossless, and the layout is that of the Rust extension."""
import ast

from .. import lib, model, rust
from ..dom import mk_cal, mk_fd, mk_mod
from ..obl import entry
from ..vals import BytesV, ClsV, FuncV
from .ops import *

CLASSES = ("Date", "YearMonth", "MonthDay", "Time", "TimeDelta", "DateDelta", "DateTimeDelta") + DATETIMES
VARIANTS = [(c, c) for c in CLASSES] + [("SystemDateTime", "SystemDateTime (any offset)"), ("LocalDateTime", "LocalDateTime (fold=1)")]


def value(c, cls, nm):
    if "any offset" in nm:
        return c.system_any()
    if "fold=1" in nm:
        return c.local("a", 1)
    return c.value(cls)


def same(c, lab, x, y):
    cls = x.cls.name
    if not c.is_(y, cls):
        return c.fail(f"{lab}: a {cls}", info=y)
    if cls in ("Date", "YearMonth", "MonthDay"):
        return c.eq(f"{lab}: the date", c.ord(y), c.ord(x))
    if cls.endswith("Delta"):
        for n, a, b in zip(("months", "days", "nanoseconds"), c.parts(y), c.parts(x)):
            c.eq(f"{lab}: the {n}", a, b)
        return
    c.eq(f"{lab}: the nanoseconds", c.ns(y), c.ns(x))
    c.eq(f"{lab}: the local time", c.wall_ns(y), c.wall_ns(x))
    if cls in AWARE:
        c.eq(f"{lab}: the offset", c.off_us(y), c.off_us(x))
    if cls == "ZonedDateTime":
        a, b = c.dt(x).tz, c.dt(y).tz
        c.hold(f"{lab}: the timezone", b is not None and b.kind == "zone" and b.zid == a.zid, info=repr(b))
    elif cls in AWARE:
        c.hold(f"{lab}: a fixed offset", c.dt(y).tz is not None and c.dt(y).tz.kind != "zone", info=repr(c.dt(y).tz))


def reduce_(c, x):
    r = c.call(x, "__reduce__")
    if r.exc:
        return r, None, None
    t = r.v
    if not (isinstance(t, tuple) and len(t) >= 2 and isinstance(t[1], tuple)):
        raise Unsupported(f"__reduce__ gives {t!r}")
    return r, t[0], list(t[1])


for cls, nm in VARIANTS:
    @entry("C14", f"pickle round trip of {nm}")
    def _(c, cls=cls, nm=nm):
        x = value(c, cls, nm)
        r, f, a = reduce_(c, x)
        if f is None:
            return c.fail(f"{cls}: every value can be pickled", info=r)
        b = c.guard(lambda: c.I.call(f, a, {}))
        if b.exc:
            return c.fail(f"{cls}: every pickled value can be read back", info=b)
        same(c, f"{cls} pickled and read back", x, b.v)


# ------------------------------------------------------------------ agreement with src/*.rs
def meaning(c, x):
    """field name in the Rust structs -> value"""
    F = c.p.F
    cls = x.cls.name
    if cls in ("Date", "YearMonth", "MonthDay"):
        o = c.ord(x)
        return {n: mk_cal(F, n, o) for n in ("year", "month", "day")}
    if cls == "TimeDelta":
        return {"secs": mk_fd(F, c.total(x), NS), "nanos": mk_mod(F, c.total(x), NS)}
    if cls == "DateDelta":
        return {"months": c.months(x), "days": c.days(x)}
    if cls == "DateTimeDelta":
        m, d, t = c.parts(x)
        return {"months": m, "days": d, "secs": mk_fd(F, t, NS), "nanos": mk_mod(F, t, NS)}
    if cls == "Instant":
        s = mk_fd(F, c.dt(x).w, 10**6)
        return {"secs": add(sub(s, model.UNIX // NS), rust.epoch()), "nanos": c.ns(x)}
    u = c.f(x, "tm").u if cls == "Time" else mk_mod(F, c.dt(x).w, DAYUS)
    s = mk_fd(F, u, 10**6)
    d = {"hour": mk_fd(F, s, 3600), "minute": mk_mod(F, mk_fd(F, s, 60), 60), "second": mk_mod(F, s, 60), "nanos": c.ns(x)}
    if cls != "Time":
        o = mk_fd(F, c.dt(x).w, DAYUS)
        d.update({n: mk_cal(F, n, o) for n in ("year", "month", "day")})
    if cls in AWARE:
        d["offset_secs"] = mk_fd(F, c.off_us(x), 10**6)
    return d


def rust_layout(cls):
    try:
        w, r = rust.written(cls), rust.read(cls)
        order = "<" if rust.little_endian() else ">"
        return w, r, order, rust.unpickler_name(cls)
    except rust.NoRust as e:
        raise Unsupported(f"Rust source not understood: {e}")


def size(codes):
    return sum(lib._FMT[k][0] for k in codes)


for cls in CLASSES:
    @entry("C14", f"{cls}: pickle layout shared with the Rust extension")
    def _(c, cls=cls):
        w, r, order, uname = rust_layout(cls)
        lab = f"{cls} and src/{rust.FILES[cls]}.rs"
        c.hold(f"{lab}: the extension reads what it writes", w[0] == r[0] and [z[-1] for z in w[1]] == [z[-1] for z in r[1]]
               and all(not b[0] or a[0] == b[0] for a, b in zip(w[1], r[1])), info=f"writes {w} reads {r}")
        if w[0] == "bytes" and r[2] is not None:
            c.hold(f"{lab}: length check of the extension", r[2] == size(k for _, k in w[1]), info=f"{r}")
        x = c.value(cls)
        res, f, a = reduce_(c, x)
        if f is None:
            return c.fail(f"{lab}: every value can be pickled", info=res)
        c.hold(f"{lab}: the same unpickling function", isinstance(f, FuncV) and f.name == uname, info=f"{f!r} and {uname}")
        m = meaning(c, x)
        try:
            if w[0] == "args":
                want = [m[n] for n in w[1]]
            else:
                want = [m[n] for n, _ in w[1]]
        except KeyError as e:
            raise Unsupported(f"Rust field {e}")
        if w[0] == "args":
            c.hold(f"{lab}: the same number of arguments", len(a) == len(want), info=f"{len(a)} and {len(want)}")
            for n, p, q in zip(w[1], a, want):
                c.eq(f"{lab}: {n}", p, q)
            theirs = list(want)
        else:
            codes = [k for _, k in w[1]]
            c.hold(f"{lab}: the same number of arguments", len(a) == 1 + len(w[2]), info=f"{len(a)}")
            data = a[0]
            if not isinstance(data, BytesV) or data.fmt == "raw":
                raise Unsupported(f"pickled data {data!r}")
            l1, n1 = lib.layout(order, codes)
            l2, n2 = lib.layout(*lib.parse_fmt(c.I, data.fmt))
            big = data.fmt[0] in ">!" 
            ok = n1 == n2 and [z[:2] for z in l1] == [z[:2] for z in l2] and big == (order == ">")
            c.hold(f"{lab}: the same byte layout", ok, info=f"{data.fmt} and {order}{''.join(codes)}")
            if ok:
                for (n, _), (p1, s1, g1), (p2, s2, g2), p, q in zip(w[1], l1, l2, data.vals, want):
                    c.eq(f"{lab}: {n}", p, q)
                    if g1 != g2:
                        c.within(f"{lab}: {n} reads the same signed and unsigned", p, 0, 2 ** (8 * s1 - 1) - 1)
            theirs = [BytesV(order + "".join(codes), list(want))] + a[1:]
        if uname not in c.P.M.d:
            return c.fail(f"{lab}: unpickling function {uname} exists")
        b = c.func(uname, *theirs)
        if b.exc:
            return c.fail(f"{lab}: the implementation reads what the extension writes", info=b)
        same(c, f"{lab}: reading the extension's pickle", x, b.v)


@entry("C14", "unpickling functions are found by name in the package")
def _(c):
    def bound(stmts):
        """names certainly bound by a sequence of import statements of this block"""
        s = set()
        for st in stmts:
            if isinstance(st, ast.ImportFrom):
                s |= {a.asname or a.name for a in st.names if (a.asname or a.name) == a.name}
        return s
    tree = ast.parse(model.read(model.INIT))
    both = None
    for st in tree.body:
        if isinstance(st, ast.Try):
            both = bound(st.body), bound([z for h in st.handlers for z in h.body])
    for cls in CLASSES:
        x = c.value(cls)
        res, f, a = reduce_(c, x)
        if f is None:
            continue
        if isinstance(f, ClsV):
            c.hold(f"{cls}: pickle refers to whenever.{f.name}", c.P.W.d.get(f.name) is f)
            continue
        if not isinstance(f, FuncV):
            raise Unsupported(f"{f!r}")
        mod = c.guard(lambda: c.I.getattr(f, "__module__"))
        c.hold(f"{cls}: pickle refers to whenever.{f.name}", mod.exc is None and mod.v == "whenever", info=mod)
        c.hold(f"{cls}: whenever.{f.name} is that function", c.P.W.d.get(f.name) is f, info=f.name)
        if both:
            c.hold(f"{cls}: whenever.{f.name} with the extension", f.name in both[0], info=f.name)
