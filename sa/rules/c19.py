"""C19: values are immutable and operations have no side effects."""
import ast

from ..obl import entry
from ..vals import ObjV, Prop, _MISSING
from .allops import ALL, VALUES, val
from .c20 import PINS, patched, pinned
from .ops import *

WRITES = {"setattr": "an attribute", "setglobal": "a module variable", "setclassattr": "an attribute of a class", "mutate": "a shared object"}


def writes(c, lab, allow=()):
    n = 0
    for kind, what, site in c.p.effects:
        if kind in WRITES and kind not in allow:
            n += 1
            where = f" at {site[0]}.py:{site[1]} in {site[2]}" if site else ""
            c.fail(f"{lab}: writes {WRITES[kind]}", info=f"{what}{where}")
    if not n:
        c.hold(f"{lab}: writes nothing", True)


for name, kinds, fn in ALL:
    @entry("C19", name)
    def _(c, name=name, fn=fn):
        fn(c)
        writes(c, name)

for cls in VALUES:
    for m in ("__copy__", "__deepcopy__"):
        @entry("C19", f"{cls}.{m}")
        def _(c, cls=cls, m=m):
            x = val(c, cls)
            if x.cls.lookup(m) is _MISSING:
                return c.fail(f"{m}: copying a value gives the value itself", info=f"{cls} has no {m}")
            r = c.call(x, m, *([{}] if m == "__deepcopy__" else []))
            c.hold(f"{m}: copying a value gives the value itself", not r.exc and r.v is x, info=r)
            writes(c, f"{cls}.{m}")

    @entry("C19", f"{cls}: no new attributes")
    def _(c, cls=cls):
        k = c.P.cls(cls)
        for b in k.mro:
            if b.native or b.name == "object":
                continue
            sl = b.d.get("__slots__", _MISSING)
            names = (sl,) if isinstance(sl, str) else tuple(sl) if isinstance(sl, (tuple, list)) else None
            c.hold("every class of the value has __slots__, without __dict__", names is not None and "__dict__" not in names, info=f"class {b.name}")
        for n in ("year", "month", "day", "hour", "minute", "second", "nanosecond", "offset", "tz", "new_attribute"):
            x = val(c, cls)
            r = c.guard(lambda: c.I.setattr(x, n, 1))
            c.hold("assigning a public attribute is refused", r.exc and r.isa("AttributeError"), info=f"{cls}.{n} = 1: {r!r}")

    @entry("C19", f"{cls}: no subclasses")
    def _(c, cls=cls):
        from ..interp import Scope
        sc = Scope(c.P.M)
        sc.vars = {"Base": c.P.cls(cls)}
        r = c.guard(lambda: c.I.exec_block(ast.parse("class Sub(Base): pass").body, sc))
        c.hold("subclassing is refused with TypeError", r.exc and r.isa("TypeError"), info=r)

for cls in PINS:
    for tick in (False, True):
        @entry("C19", f"patch_current_time({cls}, keep_ticking={tick})")
        def _(c, cls=cls, tick=tick):
            x = pinned(c, cls)

            def body(p):
                if isinstance(p, ObjV):
                    c.call_obj(p, "shift", hours=2)
            patched(c, x, tick, body)
            for kind, what, site in c.p.effects:
                if kind in ("setattr", "setclassattr") and (kind == "setclassattr" or any(what.startswith(v + ".") for v in VALUES)):
                    c.fail("patch_current_time: changes no value", info=f"{what} at {site}")
            c.hold("patch_current_time: changes no value", True)
