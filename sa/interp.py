"""Abstract interpreter over the syntax tree of the analysed modules.

Trace partitioning: at every branch whose condition the abstract state does not decide, the
trace splits (`Path.choose`) and each side is analysed with the condition assumed.  Callees
are inlined, loops are unrolled up to a cap (beyond it: undecided).
"""
from __future__ import annotations

import ast
import re
import operator as _op
import time

from .dom import Atom, Facts, Infeasible, L, Lin, add, atom, mk_fd, mul, scale, single_atom, sub
from .vals import *
from .vals import _MISSING

LOOP_CAP = 40
DEPTH_CAP = 60


AMBIENT = re.compile(r"\b(os\.environ|os\.getenv|os\.environb|os\.getcwd|os\.urandom|os\.stat|os\.path|locale\.\w+|platform\.\w+|socket\.\w+|"
                     r"secrets\.\w+|uuid\.\w+|sys\.(argv|flags|stdin|path)|time\.(timezone|tzname|altzone|daylight|tzset))")


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Path:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.dec = []
        self.arity = []
        self.why = []
        self.F = Facts()
        self.taint = []
        self.effects = []
        self.events = []
        self.undo = []
        self.strmap = {}
        self.chmap = {}
        self.strfacts = {}
        self.exists = []      # (zid, W, inst or None, resolved)
        self.kinds = []       # (zid, W, kind)
        self.steps = 0
        self.trail = []

    def choose(self, n, why=""):
        i = len(self.dec)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.dec.append(c)
        self.arity.append(n)
        self.why.append(why)
        return c


class Scope:
    __slots__ = ("vars", "locals", "globals_decl", "nonlocals", "parent", "mod", "func", "is_class", "self_", "cls")

    def __init__(self, mod, parent=None, func=None):
        self.vars = {}
        self.locals = None
        self.globals_decl = set()
        self.nonlocals = set()
        self.parent = parent
        self.mod = mod
        self.func = func
        self.is_class = False
        self.cls = None


_scope_cache: dict = {}


def _targets(node, out):
    if isinstance(node, ast.Name):
        out.add(node.id)
    elif isinstance(node, (ast.Tuple, ast.List)):
        for e in node.elts:
            _targets(e, out)
    elif isinstance(node, ast.Starred):
        _targets(node.value, out)


def _scope_info(node):
    r = _scope_cache.get(node)
    if r:
        return r
    loc, glob, nonl = set(), set(), set()
    gen = False

    def visit(n, top=False):
        nonlocal gen
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            loc.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr) and not isinstance(n, ast.Lambda):
                    _targets(c.target, loc)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        loc.add(x.arg)
    r = (frozenset(loc - glob - nonl), frozenset(glob), frozenset(nonl), gen)
    _scope_cache[node] = r
    return r


_BINOPS = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv",
    ast.Mod: "mod", ast.Pow: "pow", ast.BitOr: "or", ast.BitAnd: "and", ast.BitXor: "xor",
    ast.LShift: "lshift", ast.RShift: "rshift",
}
_CMPOPS = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}
_REFL = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}


class Interp:
    def __init__(self):
        from . import lib
        self.lib = lib
        self.p = Path()
        self.p.events = []
        self.depth = 0
        self.init_phase = True
        self.modules = {}
        self.builtins = lib.make_builtins(self)
        self.sysmods = lib.make_modules(self)
        self.float_policy = True
        self.site = None
        self.on_yield = None
        self.seen_funcs = set()
        self.deadline = None     # wall clock; afterwards every trace is undecided
        self.stmts_seen = set()

    # ------------------------------------------------------------------ module load
    def load_module(self, name, src, filename):
        tree = ast.parse(src, filename)
        mod = ModV(name, {"__name__": name})
        mod.tree, mod.filename = tree, filename
        self.modules[name] = mod
        sc = Scope(mod)
        sc.vars = mod.d
        self.exec_block(tree.body, sc)
        return mod

    # ------------------------------------------------------------------ errors
    def raise_(self, clsname, *args):
        cls = self.builtins[clsname] if isinstance(clsname, str) else clsname
        raise PyExc(ObjV(cls, {"args": tuple(args)}), self.site)

    def effect(self, kind, detail):
        if not self.init_phase:
            self.p.effects.append((kind, detail, self.site))

    def taint(self, why):
        m = AMBIENT.search(why)
        if m:
            self.effect("systz" if m.group().startswith("time.") else "env", m.group())
        self.p.taint.append((why, self.site))

    # ------------------------------------------------------------------ truth
    def assume(self, b, val=True):
        """assume boolean value b has truth value val (no fork)"""
        F = self.p.F
        if isinstance(b, bool):
            if b != val:
                raise Infeasible
            return
        if not val:
            b = b.neg()
        if isinstance(b, BV):
            l = F.norm(b.lin)
            if b.op == "ge":
                F.assume_ge0(l)
            elif b.op == "eq":
                F.assume_eq0(l)
            else:
                F.assume_ne0(l)
        elif isinstance(b, BP):
            if F.preds.get(b.key, b.pos) != b.pos:
                raise Infeasible
            F.preds[b.key] = b.pos
        else:
            raise Unsupported(f"assume {b!r}")

    def decide(self, b):
        F = self.p.F
        if isinstance(b, bool):
            return b
        if isinstance(b, BV):
            if b.op == "ge":
                return F.decide_ge0(b.lin)
            r = F.decide_eq0(b.lin)
            if r is None or b.op == "eq":
                return r
            return not r
        if isinstance(b, BP):
            v = F.preds.get(b.key)
            return None if v is None else (v == b.pos)
        return None

    def truth(self, v):
        """Python truth value; splits the trace if undecided"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, int):
            return v != 0
        if isinstance(v, (str, tuple, list, dict, set, frozenset, float, bytes, range)):
            return bool(v)
        if isinstance(v, Lin):
            v = BV("ne", v)
        if isinstance(v, (BV, BP)):
            r = self.decide(v)
            if r is not None:
                return r
            c = self.p.choose(2, repr(v))
            self.assume(v, c == 0)
            self.p.trail.append((v if c == 0 else v.neg(), self.site))
            return c == 0
        if isinstance(v, Unk):
            self.taint(f"branch on {v.why}")
            return self.p.choose(2, "unknown") == 0
        if isinstance(v, StrV):
            return self.lib.str_truth(self, v)
        if isinstance(v, TD):
            return self.truth(BV("ne", v.us))
        if isinstance(v, FloatV):
            if v.err and v.tree and v.tree[0] not in ("q", "d"):
                v = self.lib.as_double(self, v)
            return self.truth(BV("ne", v.num))
        if isinstance(v, FloatSym):
            return self.truth(BP(("truth", v.name)))
        if isinstance(v, ObjV):
            m = v.cls.lookup("__bool__")
            if m is not _MISSING:
                return self.truth(self.call_method(v, "__bool__", []))
            m = v.cls.lookup("__len__")
            if m is not _MISSING:
                return self.truth(self.call_method(v, "__len__", []))
            return True
        if isinstance(v, Foreign):
            return self.p.choose(2, f"truth of {v.name}") == 0
        if v is NotImplemented:
            return True
        if isinstance(v, TM):
            return True
        return True

    # ------------------------------------------------------------------ types
    def type_of(self, v):
        b = self.builtins
        if isinstance(v, ObjV):
            return v.cls
        if isinstance(v, (bool, BV, BP)):
            return b["bool"]
        if isinstance(v, (int, Lin)):
            return b["int"]
        if isinstance(v, (str, StrV)):
            return b["str"]
        if v is None:
            return self.lib.T["NoneType"]
        if isinstance(v, (float, FloatV, FloatSym)):
            return b["float"]
        if isinstance(v, tuple):
            return getattr(v, "cls", None) or b["tuple"]
        if isinstance(v, list):
            return b["list"]
        if isinstance(v, dict):
            return b["dict"]
        if isinstance(v, frozenset):
            return b["frozenset"]
        if isinstance(v, set):
            return b["set"]
        if isinstance(v, (bytes, BytesV)):
            return b["bytes"]
        if isinstance(v, Unk):
            return Unk("type of " + v.why)
        if isinstance(v, (DT, DA, TM, TD)):
            base = {DT: "datetime", DA: "date", TM: "time", TD: "timedelta"}[type(v)]
            return self.lib.T["sub" + base] if v.sub else self.lib.T[base]
        if isinstance(v, Tz):
            if v.kind in ("utc", "fixed"):
                return self.lib.T["timezone"]
            if v.kind == "zone":
                return self.lib.T["subZoneInfo" if v.sub else "ZoneInfo"]
            return self.lib.T["foreigntz"]
        if isinstance(v, ClsV):
            return self.builtins["type"]
        if isinstance(v, EnumSym):
            return v.cls
        if isinstance(v, Foreign):
            return v.cls or self.lib.T["foreign"]
        if isinstance(v, (FuncV,)):
            return self.lib.T["function"]
        if isinstance(v, (Builtin, Bound)):
            return self.lib.T["builtin_function"]
        if v is NotImplemented:
            return self.lib.T["NotImplementedType"]
        if isinstance(v, HashV):
            return b["int"]
        return self.lib.T["foreign"]

    def isinstance_(self, v, c):
        if isinstance(c, tuple):
            return any(self.truth(self.isinstance_(v, x)) for x in c)
        t = self.type_of(v)
        if isinstance(t, Unk):
            return t
        if isinstance(c, ModV) or not isinstance(c, ClsV):
            raise Unsupported(f"isinstance with {c!r}")
        return t.issub(c)

    # ------------------------------------------------------------------ attributes
    def getattr(self, v, name, default=_MISSING):
        r = self._getattr(v, name)
        if r is _MISSING:
            if default is not _MISSING:
                return default
            self.raise_("AttributeError", f"{self.type_of(v)!r} has no attribute {name!r}")
        return r

    def _getattr(self, v, name):
        if isinstance(v, ObjV):
            c = v.cls.lookup(name)
            if isinstance(c, Prop):
                return self.call(c.fget, [v], {})
            if name in v.f:
                return v.f[name]
            if name == "__class__":
                return v.cls
            if c is not _MISSING:
                return self.bind(c, v, v.cls)
            r = self.lib.obj_attr(self, v, name)
            return r
        if isinstance(v, ClsV):
            c = v.lookup(name)
            if c is not _MISSING:
                if isinstance(c, CMeth):
                    return Bound(v, c.fn)
                if isinstance(c, SMeth):
                    return c.fn
                return c
            return self.lib.cls_attr(self, v, name)
        if isinstance(v, ModV):
            r = v.d.get(name, _MISSING)
            m = AMBIENT.match(f"{v.name}.{name}")
            if m and not isinstance(r, Builtin):
                self.effect("systz" if v.name == "time" else "env", m.group())
            if r is _MISSING and getattr(v, "native", False):
                return Unk(f"{v.name}.{name}")
            return r
        if isinstance(v, FuncV):
            if name in v.attrs:
                return v.attrs[name]
            if name in ("__name__", "__qualname__"):
                return v.name
            if name == "__module__":
                return v.mod.name
            if name == "__doc__":
                return None
            return _MISSING
        if isinstance(v, SuperV):
            mro = self.type_of(v.obj).mro if not isinstance(v.obj, ClsV) else v.obj.mro
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                if name in c.d:
                    return self.bind(c.d[name], v.obj, self.type_of(v.obj) if not isinstance(v.obj, ClsV) else v.obj)
            return self.lib.super_attr(self, v, name)
        if isinstance(v, Foreign):
            return self.lib.foreign_attr(self, v, name)
        if isinstance(v, Unk):
            self.taint(f"attribute {name} of {v.why}")
            return Unk(f"{v.why}.{name}")
        return self.lib.native_attr(self, v, name)

    def bind(self, c, obj, cls):
        if isinstance(c, FuncV):
            return Bound(obj, c)
        if isinstance(c, CMeth):
            return Bound(cls, c.fn)
        if isinstance(c, SMeth):
            return c.fn
        if isinstance(c, Prop):
            return self.call(c.fget, [obj], {})
        if isinstance(c, Builtin) and getattr(c, "is_method", False):
            return Bound(obj, c)
        return c

    def setattr(self, v, name, val):
        if isinstance(v, ObjV):
            if v.frozen:
                self.effect("setattr", f"{v.cls.name}.{name}")
                old = v.f.get(name, _MISSING)
                self.p.undo.append((v.f, name, old))
            c = v.cls.lookup(name)
            if isinstance(c, Prop):
                self.raise_("AttributeError", f"can't set {name}")
            slots = self.lib.all_slots(v.cls)
            if slots is not None and name not in slots:
                self.raise_("AttributeError", f"no attribute {name}")
            v.f[name] = val
        elif isinstance(v, ClsV):
            if not self.init_phase:
                self.effect("setclassattr", f"{v.name}.{name}")
                self.p.undo.append((v.d, name, v.d.get(name, _MISSING)))
            v.d[name] = val
        elif isinstance(v, FuncV):
            if not self.init_phase:
                self.effect("setattr", f"function {v.name}.{name}")
                self.p.undo.append((v.attrs, name, v.attrs.get(name, _MISSING)))
            v.attrs[name] = val
        elif isinstance(v, ModV):
            if not self.init_phase:
                self.effect("setglobal", f"{v.name}.{name}")
                self.p.undo.append((v.d, name, v.d.get(name, _MISSING)))
            v.d[name] = val
        elif isinstance(v, (Foreign, Unk)):
            self.effect("setattr", f"{v!r}.{name}")
        elif isinstance(v, (Builtin, Bound)):
            if name != "__module__":
                raise Unsupported("setattr on builtin")
        else:
            self.raise_("AttributeError", name)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Bound):
            if isinstance(f.fn, Builtin):
                return f.fn.fn(self, [f.self_] + list(args), kwargs)
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, CMeth):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, SMeth):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, ObjV):
            m = f.cls.lookup("__call__")
            if m is not _MISSING:
                return self.call(self.bind(m, f, f.cls), args, kwargs)
        if isinstance(f, Unk):
            self.taint(f"call of {f.why}")
            return Unk(f"{f.why}()")
        if isinstance(f, Foreign):
            self.taint(f"call of {f.name}")
            return Unk(f"{f.name}()")
        self.raise_("TypeError", f"{f!r} not callable")

    def call_method(self, obj, name, args, kwargs=None):
        return self.call(self.getattr(obj, name), args, kwargs)

    def instantiate(self, cls, args, kwargs):
        if cls.new is not None:
            return cls.new(self, cls, list(args), kwargs)
        if cls.members is not None:
            return self.lib.enum_call(self, cls, args)
        for c in cls.mro:
            if c.new is not None and not c.native_base:
                return c.new(self, cls, list(args), kwargs)
        nw = cls.lookup("__new__")
        if nw is not _MISSING:
            o = self.call(nw.fn if isinstance(nw, SMeth) else nw, [cls] + list(args), kwargs)
            if not (isinstance(o, ObjV) and o.cls.issub(cls)):
                return o
        else:
            o = self.lib.object_new(self, cls)
        init = cls.lookup("__init__")
        if init is not _MISSING:
            self.call(init, [o] + list(args), kwargs)
        elif self.lib.is_exception_cls(cls):
            o.f["args"] = tuple(args)
        elif args or kwargs:
            self.raise_("TypeError", f"{cls.name}() takes no arguments")
        return o

    def bind_args(self, fn, args, kwargs, sc):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        posonly = {x.arg for x in a.posonlyargs}
        kwonly = [x.arg for x in a.kwonlyargs]
        v = sc.vars
        kwargs = dict(kwargs)
        n = len(args)
        if n > len(pos):
            if a.vararg is None:
                self.raise_("TypeError", f"{fn.name}() takes {len(pos)} positional arguments but {n} were given")
            v[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            v[a.vararg.arg] = ()
        for name, val in zip(pos, args):
            v[name] = val
        extra = {}
        for k, val in kwargs.items():
            if k in v and k in pos and k not in posonly and k in pos[:n]:
                self.raise_("TypeError", f"{fn.name}() got multiple values for argument {k!r}")
            if (k in pos and k not in posonly) or k in kwonly:
                v[k] = val
            elif a.kwarg is not None:
                extra[k] = val
            else:
                self.raise_("TypeError", f"{fn.name}() got an unexpected keyword argument {k!r}")
        if a.kwarg is not None:
            v[a.kwarg.arg] = extra
        dft = fn.defaults
        off = len(pos) - len(dft)
        for i, name in enumerate(pos):
            if name not in v or (i >= n and name not in kwargs and name not in v):
                if i >= off:
                    v[name] = dft[i - off]
                else:
                    self.raise_("TypeError", f"{fn.name}() missing required argument {name!r}")
        for name in kwonly:
            if name not in v:
                if name in fn.kwdefaults:
                    v[name] = fn.kwdefaults[name]
                else:
                    self.raise_("TypeError", f"{fn.name}() missing required keyword argument {name!r}")

    def call_func(self, fn, args, kwargs):
        if fn.attrs.get("remembers"):
            args = [self.lib.equal_arg(self, x) for x in args]
            kwargs = {k: self.lib.equal_arg(self, x) for k, x in kwargs.items()}
            n = len(self.p.effects)
            try:
                return self._call_func(fn, args, kwargs)
            finally:
                for e in self.p.effects[n:]:
                    if e[0] in ("systz", "clock"):
                        self.effect("remembered", f"{e[1]}, remembered by the cache of {fn.name}")
        return self._call_func(fn, args, kwargs)

    def _call_func(self, fn, args, kwargs):
        self.depth += 1
        if self.depth > DEPTH_CAP:
            self.depth = 0
            raise Unsupported("recursion too deep")
        saved = self.site
        try:
            sc = Scope(fn.mod, fn.closure, fn)
            loc, glob, nonl, gen = _scope_info(fn.node)
            sc.locals, sc.globals_decl, sc.nonlocals = loc, glob, nonl
            sc.cls = fn.cls
            self.bind_args(fn, args, kwargs, sc)
            self.seen_funcs.add((fn.cls.name + "." if fn.cls else "") + fn.name)
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, sc)
            if gen and self.on_yield is None:
                return self.lib.make_generator(self, fn, sc)
            try:
                self.exec_block(fn.node.body, sc)
            except ReturnSig as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.site = saved

    # ------------------------------------------------------------------ names
    def load(self, name, sc):
        s = sc
        if s.locals is not None:
            if name in s.locals:
                if name in s.vars:
                    return s.vars[name]
                self.raise_("UnboundLocalError", name)
            if name in s.globals_decl:
                return self.load_global(name, s.mod)
        elif name in s.vars:
            return s.vars[name]
        s = s.parent
        while s is not None:
            if not s.is_class and name in s.vars and name not in s.globals_decl:
                return s.vars[name]
            s = s.parent
        return self.load_global(name, sc.mod)

    def load_global(self, name, mod):
        if name in mod.d:
            return mod.d[name]
        if name in self.builtins:
            return self.builtins[name]
        self.raise_("NameError", f"name {name!r} is not defined")

    def store(self, name, val, sc):
        if name in sc.globals_decl or (sc.locals is None and sc.vars is sc.mod.d):
            if not self.init_phase:
                self.effect("setglobal", name)
                self.p.undo.append((sc.mod.d, name, sc.mod.d.get(name, _MISSING)))
            sc.mod.d[name] = val
        elif name in sc.nonlocals:
            s = sc.parent
            while s is not None:
                if not s.is_class and name in s.vars:
                    s.vars[name] = val
                    return
                s = s.parent
            raise Unsupported("nonlocal")
        else:
            sc.vars[name] = val

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.store(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, sc), t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if stars:
                i = stars[0]
                if len(vals) < n - 1:
                    self.raise_("ValueError", "not enough values to unpack")
                k = len(vals) - (n - 1)
                vals = vals[:i] + [vals[i:i + k]] + vals[i + k:]
            elif len(vals) != n:
                self.raise_("ValueError", "wrong number of values to unpack")
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, sc)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            k = self.eval_index(t.slice, sc)
            self.setitem(o, k, v)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def setitem(self, o, k, v):
        if isinstance(o, (dict, list)):
            if not self.init_phase and id(o) in self.lib.SHARED:
                self.effect("mutate", "shared container")
            if isinstance(o, dict):
                k = self.const_key(k)
                if id(o) in self.lib.SHARED:
                    self.p.undo.append((o, k, o.get(k, _MISSING)))
                o[k] = v
            else:
                o[self.const_int(k)] = v
        elif isinstance(o, ObjV):
            self.call_method(o, "__setitem__", [k, v])
        elif isinstance(o, Unk):
            self.taint("setitem")
        else:
            self.raise_("TypeError", "item assignment")

    def const_key(self, k):
        if isinstance(k, StrV):
            s = self.lib.str_const(self, k)
            if s is None:
                raise Unsupported("symbolic dict key")
            return s
        if isinstance(k, (Lin, BV, BP)):
            return self.const_int(k)
        return k

    def const_int(self, v):
        if isinstance(v, (BV, BP)):
            return int(self.truth(v))
        if isinstance(v, Lin):
            l = self.p.F.norm(v)
            if l.const:
                return l.c
            lo, hi = self.p.F.bounds(l, deep=True)
            if lo == hi:
                return lo
            if hi - lo <= 12:
                for x in range(lo, hi):
                    if self.truth(BV("eq", sub(l, x))):
                        return x
                self.assume(BV("eq", sub(l, hi)))
                return hi
            raise Unsupported(f"symbolic integer {l!r} where a constant is needed")
        if isinstance(v, int):
            return v
        raise Unsupported(f"integer needed, got {v!r}")

    def iterate(self, v):
        if isinstance(v, RangeV):
            return list(range(self.const_int(v.start), self.const_int(v.stop)))
        if isinstance(v, range) and len(v) > 20000:
            raise Unsupported(f"iteration over {v!r}")
        if isinstance(v, (tuple, list, set, frozenset, dict, range)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, ClsV) and v.members is not None:
            return list(v.members.values())
        if isinstance(v, ObjV):
            m = v.cls.lookup("__iter__")
            if m is not _MISSING:
                return self.iterate(self.call_method(v, "__iter__", []))
            if "_items" in v.f:
                return list(v.f["_items"])
        if isinstance(v, StrV):
            return self.lib.str_chars(self, v)
        if isinstance(v, Unk):
            raise Unsupported(f"iteration over {v.why}")
        if isinstance(v, BytesV):
            raise Unsupported("iteration over bytes")
        self.raise_("TypeError", f"{v!r} is not iterable")

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, sc):
        for s in body:
            self.exec(s, sc)

    def exec(self, s, sc):
        self.p.steps += 1
        if self.p.steps > 60000 and not self.init_phase:
            raise Unsupported("too many steps")
        if self.deadline and self.p.steps & 63 == 0 and time.time() > self.deadline:
            raise Unsupported("time limit")
        self.site = self.p.last_site = (sc.mod.name, s.lineno, (sc.func.name if sc.func else None))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, sc)

    def s_Expr(self, s, sc):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, sc)

    def s_Pass(self, s, sc):
        pass

    def s_Return(self, s, sc):
        raise ReturnSig(self.eval(s.value, sc) if s.value else None)

    def s_Break(self, s, sc):
        raise BreakSig

    def s_Continue(self, s, sc):
        raise ContinueSig

    def s_Assign(self, s, sc):
        v = self.eval(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, s, sc):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, sc), sc)

    def s_AugAssign(self, s, sc):
        t = s.target
        name = _BINOPS[type(s.op)]
        if isinstance(t, ast.Name):
            cur = self.load(t.id, sc)
            self.store(t.id, self.aug(name, cur, self.eval(s.value, sc)), sc)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc)
            self.setattr(o, t.attr, self.aug(name, self.getattr(o, t.attr), self.eval(s.value, sc)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            k = self.eval_index(t.slice, sc)
            self.setitem(o, k, self.aug(name, self.getitem(o, k), self.eval(s.value, sc)))
        else:
            raise Unsupported("augassign")

    def aug(self, name, a, b):
        if isinstance(a, list) and name == "add":
            if id(a) in self.lib.SHARED:
                self.effect("mutate", "shared list")
            a.extend(self.iterate(b))
            return a
        if isinstance(a, (set, dict)) and name in ("or", "and", "sub", "xor"):
            if id(a) in self.lib.SHARED:
                self.effect("mutate", "shared container")
        return self.binop(name, a, b)

    def s_If(self, s, sc):
        if self.truth(self.eval(s.test, sc)):
            self.exec_block(s.body, sc)
        else:
            self.exec_block(s.orelse, sc)

    def s_While(self, s, sc):
        n = 0
        while self.truth(self.eval(s.test, sc)):
            n += 1
            if n > LOOP_CAP:
                raise Unsupported("loop bound exceeded")
            try:
                self.exec_block(s.body, sc)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.exec_block(s.orelse, sc)

    def s_For(self, s, sc):
        for x in self.iterate(self.eval(s.iter, sc)):
            self.assign(s.target, x, sc)
            try:
                self.exec_block(s.body, sc)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.exec_block(s.orelse, sc)

    def s_Raise(self, s, sc):
        if s.exc is None:
            if getattr(self, "_handling", None):
                raise self._handling[-1]
            self.raise_("RuntimeError", "No active exception to reraise")
        v = self.eval(s.exc, sc)
        if s.cause is not None:
            self.eval(s.cause, sc)
        if isinstance(v, ClsV):
            v = self.instantiate(v, [], {})
        if isinstance(v, Unk):
            self.taint("raise unknown")
            self.raise_("Exception")
        if not (isinstance(v, ObjV) and self.lib.is_exception_cls(v.cls)):
            self.raise_("TypeError", "exceptions must derive from BaseException")
        raise PyExc(v, self.site)

    def exc_matches(self, exc, spec):
        if isinstance(spec, tuple):
            return any(self.exc_matches(exc, x) for x in spec)
        if not isinstance(spec, ClsV):
            raise Unsupported("except spec")
        return exc.obj.cls.issub(spec)

    def s_Try(self, s, sc):
        try:
            try:
                self.exec_block(s.body, sc)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e, self.eval(h.type, sc)):
                        if h.name:
                            self.store(h.name, e.obj, sc)
                        hs = self.__dict__.setdefault("_handling", [])
                        hs.append(e)
                        try:
                            self.exec_block(h.body, sc)
                        finally:
                            hs.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, sc)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            self.exec_block(s.finalbody, sc)
            raise
        else:
            self.exec_block(s.finalbody, sc)

    def s_Assert(self, s, sc):
        if not self.truth(self.eval(s.test, sc)):
            self.raise_("AssertionError")

    def s_Global(self, s, sc):
        pass

    s_Nonlocal = s_Global

    def s_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in sc.globals_decl or sc.locals is None:
                    d = sc.mod.d if t.id in sc.globals_decl else sc.vars
                    if not self.init_phase and d is sc.mod.d:
                        self.effect("setglobal", t.id)
                        self.p.undo.append((d, t.id, d.get(t.id, _MISSING)))
                    d.pop(t.id, None)
                else:
                    sc.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, sc)
                k = self.eval_index(t.slice, sc)
                if isinstance(o, dict):
                    if k not in o:
                        self.raise_("KeyError", k)
                    if id(o) in self.lib.SHARED:
                        self.effect("mutate", "shared dict")
                    del o[k]
                elif isinstance(o, list):
                    del o[k]
                else:
                    raise Unsupported("del item")
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, sc)
                if isinstance(o, ObjV) and o.frozen:
                    self.effect("setattr", f"del {o.cls.name}.{t.attr}")
                raise Unsupported("del attribute")
            else:
                raise Unsupported("del")

    def s_With(self, s, sc):
        raise Unsupported("with statement")

    def s_Import(self, s, sc):
        for a in s.names:
            m = self.import_(a.name)
            if a.asname:
                self.store(a.asname, m, sc)
            else:
                self.store(a.name.split(".")[0], self.import_(a.name.split(".")[0]), sc)

    def import_(self, name):
        if name in self.modules:
            return self.modules[name]
        m = self.sysmods.get(name)
        if m is None:
            m = ModV(name)
            m.native = True
            self.sysmods[name] = m
        return m

    def s_ImportFrom(self, s, sc):
        name = s.module or ""
        if s.level:
            if name == "_whenever":
                self.raise_("ModuleNotFoundError", "whenever._whenever")
            m = self.modules.get(name)
            if m is None:
                raise Unsupported(f"relative import {name}")
        else:
            m = self.import_(name)
        for a in s.names:
            if a.name == "*":
                names = m.d.get("__all__") or [n for n in m.d if not n.startswith("_")]
                for n in names:
                    self.store(n, m.d[n], sc)
                continue
            if a.name in m.d:
                v = m.d[a.name]
            elif getattr(m, "native", False):
                v = Unk(f"{m.name}.{a.name}")
            else:
                self.raise_("ImportError", a.name)
            self.store(a.asname or a.name, v, sc)

    def s_FunctionDef(self, s, sc):
        f = self.make_func(s, sc, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, sc)
        self.store(s.name, v, sc)

    def decorate(self, d, v, sc):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
            raise Unsupported("property setter")
        return self.call(self.eval(d, sc), [v], {})

    def make_func(self, node, sc, name):
        a = node.args
        defaults = [self.eval(d, sc) for d in a.defaults]
        kwd = {x.arg: self.eval(d, sc) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        closure = sc
        return FuncV(node, sc.mod, closure, defaults, kwd, name, sc.cls if sc.is_class else None)

    def s_ClassDef(self, s, sc):
        bases = [self.eval(b, sc) for b in s.bases]
        bases = [b for b in bases if isinstance(b, ClsV)]
        cls = ClsV(s.name, bases or [self.builtins["object"]], {}, module=sc.mod.name)
        cls.native_base = False
        cls.node = s
        csc = Scope(sc.mod, sc)
        csc.is_class = True
        csc.vars = cls.d
        csc.cls = cls
        cls.d["__module__"] = sc.mod.name
        self.exec_block(s.body, csc)
        for n in ("__init_subclass__", "__class_getitem__"):
            if isinstance(cls.d.get(n), FuncV):
                cls.d[n] = CMeth(cls.d[n])
        hook = next((b.d["__init_subclass__"] for b in cls.mro[1:] if "__init_subclass__" in b.d), None)
        if isinstance(hook, (FuncV, CMeth)):
            # a plain function assigned to a class later is not turned into a class method
            self.call(hook, [cls] if isinstance(hook, CMeth) else [], {k.arg: self.eval(k.value, sc) for k in s.keywords if k.arg})
        if any(b.name in ("Enum", "IntEnum") for b in cls.mro[1:]):
            cls.members = {}
            for k, v in list(cls.d.items()):
                if not k.startswith("_") and not isinstance(v, (FuncV, CMeth, SMeth, Prop)):
                    o = ObjV(cls, {"name": k, "value": v, "_name_": k, "_value_": v}, frozen=True)
                    cls.d[k] = o
                    cls.members[k] = o
        if any(b.name == "NamedTuple" and b.native for b in cls.bases):
            fs = [n.target.id for n in s.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]
            self.lib.make_namedtuple(self, cls, fs, {n: cls.d[n] for n in fs if n in cls.d})
        v = cls
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Name) and d.id == "_dataclass" or (isinstance(d, ast.Name) and "dataclass" in d.id):
                self.lib.make_dataclass(self, cls, s)
                continue
            v = self.call(self.eval(d, sc), [v], {})
        self.store(s.name, v, sc)

    def s_Match(self, s, sc):
        v = self.eval(s.subject, sc)
        for c in s.cases:
            if self.match_pat(c.pattern, v, sc) and (c.guard is None or self.truth(self.eval(c.guard, sc))):
                self.exec_block(c.body, sc)
                return

    def match_pat(self, p, v, sc):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("eq", v, self.eval(p.value, sc)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, sc):
                return False
            if p.name:
                self.store(p.name, v, sc)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(x, v, sc) for x in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.isinstance_(v, self.eval(p.cls, sc)))
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, list)) or len(v) != len(p.patterns):
                return False
            return all(self.match_pat(x, y, sc) for x, y in zip(p.patterns, v))
        raise Unsupported("match pattern")

    # ------------------------------------------------------------------ expressions
    def eval(self, e, sc):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, sc)

    def e_Constant(self, e, sc):
        return e.value

    def e_Name(self, e, sc):
        return self.load(e.id, sc)

    def e_Attribute(self, e, sc):
        return self.getattr(self.eval(e.value, sc), e.attr)

    def e_Tuple(self, e, sc):
        return tuple(self._elts(e.elts, sc))

    def e_List(self, e, sc):
        return list(self._elts(e.elts, sc))

    def e_Set(self, e, sc):
        return set(self.const_key(x) for x in self._elts(e.elts, sc))

    def _elts(self, elts, sc):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, sc)))
            else:
                out.append(self.eval(x, sc))
        return out

    def e_Dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, sc)
                if not isinstance(o, dict):
                    raise Unsupported("** of non dict")
                d.update(o)
            else:
                d[self.const_key(self.eval(k, sc))] = self.eval(v, sc)
        return d

    def e_NamedExpr(self, e, sc):
        v = self.eval(e.value, sc)
        t = sc
        while t.func is not None and t.locals is not None and e.target.id not in t.locals and t.parent is not None and getattr(t.func, "is_comp", False):
            t = t.parent
        self.assign(e.target, v, sc)
        return v

    def e_IfExp(self, e, sc):
        return self.eval(e.body if self.truth(self.eval(e.test, sc)) else e.orelse, sc)

    def e_BoolOp(self, e, sc):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, sc)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(v, (BV, BP)):
                v = t
            if t != is_and:
                return v
        return v

    def e_UnaryOp(self, e, sc):
        v = self.eval(e.operand, sc)
        if isinstance(e.op, ast.Not):
            if isinstance(v, (BV, BP)):
                d = self.decide(v)
                return v.neg() if d is None else not d
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            if isinstance(v, ObjV):
                return self.call_method(v, "__pos__", [])
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, (int, Lin)):
                return self.simp(add(scale(L(v), -1), Lin(-1)))
            raise Unsupported("~")
        raise Unsupported("unary")

    def neg(self, v):
        if isinstance(v, (BV, BP)):
            v = int(self.truth(v))
        if isinstance(v, (int, float)):
            return -v
        if isinstance(v, Lin):
            return scale(v, -1)
        if isinstance(v, TD):
            return self.lib.mk_td(self, scale(v.us, -1))
        if isinstance(v, FloatV):
            return FloatV(self.neg(v.num), v.den, v.err, v.tree and ("neg", v.tree))
        if isinstance(v, FloatSym):
            return FloatSym("-" + v.name)
        if isinstance(v, ObjV):
            m = v.cls.lookup("__neg__")
            if m is _MISSING:
                self.raise_("TypeError", "bad operand type for unary -")
            return self.call_method(v, "__neg__", [])
        if isinstance(v, Unk):
            return Unk(f"-{v.why}")
        self.raise_("TypeError", "bad operand type for unary -")

    def simp(self, v):
        if isinstance(v, Lin):
            if v.const:
                return v.c
        return v

    def e_BinOp(self, e, sc):
        a = self.eval(e.left, sc)
        b = self.eval(e.right, sc)
        self.site = (sc.mod.name, e.lineno, (sc.func.name if sc.func else None))
        return self.binop(_BINOPS[type(e.op)], a, b)

    def binop(self, name, a, b):
        if isinstance(a, (BV, BP)) and not isinstance(b, ObjV):
            a = self.truth(a)
        if isinstance(b, (BV, BP)) and not isinstance(a, ObjV):
            b = self.truth(b)
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            ta, tb = self.type_of(a), self.type_of(b)
            tried = False
            if isinstance(a, ObjV):
                m = a.cls.lookup(f"__{name}__")
                if m is not _MISSING:
                    r = self.call(self.bind(m, a, a.cls), [b], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(b, ObjV) and ta is not tb:
                m = b.cls.lookup(f"__r{name}__")
                if m is not _MISSING:
                    r = self.call(self.bind(m, b, b.cls), [a], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(a, (Unk,)) or isinstance(b, Unk):
                self.taint("operator on unknown")
                return Unk("binop")
            self.raise_("TypeError", f"unsupported operand type(s) for {name}")
        if isinstance(a, Unk) or isinstance(b, Unk):
            self.taint(f"{name} on unknown")
            return Unk(f"{name}({a!r},{b!r})")
        return self.lib.native_binop(self, name, a, b)

    def e_Compare(self, e, sc):
        left = self.eval(e.left, sc)
        res = True
        for i, (op, right) in enumerate(zip(e.ops, e.comparators)):
            r = self.eval(right, sc)
            v = self.cmp_op(op, left, r)
            if i == len(e.ops) - 1:
                return v
            if not self.truth(v):
                return False
            left = r
        return res

    def cmp_op(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.not_(self.contains(b, a))
        return self.compare(_CMPOPS[type(op)], a, b)

    def not_(self, v):
        if isinstance(v, (BV, BP)):
            return v.neg()
        if isinstance(v, Unk):
            return v
        return not self.truth(v)

    def is_(self, a, b):
        if isinstance(a, Unk) or isinstance(b, Unk):
            return Unk("is")
        if a is b:
            return True
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, (BV, BP)) or isinstance(b, (BV, BP)):
                x, c = (a, b) if isinstance(b, bool) else (b, a)
                return x if c else x.neg()
            return isinstance(a, bool) and isinstance(b, bool) and a == b
        if a is None or b is None:
            return False
        if isinstance(a, Tz) and isinstance(b, Tz):
            return self.lib.tz_is(self, a, b)
        if isinstance(a, (int, str)) and type(a) is type(b):
            return a == b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        if isinstance(a, (Lin,)) or isinstance(b, Lin):
            if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
                return BP(("is", repr(a), repr(b)))
            return False
        return False

    def contains(self, container, x):
        if isinstance(container, (range, RangeV)):
            return self.in_range(container, x)
        if isinstance(container, (dict, set, frozenset, tuple, list, range)):
            items = list(container)
            for it in items:
                if self.truth(self.compare("eq", x, it)):
                    return True
            return False
        if isinstance(container, (str, StrV)):
            return self.lib.str_contains(self, container, x)
        if isinstance(container, Unk):
            return Unk("in")
        if isinstance(container, ObjV):
            m = container.cls.lookup("__contains__")
            if m is not _MISSING:
                return self.call_method(container, "__contains__", [x])
        self.raise_("TypeError", "argument is not iterable")

    def in_range(self, r, x):
        """x in range(..), without going through its members"""
        if isinstance(x, (FloatV, FloatSym, float)):
            raise Unsupported("float in range")
        if isinstance(x, (BV, BP, bool)):
            x = self.const_int(x)
        if not isinstance(x, (int, Lin)):
            if isinstance(x, (Unk, ObjV)):
                return Unk("in range")
            return False
        lo, hi, step = r.start, r.stop, r.step
        if step < 0:
            if not isinstance(r, range):
                raise Unsupported("range with a negative step")
            r = r[::-1]
            lo, hi, step = r.start, r.stop, r.step
        x = L(x)
        if not self.truth(self.lib.dec_bv(self, BV("ge", sub(x, L(lo))))) or self.truth(self.lib.dec_bv(self, BV("ge", sub(x, L(hi))))):
            return False
        if step == 1:
            return True
        return self.compare("eq", self.binop("mod", self.lib.out(sub(x, L(lo))), step), 0)

    def compare(self, op, a, b):
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            r = self._dunder_cmp(op, a, b)
            if r is not NotImplemented:
                return r
            r = self._dunder_cmp(_REFL[op], b, a)
            if r is not NotImplemented:
                return r
            if op == "eq":
                return a is b
            if op == "ne":
                return a is not b
            if isinstance(a, Unk) or isinstance(b, Unk):
                return Unk("cmp")
            self.raise_("TypeError", f"{op} not supported between instances")
        if isinstance(a, Unk) or isinstance(b, Unk):
            self.taint("comparison with unknown")
            return Unk("cmp")
        return self.lib.native_cmp(self, op, a, b)

    def _dunder_cmp(self, op, a, b):
        if not isinstance(a, ObjV):
            return NotImplemented
        m = a.cls.lookup(f"__{op}__")
        if m is _MISSING:
            if op == "ne":
                m2 = a.cls.lookup("__eq__")
                if m2 is not _MISSING:
                    r = self.call(self.bind(m2, a, a.cls), [b], {})
                    return r if r is NotImplemented else self.not_(r)
            return NotImplemented
        return self.call(self.bind(m, a, a.cls), [b], {})

    def e_Call(self, e, sc):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fsc = sc
            while fsc.func is None or getattr(fsc.func, "cls", None) is None:
                fsc = fsc.parent
                if fsc is None:
                    raise Unsupported("super()")
            fn = fsc.func
            first = (fn.node.args.posonlyargs + fn.node.args.args)[0].arg
            return SuperV(fn.cls, fsc.vars[first])
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars") and not e.args:
            return sc.mod.d if (sc.locals is None or e.func.id == "globals") else dict(sc.vars)
        f = self.eval(e.func, sc)
        args = self._elts(e.args, sc)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.eval(k.value, sc)
                if not isinstance(o, dict):
                    raise Unsupported("**non-dict")
                for kk, vv in o.items():
                    if kk in kwargs:
                        self.raise_("TypeError", f"got multiple values for keyword argument {kk!r}")
                    kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    self.raise_("TypeError", "multiple values for keyword")
                kwargs[k.arg] = self.eval(k.value, sc)
        self.site = (sc.mod.name, e.lineno, (sc.func.name if sc.func else None))
        return self.call(f, args, kwargs)

    def e_Lambda(self, e, sc):
        return self.make_func(e, sc, "<lambda>")

    def e_Subscript(self, e, sc):
        o = self.eval(e.value, sc)
        k = self.eval_index(e.slice, sc)
        self.site = (sc.mod.name, e.lineno, (sc.func.name if sc.func else None))
        return self.getitem(o, k)

    def eval_index(self, s, sc):
        if isinstance(s, ast.Slice):
            return slice(
                self.eval(s.lower, sc) if s.lower else None,
                self.eval(s.upper, sc) if s.upper else None,
                self.eval(s.step, sc) if s.step else None,
            )
        return self.eval(s, sc)

    def getitem(self, o, k):
        if isinstance(o, Unk) or isinstance(k, Unk):
            self.taint("subscript of unknown")
            return Unk("item")
        if isinstance(o, dict):
            if isinstance(k, (StrV, Lin)):
                for kk in o:
                    if self.truth(self.compare("eq", k, kk)):
                        return o[kk]
                self.raise_("KeyError", k)
            if isinstance(k, (Foreign, ObjV, DT, TD, DA, TM, list, dict, set)):
                if isinstance(k, (list, dict, set)):
                    self.raise_("TypeError", "unhashable")
                self.raise_("KeyError", k)
            if k not in o:
                self.raise_("KeyError", k)
            return o[k]
        if isinstance(o, (tuple, list, range)):
            if isinstance(k, slice):
                return o[slice(*[None if x is None else self.const_int(x) for x in (k.start, k.stop, k.step)])]
            i = self.const_int(k)
            if not -len(o) <= i < len(o):
                self.raise_("IndexError", "index out of range")
            return o[i]
        if isinstance(o, (str, StrV)):
            return self.lib.str_getitem(self, o, k)
        if isinstance(o, MatchV):
            return self.lib.match_group(self, o, k)
        if isinstance(o, ClsV):
            if o.members is not None:
                k = self.const_key(k)
                if k not in o.members:
                    self.raise_("KeyError", k)
                return o.members[k]
            return o   # generic alias
        if isinstance(o, ObjV):
            m = o.cls.lookup("__getitem__")
            if m is not _MISSING:
                return self.call_method(o, "__getitem__", [k])
            if "_items" in o.f:
                return self.getitem(o.f["_items"], k)
        if isinstance(o, BytesV):
            raise Unsupported("bytes indexing")
        if isinstance(o, Builtin):
            return o
        self.raise_("TypeError", f"{o!r} is not subscriptable")

    def e_JoinedStr(self, e, sc):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                out.append(self.format_value(v, sc))
        return self.lib.str_concat(self, out)

    def format_value(self, v, sc):
        x = self.eval(v.value, sc)
        spec = ""
        if v.format_spec is not None:
            spec = self.eval(v.format_spec, sc)
            spec = self.lib.str_const(self, spec)
            if spec is None:
                raise Unsupported("symbolic format spec")
        if v.conversion == 114:
            x = self.lib.py_repr(self, x)
        elif v.conversion == 115:
            x = self.lib.py_str(self, x)
        return self.lib.py_format(self, x, spec)

    def e_FormattedValue(self, e, sc):
        return self.format_value(e, sc)

    # comprehensions
    def _comp(self, gens, sc, emit):
        sub_ = Scope(sc.mod, sc, sc.func)
        sub_.locals = None
        sub_.cls = sc.cls

        class CompScope(Scope):
            pass

        names = set()
        for g in gens:
            _targets(g.target, names)
        inner = Scope(sc.mod, sc, None)
        inner.locals = frozenset(names)
        inner.func = sc.func
        inner.globals_decl = sc.globals_decl
        inner.nonlocals = sc.nonlocals
        inner.cls = sc.cls

        def rec(i):
            if i == len(gens):
                emit(inner)
                return
            g = gens[i]
            for x in self.iterate(self.eval(g.iter, sc if i == 0 else inner)):
                self.assign(g.target, x, inner)
                if all(self.truth(self.eval(c, inner)) for c in g.ifs):
                    rec(i + 1)

        rec(0)

    def e_ListComp(self, e, sc):
        out = []
        self._comp(e.generators, sc, lambda s: out.append(self.eval(e.elt, s)))
        return out

    def e_GeneratorExp(self, e, sc):
        return self.e_ListComp(e, sc)

    def e_SetComp(self, e, sc):
        return set(self.const_key(x) for x in self.e_ListComp(e, sc))

    def e_DictComp(self, e, sc):
        out = {}

        def emit(s):
            out[self.const_key(self.eval(e.key, s))] = self.eval(e.value, s)

        self._comp(e.generators, sc, emit)
        return out

    def e_Starred(self, e, sc):
        raise Unsupported("starred")

    def e_Yield(self, e, sc):
        v = self.eval(e.value, sc) if e.value else None
        if self.on_yield is None:
            raise Unsupported("yield")
        return self.on_yield(v)


# ---------------------------------------------------------------------- exploration
def explore(I, run, max_paths=20000):
    """run(path) for every feasible trace; yields (path, result)"""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        p = Path(prefix)
        I.p = p
        I.depth = 0
        I.site = None
        I._handling = []
        p.depth = 0
        out = None
        feasible = True
        try:
            out = run(p)
        except Infeasible:
            feasible = False
        except Unsupported as e:
            out = ("unsupported", str(e), I.site)
        except RecursionError:
            out = ("unsupported", "recursion", I.site)
        except MemoryError:
            out = ("unsupported", "more memory than the limit", I.site)
        finally:
            for d, k, old in reversed(p.undo):
                if old is _MISSING:
                    d.pop(k, None)
                else:
                    d[k] = old
        for i in range(len(p.dec) - 1, len(prefix) - 1, -1):
            for alt in range(1, p.arity[i]):
                stack.append(p.dec[:i] + [alt])
        if feasible:
            n += 1
            yield p, out
            if n >= max_paths:
                I.p = Path()
                raise Unsupported(f"more than {max_paths} traces")
