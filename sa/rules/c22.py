"""C22: the type stubs describe the real API."""
import ast

from ..model import INIT, STUB, read
from ..obl import entry
from ..vals import ClsV, CMeth, Foreign, FloatSym, FloatV, FuncV, ObjV, Prop, SMeth, TD, Unk, Builtin, Bound, BytesV
from ..vals import _MISSING
from .allops import ALL, VALUES, val
from .ops import *

TREE = ast.parse(read(STUB))
CLS, FUN, VARS, ALIAS = {}, {}, {}, {}


def decs(n):
    return {ast.unparse(d).split(".")[-1] for d in n.decorator_list}


class Sig:
    """parameters of a declaration without the receiver: (name, kind, default); kind is po, pk, ko, * or **"""

    def __init__(self, node, drop):
        a = node.args
        pos = [(x, "po") for x in a.posonlyargs] + [(x, "pk") for x in a.args]
        dfl = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        ps = [(x.arg, k, d, x.annotation) for (x, k), d in zip(pos, dfl)]
        if drop:
            ps = ps[1:]
        if a.vararg:
            ps.append((a.vararg.arg, "*", None, None))
        ps += [(x.arg, "ko", d, x.annotation) for x, d in zip(a.kwonlyargs, a.kw_defaults)]
        if a.kwarg:
            ps.append((a.kwarg.arg, "**", None, None))
        self.ps = ps
        self.ret = node.returns

    def pos(self):
        return [p for p in self.ps if p[1] in ("po", "pk")]

    def var(self):
        return any(p[1] in ("*", "**") for p in self.ps)

    def __repr__(self):
        return "(" + ", ".join({"*": "*", "**": "**"}.get(k, "") + n + ("" if d is None else "=" + ast.unparse(d)) + {"po": " /", "ko": " (keyword)"}.get(k, "")
                               for n, k, d, _ in self.ps) + ")"


def kind_of(node):
    d = decs(node)
    return "property" if "property" in d else "classmethod" if "classmethod" in d else "staticmethod" if "staticmethod" in d else "method"


for n in TREE.body:
    if isinstance(n, ast.ClassDef):
        m, v = {}, {}
        for x in n.body:
            if isinstance(x, ast.FunctionDef):
                m.setdefault(x.name, (kind_of(x), []))[1].append(Sig(x, kind_of(x) != "staticmethod"))
            elif isinstance(x, ast.AnnAssign):
                v[x.target.id] = x.annotation
            elif isinstance(x, ast.Assign):
                v[x.targets[0].id] = x.value
        CLS[n.name] = ([b.id for b in n.bases if isinstance(b, ast.Name)], m, v)
    elif isinstance(n, ast.FunctionDef):
        FUN[n.name] = Sig(n, False)
    elif isinstance(n, ast.AnnAssign):
        VARS[n.target.id] = n.annotation
    elif isinstance(n, ast.Assign):
        VARS[n.targets[0].id] = n.value
        ALIAS[n.targets[0].id] = n.value


def declared(cls, name):
    """a declaration in the stub, through the base classes"""
    for k in stub_mro(cls):
        if name in CLS[k][1]:
            return CLS[k][1][name]
    return None


def stub_mro(cls):
    out = [cls]
    for b in CLS[cls][0]:
        if b in CLS:
            out += [x for x in stub_mro(b) if x not in out]
    return out


def impl(cls, name):
    """(kind, Sig) of the implementation, or None"""
    v = cls.lookup(name)
    if v is _MISSING:
        return None
    kind = "property" if isinstance(v, Prop) else "classmethod" if isinstance(v, CMeth) else "staticmethod" if isinstance(v, SMeth) else "method"
    f = v.fget if isinstance(v, Prop) else v.fn if isinstance(v, (CMeth, SMeth)) else v
    if isinstance(f, Bound):
        f = f.fn
    if not isinstance(f, FuncV):
        return kind, None
    return kind, Sig(f.node, kind != "staticmethod")


def literal(d):
    try:
        return True, ast.literal_eval(d)
    except ValueError:
        return False, None


def accepts(im, sg, dunder):
    """why calls that the stub allows would not be accepted or mean something else"""
    names = {p[0]: p for p in im.ps}
    out = []
    ipos = im.pos()
    used = set()
    for i, (n, k, d, _) in enumerate(sg.pos()):
        if i >= len(ipos):
            out.append(f"no positional parameter {i + 1} for {n}")
            continue
        p = ipos[i]
        used.add(p[0])
        if k == "pk" and not dunder and p[0] != n:
            out.append(f"parameter {i + 1} is called {p[0]}, not {n}")
        if not dunder and k == "pk" and p[1] == "po":
            out.append(f"parameter {n} is positional-only")
    for n, k, d, _ in sg.ps:
        if k == "ko":
            p = names.get(n)
            if p is None:
                out.append(f"no parameter {n}")
                continue
            if p[1] == "po":
                out.append(f"parameter {n} is positional-only")
            used.add(n)
    opt = {}
    for i, (n, k, d, _) in enumerate(sg.pos()):
        if i < len(ipos):
            opt[ipos[i][0]] = d
    for n, k, d, _ in sg.ps:
        if k == "ko":
            opt[n] = d
    for n, k, d, _ in im.ps:
        if k in ("*", "**"):
            continue
        if d is None and (n not in opt or opt[n] is not None):
            out.append(f"parameter {n} is required")
        if n in opt and opt[n] is not None and not (isinstance(opt[n], ast.Constant) and opt[n].value is ...) and d is not None:
            a, b = literal(opt[n]), literal(d)
            if a[0] and b[0] and (a[1] != b[1] or type(a[1]) is not type(b[1])):
                out.append(f"the default of {n} is {ast.unparse(d)}, not {ast.unparse(opt[n])}")
    return out


def extra(im, sgs):
    """parameters that no declaration mentions"""
    out = []
    for n, k, d, _ in im.ps:
        if k in ("*", "**"):
            continue
        i = [p[0] for p in im.pos()].index(n) if k != "ko" else None
        seen = False
        for s in sgs:
            if i is not None and i < len(s.pos()):
                seen = True
            else:
                for p in s.ps:
                    if p[1] == "ko" and p[0] == n:
                        seen = True
        if not seen:
            out.append(f"parameter {n} is not declared")
    return out


def conforms(c, v, ann, cls=None):
    """does the abstract value have the declared type? None: not known"""
    if ann is None or v is None and isinstance(ann, ast.Constant) and ann.value is None:
        return True
    if isinstance(v, Unk):
        return None
    if isinstance(ann, ast.BinOp):
        a, b = conforms(c, v, ann.left, cls), conforms(c, v, ann.right, cls)
        return True if a or b else None if a is None or b is None else False
    if isinstance(ann, ast.Constant):
        if isinstance(ann.value, str):
            return conforms(c, v, ast.parse(ann.value, mode="eval").body, cls)
        return v is ann.value
    if isinstance(ann, ast.Subscript):
        n = ast.unparse(ann.value).split(".")[-1]
        if n in ("ClassVar", "Final"):
            return conforms(c, v, ann.slice, cls)
        if n.lower() == "tuple":
            if not isinstance(v, tuple):
                return False
            el = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            if len(el) == 2 and isinstance(el[1], ast.Constant) and el[1].value is ...:
                el = [el[0]] * len(v)
            if len(el) != len(v):
                return False
            r = [conforms(c, x, e, cls) for x, e in zip(v, el)]
            return False if False in r else None if None in r else True
        return None
    n = ann.id if isinstance(ann, ast.Name) else ann.attr if isinstance(ann, ast.Attribute) else None
    if n in ALIAS:
        return conforms(c, v, ALIAS[n], cls)
    isint = isinstance(v, Lin) or type(v) is int
    isfl = isinstance(v, (float, FloatV, FloatSym))
    isbool = isinstance(v, (bool, BV)) or type(v).__name__ in ("BP", "BoolV")
    simple = {"int": isint or isbool or type(v).__name__ == "HashV", "float": isfl or isint, "str": isinstance(v, (str, StrV)), "bool": isbool, "_datetime": isinstance(v, DT),
              "_date": isinstance(v, (DA, DT)), "_time": isinstance(v, TM), "_timedelta": isinstance(v, TD), "bytes": isinstance(v, (bytes, BytesV)),
              "object": True, "Any": True}
    if n in simple:
        return simple[n]
    if n in ("_T", "Self"):
        return None
    if n == "Weekday":
        return isinstance(c.I.type_of(v), ClsV) and c.I.type_of(v).name == n
    if isinstance(v, ObjV):
        return any(b.name == n for b in v.cls.mro)
    return False


for cls in CLS:
    if cls == "_TimePatch":
        continue

    @entry("C22", f"class {cls}")
    def _(c, cls=cls):
        k = c.P.M.d.get(cls)
        if k is None:
            return c.fail("a class of the stub exists in the implementation", info=cls)
        c.hold("a class of the stub exists in the implementation", hasattr(k, "mro"), info=cls)
        bases, meths, attrs = CLS[cls]
        names = {b.name for b in k.mro}
        for b in bases:
            if b in ("ABC", "object"):
                continue
            b = b.split(".")[-1]
            c.hold("the base classes of the stub are bases of the implementation", b in names, info=f"{cls} is no {b}")
        if cls not in ("Weekday",):
            for name in sorted(set(meths) | {n for n in all_names(k) if not n.startswith("_") and not cls.startswith("_")}):
                compare(c, cls, k, name)
        for name, ann in attrs.items():
            v = k.lookup(name)
            c.hold("class attributes exist", v is not _MISSING, info=f"{cls}.{name}")
            if v is not _MISSING and cls == "Weekday":
                c.hold("members of an enumeration have the declared value", isinstance(v, ObjV) and v.f.get("value") == ast.literal_eval(ann), info=f"{cls}.{name}")
            elif v is not _MISSING:
                c.hold("class attributes have the declared type", conforms(c, v, ann) is not False, info=f"{cls}.{name} = {v!r}")


def all_names(k):
    out = set()
    for b in k.mro:
        if not b.native and b.name != "object":
            out |= set(b.d)
    return out


def compare(c, cls, k, name):
    d = declared(cls, name)
    im = impl(k, name)
    v = k.lookup(name)
    if d is None:
        if any(name in CLS[b][2] for b in stub_mro(cls)):
            return
        return c.fail("every public method, property and attribute is declared in the stub", info=f"{cls}.{name}")
    if im is None:
        if name == "__init__" or name in ("__eq__", "__ne__", "__hash__"):
            return c.hold("declared methods exist", True)
        return c.fail("declared methods exist", info=f"{cls}.{name}")
    c.hold("declared methods exist", True)
    on = {"staticmethod": "classmethod"}
    c.hold("the kind (method, classmethod, property) agrees", on.get(im[0], im[0]) == on.get(d[0], d[0]), info=f"{cls}.{name} is a {im[0]}, the stub says {d[0]}")
    if im[1] is None:
        return
    dunder = name.startswith("__") and name != "__init__"
    for s in d[1]:
        if im[1].var():
            continue
        why = accepts(im[1], s, dunder)
        c.hold("the signature agrees with the stub", not why, info=f"{cls}.{name}: {'; '.join(why)}; implementation {im[1]!r}, stub {s!r}")
    if not im[1].var() and not dunder:
        why = extra(im[1], d[1])
        c.hold("every parameter is declared in the stub", not why, info=f"{cls}.{name}: {'; '.join(why)}")


@entry("C22", "module functions and names")
def _(c):
    for n, s in FUN.items():
        f = c.P.W.d.get(n) if n == "patch_current_time" else c.P.M.d.get(n)
        if n == "patch_current_time":
            c.hold("a function of the stub exists", f is not None, info=n)
            f = getattr(f, "wrapped", f)
        if not isinstance(f, FuncV):
            c.hold("a function of the stub exists", f is not None, info=n)
            continue
        why = accepts(Sig(f.node, False), s, False) + extra(Sig(f.node, False), [s])
        c.hold("the signature agrees with the stub", not why, info=f"{n}: {'; '.join(why)}")
    exported = c.P.M.d.get("__all__") or []
    stub = {x for x in (ast.literal_eval(VARS["__all__"]) if "__all__" in VARS else [])}
    for n in list(exported) + sorted(stub):
        c.hold("an exported name exists in the implementation", n in c.P.M.d or n in c.P.W.d, info=n)
        c.hold("an exported name is available from the package", n in c.P.W.d, info=n)
        c.hold("an exported name is the one of the implementation", n not in c.P.M.d or c.P.W.d.get(n) is c.P.M.d[n], info=n)
        c.hold("an exported name is declared in the stub", n in CLS or n in FUN or n in VARS, info=n)
    for n in exported:
        c.hold("an exported name is in __all__ of the stub", n in stub, info=n)
    for n in stub:
        c.hold("a name in __all__ of the stub is exported by the package", n in exported or n in c.P.W.d, info=n)
    for n, f in c.P.M.d.items():
        if n.startswith("_") or not (isinstance(f, FuncV) or hasattr(f, "mro") and not f.native) or getattr(f, "mod", None) not in (None, c.P.M):
            continue
        if n in exported:
            c.hold("every exported class and function is declared in the stub", n in CLS or n in FUN, info=n)
    for n, ann in VARS.items():
        if n in ("__all__", "_T", "Delta"):
            continue
        v = c.P.W.d.get(n, _MISSING)
        c.hold("a variable of the stub is available from the package", v is not _MISSING, info=n)
        if isinstance(ann, ast.Attribute):
            w = c.P.M.d.get(ann.value.id)
            c.hold("a constant of the stub has the declared value", w is not None and v is w.lookup(ann.attr), info=n)


# ------------------------------------------------------------------ *args and **kwargs
def typed(c, n, ann, sfx=""):
    """a value of the declared type"""
    t = ast.unparse(ann)
    if n == "tz":
        return "Z2"
    if t.startswith("Literal["):
        return c.pick(list(ast.literal_eval(f"({t[8:-1]},)")))
    if t == "Delta":
        return val(c, c.pick(["TimeDelta", "DateDelta", "DateTimeDelta"]), "arg")
    for p in t.split(" | "):
        if p in ("int", "float"):
            return sym(f"arg.{n}")
        if p in VALUES:
            return val(c, p, "arg")
        if p == "str":
            return anystr(n)
    raise Unsupported(f"a value of type {t}")


def bad(r):
    """a TypeError or AttributeError that says that the call is not accepted"""
    return r.exc and r.isa("TypeError", "AttributeError") and not r.isa("ImplicitlyIgnoringDST")


for cls in CLS:
    for name, (kind, sgs) in CLS[cls][1].items():
        if kind != "method" or name.startswith("_") or cls.startswith("_") and cls != "_KnowsInstant":
            continue
        recv = AWARE if cls == "_KnowsInstant" else (cls,)
        for rc in recv:
            for si, s in enumerate(sgs):
                opts = [p for p in s.ps if p[2] is not None]
                for p in [None] + opts:
                    def run(c, rc=rc, name=name, s=s, p=p, drop=None, bogus=False):
                        x = val(c, rc)
                        args, kw = [], {}
                        for q in s.ps:
                            if q is drop or (q[2] is not None and q is not p):
                                continue
                            v = typed(c, q[0], q[3])
                            if q[1] == "po" or q[1] == "pk" and q[2] is None:
                                args.append(v)
                            else:
                                kw[q[0]] = v
                        if bogus:
                            kw["no_such_parameter"] = 1
                        return c.call(x, name, *args, **kw)

                    def needed(c, rc=rc, name=name):
                        im = impl(c.P.cls(rc), name)
                        return im is not None and im[1] is not None and im[1].var()
                    what = f"{rc}.{name}({'' if p is None else p[0] + '=...'}) overload {si + 1}"

                    @entry("C22", what)
                    def _(c, run=run, needed=needed, s=s, rc=rc):
                        if not needed(c):
                            return c.hold("compared by signature", True)
                        r = run(c)
                        c.hold("a call that the stub allows is accepted", not bad(r), info=r)
                        if not r.exc:
                            c.hold("the result has the declared type", conforms(c, r.v, s.ret) is not False, info=r)
                    if p is None:
                        @entry("C22", f"{what} with an unknown keyword")
                        def _(c, run=run, needed=needed):
                            if needed(c):
                                r = run(c, bogus=True)
                                c.hold("an undeclared keyword is refused", r.exc, info=r)
                        for q in s.ps:
                            if q[2] is None and len(sgs) == 1:
                                @entry("C22", f"{what} without {q[0]}")
                                def _(c, run=run, needed=needed, q=q):
                                    if needed(c):
                                        r = run(c, drop=q)
                                        c.hold("a required parameter is required", r.exc and r.isa("TypeError"), info=r)


# ------------------------------------------------------------------ types of the results
def decl_of(name):
    """the declaration that a catalogue entry calls"""
    h = name.split("(")[0]
    if "." not in h or " " in h:
        return None
    cls, m = h.split(".", 1)
    if cls not in CLS:
        return None
    d = declared(cls, m)
    return d and (d[0], d[1], f"{cls}.{m}")


for name, kinds, fn in ALL:
    d = decl_of(name)
    if d is None:
        continue

    @entry("C22", f"type of {name}")
    def _(c, name=name, fn=fn, d=d):
        r = fn(c)
        if r is None or r.exc:
            return c.hold("the result has the declared type", True)
        ok = [conforms(c, r.v, s.ret) for s in d[1]]
        c.hold("the result has the declared type", any(o is not False for o in ok), info=f"{d[2]} {r!r}, the stub says {[ast.unparse(s.ret) for s in d[1] if s.ret]}")
