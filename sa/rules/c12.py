"""C12: comparison and arithmetic refuse foreign types."""
from ..obl import entry
from ..vals import _MISSING
from .ops import *

TYPES = ("Date", "YearMonth", "MonthDay", "Time", "LocalDateTime") + AWARE + ("TimeDelta", "DateDelta", "DateTimeDelta")
DELTAS = ("TimeDelta", "DateDelta", "DateTimeDelta")
FOREIGN = ("int", "negative int", "bool", "str", "None", "float", "object", "py datetime", "py aware datetime", "py date", "py time", "py timedelta", "tuple")
OPS2 = ("eq", "ne", "lt", "le", "gt", "ge", "add", "sub")
SYM = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "add": "+", "sub": "-"}


def mk(c, t, n):
    if t in TYPES:
        return c.value(t, n)
    return {"int": lambda: sym(f"{n}.int"), "negative int": lambda: -3, "bool": lambda: True, "str": lambda: anystr(f"{n}.str"),
            "None": lambda: None, "float": lambda: 1.5, "object": lambda: Foreign(f"{n}.object"),
            "py datetime": lambda: py_naive(n + ".py"), "py aware datetime": lambda: DT(c.wall(n + ".py"), UTC),
            "py date": lambda: DA(c.s(f"{n}.pyord", 1, 3652059)), "py time": lambda: TM(c.s(f"{n}.pytod", 0, DAYUS - 1)),
            "py timedelta": lambda: TD(c.s(f"{n}.pytd", -10**15, 10**15)), "tuple": lambda: (1, 2)}[t]()


def supported(a, op, b):
    if op in ("eq", "ne"):
        return a == b or (a in AWARE and b in AWARE)
    if op in ("lt", "le", "gt", "ge"):
        return (a in AWARE and b in AWARE) or (a == b and a not in ("DateDelta", "DateTimeDelta"))
    if a in DELTAS and b in DELTAS:
        return True
    if op == "sub" and a in AWARE and b in AWARE:
        return True
    if a == b == "Date":
        return op == "sub"
    if b in DELTAS:
        return (a in ("ZonedDateTime", "SystemDateTime") or (a == "Instant" and b == "TimeDelta")
                or (a in ("Date", "LocalDateTime") and b == "DateDelta"))
    return False


def combos():
    for a in TYPES:
        for b in TYPES + FOREIGN:
            yield a, b
    for a in FOREIGN:
        for b in TYPES:
            yield a, b


for a, b in combos():
    ops = [op for op in OPS2 if not supported(a, op, b)]
    if not ops:
        continue

    @entry("C12", f"{a} with {b}")
    def _(c, a=a, b=b, ops=ops):
        k = c.choose(len(ops), "operator")
        op = ops[k]
        x, y = mk(c, a, "a"), mk(c, b, "b")
        r = c.op(op, x, y)
        if op in ("eq", "ne"):
            if r.exc:
                c.hold(f"{op} of unrelated types: False (or TypeError)", r.isa("TypeError"), info=f"{a} {op} {b}: {r}")
            else:
                c.hold(f"{op} of unrelated types: unequal", r.v is (op == "ne"), info=f"{a} {op} {b}: {r}")
        else:
            c.hold(f"{op} of unrelated types: TypeError", r.exc is not None and r.isa("TypeError"), info=f"{a} {op} {b}: {r}")

for a in TYPES:
    @entry("C12", f"{a}: operator methods with an unknown object")
    def _(c, a=a):
        op = c.pick(OPS2 + ("radd", "rsub"), "operator")
        x = mk(c, a, "a")
        if x.cls.lookup(f"__{op}__") is _MISSING:
            return
        r = c.call(x, f"__{op}__", Foreign("object"))
        c.hold("operator methods leave unknown objects to the other operand",
               (r.v is NotImplemented) if not r.exc else r.isa("TypeError"), info=f"{a}.__{op}__: {r}")


NUMERIC = ("int", "negative int", "bool")
SCALES = ("mul", "truediv", "floordiv", "mod")


def scalable(a, op, b):
    if op == "mul":
        return any(x in DELTAS and (y in NUMERIC or (x == "TimeDelta" and y == "float")) for x, y in ((a, b), (b, a)))
    if op == "truediv":
        return a == "TimeDelta" and b in NUMERIC + ("float", "TimeDelta")
    return a == b == "TimeDelta" or (op == "mod" and a == "str")


for a, b in combos():
    ops = [op for op in SCALES if not scalable(a, op, b)]
    if not ops:
        continue

    @entry("C12", f"{a} with {b}: multiplication and division")
    def _(c, a=a, b=b, ops=ops):
        op = c.pick(ops, "operator")
        # a text and a delta for which dropping the type check would be no error
        x = "7" if a == "str" else mk(c, a, "a")
        y = "7" if b == "str" else mk(c, b, "b")
        if "str" in (a, b) and "TimeDelta" in (a, b):
            x, y = (c.P.build("TimeDelta", ns=Lin(3)) if t == "TimeDelta" else z for t, z in ((a, x), (b, y)))
        r = c.op(op, x, y)
        c.hold(f"{op} of unrelated types: TypeError", r.exc is not None and r.isa("TypeError"), info=f"{a} {op} {b}: {r}")
