"""What the Rust extension writes and reads when pickling, read off its source (token patterns)."""
import os
import re

from . import model

FILES = {"Date": "date", "YearMonth": "yearmonth", "MonthDay": "monthday", "Time": "time", "TimeDelta": "time_delta",
         "DateDelta": "date_delta", "DateTimeDelta": "datetime_delta", "Instant": "instant", "LocalDateTime": "local_datetime",
         "OffsetDateTime": "offset_datetime", "ZonedDateTime": "zoned_datetime", "SystemDateTime": "system_datetime"}
FMT = {("u", 8): "B", ("i", 8): "b", ("u", 16): "H", ("i", 16): "h", ("u", 32): "I", ("i", 32): "i", ("u", 64): "Q", ("i", 64): "q"}


class NoRust(Exception):
    pass


def src(name):
    try:
        with open(os.path.join(model.REPO, "src", name + ".rs"), encoding="utf-8") as f:
            t = f.read()
    except OSError as e:
        raise NoRust(str(e))
    t = re.sub(r"//[^\n]*", "", t)
    return re.sub(r"/\*.*?\*/", "", t, flags=re.S)


def body(text, head):
    m = re.search(head, text)
    if not m:
        raise NoRust(f"no match for {head}")
    i = text.index("{", m.end())
    d = 0
    for j in range(i, len(text)):
        if text[j] == "{":
            d += 1
        elif text[j] == "}":
            d -= 1
            if not d:
                return text[i:j + 1]
    raise NoRust("unbalanced braces")


def field_types():
    """field name -> integer type; names are used with one type throughout"""
    out = {}
    for f in FILES.values():
        for m in re.finditer(r"struct \w+ \{(.*?)\n\}", src(f), flags=re.S):
            for n, sg, w in re.findall(r"(\w+): ([ui])(8|16|32|64),", m.group(1)):
                out.setdefault(n, set()).add((sg, int(w)))
    return out


def unpickler_name(cls):
    lib = src("lib")
    m = re.search(r"use %s::(?:\{[^}]*?)?unpickle as (\w+)" % FILES[cls], lib)
    if not m:
        raise NoRust(f"no unpickler for {cls} in lib.rs")
    if m.group(1) not in lib[m.end():]:
        raise NoRust("unused")
    return m.group(1)


def epoch():
    m = re.search(r"const UNIX_EPOCH_INSTANT: i64 = ([\d_]+);", src("instant"))
    if not m:
        raise NoRust("UNIX_EPOCH_INSTANT")
    return int(m.group(1).replace("_", ""))


def little_endian():
    c = src("common")
    p, u = body(c, r"macro_rules! pack\b"), body(c, r"macro_rules! unpack_one\b")
    if re.search(r"to_(be|ne)_bytes", p) or re.search(r"from_(be|ne)_bytes", u):
        return False
    if "to_le_bytes" in p and "from_le_bytes" in u:
        return True
    raise NoRust("byte order of pack!/unpack_one!")


def written(cls):
    """("bytes", [(field, format code)], extra args) or ("args", [fields])"""
    b = body(src(FILES[cls]), r"unsafe fn __reduce__\(")
    m = re.search(r"pack!\[([^\]]*)\]", b)
    if m:
        ty = field_types()
        out = []
        for n in [x.strip() for x in m.group(1).split(",") if x.strip()]:
            if not re.fullmatch(r"\w+", n) or len(ty.get(n, ())) != 1:
                raise NoRust(f"type of packed {n}")
            out.append((n, FMT[next(iter(ty[n]))]))
        return "bytes", out, re.findall(r'c"(\w+)"\.as_ptr', b)
    f = re.findall(r"(\w+)\.to_py\(\)", b)
    if not f:
        raise NoRust(f"__reduce__ of {cls}")
    return "args", f, []


def read(cls):
    b = body(src(FILES[cls]), r"unsafe fn unpickle\(")
    one = re.findall(r"unpack_one!\(\s*\w+\s*,\s*([ui])(\d+)\s*\)", b)
    if one:
        names = re.findall(r"(?:(\w+):\s*)?unpack_one!", b)
        n = re.search(r"\.len\(\) != (\d+)", b)
        return "bytes", [(x, FMT[(s, int(w))]) for x, (s, w) in zip(names, one)], int(n.group(1)) if n else None
    f = re.findall(r"(\w+): [\w\[\]]+\.to_long\(\)", b)
    if not f:
        raise NoRust(f"unpickle of {cls}")
    return "args", f, None
