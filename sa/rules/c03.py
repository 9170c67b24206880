"""C03: zoned and system values denote local times that exist, with the offset of their zone."""
from .. import lib
from ..obl import entry
from .ops import *


def check(c, res, cls):
    if res.exc:
        return
    if not c.is_(res.v, cls):
        return c.fail(f"returns a {cls}", info=res)
    d = c.dt(res.v)
    if cls == "ZonedDateTime":
        if d.tz is None or d.tz.kind != "zone":
            return c.fail("a ZonedDateTime carries an IANA timezone", info=res)
        zid = d.tz.zid
    else:
        if d.tz is None or d.tz.kind == "zone":
            return c.fail("a SystemDateTime carries a fixed offset", info=res)
        zid = "SYS"
    w = c.p.F.norm(d.w)
    lab = f"{cls} result: the local time exists in the timezone"
    if lib.exists_rec(c.I, zid, w) is not None:
        c.hold(lab, True)
    else:
        k = lib.resolve_kind(c.I, zid, w)
        c.hold(lab, k != "gap", info=f"{res.v!r} may be skipped by a transition")
        if k == "gap":
            return
    if cls == "SystemDateTime":
        o = c.off_us(res.v)
        c.prove("SystemDateTime result: offset of the system timezone at that time",
                *[eq(o, scale(lib.off(c.I, zid, w, f), 10**6)) for f in (0, 1)], info=f"{o!r}")


for name, result, kinds, fn in OPS:
    if result in ("ZonedDateTime", "SystemDateTime") and "foreign-offset" not in kinds:
        @entry("C03", name)
        def run(c, fn=fn, result=result):
            check(c, fn(c), result)
