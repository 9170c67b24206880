"""C02: every aware value that is returned lies within the representable UTC range."""
from ..obl import entry
from .ops import *


def check(c, res, cls):
    if res.exc:
        return
    if not c.is_(res.v, cls):
        return c.fail(f"returns a {cls}", info=res)
    c.within(f"{cls} result: instant between 0001-01-01T00:00Z and the end of 9999-12-31 UTC", c.inst(res.v), MIN_INST, MAX_INST)


for name, result, kinds, fn in OPS:
    if result in ("OffsetDateTime", "ZonedDateTime", "SystemDateTime", "Instant"):
        @entry("C02", name)
        def run(c, fn=fn, result=result):
            check(c, fn(c), result)
