"""C21: results do not depend on ambient state unless the API says so."""
from ..obl import entry
from .allops import ALL
from .ops import *

AMB = {"clock": "the clock", "systz": "the system timezone", "env": "the environment", "random": "a random source", "io": "input or output"}


def reads(c, lab, allow):
    n = 0
    for kind, what, site in c.p.effects:
        if kind in AMB and kind not in allow:
            n += 1
            where = f" at {site[0]}.py:{site[1]} in {site[2]}" if site else ""
            c.fail(f"{lab}: does not depend on {AMB[kind]}", info=f"{what}{where}")
        if kind == "remembered":
            n += 1
            c.fail(f"{lab}: looks at the system timezone and the clock anew each time", info=f"{what} at {site}")
    if not n:
        c.hold(f"{lab}: depends on nothing ambient", True)


for name, kinds, fn in ALL:
    @entry("C21", name)
    def _(c, name=name, fn=fn, kinds=kinds):
        fn(c)
        allow = set()
        if "now" in kinds:
            allow.add("clock")
        if "sys" in kinds:
            allow.add("systz")
        reads(c, name, allow)
