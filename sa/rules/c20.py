"""C20: patched time is reported by every now() and the real clock always comes back."""
from .. import lib
from ..dom import mk_fd, mk_mod
from ..obl import entry
from ..vals import PyExc
from .ops import *

NOW = {
    "Instant.now": lambda c: c.call("Instant", "now"),
    "OffsetDateTime.now": lambda c: c.call("OffsetDateTime", "now", c.P.build("TimeDelta", ns=scale(sym("arg.offset_s", -86399, 86399), NS)), ignore_dst=True),
    "ZonedDateTime.now": lambda c: c.call("ZonedDateTime", "now", "Z"),
    "SystemDateTime.now": lambda c: c.call("SystemDateTime", "now"),
    "Date.today_in_system_tz": lambda c: c.call("Date", "today_in_system_tz"),
}


def clocks(c):
    return c.p.__dict__.setdefault("clocks", [])


def reports(c, name, lab, moment):
    """the now function reports the moment (ns), a function of the clock readings made by the call"""
    n = len(clocks(c))
    r = NOW[name](c)
    m = moment(clocks(c)[n:])
    if m is None:
        return c.fail(f"{lab}: {name} reads the clock", info=r)
    if r.exc:
        bad = [lt(m, MIN_INST + 2 * DAYNS), lt(MAX_INST - 2 * DAYNS, m)]
        return c.may_raise(f"{lab}: {name} raises only out of range", r, *bad)
    if name == "Date.today_in_system_tz":
        if not c.is_(r.v, "Date"):
            return c.fail(f"{lab}: {name} returns a Date", info=r)
        s = c.call(c.P.build("Instant", dt=DT(scale(mk_fd(c.p.F, m, NS), 10**6), UTC), ns=mk_mod(c.p.F, m, NS)), "to_system_tz")
        if s.exc:
            return c.hold(f"{lab}: {name} is the date of that moment", False, info=s)
        return c.eq(f"{lab}: {name} is the date of that moment", c.ord(r.v), lib.ord_of(c.I, c.dt(s.v).w))
    c.eq(f"{lab}: {name} is that moment", c.inst(r.v), m)


def real(new):
    return add(new[0], UNIX) if len(new) >= 1 else None


for name in NOW:
    @entry("C20", f"{name} without a patch")
    def _(c, name=name):
        reports(c, name, "unpatched", real)


def patched(c, pin, tick, body):
    """run body(patch object) while patched; what a with statement does"""
    I = c.I
    f = c.P.W.d.get("patch_current_time")
    if f is None:
        from ..model import Broken
        raise Broken("patch_current_time has vanished")
    gen = getattr(f, "wrapped", None)
    done = []

    def run(v):
        saved, I.on_yield = I.on_yield, None
        try:
            done.append(1)
            if len(done) > 1:
                I.raise_("RuntimeError", "generator didn't stop")
            return body(v)
        finally:
            I.on_yield = saved
    if gen is not None:
        I.on_yield = run
        try:
            r = c.guard(lambda: I.call(gen, [pin], {"keep_ticking": tick}))
        finally:
            I.on_yield = None
        if not done and not r.exc:
            c.fail("patch_current_time: runs the body", info=r)
        return r
    cm = c.guard(lambda: I.call(f, [pin], {"keep_ticking": tick}))
    if cm.exc:
        return cm
    v = c.guard(lambda: I.call(I.getattr(cm.v, "__enter__"), [], {}))
    if v.exc:
        return v
    r = c.guard(lambda: body(v.v))
    e = [r.exc.cls, r.exc, None] if r.exc else [None] * 3
    x = c.guard(lambda: I.call(I.getattr(cm.v, "__exit__"), e, {}))
    if x.exc:
        return x
    return Ok(None) if r.exc and I.truth(x.v) else r


def restored(c, lab, names=("Instant.now",)):
    reports(c, c.pick(list(names)), f"{lab}: the real clock is back", real)


PINS = AWARE


SPAN = 50 * DAYNS     # a patch lasts at most this long (only to keep the results within the range of dates)


def pinned(c, cls):
    x = c.value(cls, "pin")
    o = lib.ord_of(c.I, c.dt(x).w)
    c.I.assume(le(1000, o))
    c.I.assume(le(o, 3651000))
    c.p.clock_span = SPAN
    return x


ARG = {"hours": 2400, "nanoseconds": 100 * DAYNS, "days": 100}


for cls in PINS:
    for tick in (False, True):
        kind = "ticking" if tick else "frozen"
        lab0 = f"patch_current_time({cls}, {kind})"

        @entry("C20", f"{lab0}: now")
        def _(c, cls=cls, tick=tick, kind=kind):
            pin = pinned(c, cls)
            name = c.pick(list(NOW))
            i = c.inst(pin)
            at = len(clocks(c))

            def body(p):
                start = clocks(c)[at:]
                if not tick:
                    return reports(c, name, kind, lambda new: i)
                if not start:
                    return c.fail(f"{kind}: remembers when the patch began")
                return reports(c, name, kind, lambda new: add(i, sub(new[-1], start[-1])) if new else None)
            r = patched(c, pin, tick, body)
            c.hold(f"{kind}: leaves the context normally", not r.exc, info=r)
            restored(c, f"{kind}, normal exit", ("Instant.now", name))

        @entry("C20", f"{lab0}: exception in the body")
        def _(c, cls=cls, tick=tick, kind=kind):
            pin = pinned(c, cls)
            exc = c.pick(["ValueError", "KeyboardInterrupt", "StopIteration", "GeneratorExit", "SystemExit"])
            r = patched(c, pin, tick, lambda p: c.I.raise_(exc, "from the body"))
            c.hold(f"{kind}: an exception from the body is not swallowed", r.exc and r.isa(exc) , info=r)
            restored(c, f"{kind}, exit by an exception")

        for kw in ("hours, nanoseconds", "days", "none"):
            if kw == "days" and cls == "Instant":
                continue

            @entry("C20", f"{lab0}: shift({kw})")
            def _(c, cls=cls, tick=tick, kind=kind, kw=kw):
                pin = pinned(c, cls)
                k = {n: c.s(f"shift.{n}", -ARG[n], ARG[n]) for n in kw.split(", ") if n != "none"}
                ign = {"ignore_dst": True} if cls == "OffsetDateTime" else {}
                i = c.inst(pin)
                at = len(clocks(c))
                n = c.choose(2) + 1 if kw == "hours, nanoseconds" and cls in ("Instant", "ZonedDateTime") else 1

                def body(p):
                    start = clocks(c)[at:]
                    x = pin
                    lag = Lin(0)
                    first = len(clocks(c))
                    for _ in range(n):
                        before = len(clocks(c))
                        r = c.call_obj(p, "shift", **k, **ign)
                        mine = clocks(c)[before:]
                        if tick and mine:
                            lag = add(lag, sub(mine[-1], mine[0]))
                            if kw == "days":
                                # calendar arithmetic starts from the time at which shift is called
                                x = None
                        if x is not None:
                            y = c.call(x, "add", **k, **ign)
                        if x is None:
                            if r.exc:
                                c.hold(f"{kind}: shift refuses with an error of add", r.isa("ValueError", "OverflowError", "TypeError"), info=r)
                                raise PyExc(r.exc)
                            return
                        if r.exc:
                            el = sub(mine[-1], start[-1]) if mine and start else Lin(0)
                            tot = add(scale(k.get("hours", Lin(0)), 3600 * NS * n), scale(k.get("nanoseconds", Lin(0)), n))
                            m = add(add(i, el), tot)
                            edge = [lt(m, MIN_INST + 2 * DAYNS), lt(MAX_INST - 2 * DAYNS, m), lt(tot, -MAX_NS), lt(MAX_NS, tot),
                                    lt(add(i, el), MIN_INST + 2 * DAYNS), lt(MAX_INST - 2 * DAYNS, add(i, el))]
                            # each of these implies that m is beyond the limit, as clocks do not run backwards
                            edge += [lt(MAX_INST - 2 * DAYNS, sub(m, sub(b, a))) for a, b in zip(clocks(c)[first:], clocks(c)[first + 1:])]
                            if not y.exc:
                                c.may_raise(f"{kind}: shift raises only if the result is out of range", r, *edge)
                            raise PyExc(r.exc)
                        if y.exc:
                            return c.fail(f"{kind}: shift refuses what add refuses", info=y)
                        x = y.v
                    want = c.inst(x)
                    if not tick:
                        return reports(c, "Instant.now", f"{kind}, shifted", lambda new: want)
                    n0 = len(clocks(c))
                    r = NOW["Instant.now"](c)
                    if r.exc or not clocks(c)[n0:]:
                        return c.hold(f"{kind}, shifted: reads the clock", r.exc, info=r)
                    el = sub(clocks(c)[-1], start[-1])
                    got = c.inst(r.v)
                    c.prove(f"{kind}, shifted: at most the elapsed time is added", le(got, add(want, el)), info=r)
                    c.prove(f"{kind}, shifted: only the time spent in shift() is lost", le(add(want, sub(el, lag)), got), info=r)
                r = patched(c, pin, tick, body)
                restored(c, f"{kind}, after shift")


for bad in ("LocalDateTime", "Date", "int"):
    @entry("C20", f"patch_current_time({bad}) is refused without effect")
    def _(c, bad=bad):
        v = sym("arg.i") if bad == "int" else c.value(bad)
        r = patched(c, v, c.choose(2) == 1, lambda p: None)
        c.hold("patch_current_time: refuses what is no moment", r.exc, info=r)
        restored(c, "refused")
