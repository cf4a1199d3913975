import asyncio
import datetime

from symx.api import *

import aiomisc.cron
import aiomisc.service.cron
from aiomisc.cron import CronCallback
from aiomisc.service.cron import CronService

BOUNDS = {
    "quick": "schedules of 5 arbitrary increasing instants, start at an "
             "arbitrary instant, up to 3 runs of arbitrary duration and "
             "outcome, stop and restart at arbitrary instants; cron service "
             "with 2 registrations",
    "thorough": "6 instants, 4 runs",
}
ASSUMPTIONS = [
    "croniter is replaced by its specification: the first instant of the "
    "schedule strictly after the given one",
    "the wall clock and the loop clock advance together",
]
OUTSIDE = ["croniter itself (a dependency)", "wall clock adjustments"]

EPOCH = 1000
SCHED = {}


class FakeCron:
    """the specification of croniter"""

    def __init__(self, spec, start_time=None, *a, **k):
        if spec not in SCHED:
            raise ValueError("bad spec %r" % (spec,))
        self.spec = spec
        self.cur = start_time

    @staticmethod
    def is_valid(spec, *a, **k):
        return spec in SCHED

    def get_next(self, ret_type=None, start_time=None, **k):
        ts = start_time if start_time is not None else self.cur
        if ts is None:
            ts = EPOCH + now()
        if isinstance(ts, FakeInstant):
            ts = ts.ts
        for s in SCHED[self.spec]:
            if bool(s > ts):
                self.cur = s
                return s if ret_type is float or ret_type is None else \
                    FakeInstant(s)
        assume(False)

    def get_current(self, ret_type=None):
        return self.cur if ret_type is float or ret_type is None else \
            FakeInstant(self.cur)


class FakeInstant:
    def __init__(self, ts):
        self.ts = ts

    def timestamp(self):
        return self.ts

    def __sub__(self, o):
        if isinstance(o, FakeInstant):
            return FakeDelta(self.ts - o.ts)
        return NotImplemented


class FakeDelta:
    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return self.s


class FakeDatetime:
    @staticmethod
    def now(tz=None):
        return FakeInstant(EPOCH + now())
    utcnow = now

    @staticmethod
    def fromtimestamp(ts, tz=None):
        return FakeInstant(ts)


    min = None


FakeDatetime.datetime = FakeDatetime
FakeDatetime.timezone = datetime.timezone

for _m in (aiomisc.cron, aiomisc.service.cron):
    for _n, _v in (("croniter", FakeCron), ("datetime", FakeDatetime)):
        if hasattr(_m, _n):
            setattr(_m, _n, _v)


# sets of callbacks iterate in the order of their creation
SERIAL = {}


def _hash(self):
    return SERIAL.setdefault(id(self), (len(SERIAL), self))[0]


CronCallback.__hash__ = _hash


class Sup(Err):
    pass


class Series:
    def __init__(self, nmax, outs, shield, slow=False):
        self.nmax, self.outs, self.shield = nmax, outs, shield
        self.slow = slow
        self.runs = []
        self.stopped = None

    async def body(self, *a, **k):
        if self.stopped is None and len(self.runs) >= self.nmax:
            assume(False)
        for r in self.runs:
            check(r["end"] is not None, "runs-do-not-overlap")
        r = dict(start=now(), end=None, cancelled=None)
        self.runs.append(r)
        out = pick("out", self.outs)
        d = r["d"] = sym_real("dur", 0)
        try:
            if bool(d > 0):
                await asyncio.sleep(d)
        except asyncio.CancelledError:
            r["cancelled"] = now()
            if self.slow:
                await asyncio.sleep(sym_real("cleanup", 0))
            r["end"] = now()
            raise
        r["end"] = now()
        if out == "suppressed":
            raise Sup("s")
        if out == "error":
            raise Err("e")

    def verify(self, t0, spec):
        """instant of the next run which is due"""
        t = t0
        for r in self.runs:
            nxt = FakeCron(spec).get_next(float, EPOCH + t) - EPOCH
            check(r["start"] == nxt, "first-matching-instant")
            if r["end"] is None or r["cancelled"] is not None:
                return None
            t = r["end"]
        return FakeCron(spec).get_next(float, EPOCH + t) - EPOCH


def schedule(spec, n, base=None):
    t = EPOCH if base is None else base
    SCHED[spec] = []
    for i in range(n):
        t = t + pos_real("tick")
        SCHED[spec].append(t)


async def finish(ser, stop, t0, spec, service=False):
    ser.stopped = t = now()
    status, val = await outcome(stop())
    check(status == ("ok" if service else "cancelled"), "stop-outcome")
    te = now()
    last = ser.runs[-1] if ser.runs else None
    busy = last is not None and (last["end"] is None or
                                 last["cancelled"] is not None)
    if busy and not ser.shield:
        check(last["cancelled"] is not None and last["cancelled"] == t,
              "running-one-cancelled")
        check(last["end"] is not None, "stop-waits-for-the-run")
        if not service:
            check(te == last["end"], "stop-waits-for-the-run")
        cover("cancelled-run")
    else:
        check(last is None or last["cancelled"] is None,
              "shielded-one-not-cancelled")
        if not service:
            check(te == t, "stops-at-once")
    nxt = ser.verify(t0, spec)
    if nxt is not None:
        check(nxt >= t, "every-due-run-happens")
        cover("idle-stop")


def cron(nmax, ticks, outs, shield=False, slow=False, restart=False,
         ties="separate"):
    async def main():
        SCHED.clear()
        sim().wall0 = EPOCH
        SERIAL.clear()
        schedule("*", ticks)
        mark = object()
        args = []
        ser = Series(nmax, outs, shield, slow)
        cur = [ser]

        async def func(*a, **k):
            args.append((a, k))
            return await cur[0].body()
        cb = CronCallback(func, mark, k=mark)
        status, val = await outcome(cb.stop())
        check(status == "exc" and isinstance(val, RuntimeError),
              "stop-before-start")
        begin = sym_real("begin", 0)
        if bool(begin > 0):
            await asyncio.sleep(begin)
        kw = {}
        if shield:
            kw["shield"] = True
        if "suppressed" in outs:
            kw["suppress_exceptions"] = (Sup,)
        try:
            cb.start("nonsense", **kw)
        except Exception:
            pass
        else:
            fail("bad-spec-refused")
        t0 = now()
        cb.start("*", **kw)
        S = sym_real("stop_at", 0)
        if bool(S > 0):
            await asyncio.sleep(S)
        try:
            cb.start("*")
        except asyncio.InvalidStateError:
            pass
        else:
            fail("second-start-refused")
        await finish(ser, cb.stop, t0, "*")
        n = len(ser.runs)
        check(all(a == ((mark,), {"k": mark}) for a in args),
              "same-arguments")
        if not restart:
            await asyncio.sleep(SCHED["*"][-1] + 1)
            check(len(ser.runs) == n, "no-run-after-stop")
            cover("end")
            return
        if shield and ser.runs:
            assume(ser.runs[-1]["end"] is not None)
        ser2 = cur[0] = Series(1, ["ok"], shield)
        idle = sym_real("idle", 0)
        if bool(idle > 0):
            await asyncio.sleep(idle)
        t2 = now()
        cb.start("*", **kw)
        S2 = sym_real("stop2_at", 0)
        if bool(S2 > 0):
            await asyncio.sleep(S2)
        await finish(ser2, cb.stop, t2, "*")
        if ser2.runs:
            cover("run-after-restart")
        cover("end")

    run(main(), ties=ties)


def service(nmax, ticks, slow, shields=(False, False)):
    async def main():
        SCHED.clear()
        sim().wall0 = EPOCH
        SERIAL.clear()
        schedule("a", ticks)
        schedule("b", ticks)
        svc = CronService()
        svc.set_loop(asyncio.get_event_loop())
        sa = Series(nmax, ["ok", "suppressed"], shields[0], slow)
        sb = Series(nmax, ["ok"], shields[1])
        svc.register(sa.body, "a", shield=shields[0],
                     suppress_exceptions=(Sup,))
        svc.register(spec="b", function=sb.body, shield=shields[1])
        for f, spec in ((lambda: None, "a"), (sa.body, "nonsense"),
                        (None, "a")):
            try:
                svc.register(f, spec)
            except TypeError:
                pass
            else:
                fail("invalid-registration-refused")
        await svc.start()
        t0 = now()
        S = sym_real("stop_at", 0)
        if bool(S > 0):
            await asyncio.sleep(S)
        sb.stopped = now()
        aw = [None]

        def stop():
            return svc.stop(None)
        await finish(sa, stop, t0, "a", True)
        te = now()
        for s in (sa, sb):
            r = s.runs[-1] if s.runs else None
            if r is not None and not s.shield:
                check(r["end"] is not None and te >= r["end"],
                      "stop-waits-for-the-run")
            if r is not None and s.shield:
                check(r["cancelled"] is None, "shielded-one-not-cancelled")
                cover("shielded")
        last = sb.runs[-1] if sb.runs else None
        if last is not None and last["cancelled"] is not None:
            check(last["cancelled"] == t0 + S, "running-one-cancelled")
        nxt = sb.verify(t0, "b")
        if nxt is not None:
            check(nxt >= t0 + S, "every-due-run-happens")
        n = len(sa.runs), len(sb.runs)
        await asyncio.sleep(SCHED["a"][-1] + SCHED["b"][-1])
        check((len(sa.runs), len(sb.runs)) == n, "no-run-after-stop")
        cover("end")

    run(main())


def scenarios(tier):
    q = tier == "quick"
    n, k = (2, 4) if q else (3, 5)
    out = []

    def add(name, covers, **kw):
        p = dict(nmax=n, ticks=k, outs=["ok"])
        p.update(kw)
        out.append(Scenario(name, cron, p, covers + ["end"]))
    add("cron", ["cancelled-run", "idle-stop"],
        outs=["ok", "error", "suppressed"])
    add("long", ["cancelled-run", "idle-stop"], nmax=n + 1, ticks=k + 1)
    add("slow-cleanup", ["cancelled-run"], slow=True)
    add("shield", ["idle-stop"], shield=True)
    add("restart", ["run-after-restart"], restart=True, nmax=1)
    add("restart-shield", ["run-after-restart"], restart=True, nmax=1,
        shield=True)
    add("tie", [], nmax=2, ticks=4, ties="fork")
    out.append(Scenario("service", service,
                        dict(nmax=1, ticks=2, slow=True),
                        ["end", "cancelled-run"]))
    out.append(Scenario("service-shield", service,
                        dict(nmax=1, ticks=2, slow=False,
                             shields=(True, False)), ["end", "shielded"]))
    return out
