import asyncio

from symx.api import *

from aiomisc import PeriodicCallback, RecurringCallback
from aiomisc.recurring import StrategyException, StrategySkip, StrategyStop
from aiomisc.service.periodic import PeriodicService

BOUNDS = {
    "quick": "series of up to 3 runs, delay, interval, run durations, time "
             "to end after cancellation, stop and restart instants arbitrary "
             "reals; outcomes value, suppressed, other and cancelled; "
             "strategies: 4 decisions among delay, negative, wrong type, "
             "skip, stop, error",
    "thorough": "4 runs, second series of 3 runs",
}
ASSUMPTIONS = ["instants are mathematical reals; callbacks take no time"]
OUTSIDE = ["closing the loop while a series runs"]


class Sup(Err):
    pass


class Series:
    """what the runs of one series looked like"""

    def __init__(self, nmax, slow, shield, outs, sync=False):
        self.runs = []
        self.nmax = nmax
        self.slow = slow
        self.shield = shield
        self.outs = outs
        self.stopped = None
        self.args = []

    async def body(self, *a, **k):
        self.args.append((a, k))
        if self.stopped is None and len(self.runs) >= self.nmax:
            assume(False)           # beyond the bound
        for r in self.runs:
            check(r["end"] is not None, "runs-do-not-overlap")
        r = dict(start=now(), end=None, cancelled=None)
        self.runs.append(r)
        out = pick("out", self.outs)
        d = r["d"] = sym_real("dur", 0)
        try:
            if bool(d > 0):
                await asyncio.sleep(d)
        except asyncio.CancelledError:
            r["cancelled"] = now()
            if self.slow:
                await asyncio.sleep(sym_real("cleanup", 0))
            r["end"] = now()
            raise
        r["end"] = now()
        if out == "suppressed":
            raise Sup("s")
        if out == "error":
            raise Err("e")
        if out == "cancelled":
            raise asyncio.CancelledError
        return object()

    def verify(self, t0, delay, interval):
        expect = t0 + delay
        for r in self.runs:
            check(r["start"] == expect, "delay-and-interval")
            if r["end"] is None or r["cancelled"] is not None:
                break
            expect = r["end"] + interval
        else:
            r = None
        return expect if r is None else None


async def stop_and_check(stop, S, ser, t0, delay, interval, service=False):
    """stops now; the outcome of the series"""
    ser.stopped = t = now()
    res = stop()
    status, val = await outcome(res)
    if service:
        check(status == "ok", "stop-outcome")
    else:
        check(status == "cancelled", "stop-outcome")
    te = now()
    n = len(ser.runs)
    last = ser.runs[-1] if n else None
    busy = last is not None and (last["end"] is None or
                                 last["cancelled"] is not None)
    if busy and not ser.shield:
        check(last["cancelled"] is not None and last["cancelled"] == t,
              "running-one-cancelled")
        check(last["end"] is not None and te == last["end"],
              "stopping-ends-with-the-series")
        cover("cancelled-run")
    elif last is not None and last["cancelled"] is not None:
        fail("shielded-one-not-cancelled")
    else:
        check(te == t, "stopping-ends-with-the-series")
    nxt = ser.verify(t0, delay, interval)
    if nxt is not None:
        # the run which was due did not start although nothing stopped it
        check(nxt >= t, "every-run-happens")
        cover("idle-stop")
    if busy and ser.shield:
        await asyncio.sleep(last["d"] + 1)
        check(last["end"] is not None and
              last["end"] == last["start"] + last["d"],
              "shielded-one-finishes")
        cover("shielded-run")
    return te


def periodic(nmax, slow=False, shield=False, outs=("ok",), restart=None,
             ties="separate", n2=1):
    async def main():
        ser = Series(nmax, slow, shield, list(outs))
        mark = object()
        cb = PeriodicCallback(lambda *a, **k: cur[0].body(*a, **k), mark, 0,
                              key=mark, none=None)
        cur = [ser]
        delay = sym_real("delay", 0)
        interval = pos_real("interval")
        S = sym_real("stop_at", 0)
        kw = dict(delay=delay)
        if shield:
            kw["shield"] = True
        if "suppressed" in outs:
            kw["suppress_exceptions"] = (Sup,)
        # not started yet
        status, val = await outcome(cb.stop())
        check(status == "exc" and isinstance(val, RuntimeError),
              "stop-before-start")
        t0 = now()
        cb.start(interval, **kw)
        if bool(S > 0):
            await asyncio.sleep(S)
        try:
            cb.start(interval)
        except asyncio.InvalidStateError:
            pass
        else:
            fail("second-start-refused")
        if restart != "at-once":
            await stop_and_check(cb.stop, S, ser, t0, delay, interval)
            n = len(ser.runs)
            if not restart:
                await asyncio.sleep(delay + interval * 2 + 1)
                check(len(ser.runs) == n, "no-run-after-stop")
        else:
            ser.stopped = now()
            old = cb.stop()
            n = None
        check(all(a == ((mark, 0), {"key": mark, "none": None})
                  for a in ser.args),
              "same-arguments")
        if not restart:
            cover("end")
            return
        if shield and ser.runs:
            assume(ser.runs[-1]["end"] is not None)
        # a second series
        ser2 = cur[0] = Series(n2, slow, shield, ["ok"])
        t2 = now()
        cb.start(interval, **kw)
        S2 = sym_real("stop2_at", 0)
        if bool(S2 > 0):
            await asyncio.sleep(S2)
        if restart == "at-once" and bool(S2 > 0):
            for r in ser.runs:
                check(r["end"] is not None or slow, "old-series-ended")
        try:
            cb.start(interval)
        except asyncio.InvalidStateError:
            pass
        else:
            fail("second-start-refused")
        await stop_and_check(cb.stop, S2, ser2, t2, delay, interval)
        n2_ = len(ser2.runs)
        await asyncio.sleep(delay + interval * 2 + 1)
        check(len(ser2.runs) == n2_, "no-run-after-stop")
        if restart == "at-once":
            check((await outcome(old))[0] == "cancelled", "stop-outcome")
        cover("end")

    run(main(), ties=ties)


DEC = ["delay", "negative", "wrong", "skip", "stop", "error"]


def recurring(n, shield=False, outs=("ok", "error"), is_async=False):
    async def main():
        log = []
        state = {"busy": False}
        mark = object()
        k = [0]
        expect = []

        async def body(*a, **kw):
            check(not state["busy"], "runs-do-not-overlap")
            check(a == (mark,) and kw == {"z": mark}, "same-arguments")
            state["busy"] = True
            log.append(("run", now()))
            out = pick("out", outs)
            await asyncio.sleep(sym_real("dur", 0))
            state["busy"] = False
            log.append(("end", now()))
            if out == "error":
                raise Err("x")
            if out == "suppressed":
                raise Sup("x")

        cb = RecurringCallback(body, mark, z=mark, name="n")

        def strategy(c):
            check(c is cb, "strategy-argument")
            check(not state["busy"], "strategy-between-runs")
            k[0] += 1
            if k[0] > n:
                log.append(("stop", now()))
                raise StrategyStop
            dec = pick("dec", DEC)
            log.append((dec, now()))
            if dec == "delay":
                d = sym_real("d", 0)
                expect.append(d)
                return d
            if dec == "negative":
                d = sym_real("neg")
                assume(d < 0)
                expect.append(0)
                return d
            if dec == "wrong":
                return "soon"
            if dec == "skip":
                d = sym_real("skip", 0)
                expect.append(d)
                raise StrategySkip(d)
            if dec == "stop":
                raise StrategyStop
            raise StrategyException

        async def astrategy(c):
            await asyncio.sleep(0.5)
            return strategy(c)

        kw = {}
        if shield:
            kw["shield"] = True
        if "suppressed" in outs:
            kw["suppress_exceptions"] = (Sup,)
        t0 = now()
        task = cb.start(astrategy if is_async else strategy, **kw)
        status, val = await outcome(task)
        check(status == "ok", "series-outcome")
        ex = iter(expect)
        t = t0 + (0.5 if is_async else 0)
        i = 0
        while i < len(log):
            what, at = log[i]
            check(at == t, "asked-when-due")
            if what in ("stop", "error", "wrong"):
                check(i == len(log) - 1, "stop-obeyed")
                check(now() == at, "stop-obeyed")
                cover(what)
                break
            d = next(ex)
            if what == "skip":
                t = at + d
                cover("skip")
            else:
                check(log[i + 1][0] == "run", "run-after-delay")
                check(log[i + 1][1] == at + d, "delay-obeyed")
                check(log[i + 2][0] == "end", "run-after-delay")
                t = log[i + 2][1]
                i += 2
                cover(what)
            if is_async:
                t = t + 0.5
            i += 1
        else:
            fail("series-ended-early")

    run(main())


def service(nmax, slow):
    async def main():
        ser = Series(nmax, slow, False, ["ok", "error"])

        class P(PeriodicService):
            async def callback(self):
                return await ser.body()
        delay = sym_real("delay", 0)
        interval = pos_real("interval")
        try:
            P(delay=delay)
        except AttributeError:
            pass
        else:
            fail("interval-required")
        svc = P(interval=interval, delay=delay)
        svc.set_loop(asyncio.get_event_loop())
        t0 = now()
        await svc.start()
        check(now() == t0, "start-does-not-wait")
        S = sym_real("stop_at", 0)
        if bool(S > 0):
            await asyncio.sleep(S)
        await stop_and_check(lambda: svc.stop(None), S, ser, t0, delay,
                             interval, service=True)
        n = len(ser.runs)
        await asyncio.sleep(delay + interval * 2 + 1)
        check(len(ser.runs) == n, "no-run-after-stop")
        cover("end")

        bad = P(interval=pick("bad", [0, -1]))
        bad.set_loop(asyncio.get_event_loop())
        check((await outcome_(bad.start())), "bad-interval-refused")

    run(main())


async def outcome_(aw):
    try:
        await aw
    except AssertionError:
        return True
    except ValueError:
        return True
    return False


def scenarios(tier):
    n = 3 if tier == "quick" else 4
    out = []

    def add(name, covers, **kw):
        p = dict(nmax=n)
        p.update(kw)
        out.append(Scenario(name, periodic, p, covers + ["end"]))
    add("periodic", ["cancelled-run", "idle-stop"],
        outs=("ok", "suppressed", "error", "cancelled"), nmax=n - 1)
    add("periodic-long", ["cancelled-run", "idle-stop"])
    add("slow-cleanup", ["cancelled-run"], slow=True, outs=("ok", "error"))
    add("shield", ["shielded-run"], shield=True,
        outs=("ok", "suppressed", "error", "cancelled"), nmax=n - 1)
    add("tie", [], nmax=2, ties="fork")
    n2 = 2 if tier == "quick" else 3
    add("restart-after", [], restart="after", nmax=n - 1, n2=n2,
        outs=("ok", "error"))
    add("restart-at-once", [], restart="at-once", nmax=n - 1, n2=n2)
    add("restart-at-once-slow", [], restart="at-once", nmax=1, slow=True,
        n2=n2)
    add("restart-shield", [], restart="after", nmax=1, shield=True, n2=n2)
    for name, kw in (("recurring", {}),
                     ("recurring-shield", dict(shield=True)),
                     ("recurring-async", dict(is_async=True)),
                     ("recurring-suppressed",
                      dict(outs=("ok", "suppressed")))):
        out.append(Scenario(name, recurring,
                            dict(n=3 if tier == "quick" else 4, **kw),
                            ["delay", "negative", "wrong", "skip", "stop",
                             "error"]))
    for slow in (False, True):
        out.append(Scenario("service" + ("-slow" if slow else ""), service,
                            dict(nmax=n - 1, slow=slow),
                            ["end", "cancelled-run", "idle-stop"]))
    return out
