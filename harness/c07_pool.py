import asyncio

from symx.api import *

import aiomisc
from aiomisc import PoolBase

BOUNDS = {
    "quick": "pools of size 1 and 2, 3 users arriving and returning at "
             "arbitrary instants, arbitrary creation / check / destruction "
             "durations, one fault (failed creation, failed or negative "
             "check, failed destruction, cancelled user) at any position, "
             "recycle age 10 with arbitrary random part, close at an "
             "arbitrary instant",
    "thorough": "4 users, two faults",
}
ASSUMPTIONS = ["instants are mathematical reals; callbacks take no time",
               "holders return what they got"]
OUTSIDE = ["users who ask for an instance while or after the pool closes"]

FAULTS = ["none", "create", "check-false", "check-error", "destroy", "cancel"]


class Inst:
    def __init__(self, n):
        self.n = n
        self.created = None
        self.destroyed = []         # (begin, end)
        self.holder = None
        self.checking = False
        self.bad = False
        self.returned = []          # (instant, age)
        self.gone = None

    def __repr__(self):
        return "i%d" % self.n


class Pool(PoolBase):
    def setup(self, times, plan, mx):
        self.t = times
        self.plan = plan            # fault kind -> index of the occurrence
        self.mx = mx
        self.insts = []
        self.count = {"create": 0, "check": 0, "destroy": 0}
        self.creating = 0
        self.closing = False

    async def nap(self, what):
        if what in self.t:
            d = sym_real(what, 0)
            if bool(d > 0):
                await asyncio.sleep(d)

    def hit(self, kind, op):
        k = self.count[op] - 1
        if kind == "check-false" and "check-twice" in self.plan:
            return k in (self.plan["check-twice"],
                         self.plan["check-twice"] + 1)
        return kind in self.plan and self.plan[kind] == k

    def bounded(self):
        n = self.creating + sum(
            1 for i in self.insts
            if i.holder is not None or i.checking)
        check(n <= self.mx, "at-most-maxsize")

    async def _create_instance(self):
        self.count["create"] += 1
        fault = self.hit("create", "create")
        self.creating += 1
        self.bounded()
        try:
            await self.nap("create")
            if fault:
                cover("create-failed")
                raise Err("create")
            inst = Inst(len(self.insts))
            inst.created = now()
            self.insts.append(inst)
            return inst
        finally:
            self.creating -= 1

    async def _check_instance(self, inst):
        check(not inst.destroyed, "destroyed-one-not-used-again")
        check(inst.holder is None and not inst.checking, "exclusive")
        check(not inst.bad, "failed-one-not-used-again")
        self.count["check"] += 1
        neg, err = (self.hit("check-false", "check"),
                    self.hit("check-error", "check"))
        inst.checking = True
        self.bounded()
        try:
            await self.nap("check")
            if neg or err:
                inst.bad = True
                cover("check-failed")
            if err:
                raise Err("check")
            if not neg:
                inst.passed = True
            return not neg
        finally:
            inst.checking = False

    async def _destroy_instance(self, inst):
        check(not inst.destroyed, "destroyed-once")
        check(inst.holder is None or self.closing, "held-one-not-destroyed")
        rec = [now(), None]
        inst.destroyed.append(rec)
        self.count["destroy"] += 1
        fault = self.hit("destroy", "destroy")
        await self.nap("destroy")
        rec[1] = now()
        if fault:
            cover("destroy-failed")
            raise Err("destroy")


def pool(n, mx, times, faults, recycle=None, close="after", hold=True,
         nfaults=1):
    async def main():
        p = Pool(mx, recycle) if recycle else Pool(mx)
        plan = {}
        kind = None
        for _ in range(nfaults):
            kind = pick("fault", faults)
            if kind == "none":
                break
            if kind != "cancel":
                plan[kind] = choose("at", 2 if kind in ("create", "destroy")
                                    else n)
        p.setup(times, plan, mx)
        got = [None] * n
        state = ["new"] * n
        C = None

        async def user(i, delay):
            if delay is not None:
                await asyncio.sleep(delay)
            state[i] = "waiting"
            try:
                async with p.acquire() as inst:
                    check(isinstance(inst, Inst), "an-instance")
                    check(inst.holder is None, "exclusive")
                    check(not inst.bad and getattr(inst, "passed", False),
                          "checked-before-use")
                    check(not inst.destroyed, "destroyed-one-not-used")
                    inst.passed = False
                    inst.holder = i
                    p.bounded()
                    check(len(p) <= mx, "at-most-maxsize")
                    state[i] = "holding"
                    try:
                        if hold:
                            await asyncio.sleep(sym_real("hold", 0))
                    finally:
                        inst.holder = None
                        inst.returned.append(now())
                state[i] = "done"
            except asyncio.CancelledError:
                state[i] = "cancelled"
                raise
            except Err:
                state[i] = "failed"

        tasks = []
        for i in range(n):
            d = sym_real("arrive", 0) if i and hold else None
            tasks.append(asyncio.ensure_future(user(i, d)))
        victim = None
        if kind == "cancel":
            victim = choose("victim", n)
            C = sym_real("cancel_at", 0)
            canceller(tasks[victim], C)
        await asyncio.gather(*tasks, return_exceptions=True)
        for i in range(n):
            if i == victim and state[i] in ("cancelled", "new", "waiting"):
                cover("cancelled")
                continue
            if "create" in plan and state[i] == "failed":
                continue
            check(state[i] == "done", "served")
        check(sum(s == "failed" for s in state) <= nfaults,
              "only-the-one-concerned-fails")
        # nothing of the capacity is lost
        p.plan = {}
        p.t = [t for t in times if t == "destroy"]
        cms = [p.acquire() for _ in range(mx)]
        insts = await asyncio.gather(*[cm.__aenter__() for cm in cms])
        check(len(set(map(id, insts))) == mx, "exclusive")
        for i in insts:
            check(not i.destroyed, "destroyed-one-not-used")
        check(len(p) == mx, "capacity-kept")
        if close == "after":
            for cm, i in zip(cms, insts):
                await cm.__aexit__(None, None, None)
                i.returned.append(now())
        await settle(5)
        if recycle:
            for i in p.insts:
                if i.destroyed and not i.bad:
                    ret = i.returned[-1] if i.returned else None
                    if victim is None:
                        check(ret is not None and
                              ret - i.created >= recycle,
                              "young-ones-are-kept")
                    cover("recycled")
                elif not i.bad:
                    for r in i.returned:
                        check(r - i.created <= 2 * recycle,
                              "old-ones-are-recycled")
        else:
            for i in p.insts:
                if i.destroyed:
                    check(i.bad or victim is not None, "good-ones-are-kept")
                elif i.bad:
                    check("destroy" in times, "failed-ones-are-destroyed")
        p.closing = True
        if close != "after":
            cover("closed-in-use")
        t = now()
        status, val = await outcome(p.close())
        check(status == "ok", "close-outcome")
        for i in p.insts:
            check(len(i.destroyed) == 1 and i.destroyed[0][1] is not None,
                  "close-destroys-everything-once")
        if close != "after":
            # holders may still return theirs
            for cm in cms:
                await cm.__aexit__(None, None, None)
            await settle(5)
        k = p.count["destroy"]
        await asyncio.sleep(1)
        check(k == p.count["destroy"] == len(p.insts),
              "close-destroys-everything-once")
        cover("end")

    run(main())


def closing(mx, recycle):
    """close while users hold instances and return them meanwhile"""
    async def main():
        p = Pool(mx, recycle) if recycle else Pool(mx)
        p.setup(["destroy"], {}, mx)
        T = None
        cms = [p.acquire() for _ in range(mx)]
        insts = await asyncio.gather(*[cm.__aenter__() for cm in cms])
        back = [sym_real("return_at", 0) for _ in range(mx)]

        async def give(cm, i, at):
            await asyncio.sleep(at)
            i.holder = None
            await cm.__aexit__(None, None, None)
        for i, inst in enumerate(insts):
            inst.holder = i
        tasks = [asyncio.ensure_future(give(*a))
                 for a in zip(cms, insts, back)]
        S = sym_real("close_at", 0)
        await asyncio.sleep(S)
        p.closing = True
        t = now()
        use_to = choose("timeout", 2)
        if use_to:
            T = pos_real("timeout")
            status, val = await outcome(p.close(timeout=T))
        else:
            status, val = await outcome(p.close())
        te = now()
        ends = [i.destroyed[0][1] for i in insts if i.destroyed]
        if status == "ok":
            for i in insts:
                check(len(i.destroyed) == 1 and
                      i.destroyed[0][1] is not None,
                      "close-destroys-everything-once")
                if not recycle:
                    check(i.destroyed[0][0] == t, "destroyed-at-once")
            if T is not None:
                check(te <= t + T, "close-within-timeout")
            check(te == smax(t, *ends), "close-ends-with-the-last")
            cover("closed")
        else:
            check(T is not None and isinstance(val, asyncio.TimeoutError),
                  "close-outcome")
            check(te == t + T, "close-within-timeout")
            for i in insts:
                check(recycle or len(i.destroyed) == 1,
                      "close-destroys-everything-once")
            cover("timeout")
        await asyncio.gather(*tasks)
        await asyncio.sleep(sum(0 for _ in ()) + 1)
        for i in insts:
            if status == "ok":
                check(len(i.destroyed) == 1,
                      "close-destroys-everything-once")
            check(len(i.destroyed) <= 1, "destroyed-once")
        cover("end")

    run(main())


def validation():
    async def main():
        r = sym_real("recycle")
        try:
            Pool(1, r)
        except AssertionError:
            check(r <= 0, "valid-accepted")
            cover("refused")
        else:
            check(r > 0, "invalid-refused")
            cover("accepted")
        # a context manager is for one use
        p = Pool(2)
        p.setup([], {}, 2)
        cm = p.acquire()
        async with cm:
            pass
        try:
            async with cm:
                pass
        except RuntimeError:
            pass
        else:
            fail("reuse-refused")
        await p.close()
        cover("end")

    run(main())


def scenarios(tier):
    q = tier == "quick"
    out = []

    def add(name, covers, **kw):
        p = dict(n=3, mx=1, times=["create"], faults=FAULTS)
        p.update(kw)
        out.append(Scenario(name, pool, p, covers + ["end"]))
    faults = ["create-failed", "check-failed"]
    for mx in (1, 2):
        add("size%d-at-once" % mx, faults + ["cancelled"], mx=mx, hold=False,
            times=["create", "check"], nfaults=1 if q else 2)
        add("size%d-create" % mx, faults + ["cancelled"], mx=mx,
            n=2 if q else 3, nfaults=1 if q else 2)
        add("size%d-check" % mx, faults + ["cancelled"], mx=mx,
            n=2 if q else 3, times=["check"])
        add("size%d-plain" % mx, [], mx=mx, times=[],
            n=3 if q else 4, faults=["none", "cancel"])
        add("size%d-destroy" % mx, ["destroy-failed"], mx=mx, n=2,
            times=["destroy"], hold=not q or mx == 1,
            faults=["check-false", "check-twice", "destroy"],
            nfaults=2)
        add("size%d-recycle" % mx, ["recycled"], mx=mx, n=2 if q else 3,
            times=[], recycle=10, faults=["none", "check-error"])
        add("size%d-close-in-use" % mx, ["closed-in-use"], mx=mx, n=2,
            times=["destroy"], faults=["none", "check-false"],
            close="in-use")
        out.append(Scenario("size%d-closing" % mx, closing,
                            dict(mx=mx, recycle=None),
                            ["end", "closed", "timeout"]))
        out.append(Scenario("size%d-closing-recycle" % mx, closing,
                            dict(mx=mx, recycle=10),
                            ["end", "closed", "timeout"]))
    out.append(Scenario("validation", validation, {},
                        ["refused", "accepted", "end"]))
    return out
