import asyncio
import math

from symx.api import *

import aiomisc.circuit_breaker
from aiomisc import CircuitBreaker, CircuitBroken, cutout
from aiomisc.circuit_breaker import CircuitBreakerStates as St

BOUNDS = {
    "quick": "response time 10 (ten parts of 1), recovery time 8; a prefix "
             "of 10 calls in successive parts (all failing, or one chosen "
             "call succeeding), then 3 calls at arbitrary instants with "
             "arbitrary outcomes; error ratio in (0, 1], broken and passing "
             "times arbitrary reals; arbitrary random draws; starting from "
             "the passing, broken, recovering and recovered states",
    "thorough": "4 calls after the prefix; response times 5 and 30",
}
ASSUMPTIONS = [
    "instants are mathematical reals; a call which falls exactly on the end "
    "of the broken / passing time may see either state",
    "2**x is compared with 1+random() through the (monotonic) logarithm",
]
OUTSIDE = ["response times below a second (window parts are then rounded)",
           "calls from several threads at once"]

PARTS = 10
# int(x) stays symbolic inside of the module
aiomisc.circuit_breaker.int = symbolic_int


class Listed(Err):
    pass


class Unlisted(Err):
    pass


class Spec:
    """what the breaker should do"""

    def __init__(self, E, R, broken, recovery, passing):
        self.E, self.R = E, R
        self.broken, self.recovery, self.passing = broken, recovery, passing
        self.state = St.PASSING
        self.parts = []             # [number, fails, total]
        self.until = None
        self.recovery_at = None
        self.last = None

    def part(self, t):
        return math.floor(t * PARTS / self.R)

    def share(self, cur):
        total = upper = 0
        for p in reversed(self.parts):
            if bool(p[0] < cur - PARTS):
                break
            total += 1
            if p[2] and bool(p[1] / p[2] >= self.E):
                upper += 1
        return upper, total

    def enter(self, t):
        """a call begins at t: new state"""
        cur = self.part(t)
        if not self.parts or bool(self.parts[-1][0] != cur):
            self.parts.append([cur, 0, 0])
            del self.parts[:-PARTS]
        mine = self.parts[-1]
        if self.until is not None:
            assume(t != self.until)
            if bool(t < self.until):
                return mine
        if self.state is St.BROKEN:
            self.state = St.RECOVERING
            self.recovery_at = t
            return mine
        if self.state is St.PASSING:
            if len(self.parts) < PARTS:
                return mine
            upper, total = self.share(cur)
            if upper == total:
                self.state = St.BROKEN
                self.until = t + self.broken
                self.parts = []
            return mine
        upper, total = self.share(cur)
        if bool(upper / total * 2 >= self.E):
            self.state = St.BROKEN
            self.until = t + self.broken
            self.parts = []
            return mine
        assume(t != self.recovery_at + self.recovery)
        if bool(t > self.recovery_at + self.recovery):
            self.state = St.PASSING
            self.until = t + self.passing
        return mine

    def done(self, mine, out, e, accepted):
        mine[2] += 1
        if out == "ok":
            self.last = None
        elif out == "listed":
            self.last = e
            if accepted:
                mine[1] += 1


class Rig:
    def __init__(self, recovery=8, R=10, inspector=False, mode="sync",
                 broken=None):
        self.E = pos_real("error_ratio")
        assume(self.E <= 1)
        self.R = R
        self.broken = broken or pos_real("broken_time")
        self.passing = pos_real("passing_time")
        self.recovery = recovery
        self.draws = []
        self.top = 1
        sim().random_hook = self.draw
        self.mode = mode
        self.calls = []
        kw = {}
        if inspector:
            kw["exception_inspector"] = self.inspect
        kw.update(recovery_time=recovery, broken_time=self.broken,
                  passing_time=self.passing)
        if mode == "cutout":
            self.func = cutout(self.E, R, Listed, **kw)(self.body)
        elif mode == "cutout-async":
            self.func = cutout(self.E, R, Listed, **kw)(self.abody)
        else:
            self.cb = CircuitBreaker(self.E, R, exceptions=[Listed], **kw)
        self.spec = Spec(self.E, R, self.broken, recovery, self.passing)

    def draw(self):
        u = sym_real("draw", 0, self.top)
        assume(u < 1)
        self.draws.append(u)
        return Pow2(u, 1, -1)       # 2**u - 1: any number in [0, 1)

    def inspect(self, e):
        self.inspected.append(e)
        if self.verdict == "error":
            raise ValueError("inspector")
        return self.verdict

    def body(self, *a, **k):
        self.calls.append((a, k))
        kind, v = self.plan
        if kind == "ok":
            return v
        raise v

    async def abody(self, *a, **k):
        return self.body(*a, **k)

    async def one(self, out, verdict=True):
        v = object() if out == "ok" else (
            Listed("l") if out == "listed" else
            asyncio.CancelledError() if out == "abort" else Unlisted("u"))
        self.plan = (out, v)
        self.calls = []
        self.inspected = []
        self.verdict = verdict
        spec = self.spec
        t = now()
        n_draws = len(self.draws)
        mine = spec.enter(t)
        try:
            if self.mode == "sync":
                res = "ok", self.cb.call(self.body, v, k=v)
            elif self.mode == "async":
                res = "ok", await self.cb.call_async(self.abody, v, k=v)
            elif self.mode == "context":
                with self.cb.context():
                    res = "ok", self.body(v, k=v)
            elif self.mode == "cutout":
                res = "ok", self.func(v, k=v)
            else:
                res = "ok", await self.func(v, k=v)
        except (Exception, asyncio.CancelledError) as e:
            res = "exc", e
        passed = True
        broken = res[0] == "exc" and isinstance(res[1], CircuitBroken)
        if spec.state is St.PASSING:
            check(not broken, "passing-runs-the-call")
        elif spec.state is St.BROKEN:
            check(broken, "broken-fails-fast")
            passed = False
            cover("broken")
        else:
            check(len(self.draws) <= n_draws + 1, "one-draw")
            u = self.draws[-1] if len(self.draws) > n_draws else None
            x = (t - spec.recovery_at) / spec.recovery
            if u is None:
                # decided without a draw: must be certain
                check(Or(And(x >= 1, not broken), And(x <= 0, broken)),
                      "share-grows")
            elif broken:
                check(x <= u, "share-grows")
                passed = False
            else:
                check(x >= u, "share-grows")
            cover("recovering-pass" if not broken else "recovering-refused")
            if broken:
                passed = False
        if hasattr(self, "cb"):
            check(self.cb.state == spec.state, "state")
        if not passed:
            check(not self.calls, "refused-call-does-not-run")
            check(res[1].last_exception is spec.last, "last-failure")
            return
        check(self.calls == [((v,), {"k": v})], "runs-once-same-arguments")
        check(res == ("ok" if out == "ok" else "exc", v), "outcome-as-is")
        accepted = True
        if out == "listed":
            accepted = verdict is not False
        spec.done(mine, out, v, accepted)

    async def fill(self, good=None, n=PARTS):
        """calls in successive parts"""
        w = self.R / PARTS
        await asyncio.sleep(w / 2)
        for i in range(n):
            if i:
                await asyncio.sleep(w)
            await self.one("ok" if i == good else "listed")


def tail(n, kinds, good, start, mode="sync", inspector=False, R=10,
         fill=PARTS, refill=0, broken=None):
    async def main():
        rig = Rig(R=R, mode=mode, inspector=inspector, broken=broken)
        g = None
        if good:
            g = pick("good", [None, 0, 4, 9])
        await rig.fill(g, fill)
        if start != "filled":
            # break, and perhaps begin to recover
            await rig.one("listed")
            check(rig.spec.state is St.BROKEN, "breaks-when-all-parts-failed")
            if start != "broken":
                await asyncio.sleep(rig.broken + 0.25)
                await rig.one("ok")
                check(rig.spec.state is St.RECOVERING,
                      "recovers-after-the-broken-time")
                if start == "recovered":
                    await asyncio.sleep(rig.recovery + 0.25)
                    await rig.one("ok")
                    check(rig.spec.state is St.PASSING,
                          "passes-after-the-recovery-time")
        if start == "rebroken":
            # fails while it recovers, breaks and recovers again
            await asyncio.sleep(rig.recovery - 1.5)
            rig.top = 0.5
            await rig.one("listed")
            await rig.one("ok")
            check(rig.spec.state is St.BROKEN, "breaks-while-recovering")
            rig.top = 1
            await asyncio.sleep(rig.broken + 0.25)
            await rig.one("ok")
            check(rig.spec.state is St.RECOVERING,
                  "recovers-after-the-broken-time")
        for i in range(refill):
            await asyncio.sleep(R / PARTS)
            await rig.one("listed")
        for i in range(n):
            gap = sym_real("gap", 0, 40)
            await asyncio.sleep(gap)
            out = pick("out", kinds)
            verdict = True
            if out == "listed" and inspector:
                verdict = pick("verdict", [True, False, "error"])
            await rig.one(out, verdict)
        cover("state-%s" % rig.spec.state.name)
        cover("end")

    run(main())


def overlap():
    """calls which take time"""
    async def main():
        rig = Rig(mode="async")
        await rig.fill()
        cb = rig.cb
        seen = []

        async def job(i, out, d, v):
            seen.append(i)
            await asyncio.sleep(d)
            if out == "ok":
                return v
            raise v
        # a call which begins while passing in a fresh part ends while broken
        await asyncio.sleep(1)
        d = pos_real("d")
        out = pick("out", ["ok", "listed", "unlisted", "cancel"])
        v = object() if out == "ok" else (
            Unlisted("u") if out == "unlisted" else Listed("l"))
        t0 = now()
        task = asyncio.ensure_future(outcome(cb.call_async(job, 0, out, d,
                                                           v)))
        await asyncio.sleep(0)
        check(seen == [0] and cb.state == St.PASSING, "passing-runs-the-call")
        e1 = Listed("1")
        r = await outcome(cb.call_async(job, 1, "listed", 0, e1))
        check(r == ("exc", e1), "outcome-as-is")
        # the part of now has one finished failure, so this one breaks it
        r = await outcome(cb.call_async(job, 2, "ok", 0, v))
        check(r[0] == "exc" and isinstance(r[1], CircuitBroken) and
              r[1].last_exception is e1, "broken-fails-fast")
        check(seen == [0, 1], "refused-call-does-not-run")
        tb = now()
        if out == "cancel":
            task.cancel()
        st = await task
        if out == "cancel":
            check(st[0] == "cancelled", "outcome-as-is")
        else:
            check(st == ("ok" if out == "ok" else "exc", v), "outcome-as-is")
            check(now() == t0 + d, "outcome-in-time")
        if bool(now() < tb + rig.broken):
            check(cb.state == St.BROKEN, "stays-broken")
            r = await outcome(cb.call_async(job, 3, "ok", 0, v))
            want = {"ok": None, "listed": v}.get(out, e1)
            check(r[0] == "exc" and isinstance(r[1], CircuitBroken) and
                  r[1].last_exception is want, "last-failure")
            cover("still-broken")
        cover("end-" + out)

    run(main())


def arguments():
    async def main():
        R = sym_real("response_time")
        E = sym_real("ratio")
        how = choose("how", 2)
        try:
            if how:
                cutout(E, R, Listed)
            else:
                CircuitBreaker(E, R)
        except ValueError:
            check(Or(R <= 0, E < 0, E > 1), "valid-accepted")
            cover("refused")
        else:
            check(And(R > 0, E >= 0, E <= 1), "invalid-refused")
            cover("accepted")

    run(main())


def defaults(mode, given=None):
    """without times given, all are the response time; without exceptions,
    every exception counts"""
    async def main():
        sim().random_hook = lambda: Pow2(
            sym_real("draw", 0.5, 0.75), 1, -1)
        bad = ValueError("x")
        ran = []
        kw = {given: 6} if given else {}
        B = kw.get("broken_time", 10)
        V = kw.get("recovery_time", 10)

        def f(good=False):
            ran.append(1)
            if good:
                return 1
            raise bad

        async def af(good=False):
            return f(good)
        if mode == "cutout":
            g = cutout(0.5, 10, **kw)(f)
        elif mode == "cutout-async":
            g = cutout(0.5, 10, **kw)(af)
        else:
            cb = CircuitBreaker(0.5, 10, **kw)

            def g(*a):
                return cb.call(f, *a)

        async def call(*a):
            try:
                r = g(*a)
                if asyncio.iscoroutine(r):
                    r = await r
                return r
            except Exception as e:
                return e
        await asyncio.sleep(0.5)
        for i in range(10):
            check(await call() is bad, "outcome-as-is")
            if i < 9:
                await asyncio.sleep(1)
        r = await call()
        check(isinstance(r, CircuitBroken) and r.last_exception is bad,
              "breaks")
        gap = sym_real("gap", 0, 30)
        assume(gap != B)
        await asyncio.sleep(gap)
        n = len(ran)
        r = await call(True)
        check(isinstance(r, CircuitBroken) and len(ran) == n,
              "broken-or-just-recovering-refuses")
        if bool(gap < B):
            cover("broken")
            if mode == "plain":
                check(cb.state == St.BROKEN, "broken-time-default")
            return
        # recovering since now
        g2 = sym_real("gap2", 0, 30)
        assume(Or(g2 < V * 0.5, g2 > V * 0.75))
        assume(g2 != V)
        await asyncio.sleep(g2)
        n = len(ran)
        r = await call(True)
        if bool(g2 < V * 0.5):
            check(isinstance(r, CircuitBroken) and len(ran) == n,
                  "share-grows")
            cover("refused")
        else:
            check(r == 1 and len(ran) == n + 1, "share-grows")
            cover("passed")
        if mode == "plain":
            check(cb.response_time == 10, "response-time")
            check((cb.state == St.PASSING) == bool(g2 > V),
                  "recovery-time-default")

    run(main())


def scenarios(tier):
    n = 3 if tier == "quick" else 4
    out = []

    def add(name, covers, **kw):
        p = dict(n=n, kinds=["ok", "listed"], good=False, start="filled")
        p.update(kw)
        out.append(Scenario(name, tail, p, covers))
    add("filled", ["broken", "state-PASSING", "state-RECOVERING"])
    add("filled-one-good", ["state-PASSING"], good=True, n=n - 1)
    add("broken", ["recovering-pass", "recovering-refused", "state-PASSING"],
        start="broken")
    add("recovering", ["recovering-pass", "state-BROKEN", "state-PASSING"],
        start="recovering")
    add("recovered", ["state-PASSING"], start="recovered")
    add("rebroken", ["state-PASSING", "state-BROKEN"], start="rebroken",
        broken=1, n=n - 1)
    add("recovered-refilled", ["state-PASSING", "state-BROKEN"],
        start="recovered", refill=PARTS + 1, n=n - 1,
        broken=7)
    add("not-filled", ["state-PASSING"], fill=8, n=2)
    add("nearly-filled", ["state-PASSING", "broken"], fill=9, n=n)
    add("inspector", ["broken"], n=2, kinds=["ok", "listed", "unlisted"],
        inspector=True)
    add("inspector-recovering", ["recovering-pass"], n=2,
        kinds=["ok", "listed", "unlisted"], inspector=True,
        start="recovering")
    for mode in ("async", "context", "cutout", "cutout-async"):
        add("filled-" + mode, ["broken"], n=2, mode=mode,
            kinds=["ok", "listed", "unlisted"])
    if tier != "quick":
        for R in (5, 30):
            for start in ("filled", "broken", "recovering", "recovered"):
                add("%s-R%d" % (start, R), [], n=3, R=R, start=start)
    add("mixed", ["broken"], kinds=["listed", "unlisted"])
    add("mixed-abort", ["broken"], kinds=["listed", "abort"])
    for given in ("broken_time", "recovery_time", "passing_time"):
        out.append(Scenario("only-" + given, defaults,
                            dict(mode="plain", given=given),
                            ["broken", "refused", "passed"]))
    out.append(Scenario("overlap", overlap, {},
                        ["end-ok", "end-listed", "end-cancel",
                         "still-broken"]))
    out.append(Scenario("arguments", arguments, {}, ["refused", "accepted"]))
    for mode in ("plain", "cutout", "cutout-async"):
        out.append(Scenario("defaults-" + mode, defaults, dict(mode=mode),
                            ["broken", "refused", "passed"]))
    return out
