import asyncio
import gc
import threading

from symx.api import *

import aiomisc
from aiomisc import Context, ThreadPoolExecutor, get_statistics
from aiomisc.backoff import BackoffStatistic, RetryStatistic, asyncbackoff, \
    asyncretry
from aiomisc.circuit_breaker import CircuitBreakerStatistic
from aiomisc.aggregate import Aggregator, AggregateStatistic
from aiomisc.context import ContextStatistic
from aiomisc.counters import Statistic
from aiomisc.iterator_wrapper import IteratorWrapperStatistic
from aiomisc.recurring import RecurringCallback, \
    RecurringCallbackStatistic, StrategyStop
from aiomisc.thread_pool import ThreadPoolStatistic

BOUNDS = {
    "quick": "histories of 3 assignments, additions and subtractions of "
             "arbitrary numbers on <=2 instances of 4 kinds; components: "
             "<=3 calls of arbitrary duration and every outcome",
    "thorough": "histories of 5 operations; <=4 calls",
}
ASSUMPTIONS = ["numbers are mathematical integers and reals"]
OUTSIDE = ["metrics whose names begin with an underscore", "annotations "
           "given as strings", "declared metrics which no component keeps "
           "up to date"]


class Base(Statistic):
    count: int
    time: float
    label: str


class Child(Base):
    extra: int


class GrandChild(Child):
    more: float


class Plain(Base):
    pass


class Other(Statistic):
    count: int


class MixIn(Other, Child):
    both: int


FIELDS = {
    Base: {"count", "time"},
    Child: {"count", "time", "extra"},
    GrandChild: {"count", "time", "extra", "more"},
    Plain: {"count", "time"},
    Other: {"count"},
    MixIn: {"count", "time", "extra", "both"},
}
KINDS = list(FIELDS)


def reported(*kinds):
    out = {}
    for r in get_statistics(*kinds):
        kind, name, metric, value = r
        check(r.kind is kind and r.name is name and r.metric == metric,
              "result-fields")
        if kind not in FIELDS:
            continue
        key = (kind, name, metric)
        check(key not in out, "reported-exactly-once")
        out[key] = value
    return out


def compare(want, got):
    check(set(want) == set(got), "every-metric-of-every-instance")
    for k, v in want.items():
        check(v == got[k], "the-value-which-was-counted")


def history(kinds, steps, ops):
    """assign and add on several instances"""
    want = {}
    objs = []
    for i, k in enumerate(kinds):
        o = k("n%d" % i)
        objs.append(o)
        for f in FIELDS[k]:
            want[k, "n%d" % i, f] = 0
    compare(want, reported())
    for step in range(steps):
        i = choose("instance", len(objs)) if len(objs) > 1 else 0
        o, k = objs[i], kinds[i]
        f = pick("metric", sorted(FIELDS[k])) if step else "count"
        v = sym_int("value", -1000, 1000) if f not in ("time", "more") \
            else sym_real("value")
        op = pick("op", ops)
        key = (k, "n%d" % i, f)
        if op == "add":
            setattr(o, f, iadd(getattr(o, f), v))
            want[key] = want[key] + v
        elif op == "sub":
            x = getattr(o, f)
            x -= v
            setattr(o, f, x)
            want[key] = want[key] - v
        elif op == "copy":
            g = pick("source", sorted(FIELDS[k]))
            setattr(o, f, getattr(o, g))
            want[key] = want[k, "n%d" % i, g]
        else:
            setattr(o, f, v)
            want[key] = v
        check(getattr(o, f) == want[key], "readable")
        compare(want, reported())
    del o
    # who is gone is not reported any more
    gone = choose("gone", len(objs))
    objs[gone] = None
    gc.collect()
    compare({k: v for k, v in want.items() if k[1] != "n%d" % gone},
            reported())


def iadd(x, v):
    x += v
    return x


def kinds(n):
    """asking for kinds"""
    have = [pick("kind", KINDS) for _ in range(n)]
    objs = [k("n%d" % i) for i, k in enumerate(have)]
    asked = tuple(k for k in KINDS if choose("ask", 2))
    want = {}
    for i, k in enumerate(have):
        if not asked or issubclass(k, asked):
            for f in FIELDS[k]:
                want[k, "n%d" % i, f] = 0
    compare(want, reported(*asked))
    del objs


def later_kinds():
    """kinds which are defined while others are already in use"""
    have = [Base("n0"), Other("n1")]
    want = {(Base, "n0", "count"): 0, (Base, "n0", "time"): 0,
            (Other, "n1", "count"): 0}
    parent = pick("parent", [Base, Other, Child])
    if choose("alive", 2):
        have.append(parent("n2"))
        for f in FIELDS[parent]:
            want[parent, "n2", f] = 0
    New = type(parent)("New", (parent,), {
        "__module__": __name__, "__annotations__": {"fresh": int}})
    grand = choose("grandchild", 2)
    kind = type(parent)("Newer", (New,), {
        "__module__": __name__}) if grand else New
    FIELDS[New] = FIELDS[kind] = FIELDS[parent] | {"fresh"}
    try:
        compare(want, reported())
        for k, name in ((kind, "n3"), (parent, "n4")):
            if choose("instance", 2):
                o = k(name)
                have.append(o)
                v = sym_int("value", -1000, 1000)
                o.count = v
                for f in FIELDS[k]:
                    want[k, name, f] = v if f == "count" else 0
            compare(want, reported())
        ask = pick("ask", [parent, New, kind])
        compare({k: v for k, v in want.items() if issubclass(k[0], ask)},
                reported(ask))
        have.pop(0)
        gc.collect()
        compare({k: v for k, v in want.items() if k[1] != "n0"}, reported())
    finally:
        FIELDS.pop(New)
        FIELDS.pop(kind, None)
        del have, New, kind
        o = None
        gc.collect()


def while_reading():
    """instances come and go while the report is read"""
    objs = [pick("kind", KINDS)("n%d" % i) for i in range(2)]
    before = {(type(o), o.name, f) for o in objs for f in FIELDS[type(o)]}
    got = []
    at = choose("at", 4)
    keep = []
    for i, r in enumerate(get_statistics(*KINDS)):
        got.append((r.kind, r.name, r.metric))
        if i == at:
            keep.append(pick("new", KINDS)("new"))
    old = [g for g in got if g[1] != "new"]
    check(len(set(got)) == len(got), "reported-exactly-once")
    check(set(old) == before, "every-metric-of-every-instance")
    del objs, keep


def stats(kind, name):
    out = {}
    for r in get_statistics(kind):
        if r.kind is kind and r.name == name:
            check(r.metric not in out, "reported-exactly-once")
            out[r.metric] = r.value
    return out


def expect(kind, name, **want):
    got = stats(kind, name)
    for k, v in want.items():
        check(k in got, "every-metric-of-every-instance")
        check(got[k] == v, "component-%s-%s" % (kind.__name__, k))


class Work:
    """calls of arbitrary duration and outcome"""

    def __init__(self, kinds):
        self.kinds = kinds
        self.log = []

    async def __call__(self, *args):
        rec = [now(), None, None]
        self.log.append(rec)
        d = sym_real("d", 0)
        kind = pick("outcome", self.kinds)
        try:
            if bool(d > 0):
                await asyncio.sleep(d)
            rec[1] = kind
            if kind == "ok":
                return list(args)
            if kind == "listed":
                raise Err("listed")
            raise KeyError("unlisted")
        except asyncio.CancelledError:
            rec[1] = "cancelled"
            raise
        finally:
            rec[2] = now()

    def count(self, *kinds):
        return len([r for r in self.log if r[1] in kinds])

    def total(self):
        return sum((r[2] - r[0] for r in self.log), 0)


def recurring(n, cancel=False, suppress=False):
    async def main():
        loop = asyncio.get_running_loop()
        work = Work(["ok", "listed"])

        async def func():
            await work()
        cb = RecurringCallback(func)

        def strategy(_):
            if len(work.log) >= n:
                raise StrategyStop
            return 1
        task = cb.start(strategy, loop=loop, suppress_exceptions=(
            (Err,) if suppress else ()))
        if cancel:
            C = sym_real("cancel_at", 0)
            canceller(task, C)
        await outcome(task)
        await settle(5)
        name = [r.name for r in get_statistics(RecurringCallbackStatistic)]
        check(len(set(name)) == 1, "harness")
        expect(RecurringCallbackStatistic, name[0],
               call_count=len(work.log), done=work.count("ok"),
               fail=work.count("listed"), sum_time=work.total())
        if work.count("cancelled"):
            cover("cancelled")
    return run(main())


def retries(n, deco, cancel=False):
    async def main():
        work = Work(["ok", "listed", "unlisted"])
        kind = BackoffStatistic if deco == "backoff" else RetryStatistic
        if deco == "backoff":
            f = asyncbackoff(None, None, 0, Err, max_tries=n,
                             statistic_name="mine")(work.__call__)
        else:
            f = asyncretry(n, exceptions=(Err,), statistic_name="mine")(
                work.__call__)
        t = asyncio.ensure_future(outcome(f()))
        if cancel:
            canceller(t, sym_real("cancel_at", 0))
        await outcome(t)
        expect(kind, "mine", attempts=len(work.log), done=len(work.log),
               errors=work.count("listed"),
               cancels=work.count("cancelled"), sum_time=work.total())
    return run(main())


def aggregated(n, limit):
    async def main():
        work = Work(["ok", "listed"])

        async def func(*args):
            return await work(*args)
        leeway = 20
        f = Aggregator(func, leeway_ms=leeway, max_count=limit,
                       statistic_name="mine").aggregate
        await asyncio.gather(*[f(i) for i in range(n)],
                             return_exceptions=True)
        expect(AggregateStatistic, "mine", done=len(work.log),
               success=work.count("ok"), error=work.count("listed"),
               max_count=limit or 0)
        check(abs(stats(AggregateStatistic, "mine")["leeway_ms"] -
                  leeway) < 1e-6, "component-AggregateStatistic-leeway_ms")
        check(sum(1 for r in work.log) == (
            -(-n // limit) if limit else 1), "harness")
        return f
    return run(main())


def contexts(n):
    async def main():
        ctx = Context(loop=asyncio.get_running_loop())
        gets = sets = 0
        for i in range(n):
            if choose("op", 2):
                ctx["k"] = i
                sets += 1
            else:
                ctx["k"]
                gets += 1
        expect(ContextStatistic, None, get=gets, set=sets)
        ctx.close()
    gc.collect()
    return run(main())


def pool(n, size):
    async def main():
        p = ThreadPoolExecutor(size, statistic_name="mine")
        durations, kinds = [], []

        def job(d, kind):
            import time
            t = now()
            if d > 0:
                time.sleep(d)
            durations.append(now() - t)
            if kind:
                raise Err()
        futs = []
        for i in range(n):
            kinds.append(choose("fails", 2))
            futs.append(p.submit(job, pick("d", [0, 1, 2.5]), kinds[-1]))
        cancelled = 0
        if choose("cancel", 2):
            await settle(3)
            victim = futs[-1]
            cancelled = 1 if victim.cancel() else 0
        await asyncio.wait(futs)
        await asyncio.sleep(20)
        check(len(durations) >= n - cancelled, "harness")
        expect(ThreadPoolStatistic, "mine", submitted=n,
               done=len(durations), success=len(durations) - sum(
                   kinds[:len(durations)]),
               error=sum(kinds[:len(durations)]), sum_time=sum(durations),
               threads=min(size, 2))
        p.shutdown()
        expect(ThreadPoolStatistic, "mine", threads=0)
    return run(main())


def iterable(n, size):
    async def main():
        asyncio.get_running_loop().spin_limit = 3
        p = ThreadPoolExecutor(2)

        def gen():
            for i in range(n):
                yield i
        it = aiomisc.IteratorWrapper(gen, executor=p, max_size=size,
                                     statistic_name="mine")
        took = 0
        stop = choose("stop", n + 1)
        expect(IteratorWrapperStatistic, "mine", queue_size=size,
               started=0, yielded=0, enqueued=0)
        async with it:
            async for x in it:
                took += 1
                expect(IteratorWrapperStatistic, "mine", yielded=took)
                if took == stop:
                    break
        await asyncio.sleep(1)
        got = stats(IteratorWrapperStatistic, "mine")
        check(got["yielded"] == took, "component-yielded")
        check(got["enqueued"] >= took and got["enqueued"] <= n,
              "component-enqueued")
        check(got["started"] == 0, "component-started")
        if took == n and not stop:
            check(got["enqueued"] == n, "component-enqueued")
        p.shutdown()
    return run(main())


def breaker(n):
    async def main():
        cb = aiomisc.CircuitBreaker(
            0.5, 10, statistic_name="mine", exceptions=(Err,))
        made = 0
        for i in range(n):
            d = sym_real("d", 0)
            assume(d < 5)
            if bool(d > 0):
                await asyncio.sleep(d)

            def f():
                nonlocal made
                made += 1
                if choose("fails", 2):
                    raise Err()
            try:
                cb.call(f)
            except Err:
                pass
        expect(CircuitBreakerStatistic, "mine", call_count=n,
               call_passing=made, call_broken=n - made,
               error_ratio_threshold=0.5, call_recovering=0)
    return run(main())


def breaker_states(n):
    """calls while it is broken and recovering"""
    async def main():
        cb = aiomisc.CircuitBreaker(
            0.5, 1, statistic_name="mine", exceptions=(Err,),
            broken_time=2, recovery_time=3)
        made = calls = 0
        count = {0: 0, 1: 0, 2: 0, "ok": 0, "no": 0}
        fails = True

        def f():
            nonlocal made
            made += 1
            if fails:
                raise Err()

        def call():
            nonlocal calls
            before = made
            calls += 1
            try:
                cb.call(f)
            except (Err, aiomisc.CircuitBroken):
                pass
            state = int(cb.state)
            count[state] += 1
            if state == 2:
                count["ok" if made > before else "no"] += 1
        for i in range(30):
            call()
            call()
            if cb.state == 1:
                break
            await asyncio.sleep(0.1)
        check(cb.state == 1, "harness")
        fails = False
        for i in range(n):
            await asyncio.sleep(pick("d", [0.5, 1.5, 2.5, 4]))
            call()
            cover(cb.state.name)
        expect(CircuitBreakerStatistic, "mine", call_count=calls,
               call_passing=count[0], call_broken=count[1],
               call_recovering=count[2], call_recovering_ok=count["ok"],
               call_recovering_failed=count["no"])
    return run(main())


def scenarios(tier):
    deep = tier == "thorough"
    ops = ("add", "set", "sub", "copy")
    s = 5 if deep else 3
    out = [
        Scenario("one", history, dict(kinds=[Child], steps=3, ops=ops)),
        Scenario("two", history, dict(kinds=[Other, Other], steps=s,
                                      ops=ops)),
        Scenario("kinds-two", history, dict(kinds=[Base, GrandChild],
                                            steps=2, ops=("add", "set"))),
        Scenario("mixed", history, dict(kinds=[MixIn, Other], steps=2,
                                        ops=("add", "set"))),
        Scenario("asking", kinds, dict(n=2 if not deep else 3)),
        Scenario("later-kinds", later_kinds, {}),
        Scenario("while-reading", while_reading, {}),
        Scenario("recurring", recurring, dict(n=2 + deep)),
        Scenario("recurring-suppress", recurring, dict(n=2, suppress=True)),
        Scenario("recurring-cancel", recurring, dict(n=2, cancel=True),
                 covers=("cancelled",)),
        Scenario("backoff", retries, dict(n=3 + deep, deco="backoff")),
        Scenario("backoff-cancel", retries, dict(n=2, deco="backoff",
                                                 cancel=True)),
        Scenario("retry", retries, dict(n=3, deco="retry")),
        Scenario("aggregate", aggregated, dict(n=3, limit=2)),
        Scenario("aggregate-all", aggregated, dict(n=3, limit=None)),
        Scenario("context", contexts, dict(n=3 + deep)),
        Scenario("pool", pool, dict(n=3, size=2)),
        Scenario("pool-one", pool, dict(n=2, size=1)),
        Scenario("iterable", iterable, dict(n=2, size=0)),
        Scenario("iterable-limit", iterable, dict(n=3, size=1)),
        Scenario("breaker", breaker, dict(n=3 + deep)),
        Scenario("breaker-states", breaker_states, dict(n=3 + deep),
                 covers=("BROKEN", "RECOVERING", "PASSING")),
    ]
    return out
