import asyncio
import threading

from symx.api import *

import aiomisc
from aiomisc import Context, get_context
from aiomisc._context_vars import EVENT_LOOP
from symx.sim import Thread

BOUNDS = {
    "quick": "<=3 waiters and <=2 sets of a key at arbitrary instants, one "
             "waiter cancelled or timed out at any instant, a second key; "
             "sets from threads with one preemption at any line",
    "thorough": "3 sets, 4 waiters, two preemptions",
}
ASSUMPTIONS = ["instants are mathematical reals",
               "a value which is set counts from the next turn of the loop"]
OUTSIDE = ["waiters which are left when the context is closed",
           "several contexts of one loop"]

VALUES = ["object", "none", "false", "exception"]


def make_value(kind, i):
    return {"object": object(), "none": None, "false": False,
            "exception": Err(i)}[kind]


class Waiter:
    def __init__(self, i, at):
        self.i = i
        self.at = at
        self.result = None
        self.ended = None

    async def run(self, ctx, key, how="await", limit=None):
        if bool(self.at > 0):
            await asyncio.sleep(self.at)
        if how == "wait_for":
            self.result = await outcome(asyncio.wait_for(ctx[key], limit))
        elif how == "gather":
            self.result = await outcome(asyncio.gather(ctx[key]))
            if self.result[0] == "ok":
                self.result = ("ok", self.result[1][0])
        elif how == "twice":
            first = await outcome(asyncio.ensure_future(ctx[key]))
            self.result = first
        else:
            self.result = await outcome(ctx[key])
        self.ended = now()


def legal(w, sets):
    """has this waiter got what it should, when it should"""
    if w.result is None:
        # still waiting: nothing was set
        check(not sets, "everyone-gets-it")
        return
    k, v = w.result
    check(k == "ok", "everyone-gets-a-value")
    which = [j for j, s in enumerate(sets) if v is s[1]]
    check(len(which) == 1, "a-value-which-was-set")
    at = sets[which[0]][0]
    others = [s[0] for j, s in enumerate(sets) if j != which[0]]
    early = And(at <= w.at, *[Or(o <= at, o >= w.at) for o in others])
    late = And(at >= w.at, *[And(o >= at) for o in others])
    check(Or(early, late), "the-right-value")
    check(w.ended == smax(at, w.at), "when-it-is-there")


def waiting(n, m, values=("object",), victim=None, hows=("await",),
            other_key=False):
    async def main():
        loop = asyncio.get_running_loop()
        ctx = Context(loop=loop)
        EVENT_LOOP.set(loop)
        check(get_context(loop) is ctx and get_context() is ctx,
              "found-from-its-loop")
        ws = [Waiter(i, sym_real("begin", 0)) for i in range(n)]
        sets = []
        for j in range(m):
            S = sym_real("set_at", 0)
            v = make_value(pick("value", values) if len(values) > 1
                           else values[0], j)
            if v is None or v is False:
                v = make_value("object", j) if any(
                    s[1] is v for s in sets) else v
            sets.append((S, v))
            loop.call_later(S, ctx.__setitem__, "key", v)
        if other_key:
            loop.call_later(sym_real("other_at", 0), ctx.__setitem__,
                            ("other", 1), "other")
        tasks = []
        T = sym_real("victim_at", 0) if victim else None
        for w in ws:
            how = pick("how", hows) if len(hows) > 1 else hows[0]
            limit = 1e6
            if w.i == 0 and victim == "timeout":
                how, limit = "wait_for", T
            tasks.append(asyncio.ensure_future(
                w.run(ctx, "key", how, limit)))
        if victim == "cancel":
            loop.call_later(T, tasks[0].cancel)
        elif victim == "future":
            # somebody cancels what he has got
            async def impatient():
                await asyncio.sleep(T)
                f = asyncio.ensure_future(ctx["key"])
                f.cancel()
                await asyncio.wait([f])
            asyncio.ensure_future(impatient())
        pending = []
        if other_key:
            w = Waiter(9, 0.0)
            t = asyncio.ensure_future(w.run(ctx, ("other", 1)))
        horizon = smax(*[w.at for w in ws], *[s[0] for s in sets],
                       T if T is not None else 0.0)
        assume(horizon < 1000)
        await asyncio.sleep(2000)
        check(all(t.done() for t in tasks) or not sets, "everyone-gets-it")
        for w, t in zip(ws, tasks):
            if w.i == 0 and victim in ("cancel", "timeout"):
                gone = (t.done() and t.cancelled()) or (
                    w.result is not None and
                    (w.result[0] == "cancelled" or
                     isinstance(w.result[1], asyncio.TimeoutError)))
                if gone:
                    cover("gone")
                    continue
            legal(w, sets)
        if other_key:
            check(w is not None, "harness")
        # later ones
        late = Waiter(n, 0.0)
        if sets:
            t0 = now()
            k, v = await outcome(asyncio.wait_for(ctx["key"], 5))
            check(k == "ok", "later-waiters-get-the-latest")
            last = [s for s in sets if s[1] is v]
            check(len(last) == 1 and
                  And(*[last[0][0] >= s[0] for s in sets]),
                  "later-waiters-get-the-latest")
            check(now() == t0, "when-it-is-there")
        else:
            t = asyncio.ensure_future(late.run(ctx, "key"))
            await asyncio.sleep(1)
            check(not t.done(), "nothing-was-set")
            x = object()
            ctx["key"] = x
            await settle(5)
            check(t.done() and late.result == ("ok", x), "everyone-gets-it")
            for w, t in zip(ws, tasks):
                if not (w.i == 0 and victim in ("cancel", "timeout")):
                    check(w.result == ("ok", x), "everyone-gets-it")
        for t in tasks:
            t.cancel()
        ctx.close()
        closed(ctx, loop)
        try:
            late = asyncio.ensure_future(ctx["key"])
            await settle(3)
        except Exception:
            return
        check(not late.done() or late.exception() is not None,
              "gone-after-closing")
        late.cancel()
    return run(main())


def closed(ctx, loop):
    try:
        c = get_context(loop)
    except (KeyError, RuntimeError):
        return
    fail("gone-after-closing")


def threads_set(n, m, K, cancel=False):
    """sets from other threads"""
    async def main():
        loop = asyncio.get_running_loop()
        ctx = Context(loop=loop)
        threads(preempt=K, lines=("context.py",), free_choice=True)
        vals = [object() for _ in range(m)]
        done = []

        def setter(v):
            ctx["key"] = v
            done.append(v)
        ws = [Waiter(i, 0.0) for i in range(n)]
        tasks = [asyncio.ensure_future(w.run(ctx, "key")) for w in ws]
        ts = [threading.Thread(target=setter, args=(v,)) for v in vals]
        for t in ts:
            t.start()
        if cancel:
            for _ in range(choose("turns", 3)):
                await asyncio.sleep(0)
            tasks[0].cancel()
        own = None
        if choose("own", 2):
            own = object()
            ctx["key"] = own
        await asyncio.sleep(10)
        check(len(done) == m, "harness")
        everything = vals + ([own] if own is not None else [])
        for w, t in zip(ws, tasks):
            if cancel and w.i == 0 and (t.cancelled() or
                                        w.result[0] == "cancelled"):
                continue
            check(t.done() and w.result[0] == "ok" and any(
                w.result[1] is v for v in everything), "everyone-gets-it")
        k, v = await outcome(asyncio.wait_for(ctx["key"], 1))
        check(k == "ok" and any(v is x for x in everything),
              "later-waiters-get-the-latest")
        if m == 1 and own is None:
            check(v is vals[0], "later-waiters-get-the-latest")
        if own is None and m > 1:
            check(v in vals, "later-waiters-get-the-latest")
        # and once more, from a thread, after the waiters
        last = object()
        t = threading.Thread(target=setter, args=(last,))
        t.start()
        await asyncio.sleep(1)
        check(await ctx["key"] is last, "later-waiters-get-the-latest")
        ctx.close()
        closed(ctx, loop)
    return run(main())


def loops():
    """each loop has its own"""
    a, b = new_loop(), new_loop()
    ca, cb = Context(loop=a), Context(loop=b)
    check(get_context(a) is ca and get_context(b) is cb,
          "found-from-its-loop")
    x = object()

    async def use(ctx, value):
        ctx["k"] = value
        return await asyncio.wait_for(ctx["k"], 1)
    check(a.run_until_complete(use(ca, x)) is x, "everyone-gets-it")

    async def nothing(ctx):
        try:
            await asyncio.wait_for(ctx["k"], 1)
        except asyncio.TimeoutError:
            return True
        fail("a-context-belongs-to-one-loop")
    b.run_until_complete(nothing(cb))
    first = choose("first", 2)
    (ca, cb)[first].close()
    closed(None, (a, b)[first])
    check(get_context((b, a)[first]) is (cb, ca)[first],
          "found-from-its-loop")
    (ca, cb)[1 - first].close()
    closed(None, (b, a)[first])
    again = Context(loop=a)
    check(get_context(a) is again, "found-from-its-loop")

    async def fresh():
        try:
            await asyncio.wait_for(again["k"], 1)
        except asyncio.TimeoutError:
            return
        fail("gone-after-closing")
    a.run_until_complete(fresh())
    again.close()
    a.close()
    b.close()
    try:
        get_context(a)
    except (RuntimeError, KeyError):
        pass
    else:
        fail("gone-after-closing")


def scenarios(tier):
    deep = tier == "thorough"
    out = [
        Scenario("waiting", waiting, dict(n=2, m=2, values=VALUES)),
        Scenario("none-set", waiting, dict(n=2, m=0)),
        Scenario("ways", waiting, dict(
            n=2, m=1, hows=("await", "wait_for", "gather", "twice"))),
        Scenario("keys", waiting, dict(n=1, m=1, other_key=True)),
        Scenario("threads", threads_set, dict(n=2, m=1, K=1)),
        Scenario("threads-cancel", threads_set, dict(
            n=2, m=1, K=1, cancel=True)),
        Scenario("threads-two", threads_set, dict(n=1, m=2, K=1)),
        Scenario("loops", loops, {}),
    ]
    for victim in ("cancel", "timeout", "future"):
        c = ("gone",) if victim != "future" else ()
        out += [
            Scenario("victim-" + victim, waiting, dict(
                n=3, m=1, victim=victim), covers=c),
            Scenario("victim-none-" + victim, waiting, dict(
                n=2, m=0, victim=victim), covers=c),
            Scenario("victim-two-" + victim, waiting, dict(
                n=2, m=2, victim=victim), covers=c),
        ]
    if deep:
        out += [
            Scenario("waiting-more", waiting, dict(n=3, m=3)),
            Scenario("waiting-four", waiting, dict(n=4, m=1,
                                                   victim="cancel")),
            Scenario("threads2", threads_set, dict(n=2, m=2, K=2,
                                                   cancel=True)),
        ]
    return out
