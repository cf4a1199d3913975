import asyncio

from symx.api import *

import aiomisc
from aiomisc import cancel_tasks, select, shield, awaitable
from aiomisc.utils import set_exception

BOUNDS = {
    "quick": "3 awaitables (coroutines, one of them a plain future in some "
             "scenarios), arbitrary real durations, time needed to end after "
             "cancellation, cancellation instant, timeout; outcomes value or "
             "exception",
    "thorough": "4 awaitables",
}
ASSUMPTIONS = [
    "instants are mathematical reals; callbacks take no time",
    "awaitables which are cancelled end some arbitrary time later",
]
OUTSIDE = ["awaitables which are cancelled by somebody else while selected"]


def mk(i, st, slow, fixed=None, odd=False):
    d = sym_real("d%d" % i, 0)
    kind = choose("kind%d" % i, 2) if fixed is None else fixed
    c = sym_real("c%d" % i, 0) if slow else 0
    val = Err("e%d" % i) if kind else object()
    react = 0
    if odd:
        react = choose("react%d" % i, 3)
        if not kind:
            val = (False, 0, "")[i]
    rec = dict(d=d, kind=kind, val=val, starts=0, end=None, cancelled=None,
               how=None, c=c)
    st.append(rec)

    async def aw():
        rec["starts"] += 1
        try:
            await asyncio.sleep(d)
        except asyncio.CancelledError:
            rec["cancelled"] = now()
            try:
                if slow:
                    await asyncio.sleep(c)
            finally:
                rec["end"] = now()
                rec["how"] = "cancelled"
            if react == 1:
                return object()
            if react == 2:
                raise Err("reaction")
            raise
        rec["end"] = now()
        rec["how"] = "own"
        if kind:
            raise val
        return val
    return aw()


def selection(n, cancel, wait, ret_exc, outer, slow, timeout=False,
              future=False, ties="separate", odd=False):
    async def main():
        t0 = now()
        st = []
        aws = [mk(i, st, slow, odd=odd) for i in range(n)]
        fut = None
        if future:
            # a plain future as one more candidate, never set
            fut = asyncio.get_event_loop().create_future()
            aws.append(fut)
        kw = {}
        if timeout:
            kw["timeout"] = TO = pos_real("timeout")
        if not cancel:
            kw["cancel"] = False
        if not wait:
            kw["wait"] = False
        if ret_exc:
            kw["return_exceptions"] = True
        sel = select(*aws, **kw)
        task = asyncio.ensure_future(outcome(sel))
        if outer:
            C = pos_real("cancel_at")
            canceller(task, C)
        status, val = await task
        t1 = now()
        event("end", status, t1)
        first = smin(*[r["d"] for r in st])
        for r in st:
            check(r["starts"] <= 1, "awaited-once")
            if not outer:
                check(r["starts"] == 1, "awaited-once")
        if status == "cancelled":
            check(outer, "cancelled-only-on-request")
            for r in st:
                check(r["starts"] == 0 or r["end"] is not None,
                      "cancelled-selection-ends-all")
                if r["how"] == "cancelled":
                    check(Or(r["cancelled"] == t0 + C,
                             r["cancelled"] == t0 + first),
                          "cancelled-selection-cancels-all")
            if fut is not None:
                check(fut.cancelled(), "cancelled-selection-cancels-all")
            cover("cancelled")
            return
        if outer and not slow:
            check(first <= C, "cancellation-not-swallowed")
        # finished in time
        t_dec = t0 + first
        timed_out = False
        if timeout:
            if bool(TO < first) or (
                    bool(TO == first) and status == "ok" and
                    not val.done()):
                timed_out = True
                t_dec = t0 + TO
        if cancel and wait:
            for r in st:
                check(r["end"] is not None, "losers-ended")
            check(t1 == smax(t_dec, *[r["end"] for r in st
                                      if r["how"] == "cancelled"]),
                  "ends-with-the-first-and-the-losers")
        else:
            check(t1 == t_dec, "ends-with-the-first")
        await settle()
        if timed_out:
            check(status == "ok" and not val.done(),
                  "nothing-selected-at-timeout")
            cover("timeout")
        else:
            if status == "ok":
                idx = val.result_idx
                check(val.done() and len(val) == len(aws) and
                      isinstance(idx, int), "result-shape")
                check(0 <= idx < n, "result-index")
                r = st[idx]
                check(r["d"] == first and r["how"] == "own",
                      "selected-one-was-first")
                lst = list(val)
                check(len(lst) == len(aws) and all(
                    (x is r["val"]) if i == idx else x is None
                    for i, x in enumerate(lst)), "result-list")
                check(r["val"] in val, "result-contains")
                check(val.value is r["val"], "value-of-the-first")
                check(bool(val.is_exception) == bool(r["kind"]),
                      "exception-flag")
                if r["kind"]:
                    check(ret_exc, "exception-raised")
                    try:
                        val.result()
                    except Err as e:
                        check(e is r["val"], "result-raises")
                    else:
                        fail("result-raises")
                    cover("returned-exc")
                else:
                    check(val.result() is r["val"], "result-value")
                    cover("ok")
            else:
                check(not ret_exc, "exception-returned")
                r = [r for r in st if r["val"] is val]
                check(len(r) == 1 and r[0]["kind"] == 1,
                      "exception-of-the-first")
                check(r[0]["d"] == first, "selected-one-was-first")
                cover("exc")
        # the others
        for r in st:
            if cancel:
                if bool(r["d"] > t_dec - t0):
                    check(r["cancelled"] is not None, "losers-cancelled")
                    check(r["cancelled"] == t_dec, "losers-cancelled-at-once")
            elif r["cancelled"] is not None:
                fail("others-not-touched")
        if fut is not None:
            check(fut.cancelled() == bool(cancel), "losers-cancelled")
        if not cancel:
            await asyncio.sleep(smax(*[r["d"] for r in st]) + 1)
            for r in st:
                check(r["how"] == "own", "others-run-to-their-end")
                check(r["end"] == t0 + r["d"], "others-run-to-their-end")
            cover("others-finish")
        elif not wait:
            await asyncio.sleep(smax(0, *[r["c"] for r in st]) + 1)
            for r in st:
                check(r["end"] is not None, "losers-end")

    run(main(), ties=ties)


def group(n, slow, as_iter):
    """cancel_tasks"""
    async def main():
        loop = asyncio.get_event_loop()
        st = []
        tasks = [loop.create_task(outcome_raw(mk(i, st, slow)))
                 for i in range(n)]
        fpend = loop.create_future()
        fdone = loop.create_future()
        fdone.set_result(5)
        fexc = loop.create_future()
        e = Err("x")
        fexc.set_exception(e)
        fcan = loop.create_future()
        fcan.cancel()
        at = sym_real("at", 0)
        await asyncio.sleep(at)
        t1 = now()
        done_before = [t.done() for t in tasks]
        all_ = [fexc, tasks[0], fdone, fpend, fcan] + tasks[1:]
        aw = cancel_tasks(iter(all_) if as_iter else all_)
        await aw
        t2 = now()
        ends = [t1]
        for i, (t, r, was) in enumerate(zip(tasks, st, done_before)):
            check(t.done(), "group-ended")
            if was:
                check(r["how"] == "own" and not t.cancelled(),
                      "finished-ones-untouched")
                cover("one-was-finished")
            else:
                check(t.cancelled(), "unfinished-ones-cancelled")
                if r["starts"]:
                    check(r["cancelled"] == t1, "cancelled-at-once")
                    ends.append(r["end"])
                cover("one-was-cancelled")
        check(t2 == smax(*ends), "ends-with-the-last-of-them")
        check(fdone.result() == 5 and fexc.exception() is e and
              fcan.cancelled(), "finished-futures-untouched")
        check(fpend.done(), "plain-futures-failed")
        try:
            await fpend
        except asyncio.CancelledError:
            pass
        else:
            fail("plain-futures-failed")
        for nothing in ([], (), iter(())):
            await cancel_tasks(nothing)
        check(now() == t2, "empty-group-ends-at-once")

    run(main())


async def outcome_raw(aw):
    return await aw


def failing(n):
    """set_exception: futures get exactly this exception"""
    async def main():
        loop = asyncio.get_event_loop()
        e = Err("given")
        futs = [loop.create_future() for _ in range(n)]
        st = []
        task = loop.create_task(outcome_raw(mk(0, st, False, 0)))
        states = [choose("state", 3) for _ in range(n)]
        marks = [object() for _ in range(n)]
        for f, s, m in zip(futs, states, marks):
            if s == 1:
                f.set_result(m)
            elif s == 2:
                f.cancel()
        res = set_exception(futs + [task], e)
        await settle(5)
        for f, s, m in zip(futs, states, marks):
            if s == 0:
                check(f.exception() is e, "futures-failed-with-it")
            elif s == 1:
                check(f.result() is m, "finished-futures-untouched")
            else:
                check(f.cancelled(), "finished-futures-untouched")
        check(task.cancelled() and set(res) == {task},
              "tasks-cancelled-and-returned")
        cover("end")

    run(main())


def shielded():
    async def main():
        t0 = now()
        st = []
        args = []
        mark = object()

        @shield
        async def func(*a, **k):
            args.append((a, k))
            return await mk(0, st, False)

        task = asyncio.ensure_future(outcome(func(mark, k=mark)))
        C = pos_real("cancel_at")
        canceller(task, C)
        status, val = await task
        t1 = now()
        if status == "cancelled":
            check(t1 == t0 + C, "caller-cancelled-at-once")
            if not st:
                await settle(5)
            r = st[0]
            await asyncio.sleep(r["d"] + 1)
            check(r["how"] == "own" and r["cancelled"] is None,
                  "shielded-call-runs-to-its-end")
            check(r["end"] == t0 + r["d"], "shielded-call-runs-to-its-end")
            cover("cancelled")
        else:
            r = st[0]
            check((status == "exc") == bool(r["kind"]) and
                  val is r["val"], "shielded-outcome")
            check(t1 == t0 + r["d"], "shielded-outcome-in-time")
            cover("own")
        check(len(args) == 1 and args[0][0] == (mark,) and
              args[0][1] == {"k": mark}, "same-arguments")

    run(main())


def wrapping():
    class Aw:
        def __init__(self, v):
            self.v = v

        def __await__(self):
            yield from asyncio.sleep(0).__await__()
            return self.v

    async def main():
        loop = asyncio.get_event_loop()
        kind = pick("kind", ["value", "none", "future", "awaitable", "coro",
                             "coro-func", "raise", "coro-raise", "task"])
        mark = object()
        err = Err("x")
        calls = []
        orig = []

        def func(*a, **k):
            calls.append((a, k))
            if kind == "value":
                return mark
            if kind == "none":
                return None
            if kind == "future":
                f = loop.create_future()
                f.set_result(mark)
                orig.append(f)
                return f
            if kind == "task":
                f = loop.create_task(acoro())
                orig.append(f)
                return f
            if kind == "awaitable":
                a = Aw(mark)
                orig.append(a)
                return a
            if kind == "raise":
                raise err
            c = acoro()
            orig.append(c)
            return c

        async def acoro():
            if kind == "coro-raise":
                raise err
            return mark

        async def cfunc(*a, **k):
            calls.append((a, k))
            return mark

        w = awaitable(cfunc if kind == "coro-func" else func)
        try:
            res = w(1, z=mark)
            if orig:
                check(res is orig[0], "returned-awaitable-is-the-original")
            check(hasattr(res, "__await__"), "result-awaitable")
            val = await res
            check(val is (None if kind == "none" else mark), "same-value")
            check(kind not in ("raise", "coro-raise"), "exception-lost")
        except Err as e:
            check(e is err and kind in ("raise", "coro-raise"),
                  "same-exception")
        check(calls == [((1,), {"z": mark})], "called-once-same-arguments")
        cover(kind)

    run(main())


def scenarios(tier):
    n = 3 if tier == "quick" else 4
    out = []

    def add(name, covers, **kw):
        p = dict(n=n, cancel=True, wait=True, ret_exc=False, outer=False,
                 slow=False)
        p.update(kw)
        out.append(Scenario(name, selection, p, covers))
    add("default", ["ok", "exc"], slow=True)
    add("default-tie", ["ok", "exc"], ties="fork")
    add("odd", ["ok", "exc"], odd=True, slow=True, n=2)
    add("odd-no-wait", ["ok", "exc"], odd=True, n=2, wait=False)
    add("odd-return-exceptions", ["ok", "returned-exc"], odd=True, n=2,
        ret_exc=True)
    add("no-wait", ["ok", "exc"], wait=False, slow=True)
    add("no-cancel", ["ok", "exc", "others-finish"], cancel=False)
    add("return-exceptions", ["ok", "returned-exc"], ret_exc=True)
    add("outer-cancel", ["ok", "exc", "cancelled"], outer=True)
    add("outer-cancel-slow", ["ok", "exc", "cancelled"], outer=True,
        slow=True, n=2)
    add("outer-cancel-no-cancel", ["ok", "exc", "cancelled"], outer=True,
        cancel=False, n=2)
    add("timeout", ["ok", "exc", "timeout"], timeout=True, n=2)
    add("timeout-no-cancel", ["ok", "exc", "timeout"], timeout=True, n=2,
        cancel=False)
    add("future", ["ok", "exc"], future=True, n=2)
    add("future-outer-cancel", ["ok", "cancelled"], future=True, n=2,
        outer=True)
    add("future-no-cancel", ["ok"], future=True, n=2, cancel=False)
    out.append(Scenario("group", group, dict(n=n, slow=True, as_iter=False),
                        ["one-was-finished", "one-was-cancelled"]))
    out.append(Scenario("group-iter", group,
                        dict(n=2, slow=True, as_iter=True),
                        ["one-was-finished", "one-was-cancelled"]))
    out.append(Scenario("failing", failing, dict(n=3), ["end"]))
    out.append(Scenario("shield", shielded, {}, ["own", "cancelled"]))
    out.append(Scenario("awaitable", wrapping, {}, [
        "value", "none", "future", "awaitable", "coro", "coro-func", "raise",
        "coro-raise", "task"]))
    return out
