import asyncio

from symx.api import *

from aiomisc import aggregate, aggregate_async
from aiomisc.aggregate import Aggregator, AggregatorAsync, ResultNotSetError

BOUNDS = {
    "quick": "3-4 callers at arbitrary instants, maximum count 1, 2, 3 or "
             "none, arbitrary leeway, arbitrary duration and outcome of each "
             "call, one chosen caller cancelled at an arbitrary instant",
    "thorough": "4 callers with a cancellation, 5 without",
}
ASSUMPTIONS = ["instants are mathematical reals; callbacks take no time"]
OUTSIDE = ["wrapped functions which raise CancelledError by themselves",
           "callers on several event loops"]

OUT = ["ok", "short", "long", "error", "none"]
OUT_ASYNC = ["ok", "short", "error", "own-exc", "early", "ok-then-error"]


class Rig:
    def __init__(self, mx, kind, outs, dur, deco=False):
        self.L = pos_real("leeway")         # seconds
        self.mx = mx
        self.calls = []
        self.outs = outs
        self.dur = dur
        self.kind = kind
        kw = {} if mx is None else {"max_count": mx}
        ms = self.L * 1000
        if kind == "plain":
            self.fn = (aggregate(ms, **kw)(self.func) if deco else
                       Aggregator(self.func, leeway_ms=ms, **kw).aggregate)
        else:
            self.fn = (aggregate_async(ms, **kw)(self.afunc) if deco else
                       AggregatorAsync(self.afunc, leeway_ms=ms,
                                       **kw).aggregate)

    def begin(self, values):
        n = len(self.calls)
        rec = dict(args=values, start=now(), end=None, how=None, n=n,
                   out=pick("out", self.outs), err=Err("call%d" % n),
                   res={v: object() if i else None
                        for i, v in enumerate(values)}, own={})
        self.calls.append(rec)
        return rec

    async def work(self, rec):
        try:
            if self.dur:
                await asyncio.sleep(sym_real("dur", 0))
        except asyncio.CancelledError:
            rec["how"] = "cancelled"
            rec["end"] = now()
            raise
        rec["end"] = now()
        rec["how"] = "end"

    async def func(self, *args):
        rec = self.begin(list(args))
        await self.work(rec)
        if rec["out"] == "error":
            raise rec["err"]
        res = [rec["res"][a] for a in args]
        if rec["out"] == "short":
            return res[:-1]
        if rec["out"] == "none":
            return iter(())
        if rec["out"] == "long":
            return res + [object()]
        return tuple(res)

    async def afunc(self, *args):
        rec = self.begin([a.value for a in args])
        out = rec["out"]
        if out == "early":
            for a in args[:1]:
                if not a.future.done():
                    a.future.set_result(rec["res"][a.value])
        await self.work(rec)
        if out == "error":
            raise rec["err"]
        for i, a in enumerate(args):
            if a.future.done():
                continue
            if out == "short" and i == len(args) - 1:
                continue
            if out == "own-exc" and i == 0:
                e = rec["own"][a.value] = Err("own")
                a.future.set_exception(e)
                continue
            a.future.set_result(rec["res"][a.value])
            if out == "ok-then-error":
                raise rec["err"]

    def expected(self, rec, v):
        out, res = rec["out"], rec["res"][v]
        last = rec["args"][-1]
        first = rec["args"][0]
        if out in ("ok", "long"):
            return "ok", res
        if out == "error":
            return "exc", rec["err"]
        if out == "short":
            return ("notset",) if v is last else ("ok", res)
        if out == "none":
            return ("notset",)
        if out == "own-exc":
            return ("exc", rec["own"].get(v)) if v is first else ("ok", res)
        if out == "early":
            return "ok", res
        if out == "ok-then-error":
            return ("ok", res) if v is first else ("exc", rec["err"])


class Value:
    def __init__(self, i):
        self.i = i


def calls(n, mx, kind, outs, cancel, dur=True, deco=False, ties="separate"):
    async def main():
        rig = Rig(mx, kind, outs, dur, deco)
        loop = asyncio.get_event_loop()
        values = [Value(i) for i in range(n)]
        arrive = []
        results = [None] * n
        ended = [None] * n

        async def caller(i):
            results[i] = await outcome(rig.fn(values[i]))
            ended[i] = now()
        tasks = []
        victim = choose("victim", n) if cancel else None
        order = []

        async def start(i):
            arrive.append(now())
            order.append(i)
            results[i] = await outcome(rig.fn(values[i]))
            ended[i] = now()
        handle = None
        C = None
        t0 = now()
        if cancel:
            C = sym_real("cancel_at", 0)
            fired = []

            def do_cancel():
                if victim < len(tasks) and not tasks[victim].done():
                    fired.append(now())
                    tasks[victim].cancel()
            handle = loop.call_later(C, do_cancel)
        for i in range(n):
            if i:
                g = sym_real("gap", 0)
                if bool(g > 0):
                    await asyncio.sleep(g)
            tasks.append(loop.create_task(start(i)))
        await asyncio.gather(*tasks, return_exceptions=True)
        if cancel:
            handle.cancel()
        was_cancelled = victim if cancel and fired and (
            results[victim] is None or results[victim][0] == "cancelled") \
            else None
        if cancel and fired and was_cancelled is None:
            # cancelled in the very step in which its result came
            check(ended[victim] == fired[0], "cancellation-not-swallowed")
        # every complete call
        full = [c for c in rig.calls if c["how"] == "end"]
        check(all(c["how"] is not None for c in rig.calls),
              "no-call-left-running")
        seq = [v for c in full for v in c["args"]]
        check(len(set(map(id, seq))) == len(seq), "one-call-per-argument")
        # who got a result before the call was cancelled needs no other
        early = {}
        for c in rig.calls:
            if c["how"] == "cancelled" and c["out"] == "early" and \
                    c["args"][0].i not in early:
                early[c["args"][0].i] = c
        for i, v in enumerate(values):
            if i == was_cancelled:
                continue
            if i in early:
                continue
            check(v in seq, "every-argument-served")
        for c in rig.calls:
            idx = [v.i for v in c["args"]]
            check(len(idx) > 0, "no-empty-call")
            check(mx is None or len(idx) <= mx, "maximum-count")
            check(idx == list(range(idx[0], idx[0] + len(idx))) or (
                was_cancelled is not None and idx == sorted(idx)),
                "arrival-order")
            c["idx"] = idx
        aborted = {}
        for c in rig.calls:
            # nothing is owed to a cancelled caller
            live = [k for k in c["idx"] if k != was_cancelled]
            first = arrive[order.index(live[0])] if live else None
            key = tuple(c["idx"])
            if key in aborted:
                check(c["start"] == aborted[key], "repeated-at-once")
                cover("repeated")
                continue
            if first is not None:
                check(c["start"] <= first + rig.L, "leeway")
                if mx is not None and len(c["idx"]) == mx:
                    li = c["idx"][-1]
                    # a cancelled one may have filled the batch
                    check(c["start"] == arrive[order.index(li)],
                          "full-batch-at-once")
                    cover("full")
                elif was_cancelled is None:
                    check(c["start"] == first + rig.L, "waits-the-leeway")
                    cover("leeway")
            if c["how"] == "cancelled":
                check(was_cancelled is not None and
                      c["end"] == fired[0], "call-cancelled-by-caller-only")
                aborted[key] = c["end"]
        # nobody who came in time is left for another batch
        if was_cancelled is None:
            for c in full:
                nxt = c["idx"][-1] + 1
                if nxt < n and (mx is None or len(c["idx"]) < mx):
                    a = arrive[nxt]
                    check(a >= c["start"], "collects-the-whole-window")
        for i, v in enumerate(values):
            r = results[i]
            if i == was_cancelled:
                if r is not None:
                    check(ended[i] == fired[0], "cancelled-at-once")
                cover("cancelled")
                continue
            if i in early:
                check(r[0] == "ok" and r[1] is early[i]["res"][v],
                      "own-result")
                check(ended[i] == early[i]["end"], "result-in-time")
                cover("early")
                continue
            c = [c for c in full if v in c["args"]][0]
            want = rig.expected(c, v)
            if want[0] == "notset":
                check(r[0] == "exc" and isinstance(r[1], ResultNotSetError),
                      "result-not-set")
                cover("notset")
            else:
                check(r[0] == want[0] and r[1] is want[1],
                      "own-result" if want[0] == "ok" else "own-error")
                cover(want[0])
            check(ended[i] == c["end"], "result-in-time")
        # the aggregator is as good as new
        rig.outs = ["ok"]
        rig.dur = False
        k = len(rig.calls)
        extra = Value(n)
        t1 = now()
        r = await outcome(rig.fn(extra))
        check(r[0] == "ok" and len(rig.calls) == k + 1 and
              r[1] is rig.calls[-1]["res"][extra], "usable-afterwards")
        if was_cancelled is None:
            check(rig.calls[-1]["args"] == [extra], "usable-afterwards")
            check(now() == (t1 if mx == 1 else t1 + rig.L), "leeway")

    run(main(), ties=ties)


def limits(kind):
    async def main():
        ms = sym_real("leeway_ms")
        mx = sym_int("max_count")
        use_mx = choose("use_max", 2)
        variadic = choose("variadic", 2)

        async def f(*args):
            return args

        async def g(a, b, *, c=1):
            return a
        deco = {"plain": aggregate, "async": aggregate_async}[kind]
        ok = And(ms > 0, Or(not use_mx, mx > 0), bool(variadic))
        try:
            if use_mx:
                deco(ms, max_count=mx)(f if variadic else g)
            else:
                deco(ms)(f if variadic else g)
        except ValueError:
            check(Not(ok), "valid-accepted")
            cover("refused")
        else:
            check(ok, "invalid-refused")
            cover("accepted")

    run(main())


def scenarios(tier):
    q = tier == "quick"
    out = []
    for kind, outs in (("plain", OUT), ("async", OUT_ASYNC)):
        for mx in (None, 1, 2, 3):
            def add(name, cov, **kw):
                p = dict(n=3, mx=mx, kind=kind, outs=["ok"], cancel=False)
                p.update(kw)
                out.append(Scenario("%s-max%s%s" % (kind, mx, name), calls,
                                    p, cov))
            cov = ["exc", "ok", "notset"]
            cov += ["full"] if mx in (1, 2) else ["leeway"]
            add("", cov, n=2 if q else 3, outs=outs)
            add("-at-once", cov, outs=outs, dur=False, deco=True)
            add("-many", ["ok"], dur=not q, n=4)
            add("-cancel", ["ok", "cancelled"] + (
                ["repeated"] if mx != 1 else []), cancel=True,
                n=2 if q else 3,
                outs=["ok", "error"], deco=True)
            if not q or mx == (3 if kind == "plain" else 2):
                add("-cancel-more", ["ok", "cancelled", "repeated"],
                    cancel=True, n=3)
        if kind == "async":
            # the running one is cancelled, some have got their results
            for mx in (2, 3):
                out.append(Scenario(
                    "async-max%d-cancel-early" % mx, calls,
                    dict(n=mx, mx=mx, kind=kind, outs=["early"],
                         cancel=True), ["ok", "cancelled", "early"]))
        out.append(Scenario("%s-tie" % kind, calls,
                            dict(n=2, mx=2, kind=kind, outs=["ok"],
                                 cancel=True, ties="fork"), ["ok"]))
        out.append(Scenario("limits-" + kind, limits, dict(kind=kind),
                            ["refused", "accepted"]))
    return out
