import asyncio

from symx.api import *

import aiomisc
from aiomisc import asyncbackoff, asyncretry, timeout

BOUNDS = {
    "quick": "<=3 attempts, every attempt duration / pause / attempt_timeout "
             "/ deadline / cancellation instant an arbitrary real, every "
             "outcome per attempt of {value, listed exception, listed "
             "subclass, unlisted exception}, giveup verdict per failure; "
             "three calls of one decorated function (two of them at the same "
             "time); limits of zero",
    "thorough": "as quick with <=4 attempts",
}
ASSUMPTIONS = [
    "instants are mathematical reals; the clock advances only while the loop "
    "is idle (callbacks take no time)",
    "the wrapped function gives up promptly when it is cancelled",
    "callbacks due at exactly the same instant run in creation order",
]
OUTSIDE = ["functions which suppress cancellation", "more attempts"]


class Listed(Err):
    pass


class ListedSub(Listed):
    pass


class Unlisted(Err):
    pass


def backoff(n, use_a, use_d, tries, giveup, cancel, deco="backoff",
            keyword=False):
    A = pos_real("attempt_timeout") if use_a else None
    D = pos_real("deadline") if use_d else None
    P = sym_real("pause", 0)
    if tries == "none":
        M = None
    else:
        M = tries
    log = []          # (start, kind, exc/value, end)
    giveup_calls = []
    args = (object(),)
    kw = {"k": object()}

    async def main():
        t0 = now()
        running = 0

        async def func(*a, **k):
            nonlocal running
            i = len(log)
            check(len(a) == 1 and a[0] is args[0] and list(k) == ["k"] and
                  k["k"] is kw["k"], "same-arguments")
            check(running == 0, "attempts-do-not-overlap")
            running += 1
            rec = {"start": now(), "kind": "?", "end": None, "val": None}
            log.append(rec)
            try:
                if i >= n - 1:
                    # bound: this attempt succeeds at once
                    kind = d = 0
                else:
                    kind = choose("outcome", 4)
                    d = sym_real("duration", 0)
                await asyncio.sleep(d)
                val = [object(), Listed(i), ListedSub(i), Unlisted(i)][kind]
                rec["kind"] = ("ok", "listed", "listed", "unlisted")[kind]
                rec["val"] = val
                if kind == 0:
                    return val
                raise val
            except asyncio.CancelledError:
                rec["kind"] = "cancelled"
                raise
            finally:
                rec["end"] = now()
                running -= 1

        verdicts = []

        def give(e):
            giveup_calls.append(e)
            v = bool(sym_bool("giveup"))
            verdicts.append(v)
            return v

        if deco == "backoff":
            wrapped = asyncbackoff(
                A, D, P, *(() if keyword else (Listed,)),
                **({"exceptions": (Listed,)} if keyword else {}),
                max_tries=M, giveup=give if giveup else None)(func)
        else:
            wrapped = asyncretry(
                M, exceptions=(Listed,), pause=P,
                giveup=give if giveup else None)(func)

        task = asyncio.ensure_future(outcome(wrapped(*args, **kw)))
        C = None
        if cancel:
            C = pos_real("cancel_at")
            canceller(task, C)
        status, val = await task
        t1 = now()
        count = len(log)
        event("end", status, count, t1)
        check(running == 0, "no-attempt-left-running")
        await asyncio.sleep(1)
        check(len(log) == count, "no-attempt-after-the-end")
        if D is not None:
            check(t1 - t0 <= D, "deadline-respected")
        if M is not None:
            check(count <= M, "max-tries-respected")
        for i, r in enumerate(log):
            if A is not None:
                check(r["end"] - r["start"] <= A, "attempt-timeout-respected")
            if i:
                check(r["start"] == log[i - 1]["end"] + P, "pause-respected")
        check(count > 0 or status == "cancelled" or status == "exc",
              "at-least-one-attempt")
        if count:
            check(log[0]["start"] == t0, "first-attempt-at-once")

        # failures seen by the retry loop, in order
        fails = []
        for i, r in enumerate(log):
            last = i == count - 1
            cut_by_attempt = False
            if r["kind"] == "cancelled" and A is not None:
                cut_by_attempt = r["end"] == r["start"] + A
            if not last:
                # continued: must be a retryable failure
                check(Or(r["kind"] == "listed",
                         And(r["kind"] == "cancelled", cut_by_attempt)),
                      "retry-only-after-retryable")
                if giveup:
                    check(i < len(verdicts) and not verdicts[i],
                          "no-retry-without-asking-giveup")
                    check(giveup_calls[i] is r["val"] or (
                        r["kind"] == "cancelled" and isinstance(
                            giveup_calls[i], asyncio.TimeoutError)),
                        "giveup-argument")
        if status == "cancelled":
            check(cancel, "cancelled-only-on-request")
            if cancel:
                check(t1 == t0 + C, "cancellation-immediate")
            cover("cancelled")
            return
        if cancel:
            # a cancellation strictly before the end is not lost
            check(t1 <= t0 + C, "cancellation-not-swallowed")
        last = log[-1] if log else None
        if status == "ok":
            check(last is not None and last["kind"] == "ok" and
                  val is last["val"], "value-of-the-successful-attempt")
            cover("ok")
            if count > 1:
                cover("ok-after-retry")
            return
        # an exception came out: it must be justified
        if last is not None and last["kind"] == "ok":
            fail("success-lost")
        if last is not None and last["kind"] == "unlisted":
            check(val is last["val"], "unlisted-raised-as-is")
            cover("unlisted")
            return
        at_deadline = D is not None and t1 == t0 + D
        if D is not None and bool(t1 == t0 + D):
            # deadline: the last failure, or TimeoutError when none
            prev = [r for r in log if r["kind"] in ("listed",)]
            if prev and last["kind"] == "listed":
                check(val is last["val"] or (
                    isinstance(val, asyncio.TimeoutError) and M == count),
                    "deadline-raises-last-failure")
            elif prev:
                check(isinstance(val, (asyncio.TimeoutError, Listed)),
                      "deadline-raises-last-failure")
                if A is None or (count >= 2 and
                                 log[-2]["kind"] == "listed" and
                                 bool(last["end"] - last["start"] < A)):
                    check(val is prev[-1]["val"],
                          "deadline-raises-last-failure")
            else:
                check(isinstance(val, asyncio.TimeoutError),
                      "deadline-raises-timeout")
            cover("deadline")
            return
        # neither success nor deadline: tries exhausted or giveup
        exhausted = M is not None and count == M
        gave = bool(giveup and verdicts and verdicts[-1])
        check(exhausted or gave, "stopped-without-a-reason")
        cover("exhausted" if exhausted else "gaveup")
        if last["kind"] == "listed":
            check(val is last["val"], "last-exception-raised")
        else:
            check(isinstance(val, asyncio.TimeoutError) and A is not None,
                  "last-timeout-raised")
        check(t1 == last["end"], "final-failure-immediate")
        if giveup and last["kind"] == "listed" and gave:
            check(giveup_calls[-1] is last["val"], "giveup-argument")

    run(main())


def limit(cancel):
    """the timeout decorator on its own"""
    T = pos_real("limit")

    async def main():
        t0 = now()
        st = {"cancelled": False, "done": False}
        marker = object()
        kind = choose("kind", 2)
        d = sym_real("duration", 0)
        err = Err("own")

        @timeout(T)
        async def func(x, *, y):
            try:
                check(x is marker and y is marker, "same-arguments")
                await asyncio.sleep(d)
                st["done"] = True
                if kind:
                    raise err
                return marker
            except asyncio.CancelledError:
                st["cancelled"] = True
                raise

        task = asyncio.ensure_future(outcome(func(marker, y=marker)))
        if cancel:
            C = pos_real("cancel_at")
            canceller(task, C)
        status, val = await task
        t1 = now()
        event("end", status, t1)
        check(t1 - t0 <= T, "limit-respected")
        if status == "ok":
            check(st["done"] and val is marker and kind == 0, "own-value")
            cover("ok")
        elif status == "exc" and val is err:
            check(st["done"] and kind == 1, "own-exception")
            cover("exc")
        elif status == "exc":
            check(isinstance(val, asyncio.TimeoutError), "timeout-error")
            check(t1 == t0 + T, "not-before-the-limit")
            check(st["cancelled"], "timed-out-call-is-cancelled")
            cover("timeout")
        else:
            check(cancel and bool(t1 == t0 + C), "cancelled-on-request")
            check(st["cancelled"], "cancellation-forwarded")
            cover("cancelled")

    run(main())


def arguments():
    """invalid limits are refused at decoration time, valid ones accepted"""
    a = sym_real("attempt_timeout")
    d = sym_real("deadline")
    p = sym_real("pause")
    m = sym_int("max_tries", -3, 3)
    bad = Or(a < 0, d < 0, p < 0, m < 1)
    try:
        asyncbackoff(a, d, p, max_tries=m)
    except ValueError:
        check(bad, "valid-arguments-accepted")
        cover("refused")
    else:
        check(Not(bad), "invalid-arguments-refused")
        cover("accepted")
    try:
        asyncbackoff(None, None, 0, giveup=5)
    except ValueError:
        pass
    else:
        fail("giveup-must-be-callable")


def several(deco):
    """calls of one decorated function know nothing of each other"""
    P = sym_real("pause", 0)
    gap = sym_real("gap", 0)
    fails = [choose("fails%d" % i, 3) for i in range(3)]
    durs = [sym_real("duration%d" % i, 0) for i in range(2)] + [1]

    async def main():
        calls = {}

        async def func(i, falsy=None, *rest, **kw):
            check(falsy == () and not rest and kw == {"opt": 0},
                  "same-arguments")
            log = calls.setdefault(i, [])
            log.append(now())
            n = len(log)
            await asyncio.sleep(durs[i])
            if n <= fails[i]:
                e = Listed("%d.%d" % (i, n))
                log[-1] = (log[-1], now(), e)
                raise e
            log[-1] = (log[-1], now(), None)
            # results which are falsy are results
            return [None, 0, ""][i]

        if deco == "retry":
            f = asyncretry(2, exceptions=[Listed], pause=P)(func)
        else:
            f = asyncbackoff(None, None, P, exceptions=[Listed],
                             max_tries=2)(func)

        async def call(i):
            t0 = now()
            status, val = await outcome(f(i, (), opt=0))
            t1 = now()
            log = calls[i]
            check(len(log) == min(2, fails[i] + 1), "attempts-of-this-call")
            check(log[0][0] == t0, "first-attempt-at-once")
            for a, b in zip(log, log[1:]):
                check(b[0] == a[1] + P, "pause-respected")
            check(t1 == log[-1][1], "ends-with-its-last-attempt")
            if fails[i] == 2:
                check(status == "exc" and val is log[-1][2],
                      "last-exception-raised")
                cover("failed")
            else:
                check(status == "ok" and val == [None, 0, ""][i] and
                      type(val) is type([None, 0, ""][i]),
                      "value-of-the-successful-attempt")
                cover("ok")

        async def later():
            await asyncio.sleep(gap)
            await call(1)

        await asyncio.gather(call(0), later())
        # and one after the others
        await call(2)

    run(main())


def zero():
    """limits of zero are limits, too"""
    d = pos_real("duration")
    P = sym_real("pause", 0)
    which = choose("which", 3)
    tries = 1 + choose("tries", 2)

    async def main():
        t0 = now()
        ended = []

        async def func():
            try:
                await asyncio.sleep(d)
            finally:
                ended.append(now())

        if which == 0:
            f = asyncbackoff(0, None, P, max_tries=tries)(func)
            want = t0 + P * (tries - 1)
        elif which == 1:
            f = asyncbackoff(None, 0, P, max_tries=tries)(func)
            want = t0
        else:
            f = timeout(0)(func)
            want = t0
        status, val = await outcome(f())
        check(status == "exc" and isinstance(val, asyncio.TimeoutError),
              "a-limit-of-zero-is-a-limit")
        check(now() == want, "a-limit-of-zero-is-a-limit")
        await asyncio.sleep(d + 1)
        check(all(bool(e <= want) for e in ended), "no-attempt-left-running")
        cover("zero")

    run(main())


def unlisted():
    """without listed exceptions only time limits are tried again"""
    M = 1 + choose("tries", 3)
    A = pos_real("attempt_timeout")
    kind = choose("kind", 4)

    async def main():
        t0 = now()
        count = 0
        err = [Err("own"), asyncio.TimeoutError("own"), KeyError(0),
               None][kind]

        async def func():
            nonlocal count
            count += 1
            if err is None:
                await asyncio.sleep(A + 1)
            raise err

        f = asyncbackoff(A, None, 0, max_tries=M)(func)
        status, val = await outcome(f())
        check(status == "exc", "failure-reported")
        if kind in (1, 3):
            check(count == M, "time-limits-are-tried-again")
            check(isinstance(val, asyncio.TimeoutError), "timeout-error")
            if kind == 3:
                check(now() == t0 + A * M, "attempt-timeout-respected")
            cover("timeouts")
        else:
            check(count == 1 and val is err, "unlisted-raised-as-is")
            cover("unlisted")

    run(main())


def instant():
    """endless attempts which fail at once do not keep the others from
    running: they can be cancelled"""
    n = choose("turns", 4)

    async def main():
        count = 0

        async def func():
            nonlocal count
            count += 1
            check(count < 100, "others-may-run-between-the-attempts")
            raise Listed(count)

        f = asyncbackoff(None, None, 0, Listed)(func)
        task = asyncio.ensure_future(outcome(f()))
        for _ in range(n):
            await asyncio.sleep(0)
        task.cancel()
        await asyncio.wait([task])
        k = count
        await settle()
        check(count == k, "no-attempt-after-the-end")
        cover("cancelled")

    run(main())


def scenarios(tier):
    n = 3 if tier == "quick" else 4
    out = []

    def add(name, covers, **kw):
        out.append(Scenario(name, backoff, dict(n=n, **kw), covers))
    add("plain", ["ok", "ok-after-retry", "unlisted"], use_a=False,
        use_d=False, tries="none", giveup=False, cancel=False)
    add("tries", ["exhausted", "ok"], use_a=False, use_d=False, tries=2,
        giveup=False, cancel=True)
    add("tries1", ["exhausted", "ok"], use_a=True, use_d=False, tries=1,
        giveup=False, cancel=False)
    add("deadline", ["deadline", "ok"], use_a=False, use_d=True,
        tries="none", giveup=False, cancel=True)
    add("attempt+deadline", ["deadline", "ok"], use_a=True, use_d=True,
        tries="none", giveup=False, cancel=False)
    add("attempt+tries+giveup", ["exhausted", "gaveup"], use_a=True,
        use_d=False, tries=2, giveup=True, cancel=False)
    add("everything", ["exhausted", "gaveup", "deadline", "cancelled"],
        use_a=True, use_d=True, tries=2, giveup=True, cancel=True)
    add("keyword", ["exhausted", "gaveup"], use_a=False, use_d=False,
        tries=2, giveup=True, cancel=False, keyword=True)
    add("retry", ["exhausted", "gaveup", "cancelled"], use_a=False,
        use_d=False, tries=2, giveup=True, cancel=True, deco="retry")
    add("retry-forever", ["ok-after-retry"], use_a=False,
        use_d=False, tries="none", giveup=False, cancel=True, deco="retry")
    out.append(Scenario("timeout", limit, dict(cancel=True),
                        ["ok", "exc", "timeout", "cancelled"]))
    for deco in ("backoff", "retry"):
        out.append(Scenario("several-" + deco, several, dict(deco=deco),
                            ["ok", "failed"]))
    out.append(Scenario("zero", zero, {}, ["zero"]))
    out.append(Scenario("unlisted", unlisted, {}, ["timeouts", "unlisted"]))
    out.append(Scenario("instant", instant, {}, ["cancelled"]))
    out.append(Scenario("arguments", arguments, {},
                        ["refused", "accepted"]))
    return out
