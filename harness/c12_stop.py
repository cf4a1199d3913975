import asyncio
import signal

from symx.api import *
from harness.ep_common import *

BOUNDS = {
    "quick": "<=3 services with arbitrary stop durations and outcomes, one "
             "with a background part, arbitrary instants of leaving or of "
             "the signal, shutdown timeout 5 s, receivers of arbitrary "
             "duration",
    "thorough": "4 services",
}
ASSUMPTIONS = ["instants are mathematical reals; callbacks take no time",
               "receivers do not fail; stops and tasks end when cancelled",
               "no thread jobs are running when the loop goes away"]
OUTSIDE = ["failing receivers", "a second signal during the shutdown",
           "reaction of the process to the exit status"]

SLACK = 0.1         # ending idle threads
STOPS = ["ok", "fail"]


def services(n, modes, bg, world):
    out = []
    for i in range(n):
        s = Svc(i, "end", world=world,
                stop_d=sym_real("stop", 0),
                stop_mode=(pick("outcome", STOPS) if modes is None
                           else modes[i]))
        if i < bg:
            s.mode = "ready"
            s.extra = 1e9
            s.bye = sym_real("bye", 0)
        out.append(s)
    return out


def no_context(loop):
    try:
        aiomisc.get_context(loop)
    except (KeyError, RuntimeError):
        return True
    return False


def stopped(w, svcs, t0, why, closer=None):
    """all the promises of leaving; t0: when it was left"""
    pre = w.ended("pre_stop")
    post = w.ended("post_stop")
    check({c[1] for c in pre} == set(range(w.count)),
          "every-pre-stop-receiver")
    check({c[1] for c in post} == set(range(w.count)),
          "every-post-stop-receiver")
    for s in svcs:
        check(len(s.stops) == 1, "every-service-stopped-once")
        check(s.stop_how == ("ok" if s.stop_mode == "ok" else "failed"),
              "each-stop-runs-to-its-end")
        at, exc = s.stops[0]
        why(exc)
        for c in post:
            check(c[2] >= s.stop_ended, "post-stop-receivers-at-the-end")
        check(not s.running, "background-ends")
        if s.mode == "ready":
            check(s.how_ended == "cancelled", "background-is-cancelled")
            check(s.start_ended <= now(), "background-is-cancelled")


def in_parallel(w, svcs, t0):
    """no longer than needed"""
    ends = [s.stop_ended for s in svcs]
    pre = [c[3] for c in w.ended("pre_stop")]
    if ends:
        first = svcs[0].stops[0][0]
        for s in svcs:
            check(s.stops[0][0] == first, "stops-run-concurrently")
        check(smax(first, *ends) == smax(*ends), "stops-run-concurrently")


def leaving(n, how, modes=None, bg=0, durations=(), count=1, sync=False):
    g = guarded()
    w = World({name: (lambda k, name=name: sym_real(name, 0))
               for name in durations})
    svcs = services(n, modes, bg, w)
    body_exc = Err("body")
    closers = []

    def why(exc):
        if how == "exception":
            check(exc is body_exc, "stop-gets-the-reason")
        else:
            check(exc is None, "stop-gets-the-reason")

    async def waiter(ep):
        await ep.closing()
        closers.append(now())

    async def inside(ep, tasks, stray):
        tasks.append(asyncio.ensure_future(waiter(ep)))
        stray.append(asyncio.ensure_future(asyncio.Event().wait()))
        if choose("two_closers", 2):
            tasks.append(asyncio.ensure_future(waiter(ep)))
        await settle(2)
        d = sym_real("inside", 0)
        assume(d < 1000)
        await asyncio.sleep(d)
        check(not any(t.done() for t in tasks), "closing-only-at-the-end")

    def judge(ep, loop, left, tasks, exc):
        fails = [s for s in svcs if s.stop_mode == "fail"]
        if how == "exception":
            check(exc is body_exc or any(exc is s.stop_exc for s in fails),
                  "the-exception-passes")
            if not fails:
                check(exc is body_exc, "the-exception-passes")
        else:
            check(exc is None or any(exc is s.stop_exc for s in fails),
                  "unexpected-exception")
        if fails:
            cover("failed-stop")
        stopped(w, svcs, left, why)
        in_parallel(w, svcs, left)
        check(all(t.done() for t in tasks), "closing-waiters-released")
        # with nothing to stop the waiters are cancelled along with the rest
        check(len(closers) == len(tasks) or (sync and not svcs),
              "closing-waiters-released")
        for c in closers:
            check(c == left, "closing-waiters-released")
        check(no_context(loop), "context-discarded")
        check(g.restored(), "signal-handlers-restored")
        check(not ep.services, "none-is-listed")

    async def main():
        loop = asyncio.get_running_loop()
        ep = entry(*svcs)
        w.attach(ep, count=count)
        tasks, stray = [], []
        left, exc = None, None
        try:
            async with ep:
                check(not g.restored(), "signals-are-caught-inside")
                await inside(ep, tasks, stray)
                left = now()
                if how == "exception":
                    raise body_exc
        except (Err, StopBoom) as e:
            exc = e
        await settle(3)
        judge(ep, loop, left, tasks, exc)
        longest = smax(left, *[s.stop_ended for s in svcs]) if svcs else left
        if not durations and not bg:
            check(now() == longest, "no-longer-than-needed")

    def blocking():
        ep = entry(*svcs)
        w.attach(ep, count=count)
        tasks, stray = [], []
        left, exc = None, None
        try:
            with ep as loop:
                check(not g.restored(), "signals-are-caught-inside")
                loop.run_until_complete(inside(ep, tasks, stray))
                left = now()
                if how == "exception":
                    raise body_exc
        except (Err, StopBoom) as e:
            exc = e
        judge(ep, loop, left, tasks, exc)
        check(loop.is_closed(), "loop-closed")
        check(all(t.cancelled() for t in stray), "other-tasks-cancelled")

    with g:
        if sync:
            blocking()
        else:
            run(main())


def signalled(n, where, modes=None, bg=0, timeout=5.0, slow="stop",
              count=1, twice=False):
    """SIGTERM / SIGINT"""
    g = guarded()
    w = World()
    svcs = services(n, modes, bg, w)
    if slow != "stop":
        for s in svcs:
            s.stop_d = None
    state = {}
    closers = []

    async def main_task(ep):
        try:
            await asyncio.Event().wait()
        finally:
            state["main_ended"] = now()

    async def waiter(ep):
        await ep.closing()
        closers.append(now())

    with g:
        ep = entry(*svcs, shutdown_timeout=timeout)
        w.attach(ep, count=count)
        T = sym_real("signal_at", 0)
        assume(T < 1000)
        exc = None
        try:
            with ep as loop:
                t1 = loop.create_task(waiter(ep))
                loop.run_until_complete(settle(2))

                def arrive():
                    state["at"] = now()
                    first = pick("signal", SIGNALS)
                    deliver(first)
                    if twice:
                        for other in SIGNALS:
                            deliver(other)
                loop.call_later(T, arrive)
                if where == "forever":
                    loop.create_task(main_task(ep))
                    loop.run_forever()
                else:
                    loop.run_until_complete(main_task(ep))
        except SystemExit as e:
            exc = e
        except asyncio.CancelledError as e:
            exc = e
            check(where != "forever", "unexpected-exception")
        except RuntimeError as e:
            exc = e
            check(where != "forever", "unexpected-exception")
        except StopBoom as e:
            exc = e
        t0 = state["at"]
        total = smax(0.0, *[s.stop_d for s in svcs]) if slow == "stop" \
            else 0.0
        if bg:
            total = total + smax(0.0, *[s.bye for s in svcs if s.bye
                                        is not None])
        if isinstance(exc, SystemExit):
            cover("cut-off")
            check(exc.code == 70, "exit-status")
            check(total >= timeout - SLACK, "not-before-the-timeout")
            if not bg:
                check(And(now() >= t0 + timeout,
                          now() <= t0 + timeout + SLACK),
                      "cut-off-at-the-timeout")
        else:
            cover("in-time")
            check(total <= timeout, "cut-off-at-the-timeout")

            def why(e):
                check(isinstance(e, Exception), "stop-gets-the-reason")
            stopped(w, svcs, t0, why)
            in_parallel(w, svcs, t0)
            check(And(now() >= t0 + total, now() <= t0 + total + SLACK),
                  "no-longer-than-needed")
        check(t1.done() and (not svcs or closers == [t0]), "closing-waiters-released")
        check("main_ended" in state or isinstance(exc, SystemExit),
              "other-tasks-cancelled")
        check(g.restored(), "signal-handlers-restored")
        check(not g.got, "signals-are-caught-inside")
        deliver(signal.SIGTERM)
        check(g.got, "signal-handlers-restored")
        check(no_context(loop), "context-discarded")
        check(loop.is_closed(), "loop-closed")


def ending(n, modes, timeout=5.0):
    """the body ends while the shutdown by a signal is under way"""
    g = guarded()
    w = World()
    svcs = services(n, modes, 0, w)
    state = {}
    exc = None
    with g:
        ep = entry(*svcs, shutdown_timeout=timeout)
        w.attach(ep, count=1)
        T = sym_real("signal_at", 0)
        assume(T < 1000)
        more = sym_real("body_goes_on", 0, strict=True)
        total = smax(0.0, *[s.stop_d for s in svcs])
        assume(And(more < total, more < timeout))
        try:
            with ep as loop:
                loop.run_until_complete(settle(2))

                def arrive():
                    state["at"] = now()
                    deliver(pick("signal", SIGNALS))
                loop.call_later(T, arrive)
                loop.run_until_complete(asyncio.sleep(T + more))
                state["left"] = now()
        except SystemExit as e:
            exc = e
        except StopBoom as e:
            exc = e
        t0 = state["at"]
        check("left" in state, "the-body-goes-on")
        if isinstance(exc, SystemExit):
            cover("cut-off")
            check(exc.code == 70, "exit-status")
            check(total >= timeout - SLACK, "not-before-the-timeout")
            check(And(now() >= t0 + timeout,
                      now() <= t0 + timeout + SLACK),
                  "cut-off-at-the-timeout")
        else:
            cover("in-time")
            check(total <= timeout, "cut-off-at-the-timeout")
            stopped(w, svcs, t0, lambda e: check(
                isinstance(e, Exception), "stop-gets-the-reason"))
            in_parallel(w, svcs, t0)
            check(And(now() >= t0 + total, now() <= t0 + total + SLACK),
                  "no-longer-than-needed")
        check(g.restored(), "signal-handlers-restored")
        check(no_context(loop), "context-discarded")
        check(loop.is_closed(), "loop-closed")


def daemon(n, modes, timeout=5.0):
    """``await ep.closing()`` inside, and a signal"""
    g = guarded()
    w = World()
    svcs = services(n, modes, 0, w)
    state = {}

    async def main():
        ep = entry(*svcs, shutdown_timeout=timeout,
                   catch_signals=SIGNALS)
        w.attach(ep, count=1)
        async with ep:
            T = sym_real("signal_at", 0)
            assume(T < 1000)

            def arrive():
                state["at"] = now()
                deliver(signal.SIGTERM)
            asyncio.get_running_loop().call_later(T, arrive)
            await ep.closing()
            check(now() == state["at"], "closing-waiters-released")
            await nap(sym_real("after", 0))
        state["left"] = now()

    exc = None
    with g:
        loop = new_loop()
        try:
            task = loop.create_task(main())
            loop.run_until_complete(task)
        except SystemExit as e:
            exc = e
        except (StopBoom, RuntimeError) as e:
            exc = e
        t0 = state["at"]
        total = smax(0.0, *[s.stop_d for s in svcs])
        if isinstance(exc, SystemExit):
            cover("cut-off")
            check(exc.code == 70, "exit-status")
            check(total >= timeout - SLACK, "not-before-the-timeout")
            check(And(now() >= t0 + timeout, now() <= t0 + timeout + SLACK),
                  "cut-off-at-the-timeout")
        else:
            cover("in-time")
            stopped(w, svcs, t0, lambda e: check(
                isinstance(e, Exception), "stop-gets-the-reason"))
            in_parallel(w, svcs, t0)
            check(g.restored(), "signal-handlers-restored")


def uncaught():
    """only what was asked for is caught"""
    g = guarded()
    with g:
        sigs = pick("catch", [(), (signal.SIGTERM,), None])

        async def main():
            kw = {} if sigs is None else {"catch_signals": sigs}
            async with entry(**kw):
                for s in SIGNALS:
                    same = signal.getsignal(s) == g.saved[s]
                    want = s not in (SIGNALS if sigs is None else sigs)
                    check(same == want, "signals-are-caught-inside")
            check(g.restored(), "signal-handlers-restored")
        run(main())


def part(n, k, modes=None):
    """some services are stopped inside"""
    w = World()
    svcs = services(n, modes, 0, w)

    async def main():
        ep = entry(*svcs)
        w.attach(ep, count=1)
        async with ep:
            some, rest = svcs[:k], svcs[k:]
            fails = [s for s in some if s.stop_mode == "fail"]
            why = Err("asked")
            try:
                await ep.stop_services(*some, exc=why)
            except StopBoom as e:
                check(any(e is s.stop_exc for s in fails),
                      "unexpected-exception")
            stopped(w, some, now(), lambda e: check(
                e is why, "stop-gets-the-reason"))
            check(set(ep.services) == set(rest), "others-go-on")
            for s in rest:
                check(not s.stops, "others-go-on")
            await asyncio.sleep(sym_real("inside", 0))
            for s in rest:
                check(not s.stops, "others-go-on")
                s.stop_mode = "ok"
        for s in svcs:
            check(len(s.stops) == 1, "every-service-stopped-once")
    with guarded():
        run(main())


def scenarios(tier):
    out = []
    for sync in (False, True):
        t = "-sync" if sync else ""
        out += [
            Scenario("normal" + t, leaving, dict(
                n=2, how="normal", sync=sync), covers=("failed-stop",)),
            Scenario("exception" + t, leaving, dict(
                n=2, how="exception", sync=sync), covers=("failed-stop",)),
            Scenario("three" + t, leaving, dict(
                n=3, how="normal", modes=("ok", "fail", "ok"), sync=sync)),
            Scenario("background" + t, leaving, dict(
                n=2, how="normal", modes=("ok", "ok"), bg=1, sync=sync)),
            Scenario("receivers" + t, leaving, dict(
                n=1, how="normal", modes=("ok",),
                durations=("pre_stop", "post_stop"), count=2, sync=sync)),
            Scenario("none" + t, leaving, dict(
                n=0, how="normal", sync=sync)),
        ]
    out += [
        Scenario("signal", signalled, dict(
            n=2, where="forever", modes=("ok", "ok")),
            covers=("cut-off", "in-time")),
        Scenario("signal-fail", signalled, dict(
            n=2, where="forever", modes=("ok", "fail")),
            covers=("cut-off", "in-time")),
        Scenario("signal-main", signalled, dict(
            n=2, where="main", modes=("ok", "ok")),
            covers=("cut-off", "in-time")),
        Scenario("signal-none", signalled, dict(n=0, where="forever")),
        Scenario("signal-background", signalled, dict(
            n=1, where="forever", modes=("ok",), bg=1),
            covers=("in-time",)),
        Scenario("signal-twice", signalled, dict(
            n=2, where="forever", modes=("ok", "ok"), twice=True),
            covers=("cut-off", "in-time")),
        Scenario("signal-daemon", daemon, dict(n=2, modes=("ok", "ok")),
                 covers=("cut-off", "in-time")),
        Scenario("signal-ending", ending, dict(n=2, modes=("ok", "ok")),
                 covers=("cut-off", "in-time")),
        Scenario("uncaught", uncaught, {}),
        Scenario("part", part, dict(n=3, k=2)),
    ]
    if tier == "thorough":
        out += [
            Scenario("four", leaving, dict(n=4, how="normal")),
            Scenario("three-background", leaving, dict(
                n=3, how="exception", bg=2)),
            Scenario("signal-three", signalled, dict(
                n=3, where="forever"), covers=("cut-off", "in-time")),
            Scenario("part-four", part, dict(n=4, k=3)),
        ]
    return out
