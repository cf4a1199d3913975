import asyncio

from symx.api import *
from harness.ep_common import *

BOUNDS = {
    "quick": "<=3 services with arbitrary durations of start, readiness and "
             "what follows, one or two of them failing, one entering "
             "cancelled at an arbitrary instant, two receivers per signal "
             "with arbitrary durations",
    "thorough": "4 services",
}
ASSUMPTIONS = ["instants are mathematical reals; callbacks take no time",
               "receivers do not fail, services end when cancelled"]
OUTSIDE = ["a start which fails at the very instant it got ready",
           "failing receivers", "interrupts while entering"]

MODES = ["end", "ready", "fail", "ready-fail"]


def services(n, modes, world):
    out = []
    for i in range(n):
        mode = modes[i] if isinstance(modes, tuple) else pick("mode", modes)
        s = Svc(i, mode, world=world)
        if mode in ("ready", "ready-fail"):
            s.r = sym_real("ready", 0)
            s.extra = sym_real("runs_on", 0, strict=mode == "ready-fail")
        else:
            s.d = sym_real("start", 0)
        out.append(s)
    return out


def current(ep, svcs, ctx=True):
    check(Entrypoint.get_current() is ep, "entrypoint-is-current")
    loop = asyncio.get_event_loop()
    check(ep.loop is loop and EVENT_LOOP.get() is loop, "loop-is-current")
    if ctx:
        check(aiomisc.get_context() is ep.ctx, "context-is-current")
    for s in svcs:
        check(s.loop is loop, "loop-is-current")
        if ctx:
            check(s.context is ep.ctx, "context-is-current")


def entered(w, svcs, t0, post_d):
    """everything is up, in order, no later than needed"""
    pre = w.ended("pre_start")
    check(len(pre) == w.count and len({c[1] for c in pre}) == w.count,
          "every-pre-start-receiver-once")
    begun = smax(t0, *[c[3] for c in pre]) if pre else t0
    for s in svcs:
        check(len(s.start_calls) == 1, "every-service-starts")
        check(s.start_calls[0] == begun, "starts-at-once")
        check(s.up, "returns-when-all-are-up")
    post = w.ended("post_start")
    check(len(post) == w.count and len({c[1] for c in post}) == w.count,
          "every-post-start-receiver-once")
    up = smax(begun, *[s.up_at for s in svcs]) if svcs else begun
    for c in post:
        check(c[2] >= up, "post-start-receivers-after-all-are-up")
        check(set(c[4]) == set(svcs), "receivers-get-the-services")
    last = smax(up, *[c[3] for c in post]) if post else up
    check(now() == last, "returns-when-all-are-up")


def starting(n, modes, durations=(), count=2, sync=False):
    g = guarded()
    w = World({name: (lambda k, name=name: sym_real(name, 0))
               for name in durations})
    svcs = services(n, modes, w)
    fails = [s for s in svcs if s.mode == "fail"]

    def run_on():
        # what goes on after readiness goes on
        for s in svcs:
            if s.mode in ("ready", "ready-fail"):
                over = bool(s.ready_at + s.extra < now())
                if over:
                    check(not s.running, "background-ends")
                    check(s.how_ended == ("ok" if s.mode == "ready"
                                          else "failed"),
                          "background-goes-on")
                elif bool(s.ready_at + s.extra > now()):
                    cover("background")
                    check(s.running, "background-goes-on")

    def failed(e, ep):
        cover("failed")
        check(bool(fails), "fails-only-when-a-service-does")
        check(any(e is s.exc for s in fails), "raises-the-failure")
        check(not w.begun("post_start"),
              "post-start-receivers-after-all-are-up")
        me = [s for s in fails if s.exc is e][0]
        for s in fails:
            if s.start_ended is not None and s.how_ended == "failed":
                check(me.start_ended <= s.start_ended,
                      "raises-the-first-failure")

    def nothing_left():
        for s in svcs:
            check(not s.running, "nothing-stays-running")
            if s.up:
                cover("stopped")
                check(len(s.stops) == 1, "nothing-stays-running")
                check(s.stop_ended is not None, "nothing-stays-running")

    async def main():
        t0 = now()
        ep = entry(*svcs)
        entry()         # another one, which is not entered
        w.attach(ep, count=count)
        try:
            async with ep:
                check(not fails, "raises-the-failure")
                entered(w, svcs, t0, None)
                current(ep, svcs)
                check(set(ep.services) == set(svcs), "all-are-listed")
                run_on()
                await asyncio.sleep(sym_real("inside", 0))
                run_on()
                current(ep, svcs)
                for s in svcs:
                    check(not s.stops, "not-stopped-inside")
        except Boom as e:
            failed(e, ep)
            nothing_left()
        await settle(5)
        me = asyncio.current_task()
        check(not [t for t in asyncio.all_tasks() if t is not me],
              "nothing-stays-running")
        nothing_left()

    def blocking():
        t0 = now()
        ep = entry(*svcs)
        w.attach(ep, count=count)
        try:
            with ep as loop:
                check(not fails, "raises-the-failure")
                check(loop is ep.loop, "gives-the-loop")
                entered(w, svcs, t0, None)
                check(Entrypoint.get_current() is ep,
                      "entrypoint-is-current")

                async def body():
                    current(ep, svcs)
                    await asyncio.sleep(sym_real("inside", 0))
                    run_on()
                loop.run_until_complete(body())
                for s in svcs:
                    check(not s.stops, "not-stopped-inside")
        except Boom as e:
            failed(e, ep)
        nothing_left()

    with g:
        if sync:
            blocking()
        else:
            run(main())


def entering_cancelled(n, modes):
    w = World({"pre_start": lambda k: sym_real("pre", 0)})
    svcs = services(n, modes, w)

    async def main():
        ep = entry(*svcs)
        w.attach(ep, count=1)

        async def body():
            async with ep:
                body.inside = True
                await asyncio.sleep(1000000)
        body.inside = False
        task = asyncio.ensure_future(body())
        C = sym_real("cancel_at", 0)
        assume(C < 1000)
        await asyncio.sleep(C)
        task.cancel()
        k, v = await outcome(task)
        check(k == "cancelled" or isinstance(v, Boom), "cancelled")
        if not body.inside:
            cover("while-entering")
        for s in svcs:
            check(not s.running, "nothing-stays-running")
            if s.up:
                check(len(s.stops) == 1, "nothing-stays-running")
        await settle(5)
        me = asyncio.current_task()
        check(not [t for t in asyncio.all_tasks() if t is not me],
              "nothing-stays-running")
    with guarded():
        run(main())


def later(n, modes):
    """more services are started inside"""
    w = World()
    first = Svc(9, "end")
    svcs = services(n, modes, w)

    async def main():
        ep = entry(first)
        w.attach(ep, count=1)
        async with ep:
            check(first.up and not w.begun("pre_stop"), "started")
            w.calls.clear()
            t0 = now()
            try:
                await ep.start_services(*svcs)
            except Boom as e:
                check(any(e is s.exc for s in svcs if s.mode == "fail"),
                      "raises-the-failure")
                cover("failed")
            else:
                check(not [s for s in svcs if s.mode == "fail"],
                      "raises-the-failure")
                entered(w, svcs, t0, None)
                check(set(ep.services) == set(svcs) | {first},
                      "all-are-listed")
            check(not first.stops, "others-go-on")
        for s in svcs + [first]:
            check(not s.running, "nothing-stays-running")
            if s.up:
                check(len(s.stops) == 1, "nothing-stays-running")
    with guarded():
        run(main())


def again():
    """a service which was stopped is started once more"""
    class Two(Service):
        up = 0
        stops = 0

        async def start(self):
            d = sym_real("start", 0)
            r = sym_real("runs_on", 0)
            await nap(d)
            if choose("signals", 2):
                self.start_event.set()
                self.up += 1
                await nap(r)
            else:
                self.up += 1

        async def stop(self, exc=None):
            self.stops += 1

    async def main():
        svc = Two()
        async with entry() as ep:
            for k in range(2):
                await ep.start_services(svc)
                check(svc.up == k + 1, "returns-when-all-are-up")
                await asyncio.sleep(sym_real("inside", 0))
                await ep.stop_services(svc)
                check(svc.stops == k + 1 and svc not in ep.services,
                      "stopped")
    with guarded():
        run(main())


def frozen():
    async def main():
        ep = entry()

        async def recv(**k):
            pass
        async with ep:
            name = pick("signal", ["pre_start", "post_start", "pre_stop",
                                   "post_stop"])
            sig = getattr(ep, name)
            try:
                if choose("what", 2):
                    sig.connect(recv)
                else:
                    sig.disconnect(recv)
            except RuntimeError:
                pass
            else:
                fail("receivers-are-fixed-inside")
    with guarded():
        run(main())


def scenarios(tier):
    out = [
        Scenario("one", starting, dict(
            n=1, modes=MODES, durations=("pre_start", "post_start")),
            covers=("background", "failed")),
        Scenario("two", starting, dict(n=2, modes=MODES, count=1),
                 covers=("background", "failed", "stopped")),
        Scenario("two-receivers", starting, dict(
            n=2, modes=("end", "ready"),
            durations=("pre_start", "post_start"))),
        Scenario("three-end", starting, dict(
            n=3, modes=("end", "end", "end"), count=1)),
        Scenario("three-ready", starting, dict(
            n=3, modes=("ready", "ready", "end"), count=1),
            covers=("background",)),
        Scenario("three-fail", starting, dict(
            n=3, modes=("end", "ready", "fail"), count=0),
            covers=("failed", "stopped")),
        Scenario("three-fail2", starting, dict(
            n=3, modes=("fail", "end", "fail"), count=0),
            covers=("failed", "stopped")),
        Scenario("none", starting, dict(n=0, modes=(), count=1)),
        Scenario("sync", starting, dict(
            n=2, modes=MODES, count=1, sync=True),
            covers=("background", "failed", "stopped")),
        Scenario("cancelled", entering_cancelled, dict(
            n=2, modes=["end", "ready", "fail"]),
            covers=("while-entering",)),
        Scenario("later", later, dict(n=2, modes=MODES),
                 covers=("failed",)),
        Scenario("again", again, {}),
        Scenario("frozen", frozen, {}),
    ]
    if tier == "thorough":
        out += [
            Scenario("three", starting, dict(n=3, modes=MODES, count=1)),
            Scenario("four", starting, dict(
                n=4, modes=("end", "ready", "fail", "end"), count=0)),
            Scenario("sync-three", starting, dict(
                n=3, modes=MODES, count=0, sync=True)),
            Scenario("cancelled-three", entering_cancelled, dict(
                n=3, modes=["end", "ready", "fail"])),
        ]
    return out
