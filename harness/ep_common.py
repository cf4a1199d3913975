"""services and receivers for the entrypoint harnesses"""
import asyncio
import signal

from symx.api import *
from symx import sim as _sim

import aiomisc
from aiomisc import entrypoint as ep_module
from aiomisc._context_vars import EVENT_LOOP
from aiomisc.entrypoint import CURRENT_ENTRYPOINT, Entrypoint
from aiomisc.service import Service


async def nap(d):
    if d is not None and bool(d > 0):
        await asyncio.sleep(d)


class Boom(Exception):
    """a failing start"""

    def __init__(self, i):
        super().__init__(i)
        self.i = i


class StopBoom(Exception):
    """a failing stop"""

    def __init__(self, i):
        super().__init__(i)
        self.i = i


class Svc(Service):
    """one service with everything recorded"""

    def __init__(self, i, mode="end", d=None, r=None, extra=None,
                 stop_d=None, stop_mode="ok", world=None, bye=None):
        super().__init__()
        self.i = i
        self.mode = mode
        self.d = d              # duration of start until its end / failure
        self.r = r              # readiness
        self.extra = extra      # how long it runs on
        self.bye = bye          # what the background part does at its end
        self.stop_d = stop_d
        self.stop_mode = stop_mode
        self.world = world
        self.start_calls = []
        self.running = False
        self.ready_at = None
        self.start_ended = None
        self.how_ended = None
        self.stops = []
        self.stop_ended = None
        self.stop_how = None
        self.exc = Boom(i)
        self.stop_exc = StopBoom(i)

    def __hash__(self):
        return self.i

    def __eq__(self, other):
        return self is other

    @property
    def up(self):
        """has been started"""
        return self.ready_at is not None or self.how_ended == "ok"

    @property
    def up_at(self):
        return self.ready_at if self.ready_at is not None \
            else self.start_ended

    async def start(self):
        self.start_calls.append(now())
        check(len(self.start_calls) == 1, "started-once")
        if self.world is not None:
            self.world.on_start(self)
        self.running = True
        try:
            if self.mode in ("ready", "ready-fail"):
                await nap(self.r)
                self.start_event.set()
                self.ready_at = now()
                try:
                    await nap(self.extra)
                finally:
                    if self.bye is not None:
                        await nap(self.bye)
            else:
                await nap(self.d)
            if self.mode in ("fail", "ready-fail"):
                self.how_ended = "failed"
                raise self.exc
            self.how_ended = "ok"
        except asyncio.CancelledError:
            self.how_ended = "cancelled"
            raise
        finally:
            self.running = False
            self.start_ended = now()

    async def stop(self, exc=None):
        self.stops.append((now(), exc))
        check(len(self.stops) == 1, "stopped-once")
        if self.world is not None:
            self.world.on_stop(self)
        try:
            await nap(self.stop_d)
            if self.stop_mode == "fail":
                self.stop_how = "failed"
                raise self.stop_exc
            self.stop_how = "ok"
        except asyncio.CancelledError:
            self.stop_how = "cancelled"
            raise
        finally:
            self.stop_ended = now()


class World:
    """receivers of the entrypoint's signals"""

    def __init__(self, durations=None):
        self.durations = durations or {}
        self.calls = []             # (name, receiver, begin, end)
        self.services = []

    def attach(self, ep, names=("pre_start", "post_start", "pre_stop",
                                "post_stop"), count=2):
        for name in names:
            for k in range(count):
                getattr(ep, name).connect(self.receiver(ep, name, k))
        self.count = count

    def receiver(self, ep, name, k):
        async def recv(*, entrypoint, services):
            check(entrypoint is ep, "receiver-gets-the-entrypoint")
            rec = [name, k, now(), None, tuple(services)]
            self.calls.append(rec)
            d = self.durations.get(name)
            if callable(d):
                d = d(k)
            await nap(d)
            rec[3] = now()
        return recv

    def ended(self, name):
        return [c for c in self.calls if c[0] == name and c[3] is not None]

    def begun(self, name):
        return [c for c in self.calls if c[0] == name]

    def on_start(self, svc):
        check(len(self.ended("pre_start")) >= self.count,
              "pre-start-receivers-ended-before-any-start")

    def on_stop(self, svc):
        check(len(self.ended("pre_stop")) >= self.count,
              "pre-stop-receivers-ended-before-any-stop")


class Receivers(World):
    """a world without receivers"""
    count = 0


SIGNALS = (signal.SIGINT, signal.SIGTERM)


class guarded:
    """what is global comes back as it was"""

    def __enter__(self):
        self.before = {s: signal.getsignal(s) for s in SIGNALS}
        self.got = []
        # the program has handlers of its own
        for s in SIGNALS:
            signal.signal(s, self.own(s))
        self.saved = {s: signal.getsignal(s) for s in SIGNALS}
        self.policy = asyncio.get_event_loop_policy()
        return self

    def __exit__(self, *a):
        for s, h in self.before.items():
            signal.signal(s, h)
        asyncio.set_event_loop_policy(self.policy)

    def own(self, sig):
        def handler(signum, frame):
            self.got.append(sig)
        return handler

    def restored(self):
        return all(signal.getsignal(s) is h or signal.getsignal(s) == h
                   for s, h in self.saved.items())


def deliver(sig=signal.SIGTERM):
    """what the interpreter does when a signal arrives"""
    loop = asyncio.get_event_loop()
    h = getattr(loop, "_signals", {}).get(sig)
    if h is not None:
        return loop.call_soon_threadsafe(h[0], *h[1])
    h = signal.getsignal(sig)
    if not callable(h) or h is signal.default_int_handler:
        return None
    return h(int(sig), None)


def entry(*services, **kw):
    kw.setdefault("log_config", False)
    kw.setdefault("policy", _sim.Policy())
    kw.setdefault("pool_size", 1)
    return Entrypoint(*services, **kw)
