"""
C27 -- the systemd watchdog, inside an entrypoint with other services.
Start and stop durations, the life time and which notifications fail are
symbolic; the notification socket is a recording stand-in.
"""
import asyncio
import importlib.util
import logging
import os
import socket

from symx.api import *
from symx.net import FakeSocket
from harness.c24_io import Default
from harness.ep_common import *

from aiomisc.service import sdwatchdog as origin

BOUNDS = {
    "quick": "1..2 further services with any start and stop durations and "
             "outcomes; life times up to 2.5 intervals; intervals of 0.3, 1, "
             "10 and 30 s; any of the first 3 notifications fails (also "
             "pairs), any keep-alive fails; connecting takes any time",
    "thorough": "life times up to 5 intervals",
}
ASSUMPTIONS = ["sending a notification takes no time",
               "the default executor runs one job at a time"]
OUTSIDE = ["WATCHDOG_PID", "notification sockets whose buffer is full"]

ENV = "NOTIFY_SOCKET", "WATCHDOG_USEC"


class environment:
    def __init__(self, sock=None, usec=None):
        self.new = dict(zip(ENV, (sock, usec)))

    def put(self, values):
        for k, v in values.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in ENV}
        self.put(self.new)

    def __exit__(self, *a):
        self.put(self.old)


def load(name, usec):
    """the module as it is imported under the environment"""
    with environment("/scratch/notify", usec):
        spec = importlib.util.spec_from_file_location(name, origin.__file__)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    m.setup()
    return m


MODULES = {usec: load("sdwatchdog_%s" % usec, usec)
           for usec in (None, "300000", "1000000", "10000000", "30000000")}
logging.getLogger("sdwatchdog_None").setLevel(100)


class Sock(FakeSocket):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.to = None
        Sock.net.made.append(self)

    def connect(self, addr):
        check(self.to is None, "connected-once")
        if Sock.net.stale is not None:
            raise Sock.net.stale
        self.to = addr

    def close(self):
        self.closed = True


class Net:
    """what systemd sees"""

    def __init__(self, failing, stale=None):
        Sock.net = self
        self.made = []
        self.stale = stale
        self.failing = failing
        self.sent = []          # (number, instant, payload, arrived)

    async def sock_sendall(self, sock, data):
        check(isinstance(sock, Sock) and sock.to is not None,
              "sent-to-the-socket")
        check(not sock.closed, "sent-to-the-socket")
        check(not sock.sx_blocking, "the-loop-is-not-blocked")
        text = bytes(data).decode()
        exc = self.failing(len(self.sent), text)
        self.sent.append((now(), text, exc is None))
        event("sent", text)
        if exc is not None:
            raise exc

    def at(self, what):
        return [i for i, s in enumerate(self.sent)
                if s[1].startswith(what)]


FAILURES = [ConnectionRefusedError(111, "refused"), OSError(105, "buffers"),
            FileNotFoundError(2, "gone"), BrokenPipeError(32, "pipe")]


class Other(Svc):
    def __init__(self, i, net, **kw):
        super().__init__(i, **kw)
        self.net = net

    async def start(self):
        self.seen = len(self.net.sent)
        await super().start()
        self.seen_up = len(self.net.sent)

    async def stop(self, exc=None):
        self.seen_stop = len(self.net.sent)
        try:
            await super().stop(exc)
        finally:
            self.seen_down = len(self.net.sent)


def notifying(usec, interval, n, failing, sock="/scratch/notify", times=2.5,
              fails=False, stop_fails=False, stale=None, stops=True,
              connects=False):
    M = MODULES[usec]
    failed = set()

    def failure(i, text):
        if failing == "first":
            k = i
        elif failing == "alive":
            k = "alive" if text == "WATCHDOG=1" else None
            if k and len(failed) >= 2:
                return None
        else:
            return None
        if k is None or k != "alive" and k > 2:
            return None
        if not sym_bool("fail%d" % i):
            return None
        failed.add(i)
        cover("lost")
        return pick("how%d" % i, FAILURES if i == 0 else FAILURES[:1])

    async def main():
        loop = asyncio.get_running_loop()
        net = Net(failure, stale)
        sim().os["socket"] = Sock
        loop.sock_sendall = net.sock_sendall
        ex = Default(loop, "default")
        if connects:
            ex.delay = sym_real("connecting", 0)
        loop.set_default_executor(ex)
        cls = M.SDWatchdogService
        if choose("subclass", 2):
            cls = type("Mine", (cls,), {"name": "mine"})
        with environment(sock, usec):
            w = cls() if interval == "default" else \
                cls(watchdog_interval=interval)
        real = None if usec is None else int(usec) / 1e6
        step = real if interval == "default" else interval
        others = [Other(i, net, mode="fail" if fails and choose(
            "fails%d" % i, 2) else "end", d=sym_real("start%d" % i, 0, 20),
            stop_d=sym_real("stop%d" % i, 0, 20) if stops else 0,
            stop_mode="fail" if stop_fails and choose(
                "stop_fails%d" % i, 2) else "ok") for i in range(n)]
        T = sym_real("life", 0)
        if step is not None:
            assume(T <= times * step)
        ep = entry(w, *others, loop=loop)
        state = {}
        stopping = type(w).stop

        async def stop(*a):
            state["stop"] = now(), len(net.sent)
            await stopping(w, *a)
        try:
            async with ep:
                ready = net.at("READY=1")
                if sock and stale is None:
                    check(len(ready) == 1, "ready-once")
                state["entered"] = len(net.sent)
                await asyncio.sleep(T)
                state["leave"] = now(), len(net.sent)
        except (Boom, StopBoom):
            check(fails or stop_fails, "nothing-fails")
        except Exception as e:
            fail("nothing-fails", repr(e))
        final = len(net.sent)
        await asyncio.sleep(1000)
        check(len(net.sent) == final, "nothing-after-the-end")
        for s in net.made:
            check(s.closed, "socket-is-closed")
        me = asyncio.current_task()
        check(not [t for t in asyncio.all_tasks() if t is not me],
              "nothing-stays-running")
        if not sock or stale is not None:
            check(not net.sent, "nothing-is-sent-without-a-socket")
            check("leave" in state, "nothing-fails")
            cover("silent")
            return
        judge(net, others, state, step, real, sock, fails)

    def judge(net, others, state, step, real, sock, fails):
        sent = net.sent
        starting, ready = net.at("STATUS=Starting"), net.at("READY=1")
        stopping = net.at("STOPPING=1")
        check(len(net.made) == 1 and net.made[0].family == socket.AF_UNIX
              and net.made[0].type == socket.SOCK_DGRAM,
              "sent-to-the-socket")
        want = "\0" + sock[1:] if sock[0] == "@" else sock
        check(net.made[0].to == want, "sent-to-the-socket",
              repr(net.made[0].to))
        check(len(starting) == 1, "announces-starting")
        for s in others:
            check(starting[0] < s.seen, "announces-starting-before-starts")
        if "entered" in state:
            check(len(ready) == 1, "ready-once")
            for s in others:
                check(ready[0] >= s.seen_up, "ready-after-all-are-up")
                check(s.up and s.up_at <= sent[ready[0]][0],
                      "ready-after-all-are-up")
            check(ready[0] < state["entered"], "ready-once-all-are-up")
            cover("ready")
        else:
            check(not ready, "not-ready-when-a-start-failed")
            cover("failed")
        check(len(stopping) == 1, "announces-stopping")
        for s in others:
            if s.stops:
                check(stopping[0] >= s.seen_down and s.stop_ended is not None
                      and s.stop_ended <= sent[stopping[0]][0],
                      "stopping-when-the-shutdown-is-over")
        check(stopping[0] == len(sent) - 1, "nothing-after-the-end")
        alive = net.at("WATCHDOG=1")
        announced = net.at("WATCHDOG_USEC=")
        if step is None:
            check(not alive and not announced, "no-keep-alives-unasked")
            return
        if real is None or step != real:
            check(len(announced) == 1, "changed-interval-is-announced")
            text = sent[announced[0]][1]
            got = int(text.partition("=")[2])
            check(abs(got - step * 1e6) < 1, "changed-interval-is-announced",
                  text)
            if alive:
                check(announced[0] < alive[0],
                      "changed-interval-is-announced")
        else:
            check(all(int(sent[i][1].partition("=")[2]) == int(usec)
                      for i in announced), "changed-interval-is-announced")
        if "leave" in state:
            begin, end = sent[ready[0]][0], state["leave"][0]
            marks = [sent[i][0] for i in alive if sent[i][0] <= end]
            check(marks, "kept-alive")
            # the last one before the readiness counts as well
            before = [m for m in marks if m <= begin]
            last = before[-1] if before else begin
            for m in marks[len(before):] + [end]:
                check(m - last <= step / 2 + 1e-6, "kept-alive-twice-per-interval")
                last = m
            if len(marks) > 2:
                cover("kept alive")
            # not a flood
            check(len(marks) <= 2 + 2 * (times + 1) +
                  (200 / step if len(others) else 0), "no-flood")

    with guarded():
        return run(main())


def scenarios(tier):
    t = tier == "thorough"
    life = 5 if t else 2.5
    out = []
    for usec, interval in (("10000000", "default"), ("300000", "default"),
                           ("10000000", 30), ("30000000", 10),
                           ("1000000", 1), (None, 0.3), (None, 1)):
        out.append(Scenario("interval-%s-%s" % (usec, interval), notifying,
                            dict(usec=usec, interval=interval, n=0,
                                 failing=None, times=life),
                            covers=["ready", "kept alive"]))
        out.append(Scenario("lost-%s-%s" % (usec, interval), notifying,
                            dict(usec=usec, interval=interval, n=0,
                                 failing="alive", times=life),
                            covers=["ready", "kept alive", "lost"]))
        out.append(Scenario("lost-first-%s-%s" % (usec, interval), notifying,
                            dict(usec=usec, interval=interval, n=0,
                                 failing="first", times=1),
                            covers=["ready", "lost"]))
    for n in 1, 2:
        out += [
            Scenario("services-%d" % n, notifying, dict(
                usec="30000000", interval="default", n=n, failing=None,
                times=1), covers=["ready"]),
            Scenario("unasked-%d" % n, notifying, dict(
                usec=None, interval="default", n=n, failing=None, times=1),
                covers=["ready"]),
            Scenario("failing-start-%d" % n, notifying, dict(
                usec="30000000", interval="default", n=n, failing=None,
                times=1, fails=True, stops=False),
                covers=["ready", "failed"]),
            Scenario("failing-stop-%d" % n, notifying, dict(
                usec="30000000", interval="default", n=n, failing=None,
                times=1, stop_fails=True), covers=["ready"]),
        ]
    for i, sock in enumerate(("@abstract", "/scratch/notify",
                              "/scratch/@/n@tify", "@a@b")):
        out.append(Scenario("connecting-%d" % i, notifying, dict(
            usec="30000000", interval="default", n=1, failing="first",
            times=1, sock=sock, connects=True), covers=["ready", "lost"]))
    for usec in None, "10000000":
        for sock in None, "":
            out.append(Scenario("silent-%s-%r" % (usec, sock), notifying,
                                dict(usec=usec, interval="default", n=1,
                                     failing=None, sock=sock),
                                covers=["silent"]))
        out.append(Scenario("stale-%s" % usec, notifying, dict(
            usec=usec, interval="default", n=1, failing=None,
            stale=FileNotFoundError(2, "no such file")),
            covers=["silent"]))
    return out
