"""
C29 -- TCP and TLS clients.  How long every connection attempt and every
session takes and how it ends, the pauses, and the instant of the stop or
cancellation are symbolic; the connections are simulated, everything above
them is real.
"""
import asyncio
import concurrent.futures
import logging
import os
import ssl

from symx.api import *
from symx.net import Network

from aiomisc.service.tcp import RobustTCPClient, TCPClient
from aiomisc.service.tls import RobustTLSClient, TLSClient

BOUNDS = {
    "quick": "up to 3 connection attempts and 3 sessions with any durations, "
             "outcomes and pauses; any instant of the stop or cancellation, "
             "handlers which take any time to finish",
    "thorough": "up to 4 attempts and 4 sessions",
}
ASSUMPTIONS = ["the TLS context is created without delay"]
OUTSIDE = ["name resolution", "a robust client whose handler returned",
           "stopping a client from inside of its handler"]

CERTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "certs")

for name in "tcp", "tls":
    logging.getLogger("aiomisc.service." + name).setLevel(100)


class Immediate(concurrent.futures.ThreadPoolExecutor):
    """the default executor; its jobs take no time"""

    def submit(self, fn, *args, **kw):
        f = concurrent.futures.Future()
        f.set_running_or_notify_cancel()
        try:
            f.set_result(fn(*args, **kw))
        except BaseException as e:
            f.set_exception(e)
        return f

    def shutdown(self, *a, **kw):
        pass


class Failure(Exception):
    pass


class Odd(OSError):
    """not a connection error"""


BASES = {"tcp": TCPClient, "tls": TLSClient,
         "robust-tcp": RobustTCPClient, "robust-tls": RobustTLSClient}


class World:
    def __init__(self, kind, plan, sessions, cleanup=None, **kw):
        """``plan``: (duration, outcome) per attempt, ``sessions``:
        (duration, fails) per connection"""
        self.kind = kind
        loop = asyncio.get_running_loop()
        loop.set_default_executor(Immediate(1))
        self.net = Network.attach()
        self.net.connect_hook = self.connect
        self.plan, self.todo = list(plan), list(sessions)
        self.attempts = []          # instants at which they started
        self.errors = []
        self.connecting = 0
        self.sessions = []          # [began, ended]
        self.cleanup = cleanup
        self.limited = self.over = False
        world = self

        class Client(BASES[kind]):
            async def handle_connection(self, reader, writer):
                await world.session(reader, writer)

        if "tls" in kind:
            kw.update(ca=os.path.join(CERTS, "ca.pem"),
                      cert=os.path.join(CERTS, "client.pem"),
                      key=os.path.join(CERTS, "client.key"))
        self.client = Client("server.test", 4444, **kw)
        self.client.set_loop(loop)

    async def connect(self, host, port, **kw):
        check((host, port) == ("server.test", 4444), "right address",
              (host, port))
        check(("tls" in self.kind) == isinstance(
            kw.get("ssl"), ssl.SSLContext), "encrypted as asked")
        check(not self.connecting, "one attempt at a time")
        self.attempts.append(now())
        if not self.plan:
            assume(not self.limited or self.over)
            cover("attempts beyond the plan")
            self.connecting += 1
            try:
                await asyncio.sleep(1000)
            finally:
                self.connecting -= 1
        duration, result = self.plan.pop(0)
        self.connecting += 1
        try:
            await asyncio.sleep(duration)
        finally:
            self.connecting -= 1
        if result != "ok":
            e = Odd(5, "odd") if result == "odd" else pick_error(
                len(self.errors))
            self.errors.append(e)
            raise e
        return None

    async def session(self, reader, writer):
        s = [now(), None]
        check(writer.transport is self.net.transports[-1] and
              reader is not None, "the connection itself is handed over")
        check(not writer.is_closing(), "the connection is open")
        if "robust" in self.kind:
            check(self.client.connected.is_set(), "reported as connected")
        self.sessions.append(s)
        check(len(self.sessions) == len(self.net.transports),
              "every connection is handled once")
        duration, fails = self.todo.pop(0)
        try:
            await asyncio.sleep(duration)
        except asyncio.CancelledError:
            if self.cleanup is not None:
                await asyncio.sleep(self.cleanup)
            raise
        finally:
            s[1] = now()
        if fails:
            raise Failure

    def running(self):
        return [s for s in self.sessions if s[1] is None]


def pick_error(n):
    return (ConnectionRefusedError, ConnectionResetError,
            ConnectionAbortedError)[n % 3](n, "attempt")


async def attempts(kind, n):
    pause = sym_real("pause", 0, 10)
    plan, ok_at = [], None
    for i in range(n):
        result = pick("result%d" % i, ["ok", "refused", "odd"])
        plan.append((sym_real("took%d" % i, 0, 10), result))
        if result != "refused":
            break
    refused = plan[-1][1] == "refused"
    fails = plan[-1][1] == "ok" and choose("fails", 2)
    lasts = sym_real("lasts", 0, 10)
    w = World(kind, plan, [(lasts, fails)], connect_attempts=n,
              connect_retry_timeout=pause)
    start = asyncio.ensure_future(outcome(w.client.start()))
    await asyncio.wait([start, asyncio.ensure_future(
        w.client.start_event.wait())],
        return_when=asyncio.FIRST_COMPLETED)
    at, expected = 0, []
    for took, _ in plan:
        expected.append(at)
        end = at + took
        at = end + pause
    if plan[-1][1] == "ok":
        cover("connected")
        check(w.client.start_event.is_set(), "ready when connected")
        check(now() == end, "ready as soon as it is connected",
              (now(), end))
    kind_, value = await start
    check(len(w.attempts) == len(plan), "attempts", len(w.attempts))
    for i, (a, b) in enumerate(zip(w.attempts, expected)):
        check(a == b, "pause between the attempts", (i, a, b))
    if plan[-1][1] == "ok":
        check(kind_ == "ok", "failures of the handler do not propagate",
              value)
        check(len(w.sessions) == 1, "handled once")
        if w.sessions:
            check(w.sessions[0] == [end, end + lasts], "handled entirely",
                  w.sessions)
        if fails:
            await settle()
            check(w.net.transports[0].is_closing(),
                  "closed after the handler failed")
    else:
        cover("failed")
        check(kind_ == "exc" and value is w.errors[-1],
              "fails with the last error", value)
        check(not w.client.start_event.is_set(), "not ready")
        check(not w.sessions, "nothing is handled")


async def robust(kind, tries, k, looks):
    """sessions separated by failures"""
    pause = sym_real("pause", 0, 10, strict=True)
    retry = sym_real("retry", 0, 10)
    plan, sessions, shape = [], [], []
    for i in range(k):
        result = pick("result%d" % i, ["ok", "refused", "odd"])
        plan.append((sym_real("took%d" % i, 0, 10), result))
        if result == "ok":
            sessions.append((sym_real("lasts%d" % i, 0, 10, strict=True),
                             True))
    assume(len(sessions) > 0)
    looked = sym_real("look", 0, 50) if looks else 0.5
    w = World(kind, plan, sessions, connect_attempts=tries,
              connect_retry_timeout=retry, reconnect_timeout=pause)
    seen = []

    def look():
        seen.append((now(), w.client.connected.is_set(), [
            tuple(s) for s in w.sessions]))

    asyncio.get_running_loop().call_later(looked, look)
    start = asyncio.ensure_future(outcome(w.client.start()))
    await asyncio.wait([start], timeout=100)
    check(not start.done(), "keeps trying", start)
    start.cancel()
    await settle()
    check(start.done(), "cancelled at once")
    check(len(w.attempts) > k, "attempts", len(w.attempts))
    check(len(w.sessions) == len(sessions), "sessions", w.sessions)
    check(w.client.start_event.is_set(), "ready")
    # when the next attempt has to follow
    failed = 0
    j = 0
    for i, (took, result) in enumerate(plan):
        end = w.attempts[i] + took
        after = w.attempts[i + 1]
        if result == "ok":
            failed = 0
            s = w.sessions[j]
            check(s == [end, end + sessions[j][0]], "handled", s)
            check(after == s[1] + pause, "reconnects after the pause",
                  (after, s[1], pause))
            j += 1
        elif result == "refused":
            failed += 1
            if failed < tries:
                check(after == end + retry, "retries after its pause")
            else:
                cover("all attempts failed")
                failed = 0
                check(And(after >= end + pause,
                          after <= end + retry + pause),
                      "reconnects after the attempts failed")
        else:
            failed = 0
            check(after == end + pause, "reconnects after other errors")
    for at, connected, snapshot in seen:
        inside = [And(s[0] < at, at < s[1]) for s in w.sessions]
        edge = [Or(at == s[0], at == s[1]) for s in w.sessions]
        if connected:
            check(Or(*inside, *edge), "not connected although reported", at)
        else:
            check(Not(Or(*inside)), "connected although not reported", at)
    await settle()
    check(all(t.is_closing() for t in w.net.transports),
          "failed connections are closed")


async def ends(kind, how, k, cleanup):
    """a stop or cancellation at any time"""
    pause = sym_real("pause", 0, 10)
    retry = sym_real("retry", 0, 10)
    plan, sessions = [], []
    for i in range(k):
        result = pick("result%d" % i, ["ok", "refused"])
        plan.append((sym_real("took%d" % i, 0, 10), result))
        if result == "ok":
            sessions.append((sym_real("lasts%d" % i, 0, 10), True))
            if "robust" not in kind:
                break
    at = sym_real("at", 0, 60)
    tidy = sym_real("tidy", 0, 10) if cleanup else None
    kw = {"reconnect_timeout": pause} if "robust" in kind else {}
    w = World(kind, plan, sessions, tidy, connect_attempts=k,
              connect_retry_timeout=retry, **kw)
    w.limited = True        # longer histories are not looked at
    start = asyncio.ensure_future(w.client.start())
    await asyncio.sleep(at)
    w.over = True
    before = len(w.attempts)
    done = start.done()
    busy = bool(w.running())
    if how == "stop":
        await w.client.stop()
        await settle()
        stopped = now()
    else:
        start.cancel()
        await settle()
        if busy and cleanup:
            await asyncio.wait([start], timeout=20)
        stopped = now()
    check(start.done(), "ends at once")
    check(stopped == at + (tidy if busy and cleanup else 0), "no delay", (stopped, at))
    if not done:
        cover("interrupted")
        check(start.done() and start.cancelled(),
              "the start has been cancelled")
    check(not w.connecting, "no attempt is left")
    check(not w.running(), "no handler is left")
    await asyncio.sleep(100)
    check(len(w.attempts) == before, "no attempt is made afterwards",
          (before, len(w.attempts)))
    check(all(t.is_closing() for t in w.net.transports), "all is closed")
    if "robust" in kind:
        check(not w.client.connected.is_set(), "reported as connected")
    await outcome(start)


def within(f):
    def scenario(**kw):
        load = ssl.SSLContext.load_default_certs
        # takes long, and is of no importance here
        ssl.SSLContext.load_default_certs = lambda *a, **k: None
        try:
            return run(f(**kw))
        finally:
            ssl.SSLContext.load_default_certs = load
    return scenario


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for kind in "tcp", "tls":
        for n in (1, 2, 3, 4) if deep else (1, 3):
            if n == 3 and kind == "tls" and not deep:
                n = 2
            out.append(Scenario("attempts %s %d" % (kind, n), within(attempts),
                                dict(kind=kind, n=n),
                                covers=["connected", "failed"]))
    for kind in "robust-tcp", "robust-tls":
        for tries in 1, 2:
            for looks in False, True:
                out.append(Scenario(
                    "%s %d%s" % (kind, tries, " flag" if looks else ""),
                    within(robust),
                    dict(kind=kind, tries=tries, looks=looks,
                         k=2 + (kind == "robust-tcp" and not looks) + deep),
                    covers=["attempts beyond the plan"]))
    for kind in BASES:
        for how in "stop", "cancel":
            for cleanup in (False, True):
                if cleanup and "tls" in kind and not deep:
                    continue
                out.append(Scenario(
                    "ends %s %s%s" % (kind, how,
                                      " slow" if cleanup else ""),
                    within(ends), dict(kind=kind, how=how, k=3 if deep else 2,
                               cleanup=cleanup),
                    covers=["interrupted"]))
    return out
