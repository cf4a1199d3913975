"""
C30 -- worker processes and the processes which supervise them.  The socket,
the signals, fork, wait and kill are stand-ins; which request comes when and
how its function ends, where the byte stream is cut, at which point of the
execution the signal which cancels a request arrives, which worker dies how
and when the supervisor is interrupted is symbolic.
"""
import asyncio
import atexit
import hashlib
import hmac
import importlib
import io
import logging
import os
import pickle
import select
import signal
import subprocess
import sys
import time

from symx.api import *
from symx import patches
from symx.net import FakeSocket

import aiomisc_worker
from aiomisc_worker import INT_SIGNAL, SIGNAL, PacketTypes
from aiomisc_worker.protocol import FileIOProtocol

BOUNDS = {
    "quick": "up to 2 requests of 14 kinds with the signal at any point of "
             "the execution of the worker, or the connection lost at any "
             "operation, up to 3 requests without; 1-2 identities and up to "
             "3 deaths with the interrupt at any point",
    "thorough": "up to 3 requests with the signal, 3 identities, 4 deaths",
}
ASSUMPTIONS = [
    "the signal reaches the process before it sees anything which was sent "
    "afterwards",
    "the interpreter handles signals when functions are entered and after "
    "calls of native ones",
]
OUTSIDE = ["functions which block signals", "functions calling os._exit(0)",
           "interrupts between fork and the registration of its result "
           "(the worker ends with its connection)"]

SELECT = select.select
COOKIE, ADDRESS = b"c" * 128, "/scratch/worker.sock"
WORKER_DIR = os.path.dirname(aiomisc_worker.__file__)


# ---- what the requests execute ---------------------------------------------
class Odd(Exception):
    """can not be pickled"""

    def __reduce__(self):
        raise TypeError("no way")


class Broken(Exception):
    """neither, and it can't even be printed"""

    def __reduce__(self):
        raise ValueError("no way")

    def __str__(self):
        raise ValueError("no text")


class Wrapped:
    """its pickle can't be loaded"""

    def __reduce__(self):
        return missing, (1,)


def missing(x):
    if STATE.inside:
        raise ImportError("no such module")
    return Wrapped()


def body(i, how, v):
    STATE.started.append(i)
    STATE.point()
    try:
        if how == "value":
            return v
        if how == "none":
            return None
        if how == "raise":
            raise ValueError("oops", v)
        if how == "connection":
            raise ConnectionResetError(104, "not ours")
        if how == "timeout":
            raise TimeoutError("not ours")
        if how == "eof":
            raise EOFError("not ours")
        if how == "lambda":
            return lambda: None
        if how == "odd":
            raise Odd("odd")
        if how == "broken":
            raise Broken
        if how == "group":
            return Broken()
        if how == "cancelled":
            raise asyncio.CancelledError
        if how == "exit0":
            raise SystemExit(0)
        if how == "exit1":
            raise SystemExit(1)
    finally:
        STATE.finished.append(i)


KINDS = ("value", "none", "raise", "connection", "timeout", "eof", "lambda",
         "odd", "broken", "group", "cancelled", "exit0", "exit1", "load")


# ---- the world --------------------------------------------------------------
class State:
    def __init__(self):
        self.handlers = {}
        self.atexit = []
        self.started, self.finished = [], []
        self.inside = False         # the worker is running
        self.armed = False          # a signal may arrive
        self.at = None              # at this point
        self.count = 0
        self.signals = []           # what was going on when it came
        self.describe = lambda: None
        self.sig = SIGNAL

    def point(self):
        """the interpreter may handle a signal here"""
        if not self.armed or self.at is None:
            return
        self.count += 1
        if self.at == self.count:
            self.armed = False
            cover("signal")
            self.signals.append(self.describe())
            h = self.handlers.get(self.sig, signal.SIG_DFL)
            if h is signal.SIG_IGN:
                return
            if not callable(h):
                raise Killed(self.sig)
            h(self.sig, None)


STATE = State()


class Killed(BaseException):
    """by the default action of a signal"""


class Tracer:
    """the points at which signals are handled while the code of these
    modules is running"""

    def __init__(self, *names):
        self.codes = []
        for name in names:
            m = module(name)
            for v in list(vars(m).values()):
                if getattr(v, "__module__", None) == m.__name__:
                    self.find(v)

    def find(self, v):
        code = getattr(v, "__code__", None)
        if code is not None:
            self.add(code)
        elif isinstance(v, type):
            for f in vars(v).values():
                self.find(getattr(f, "__func__", f))

    def add(self, code):
        if code not in self.codes:
            self.codes.append(code)
            for c in code.co_consts:
                if hasattr(c, "co_code"):
                    self.add(c)

    def __enter__(self):
        m, e = sys.monitoring, sys.monitoring.events
        if not self.codes:
            return
        m.use_tool_id(TOOL, "signals")
        m.register_callback(TOOL, e.PY_START, lambda *a: STATE.point())
        m.register_callback(TOOL, e.CALL, lambda *a: None)
        m.register_callback(TOOL, e.C_RETURN, lambda *a: STATE.point())
        m.register_callback(TOOL, e.JUMP, self.jump)
        for c in self.codes:
            m.set_local_events(TOOL, c, e.PY_START | e.CALL | e.JUMP)

    def jump(self, code, at, to):
        if to < at:
            STATE.point()

    def __exit__(self, *exc):
        release(self.codes)


TOOL = 3


def release(codes=()):
    m = sys.monitoring
    if m.get_tool(TOOL) == "signals":
        for c in codes:
            m.set_local_events(TOOL, c, 0)
        for e in (m.events.PY_START, m.events.CALL, m.events.C_RETURN,
                  m.events.JUMP):
            m.register_callback(TOOL, e, None)
        m.free_tool_id(TOOL)


CODE = "worker", "protocol", "forking"


class Stdin:
    def __init__(self, *packets):
        self.buffer = io.BytesIO()
        p = FileIOProtocol(self.buffer)
        for x in packets:
            p.send(x)
        self.buffer.seek(0)

    def close(self):
        self.buffer.close()


MODULES = ["aiomisc_worker.worker", "aiomisc_worker.forking",
           "aiomisc_worker.process", "aiomisc_worker.process_inner"]


class sandbox:
    """the process in which the code under test believes to be"""

    def __init__(self, sock, stdin=None):
        self.sock, self.stdin = sock, stdin

    def __enter__(self):
        global STATE
        STATE = s = State()
        sim().os["socket"] = self.sock
        self.saved = [(o, n, getattr(o, n)) for o, n in (
            (signal, "signal"), (signal, "getsignal"), (atexit, "register"),
            (atexit, "unregister"), (select, "select"), (sys, "stdin"),
            (sys, "excepthook"))]
        root = logging.getLogger()
        self.root = root.handlers[:], root.level, logging.root.manager.disable
        self.modules = {m: sys.modules.pop(m, None) for m in MODULES}
        self.attrs = {m: vars(aiomisc_worker).get(m.split(".")[1])
                      for m in MODULES}

        def set_signal(sig, h):
            old = s.handlers.get(sig, signal.SIG_DFL)
            s.handlers[sig] = h
            return old

        signal.signal = set_signal
        signal.getsignal = lambda sig: s.handlers.get(sig, (
            signal.default_int_handler if sig == signal.SIGINT
            else signal.SIG_DFL))
        atexit.register = lambda f, *a, **kw: s.atexit.append((f, a, kw))

        def unregister(f):
            s.atexit[:] = [x for x in s.atexit if x[0] != f]

        atexit.unregister = unregister
        select.select = self.select
        if self.stdin is not None:
            sys.stdin = self.stdin
        logging.disable(100)
        return s

    def select(self, r, w, x, timeout=None):
        if timeout is not None and timeout <= 0:
            return [s for s in r if s.readable()], list(w), []
        for s in r:
            s.await_data()
        STATE.point()
        return list(r), list(w), []

    def __exit__(self, *exc):
        release()
        for o, n, v in self.saved:
            setattr(o, n, v)
        root = logging.getLogger()
        root.handlers[:], root.level, logging.root.manager.disable = self.root
        for m, v in self.modules.items():
            sys.modules.pop(m, None)
            if v is not None:
                sys.modules[m] = v
        for m, v in self.attrs.items():
            name = m.split(".")[1]
            if v is not None:
                setattr(aiomisc_worker, name, v)
            elif name in vars(aiomisc_worker):
                delattr(aiomisc_worker, name)
        return False


def module(name):
    return importlib.import_module("aiomisc_worker." + name)


class Conn(FakeSocket):
    """the connection to the pool; the pool behaves as it does: one request
    at a time"""

    script = ()                 # what the pool sends, one per turn
    cut = None                  # the operation at which it is lost
    chunk = None
    auth = PacketTypes.AUTH_OK

    @classmethod
    def new(cls, **kw):
        return type("Conn", (cls,), dict(kw, made=[]))

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        type(self).made.append(self)
        self.out = b""
        self.inbox = b""
        self.turn = 0
        self.eof = False
        self.ops = 0
        self.peer = None

    def op(self):
        self.ops += 1
        if self.cut is not None and self.cut == self.ops:
            cover("lost")
            self.eof = True
            raise ConnectionResetError(104, "reset")

    def connect(self, address):
        self.peer = address
        self.op()

    def connect_ex(self, address):
        self.connect(address)
        return 0

    def packets(self):
        """what was sent, and whether something incomplete is left"""
        out, data = [], self.out
        while len(data) >= 4:
            n = int.from_bytes(data[:4], "big")
            if len(data) < 4 + n:
                break
            try:
                out.append(pickle.loads(data[4:4 + n]))
            except Exception as e:
                out.append(("garbage", e))
            data = data[4 + n:]
        return out, data

    def readable(self):
        return bool(self.inbox) or self.eof

    def await_data(self):
        """blocks until there is something"""
        if self.inbox or self.eof:
            return
        STATE.point()
        STATE.armed = False
        if self.inbox or self.eof:
            return
        self.deliver()

    def deliver(self):
        packets, rest = self.packets()
        if rest or len(packets) != max(1, self.turn):
            # the pool is waiting for its reply: the two are stuck
            self.stuck = True
            self.eof = True
            return
        if self.turn == 0:
            data = self.auth
            if data is None:
                self.eof = True
                return
        elif self.turn <= len(self.script):
            data = (PacketTypes.REQUEST,) + self.script[self.turn - 1]
        else:
            self.eof = True
            return
        if self.turn:
            STATE.armed = not STATE.signals
        self.turn += 1
        data = pickle.dumps(data)
        self.inbox += len(data).to_bytes(4, "big") + data

    stuck = False

    def recv(self, n, flags=0):
        import socket
        self.op()
        dont = getattr(socket, "MSG_DONTWAIT", 0)
        if dont and flags & dont and not self.readable():
            raise BlockingIOError(11, "nothing there")
        self.await_data()
        STATE.point()
        if self.chunk is not None:
            n = min(n, self.chunk)
        data = self.inbox[:n]
        if not flags & socket.MSG_PEEK:
            self.inbox = self.inbox[n:]
        return data

    def recv_into(self, buf, n=0, flags=0):
        data = self.recv(n or len(buf), flags)
        buf[:len(data)] = data
        return len(data)

    def sendall(self, data, flags=0):
        data = bytes(data)
        self.op()
        half = len(data) // 2
        # blocks in the middle
        self.out += data[:half]
        STATE.point()
        self.out += data[half:]
        STATE.point()

    def send(self, data, flags=0):
        data = bytes(data)
        self.op()
        half = (len(data) + 1) // 2
        self.out += data[:half]
        return half


def request(i, how):
    v = pick("v%d" % i, [1, "text"]) if how == "value" else i
    if how == "load":
        return body, (i, "value", Wrapped()), {}
    return body, (i, how), {"v": v}


def digest(worker_id):
    return hmac.HMAC(COOKIE, worker_id, digestmod=hashlib.sha256).digest()


def expect(i, how, script, reply):
    """the reply to a request which was not cancelled"""
    kind, payload = reply
    if how in ("value", "none"):
        check(kind == PacketTypes.RESULT and payload == (
            script[2]["v"] if how == "value" else None), "result",
            (how, reply))
    elif how == "cancelled":
        check(kind == PacketTypes.CANCELLED and (
            payload is asyncio.CancelledError or
            isinstance(payload, asyncio.CancelledError)),
            "cancelled by itself", reply)
    else:
        check(kind == PacketTypes.EXCEPTION and isinstance(
            payload, BaseException), "exception", (how, reply))
        types = {"raise": ValueError, "connection": ConnectionResetError,
                 "timeout": TimeoutError, "eof": EOFError}
        if how in types:
            check(type(payload) is types[how], "its own exception", payload)
        if how == "raise":
            check(payload.args == ("oops", script[2]["v"]), "arguments",
                  payload)


def worker(n, kinds, signalled=False, lost=False):
    hows = [pick("request%d" % i, list(kinds)) for i in range(n)]
    chunk = pick("chunk", [None, 3]) if not signalled else None
    cut = sym_int("cut", 1, 40) if lost else None
    script = [request(i, how) for i, how in enumerate(hows)]
    Sock = Conn.new(script=script, chunk=chunk, cut=cut)
    with sandbox(Sock) as state:
        w = module("worker")
        state.describe = lambda: (
            Sock.made[0].turn - 2, len(state.started), len(state.finished),
            len(Sock.made[0].packets()[0]))
        if signalled:
            state.at = sym_int("at", 1, 400)
        state.inside = True
        end = None
        try:
            with Tracer(*CODE[:2]):
                w.worker(ADDRESS, COOKIE, b"identity")
        except (Exception, SystemExit, asyncio.CancelledError,
                Killed) as e:
            end = e
        state.inside = False
    check(len(Sock.made) == 1 and Sock.made[0].peer == ADDRESS,
          "connects to the pool")
    c = Sock.made[0]
    packets, rest = c.packets()
    zero = end is None or isinstance(end, SystemExit) and not end.code
    if cut is not None and c.ops < 2:
        check(not packets and zero, "ends with its connection", end)
        return
    if packets:
        check(tuple(packets[0]) == (
            PacketTypes.AUTH, b"identity", digest(b"identity"), os.getpid()),
            "authenticates first", packets[0])
    check(not c.stuck, "its replies are complete, one per request",
          (packets, rest[:20]))
    if cut is not None and c.eof:
        check(zero, "ends with its connection", repr(end))
    replies = packets[1:]
    check(cut is not None or not rest, "nothing incomplete is sent")
    check(len(set(state.started)) == len(state.started),
          "executed once", state.started)
    # what the worker is expected to get to
    died = None
    sig = state.signals[0] if state.signals else None
    for i in range(n):
        how = hows[i]
        hit = sig is not None and sig[0] == i
        reply = replies[i] if i < len(replies) else None
        if reply is None:
            died = i
            break
        if hit:
            turn, started, finished, sent = sig
            before = sum(x != "load" for x in hows[:i])
            if finished <= before and how != "load":
                cover("cancelled")
                check(reply[0] == PacketTypes.CANCELLED,
                      "the cancelled request", (how, reply))
            elif reply[0] != PacketTypes.CANCELLED:
                cover("too late")
                expect(i, how, script[i], reply)
        else:
            expect(i, how, script[i], reply)
        if how in ("exit0", "exit1"):
            cover("replied to exit")
    check(len(replies) <= n, "one reply per request", replies)
    if died is None:
        cover("answered everything")
        check(zero, "ends with its connection", repr(end))
        return
    how = hows[died]
    hit = sig is not None and sig[0] == died
    if how in ("exit0", "exit1") and died in state.started:
        cover("exit")
        if not lost:
            check(not zero, "is to be replaced after its function exited",
                  repr(end))
    elif hit and len(state.started) <= sum(
            x != "load" for x in hows[:died]):
        cover("interrupted before the function")
        check(not zero, "is to be replaced after the signal", repr(end))
    else:
        check(cut is not None and c.eof,
              "a request was not answered", (died, how, repr(end), sig))


def refused():
    """the pool does not accept the worker"""
    auth = pick("auth", [None, PacketTypes.AUTH_FAIL, PacketTypes.BAD_PACKET])
    Sock = Conn.new(script=[request(0, "none")], auth=auth)
    with sandbox(Sock) as state:
        w = module("worker")
        try:
            w.worker(ADDRESS, COOKIE, b"identity")
        except Exception as e:
            cover("refused")
            check(auth is not None, "ends with its connection", e)
        else:
            check(auth is None, "an error when not accepted")
    check(not state.started, "executes nothing before it was accepted")


class Died(BaseException):
    pass


def initializer(how, *args, **kw):
    STATE.started.append(how)
    check((args, kw) == ((1,), {"key": "value"}), "initializer's arguments",
          (args, kw))
    if how == "raise":
        raise ValueError("initializer")
    if how == "odd":
        raise Odd("odd")
    if how == "broken":
        raise Broken
    if how == "exit":
        raise SystemExit(3)
    if how == "interrupt":
        raise KeyboardInterrupt


class System:
    """fork, wait and kill; a forked worker runs in a real process of its
    own until it has authenticated"""

    def __init__(self, plan):
        self.plan = list(plan)
        self.children = {}          # pid: identity
        self.dead = set()
        self.killed = []
        self.forks = 0
        self.child = None
        self.waits = 0
        self.told = False           # told to stop
        self.on_wait = lambda: None

    def fork(self):
        if self.child is not None:
            raise Died("a worker forked")
        check(not self.told, "started after being told to stop")
        self.forks += 1
        pid = 10**7 + self.forks
        r, w = os.pipe()
        real = patches.real.fork()
        if real == 0:
            self.child = w
            STATE.armed = False
            return 0
        os.close(w)
        data = b""
        try:
            while SELECT([r], [], [], 10)[0]:
                part = os.read(r, 65536)
                if not part:
                    break
                data += part
        finally:
            os.close(r)
            patches.real.kill(real, signal.SIGKILL)
            patches.real.waitpid(real, 0)
        if not data:
            fail("a worker ends with its connection", "it does not")
        identity, status, kills, handler = pickle.loads(data)
        check(status == 0, "a worker ends with its connection", status)
        check(not kills, "a worker kills nobody", kills)
        check(handler, "a worker does not treat interrupts as the supervisor")
        self.children[pid] = identity
        return pid

    def report(self, sock, end):
        """in the child: what happened"""
        c = sock.made[0] if sock.made else None
        identity = None
        if c is not None:
            packets, rest = c.packets()
            if packets and tuple(packets[0][:3]) == (
                    PacketTypes.AUTH, packets[0][1], digest(packets[0][1])):
                identity = packets[0][1]
        status = 0
        if end is not None and not (
                isinstance(end, SystemExit) and not end.code):
            status = repr(end)
        for f, a, kw in reversed(STATE.atexit):
            try:
                f(*a, **kw)
            except Exception:
                pass
        handler = STATE.handlers.get(INT_SIGNAL)
        os.write(self.child, pickle.dumps((
            identity, status, self.killed,
            handler in (None, signal.SIG_DFL, signal.default_int_handler))))

    def alive(self):
        return [p for p in self.children if p not in self.dead]

    def wait(self):
        if self.child is not None:
            raise Died("a worker waits")
        self.waits += 1
        self.on_wait()
        STATE.point()
        if not self.plan:
            # nothing happens until it is told to stop
            self.told = True
            STATE.signals.append("end")
            h = STATE.handlers[INT_SIGNAL]
            h(INT_SIGNAL, None)
            return self.wait()
        which, status = self.plan.pop(0)
        alive = self.alive()
        if not alive:
            self.told = True
            raise ChildProcessError(10, "no child processes")
        pid = alive[which % len(alive)]
        self.dead.add(pid)
        return pid, status

    def waitpid(self, pid, options=0):
        return self.wait()

    def kill(self, pid, sig):
        self.killed.append((pid, sig))
        if pid not in self.children or pid in self.dead:
            raise ProcessLookupError(3, "no such process")


def supervisor(ids, deaths, anywhere):
    ids_ = tuple(b"id-%d" % i for i in range(ids))
    plan = [(choose("which%d" % i, ids) if ids > 1 else 0,
             pick("status%d" % i, [0, 9, 256])) for i in range(deaths)]
    system = System(plan)
    init = pick("initializer", ["none", "ok"]) if not anywhere else "none"
    stdin = Stdin((logging.CRITICAL, "disabled"), ADDRESS, COOKIE, ids_, (
        initializer if init == "ok" else None, ("ok", 1),
        {"key": "value"}))
    # the pool answers nothing more: the worker ends
    Sock = Conn.new(auth=None)
    with sandbox(Sock, stdin) as state:
        os_ = sim().os
        os_["fork"], os_["wait"] = system.fork, system.wait
        os_["waitpid"], os_["kill"] = system.waitpid, system.kill
        expected = list(ids_)

        def on_wait():
            running = sorted(system.children[p] for p in system.alive())
            gone = [system.children[p] for p in system.dead
                    if p in ended]
            want = sorted(x for x in ids_ if x not in gone)
            check(running == want, "one worker per identity",
                  (running, want))

        ended = set()
        real_wait = system.wait

        def wait():
            pid, status = real_wait()
            if status == 0:
                ended.add(pid)
            else:
                cover("death")
            return pid, status

        os_["wait"] = wait
        system.on_wait = on_wait
        state.sig = INT_SIGNAL
        state.describe = lambda: setattr(system, "told", True)
        if anywhere:
            state.at = sym_int("at", 1, 400)
        m = module("forking")
        end = None
        state.inside = True
        # the interrupts matter as soon as there is a handler
        set_signal = signal.signal

        def arm(sig, h):
            out = set_signal(sig, h)
            if sig == INT_SIGNAL and system.child is None:
                state.armed = True
            return out

        signal.signal = arm
        fork = os_["fork"]

        def forked():
            was, state.armed = state.armed, False
            try:
                return fork()
            finally:
                if system.child is None:
                    state.armed = was

        os_["fork"] = forked
        try:
            with Tracer(*CODE if anywhere else ()):
                m.main()
        except (Exception, SystemExit, KeyboardInterrupt,
                ChildProcessError) as e:
            end = e
        except BaseException as e:
            if system.child is None:
                raise
            end = e
        if system.child is not None:
            try:
                system.report(Sock, end)
            finally:
                patches.real._exit(0)
        state.armed = False
        check(system.told or not system.alive(), "runs until told to stop",
              repr(end))
        check(state.started == (["ok"] if init == "ok" else []),
              "the initializer is called once", state.started)
        system.told = True
        for f, a, kw in reversed(state.atexit):
            try:
                f(*a, **kw)
            except Exception as e:
                fail("error at exit", repr(e))
        orphans = [p for p in system.alive()
                   if (p, signal.SIGTERM) not in system.killed]
        if not anywhere:
            check(not orphans, "workers are terminated", orphans)
        else:
            check(len(orphans) <= 1, "workers are terminated", orphans)
        for p, sig in system.killed:
            check(p in system.children, "foreign processes are left alone",
                  p)
            check(p not in system.dead, "processes which are gone are left "
                  "alone", p)


def more(*a):
    fail("nothing more is started after the initializer failed")


def bad_init(name, kinds):
    how = pick("how", list(kinds))
    ids = tuple(b"id-%d" % i for i in range(2))
    stdin = Stdin((logging.CRITICAL, "disabled"), ADDRESS, COOKIE,
                  ids if name == "forking" else ids[0],
                  (initializer, (how, 1), {"key": "value"}))
    Sock = Conn.new(auth=None)
    with sandbox(Sock, stdin) as state:
        end = None
        sim().os.update(fork=more, wait=more, waitpid=more, kill=more)
        m = module(name)
        try:
            m.main() if name == "forking" else m.worker_inner()
        except (Exception, SystemExit) as e:
            end = e
    check(state.started == [how], "called once", state.started)
    check(len(Sock.made) == 1, "one connection")
    packets, rest = Sock.made[0].packets()
    check(not rest, "complete")
    if how == "ok":
        cover("fine")
        check(packets[0][0] == PacketTypes.AUTH and
              packets[0][1] == ids[0] and
              packets[0][2] == digest(ids[0]), "becomes a worker", packets)
        return
    cover("reported")
    check(end is None or isinstance(end, SystemExit) and not end.code,
          "is not replaced", repr(end))
    check(len(packets) == 2 and tuple(packets[0][:3]) == (
        PacketTypes.BAD_INITIALIZER, ids[0], digest(ids[0])) and
        packets[1][0] == PacketTypes.EXCEPTION and
        isinstance(packets[1][1], BaseException), "reported once", packets)
    if how in ("raise", "exit", "interrupt"):
        check(type(packets[1][1]) is {
            "raise": ValueError, "exit": SystemExit,
            "interrupt": KeyboardInterrupt}[how], "its own exception",
            packets[1])


def windows(ids, deaths):
    """the supervisor without fork: processes are started separately"""
    ids_ = tuple(b"id-%d" % i for i in range(ids))
    rounds = [[choose("dies%d-%d" % (r, i), 2) for i in range(ids)]
              for r in range(deaths)]
    made, told = [], []
    given = pick("initializer", [(None, (), {}), (
        initializer, ("ok", 1), {"key": "value"})])

    class Process:
        def __init__(self, argv, stdin=None, env=None, **kw):
            check(not told, "started after being told to stop")
            self.pid = 10**7 + len(made)
            self.returncode = None
            self.stdin = Kept()
            self.killed = []
            made.append(self)

        def poll(self):
            return self.returncode

        def kill(self):
            self.killed.append(signal.SIGKILL)

        terminate = kill

        @property
        def identity(self):
            p = FileIOProtocol(io.BytesIO(self.stdin.data))
            first, address, cookie, identity, init = (
                p.receive() for _ in range(5))
            check((address, cookie) == (ADDRESS, COOKIE), "handed over")
            check(init == given, "initializer", init)
            return identity

    class Kept(io.BytesIO):
        def close(self):
            self.data = self.getvalue()
            super().close()

    def kill(pid, sig):
        for p in made:
            if p.pid == pid:
                p.killed.append(sig)
                return
        fail("foreign processes are left alone", pid)

    def sleep(d):
        alive = sorted(p.identity for p in made if p.returncode is None)
        check(alive == sorted(ids_), "one worker per identity", alive)
        if not rounds:
            told.append(1)
            raise KeyboardInterrupt
        for dies, p in zip(rounds.pop(0), [
                p for p in made if p.returncode is None]):
            if dies:
                cover("death")
                p.returncode = 1

    stdin = Stdin((logging.CRITICAL, "disabled"), ADDRESS, COOKIE, ids_,
                  given)
    with sandbox(FakeSocket, stdin) as state:
        sim().os["Popen"] = Process
        sim().os["kill"] = kill
        m = module("process")
        if hasattr(m, "sleep"):
            m.sleep = sleep
        old, time.sleep = time.sleep, sleep
        try:
            check(m.main() in (0, None), "ends in order")
        finally:
            time.sleep = old
        for f, a, kw in list(reversed(state.atexit)):
            f(*a, **kw)
        for p in made:
            check(p.returncode is not None or p.killed,
                  "workers are stopped", p.identity)
        for p in made:
            p.returncode = 0


def scenarios(tier):
    deep = tier == "thorough"
    out = [Scenario("refused", refused, covers=["refused"])]
    for n in (1, 2):
        out.append(Scenario("requests %d" % n, worker,
                            dict(n=n, kinds=KINDS),
                            covers=["answered everything", "exit"]))
    few = ("value", "raise", "connection", "odd", "load")
    out.append(Scenario("requests 3", worker, dict(n=3, kinds=few),
                        covers=["answered everything"]))
    for how in KINDS:
        out.append(Scenario("signal %s" % how, worker, dict(
            n=1, kinds=(how,), signalled=True),
            covers=["signal", "interrupted before the function"]))
    for how in KINDS if deep else ("value", "raise", "cancelled", "lambda",
                                   "load"):
        cv = ["signal", "answered everything"]
        if how not in ("load", "exit0", "exit1"):
            cv.append("cancelled")
        out.append(Scenario("signal %s, more" % how, worker, dict(
            n=2, kinds=(how,), signalled=True), covers=cv))
    out.append(Scenario("lost", worker, dict(
        n=2, kinds=("value", "raise", "exit0", "lambda"), lost=True),
        covers=["lost"]))
    for ids in (1, 2, 3) if deep else (1, 2):
        out.append(Scenario("supervisor %d" % ids, supervisor, dict(
            ids=ids, deaths=(4 if deep else 3) - (ids > 1),
            anywhere=False), covers=["death"], path_timeout=60))
    for ids in 1, 2:
        out.append(Scenario("supervisor %d interrupt" % ids, supervisor, dict(
            ids=ids, deaths=1 + deep, anywhere=True),
            covers=["signal"], path_timeout=60))
    for name in "forking", "process_inner":
        out.append(Scenario("initializer %s" % name, bad_init, dict(
            name=name, kinds=("raise", "odd", "broken", "exit", "interrupt")
            + (("ok",) if name == "process_inner" else ())),
            covers=["reported"]))
    out.append(Scenario("separate", windows, dict(
        ids=2, deaths=3 if deep else 2), covers=["death"]))
    return out
