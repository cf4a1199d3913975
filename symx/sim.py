"""
symx.sim -- the environment model: one virtual clock, cooperative threads and
a pure Python asyncio event loop.  All of it runs identically on symbolic
values (exploration) and on plain values (replay).
"""
import os
import _thread
import asyncio
import collections
import ctypes
import sys
import threading
import time
from asyncio import base_events, events, futures, tasks

from . import core
from .core import ENGINE, Hang, Inconclusive, PathEnd

_allocate = _thread.allocate_lock
_get_ident = _thread.get_ident
_start_new_thread = _thread.start_new_thread

REPO_PREFIX = os.environ.get("VERIF_REPO", "/repo") + "/"


class SimKill(PathEnd):
    pass


class Rec:
    __slots__ = ("idx", "gate", "pred", "deadline", "done", "ident", "obj",
                 "timed_out", "name", "started")

    def __init__(self, idx, name):
        self.idx = idx
        self.name = name
        self.gate = _allocate()
        self.gate.acquire()
        self.pred = None            # None: runnable
        self.deadline = None
        self.done = False
        self.ident = None
        self.obj = None
        self.timed_out = False
        self.started = False


class Sim:
    """per path"""

    def __init__(self, t0=0.0):
        self.now = t0
        self.wall0 = 1700000000.0
        self.recs = [Rec(0, "MainThread")]
        self.recs[0].ident = _get_ident()
        self.recs[0].started = True
        self.cur = self.recs[0]
        self.killing = False
        self.preempt_budget = 0
        self.line_mode = False
        self.line_files = None
        self.free_choice = True
        self.delay_budget = None
        self.switches = 0
        self.max_switches = 5000
        self.on_idle = None
        self.advance_hook = None
        self.max_time = None
        self.random_hook = None
        self.randoms = 0
        self.sleep_hook = None
        self.os = {}                # stand-ins for the operating system
        self.net = None

    # ---- threads ------------------------------------------------------------
    def spawn(self, run, name, obj=None):
        rec = Rec(len(self.recs), name)
        rec.obj = obj
        rec.started = True
        self.recs.append(rec)

        def boot():
            rec.gate.acquire()
            rec.ident = _get_ident()
            try:
                if not self.killing:
                    run()
            except SimKill:
                pass
            except PathEnd as e:
                if ENGINE.abort is None and not self.killing:
                    ENGINE.abort = e
            except BaseException as e:
                if not self.killing and ENGINE.abort is None:
                    ENGINE.abort = core.Violation(
                        "thread-crashed:" + type(e).__name__, repr(e))
            finally:
                rec.done = True
                rec.pred = None
                self._leave()

        _start_new_thread(boot, ())
        return rec

    def _leave(self):
        """a finished thread passes the baton on"""
        if self.killing:
            self.recs[0].gate.release()
            return
        if ENGINE.abort is not None:
            self._give(self.recs[0])
            return
        try:
            nxt = self._next(None)
        except BaseException:
            nxt = self.recs[0]
        self._give(nxt)

    def _give(self, rec):
        self.cur = rec
        rec.gate.release()

    def _switch(self, rec):
        me = self.cur
        if rec is me:
            return
        self.switches += 1
        if self.switches > self.max_switches:
            ENGINE.fail_path(Inconclusive("switch bound exceeded"))
        self._give(rec)
        me.gate.acquire()
        if self.killing and me.idx != 0:
            raise SimKill()
        if ENGINE.abort is not None:
            raise ENGINE.abort

    def _ready(self):
        out = []
        for r in self.recs:
            if r.done or not r.started:
                continue
            if r.pred is None:
                out.append(r)
            elif r.pred():
                out.append(r)
        return out

    def _next(self, me, allow_stay=True):
        """choose the thread which runs next (solver decided)"""
        while True:
            ready = self._ready()
            if ready:
                break
            waiting = [r for r in self.recs
                       if not r.done and r.deadline is not None]
            if not waiting:
                ENGINE.fail_path(Hang(
                    "deadlock: nothing is runnable and nothing is scheduled"))
            best = waiting[0]
            bd = best.deadline()
            for r in waiting[1:]:
                d = r.deadline()
                if d < bd:
                    best, bd = r, d
            self.advance(bd)
            best.timed_out = True
            best.pred = None
            best.deadline = None
            ready = [best]
            break
        if len(ready) == 1:
            r = ready[0]
        else:
            r = ready[self._choose(ready)]
        if r.pred is not None:
            r.pred = None
            r.deadline = None
            r.timed_out = False
        return r

    def _choose(self, ready):
        # default: the longest waiting thread after the current one
        start = self.cur.idx
        order = sorted(range(len(ready)),
                       key=lambda i: (ready[i].idx <= start, ready[i].idx))
        if self.free_choice:
            return order[core.choose("sched", len(ready))]
        if self.delay_budget:
            k = core.choose("sched", len(ready))
            if k:
                self.delay_budget -= 1
            return order[k]
        return order[0]

    def advance(self, t):
        if self.max_time is not None and t > self.max_time:
            ENGINE.fail_path(core.Inconclusive("virtual time bound"))
        if t > self.now:
            self.now = t
            if self.advance_hook is not None:
                self.advance_hook()

    def block(self, pred, deadline=None):
        """block the current thread; True when pred held, False on timeout.
        ``deadline`` is a callable returning the instant (or None)"""
        if self.killing:
            raise SimKill()
        if ENGINE.abort is not None:
            raise ENGINE.abort
        me = self.cur
        me.pred = pred
        me.deadline = deadline
        me.timed_out = False
        nxt = self._next(me)
        self._switch(nxt)
        if me.timed_out:
            me.timed_out = False
            return False
        return True

    def point(self):
        """a preemption point: the current thread could go on"""
        if self.killing:
            return
        if len(self.recs) == 1 or self.preempt_budget <= 0:
            return
        if ENGINE.abort is not None:
            raise ENGINE.abort
        me = self.cur
        ready = [r for r in self._ready() if r is not me]
        if not ready:
            return
        k = core.choose("preempt", len(ready) + 1)
        if k == 0:
            return
        self.preempt_budget -= 1
        r = ready[k - 1]
        if r.pred is not None:
            r.pred = None
            r.deadline = None
            r.timed_out = False
        self._switch(r)

    def sleep(self, delay):
        if delay <= 0:
            self.yield_()
            return
        target = self.now + delay
        self.block(lambda: False, lambda: target)

    def spin(self, loop):
        """``loop`` only polls: whatever else can happen happens"""
        me = self.cur
        ready = [r for r in self._ready() if r is not me]
        if ready:
            r = ready[self._choose(ready)] if len(ready) > 1 else ready[0]
            if r.pred is not None:
                r.pred = None
                r.deadline = None
                r.timed_out = False
            self._switch(r)
            return
        nxt = loop._next_when()
        bd = None if nxt is None else nxt._when
        best = None
        for r in self.recs:
            if r.done or r is me or r.deadline is None:
                continue
            d = r.deadline()
            if bd is None or d < bd:
                best, bd = r, d
        if bd is None:
            ENGINE.fail_path(Hang("livelock: polling for what never comes"))
        self.advance(bd)
        if best is None:
            loop._fire(nxt)
            return
        best.timed_out = True
        best.pred = None
        best.deadline = None
        self._switch(best)

    def yield_(self):
        if len(self.recs) > 1:
            self.point()

    def kill_all(self):
        self.killing = True
        assert self.cur is self.recs[0] or True
        self.cur = self.recs[0]
        for r in self.recs[1:]:
            n = 0
            while not r.done:
                r.gate.release() if r.gate.locked() else None
                if not self.recs[0].gate.acquire(True, 5):
                    raise RuntimeError("simulated thread does not end")
                n += 1
                if n > 50:
                    raise RuntimeError("simulated thread does not end")


SIM = None


def sim():
    return SIM


def active():
    return SIM is not None and ENGINE.mode is not None


def begin_path():
    global SIM
    SIM = Sim()
    Loop.instances = []


def end_path():
    global SIM
    s, SIM_ = SIM, None
    try:
        if s is not None and len(s.recs) > 1:
            # primitives still have to see the simulation while unwinding
            s.kill_all()
    finally:
        SIM = None
        for l in Loop.instances:
            l._abandon()
        Loop.instances = []
        events._set_running_loop(None)
        try:
            asyncio.set_event_loop(None)
        except Exception:
            pass


# ---- primitives -----------------------------------------------------------------

class SimLock:
    def __init__(self):
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = SIM
        if s is None or s.killing:
            self._owner = _get_ident()
            return True
        s.point()
        if self._owner is None:
            self._owner = _get_ident()
            return True
        if not blocking:
            return False
        if timeout is not None and not (
                isinstance(timeout, (int, float)) and timeout < 0):
            target = s.now + timeout
            ok = s.block(lambda: self._owner is None, lambda: target)
        else:
            ok = s.block(lambda: self._owner is None)
        if not ok:
            return False
        self._owner = _get_ident()
        return True

    def release(self):
        s = SIM
        if self._owner is None:
            if s is None or s.killing:
                return
            raise RuntimeError("release unlocked lock")
        self._owner = None
        if s is not None:
            s.point()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None


class SimRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        s = SIM
        if self._owner == me:
            self._count += 1
            return True
        if s is None or s.killing:
            self._owner, self._count = me, 1
            return True
        s.point()
        if self._owner is None:
            self._owner, self._count = me, 1
            return True
        if not blocking:
            return False
        if timeout is not None and not (
                isinstance(timeout, (int, float)) and timeout < 0):
            target = s.now + timeout
            ok = s.block(lambda: self._owner is None, lambda: target)
        else:
            ok = s.block(lambda: self._owner is None)
        if not ok:
            return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        s = SIM
        if self._owner != _get_ident():
            if s is None or s.killing:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if s is not None:
                s.point()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        return st

    def _acquire_restore(self, st):
        SimRLock.acquire(self)
        self._count, self._owner = st

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


_real_Lock = threading.Lock
_real_RLock = threading.RLock
_real_allocate = threading._allocate_lock
_RealThread = threading.Thread


def Lock():
    return SimLock() if active() else _real_Lock()


def RLock():
    return SimRLock() if active() else _real_RLock()


class _SimThreadMixin:
    pass


class Thread(_RealThread):
    """threading.Thread; simulated when created on an explored path"""

    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, *, daemon=None):
        self._sx = active()
        if not self._sx:
            super().__init__(group, target, name, args, kwargs,
                             daemon=daemon)
            return
        self._target = target
        self._args = args
        self._kwargs = kwargs if kwargs is not None else {}
        self._name = str(name) if name is not None else (
            "SimThread-%d" % ENGINE.next_serial())
        self._daemonic = bool(daemon)
        self._rec = None
        self._hash = ENGINE.next_serial()
        self._initialized = True
        self._sx_serial = ENGINE.pid

    def start(self):
        if not self._sx:
            return super().start()
        if self._rec is not None:
            raise RuntimeError("threads can only be started once")
        s = SIM
        if s is None or s.killing:
            raise SimKill()
        self._rec = s.spawn(self._sx_run, self._name, self)
        s.point()

    def _sx_run(self):
        try:
            self.run()
        except SystemExit:
            pass
        except PathEnd:
            raise
        except BaseException as e:
            # real threads print the traceback and die
            self._sx_exc = e
            hook = getattr(SIM, "thread_excepthook", None)
            if hook is not None:
                hook(self, e)

    def join(self, timeout=None):
        if not self._sx:
            return super().join(timeout)
        if self._rec is None:
            raise RuntimeError("cannot join thread before it is started")
        s = SIM
        if s is None or s.killing:
            return
        rec = self._rec
        if rec.done:
            return
        if timeout is None:
            s.block(lambda: rec.done)
        else:
            target = s.now + timeout
            s.block(lambda: rec.done, lambda: target)

    def is_alive(self):
        if not self._sx:
            return super().is_alive()
        return self._rec is not None and not self._rec.done

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, v):
        self._name = str(v)

    @property
    def ident(self):
        if not self._sx:
            return self._ident
        return self._rec.ident if self._rec else None

    @property
    def daemon(self):
        return self._daemonic

    @daemon.setter
    def daemon(self, v):
        self._daemonic = v

    def __hash__(self):
        return self._hash if self._sx else object.__hash__(self)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return "<Thread %s>" % self._name


_real_current_thread = threading.current_thread


def current_thread():
    if active():
        s = SIM
        if s.cur.idx != 0 and s.cur.obj is not None:
            return s.cur.obj
        return threading.main_thread()
    return _real_current_thread()


class SimpleQueue:
    """pure Python queue.SimpleQueue"""

    def __init__(self):
        self._queue = collections.deque()
        self._cond = threading.Condition(threading.Lock())

    def put(self, item, block=True, timeout=None):
        with self._cond:
            self._queue.append(item)
            self._cond.notify()

    def put_nowait(self, item):
        self.put(item)

    def get(self, block=True, timeout=None):
        import queue
        with self._cond:
            if not block:
                if not self._queue:
                    raise queue.Empty
            elif timeout is None:
                while not self._queue:
                    self._cond.wait()
            else:
                end = time.monotonic() + timeout
                while not self._queue:
                    rest = end - time.monotonic()
                    if rest <= 0:
                        raise queue.Empty
                    self._cond.wait(rest)
            return self._queue.popleft()

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self._queue

    def qsize(self):
        return len(self._queue)


# ---- event loop ---------------------------------------------------------------

class Task(tasks.Task):
    def __init__(self, *a, **k):
        self._sxh = ENGINE.next_serial()
        super().__init__(*a, **k)
        self._log_destroy_pending = False

    def __hash__(self):
        return self._sxh

    def __eq__(self, o):
        return self is o


class Future(futures.Future):
    def __init__(self, *a, **k):
        self._sxh = ENGINE.next_serial()
        super().__init__(*a, **k)

    def __hash__(self):
        return self._sxh

    def __eq__(self, o):
        return self is o

    def __del__(self):
        pass


class Loop(base_events.BaseEventLoop):
    """asyncio event loop on the virtual clock of the simulation"""
    instances = []
    ties = "separate"
    # iterations in which nothing happens before time goes on; 0: never
    spin_limit = 0
    _spin = 0
    _wake = False
    _spin_mark = None
    _spin_now = None

    def __init__(self, sim=None):
        super().__init__()
        self._sim = sim or SIM
        self._timers = []
        self._blocked = False
        self._seq = 0
        self.max_steps = 4000
        self.exceptions = []
        self.set_task_factory(self._make_task)
        self.set_exception_handler(self._on_exc)
        self._sx_abandoned = False
        self._hash = ENGINE.next_serial()
        self.lag_budget = 0
        self._signals = {}
        Loop.instances.append(self)

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    def __del__(self):
        pass

    def _on_exc(self, loop, ctx):
        self.exceptions.append(
            (ctx.get("message", ""), repr(ctx.get("exception"))))

    def _make_task(self, loop, coro, **kw):
        return Task(coro, loop=loop, **kw)

    def create_future(self):
        return Future(loop=self)

    # time
    def time(self):
        return self._sim.now

    def call_at(self, when, callback, *args, context=None):
        if when is None:
            raise TypeError("when cannot be None")
        self._check_closed()
        t = events.TimerHandle(when, callback, args, self, context)
        t._scheduled = True
        self._timers.append(t)
        return t

    def _timer_handle_cancelled(self, handle):
        if handle in self._timers:
            pass
        for i, t in enumerate(self._timers):
            if t is handle:
                del self._timers[i]
                break

    def _next_when(self):
        best = None
        for t in self._timers:
            if t._cancelled:
                continue
            if best is None or t._when < best._when:
                best = t
        return best

    def call_soon_threadsafe(self, callback, *args, context=None):
        self._check_closed()
        s = self._sim
        if SIM is s:
            s.point()
            self._check_closed()
        h = self._call_soon(callback, args, context)
        self._write_to_self()
        if SIM is s:
            s.point()
        return h

    def _write_to_self(self):
        # only this ends the wait of a loop which has nothing to do
        self._wake = True

    def _process_events(self, ev):
        pass

    def is_idle(self):
        return not self._ready

    def _run_once(self):
        s = self._sim
        if ENGINE.abort is not None:
            raise ENGINE.abort
        if SIM is not s:
            raise core.DeadSymbol("loop of a finished path")
        if not self._ready and not self._stopping:
            nxt = self._next_when()
            fire = False
            if nxt is None:
                self._wake = False
                s.block(lambda: self._wake)
            elif len(s.recs) == 1:
                if self.lag_budget:
                    self._lag(nxt)
                s.advance(nxt._when)
                fire = True
            elif nxt._when <= s.now:
                fire = True
            else:
                w = nxt._when
                self._wake = False
                fire = not s.block(lambda: self._wake, lambda: w)
            if fire:
                self._fire(nxt)
        else:
            if len(s.recs) > 1:
                s.point()
            if self.spin_limit:
                mark = (s.switches, len(self._timers))
                if mark != self._spin_mark or bool(s.now != self._spin_now):
                    self._spin_mark, self._spin_now = mark, s.now
                    self._spin = 0
                self._spin += 1
                if self._spin > self.spin_limit:
                    self._spin = 0
                    s.spin(self)
        n = len(self._ready)
        for _ in range(n):
            if not self._ready:
                break
            h = self._ready.popleft()
            if h._cancelled:
                continue
            ENGINE.steps += 1
            if ENGINE.steps > self.max_steps:
                ENGINE.fail_path(Hang("event loop step bound exceeded"))
            h._run()
            if ENGINE.abort is not None:
                raise ENGINE.abort

    def _fire(self, t):
        if t._cancelled:
            return
        self._timers.remove(t)
        t._scheduled = False
        self._ready.append(t)
        if self.ties == "fork":
            for o in list(self._timers):
                if not o._cancelled and o._when <= self._sim.now:
                    self._timers.remove(o)
                    o._scheduled = False
                    self._ready.append(o)

    def _lag(self, nxt):
        pass

    def close(self):
        if self.is_running():
            raise RuntimeError("Cannot close a running event loop")
        if self._closed:
            return
        self._closed = True
        self._ready.clear()
        self._timers.clear()
        self._executor_shutdown_called = True
        ex = self._default_executor
        if ex is not None:
            self._default_executor = None
            ex.shutdown(wait=False)

    def _abandon(self):
        self._closed = True
        self._sx_abandoned = True
        self._ready.clear()
        self._timers.clear()

    # network: everything goes through SIM.net, see net.py
    def _net(self):
        if self._sim.net is None:
            ENGINE.fail_path(Inconclusive("no network in this scenario"))
        return self._sim.net

    def _start_serving(self, protocol_factory, sock, sslcontext=None,
                       server=None, *args, **kwargs):
        self._net().start_serving(
            self, protocol_factory, sock, sslcontext, server)

    def _stop_serving(self, sock):
        self._net().stop_serving(sock)
        sock.close()

    async def create_connection(self, protocol_factory, host=None, port=None,
                                **kw):
        return await self._net().create_connection(
            self, protocol_factory, host, port, **kw)

    async def create_unix_connection(self, protocol_factory, path=None, **kw):
        return await self._net().create_connection(
            self, protocol_factory, path, None, **kw)

    def _make_datagram_transport(self, sock, protocol, address=None,
                                 waiter=None, extra=None):
        return self._net().datagram_transport(
            self, sock, protocol, address, waiter)

    def add_signal_handler(self, sig, cb, *args):
        self._signals[sig] = (cb, args)

    def remove_signal_handler(self, sig):
        return self._signals.pop(sig, None) is not None

    def default_exception_handler(self, context):
        self._on_exc(self, context)

    def run_until_complete(self, future):
        try:
            return super().run_until_complete(future)
        except BaseException:
            if ENGINE.abort is not None:
                raise ENGINE.abort
            raise


class Policy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        if active():
            return Loop()
        return super().new_event_loop()


def _loop_factory(real):
    def factory(self):
        return Loop() if active() else real()
    return factory


# loops which the code under test makes by itself
asyncio.unix_events._UnixDefaultEventLoopPolicy._loop_factory = \
    _loop_factory(asyncio.unix_events._UnixSelectorEventLoop)
try:
    import uvloop as _uvloop
except ImportError:
    pass
else:
    _uvloop.EventLoopPolicy._loop_factory = \
        _loop_factory(_uvloop.new_event_loop)


def new_loop(**kw):
    loop = Loop()
    for k, v in kw.items():
        setattr(loop, k, v)
    asyncio.set_event_loop(loop)
    return loop


def run(coro, **kw):
    loop = new_loop(**kw)
    try:
        return loop.run_until_complete(coro)
    finally:
        if ENGINE.abort is not None:
            raise ENGINE.abort


# ---- line level preemption ------------------------------------------------------

class Lines:
    TOOL = 5
    enabled = False
    installed = False
    files = ()

    @classmethod
    def install(cls):
        if cls.installed:
            return
        mon = sys.monitoring
        mon.use_tool_id(cls.TOOL, "symx-lines")
        mon.register_callback(cls.TOOL, mon.events.LINE, cls._line)
        cls.installed = True

    @classmethod
    def _line(cls, code, line):
        if not code.co_filename.startswith(REPO_PREFIX):
            return sys.monitoring.DISABLE
        s = SIM
        if s is None or not s.line_mode or ENGINE.mode is None:
            return None
        f = s.line_files
        if f is not None and not code.co_filename.endswith(f):
            return None
        s.point()
        return None

    @classmethod
    def on(cls, files=None):
        cls.install()
        SIM.line_mode = True
        SIM.line_files = files
        mon = sys.monitoring
        mon.set_events(cls.TOOL, mon.events.LINE)

    @classmethod
    def off(cls):
        if cls.installed:
            sys.monitoring.set_events(cls.TOOL, 0)


def threads(preempt=0, lines=None, free_choice=True, delays=None):
    """configure the scheduler of this path"""
    SIM.preempt_budget = preempt
    SIM.free_choice = free_choice
    SIM.delay_budget = delays
    if lines is not None:
        Lines.on(lines or None)
