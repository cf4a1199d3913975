"""
symx.patches -- installs the environment model under the standard library
*before* aiomisc is imported, so that ``from random import random`` and the
like also bind the model.  Outside of an explored path every stub behaves as
the original.
"""
import asyncio
import logging
import queue
import random
import sys
import threading
import time
import types

from . import core, sim
from .core import ENGINE

_installed = False
real = types.SimpleNamespace(
    time=time.time, monotonic=time.monotonic, sleep=time.sleep,
    perf_counter=time.perf_counter, time_ns=time.time_ns,
    monotonic_ns=time.monotonic_ns,
    random=random.random, randint=random.randint, uniform=random.uniform,
    choice=random.choice, getrandbits=random.getrandbits,
    thread=threading.Thread,
)


def _time():
    if sim.active():
        return sim.SIM.now + sim.SIM.wall0
    return real.time()


def _monotonic():
    if sim.active():
        return sim.SIM.now
    return real.monotonic()


def _perf_counter():
    if sim.active():
        return sim.SIM.now
    return real.perf_counter()


def _sleep(d):
    if sim.active():
        return sim.SIM.sleep(d)
    return real.sleep(d)


def _random():
    if sim.active():
        s = sim.SIM
        if s.random_hook is not None:
            return s.random_hook()
        v = core.sym_real("random", 0, 1)
        core.assume(v < 1)
        return v
    return real.random()


def _uniform(a, b):
    if sim.active():
        v = core.sym_real("uniform")
        core.assume(core.And(v >= a, v <= b))
        return v
    return real.uniform(a, b)


def _randint(a, b):
    if sim.active():
        v = core.sym_int("randint")
        core.assume(core.And(v >= a, v <= b))
        return v
    return real.randint(a, b)


def _choice(seq):
    if sim.active():
        return seq[core.choose("choice", len(seq))]
    return real.choice(seq)


def _getrandbits(n):
    if sim.active() and "getrandbits" in sim.SIM.os:
        return sim.SIM.os["getrandbits"](n)
    return real.getrandbits(n)


def _time_ns():
    if sim.active() and "time_ns" in sim.SIM.os:
        return sim.SIM.os["time_ns"]()
    return real.time_ns()


def _allocate_lock():
    if sim.active():
        return sim.SimLock()
    return sim._real_allocate()


def install():
    import warnings
    warnings.simplefilter("ignore")
    global _installed
    if _installed:
        return
    _installed = True
    # logging keeps the real clock for its records
    logging.lastResort = None
    logging.raiseExceptions = False
    lt = types.ModuleType("time")
    lt.__dict__.update(time.__dict__)
    logging.time = lt
    time.time = _time
    time.monotonic = _monotonic
    time.perf_counter = _perf_counter
    time.sleep = _sleep
    threading._time = _monotonic
    queue.time = _monotonic
    random.random = _random
    random.uniform = _uniform
    random.randint = _randint
    random.choice = _choice
    random.getrandbits = _getrandbits
    time.time_ns = _time_ns
    threading.Lock = sim.Lock
    threading.RLock = sim.RLock
    threading._allocate_lock = _allocate_lock
    threading.Thread = sim.Thread
    threading.current_thread = sim.current_thread
    threading.currentThread = sim.current_thread
    queue.SimpleQueue = sim.SimpleQueue


    _install_os()


# ---- the operating system ---------------------------------------------------
# inside of a path these go to SIM.os, a dict of stand-ins of the harness
def _os_call(module, name, default=None):
    orig = getattr(module, name)

    def call(*args, **kwargs):
        if sim.active() and ENGINE.mode is not None:
            f = sim.SIM.os.get(name, default)
            if f is None:
                raise ENGINE.fail_path(core.Inconclusive(
                    "no stand-in for %s.%s" % (module.__name__, name)))
            return f(*args, **kwargs)
        # what is left of a finished path (a __del__, say) must not reach
        # the real system
        caller = sys._getframe(1).f_code.co_filename
        if caller.startswith(sim.REPO_PREFIX):
            return None
        return orig(*args, **kwargs)

    call.__name__ = name
    call.__wrapped__ = orig
    setattr(module, name, call)
    setattr(real, name, orig)


def _install_os():
    import os
    import socket
    import subprocess

    for name in ("kill", "fork", "wait", "waitpid", "killpg", "_exit"):
        _os_call(os, name)
    _os_call(os, "chmod", lambda *a, **kw: None)
    _os_call(os, "getpid", os.getpid)

    real_popen = subprocess.Popen
    real.Popen = real_popen

    class Popen(real_popen):
        def __new__(cls, *args, **kwargs):
            caller = sys._getframe(1).f_code.co_filename
            if not sim.active() and caller.startswith(sim.REPO_PREFIX):
                raise RuntimeError("no process outside of a path")
            if sim.active():
                f = sim.SIM.os.get("Popen")
                if f is None:
                    raise ENGINE.fail_path(core.Inconclusive(
                        "no stand-in for subprocess.Popen"))
                return f(*args, **kwargs)
            return real_popen.__new__(cls)

    Popen.__name__ = Popen.__qualname__ = "Popen"
    Popen.__module__ = "subprocess"
    subprocess.Popen = Popen

    real_socket = socket.socket
    real.socket = real_socket

    class Socket(real_socket):
        def __new__(cls, *args, **kwargs):
            if sim.active() and cls is Socket:
                f = sim.SIM.os.get("socket")
                if f is None:
                    raise ENGINE.fail_path(core.Inconclusive(
                        "no stand-in for socket.socket"))
                cls = f
            return real_socket.__new__(cls)

    Socket.__name__ = Socket.__qualname__ = "socket"
    Socket.__module__ = "socket"
    socket.socket = Socket
    socket.SocketType = Socket


_begin_hooks = []
_end_hooks = []


def begin_path():
    sim.begin_path()
    for h in _begin_hooks:
        h()


def end_path():
    try:
        for h in _end_hooks:
            h()
    finally:
        sim.Lines.off()
        sim.end_path()
