"""what the harnesses use"""
import asyncio
import contextlib

from . import core, sim as _simmod
from .core import (
    And, ENGINE, Implies, Not, Or, Pow2, SymBase, symbolic_int, assume, check, choose, cover,
    event, fail, is_sym, pick, smax, smin, sym_bool, sym_int, sym_real,
)
from .explore import Scenario
from .sim import Loop, new_loop, run, threads


def now():
    return _simmod.SIM.now


def sim():
    return _simmod.SIM


def pos_real(name):
    return sym_real(name, 0, strict=True)


class Err(Exception):
    """a marker exception; identity is what matters"""

    def __init__(self, tag=""):
        super().__init__(tag)
        self.tag = tag

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, self.tag)


async def outcome(aw):
    """('ok', value) | ('exc', exception) | ('cancelled', exc)"""
    try:
        return "ok", await aw
    except asyncio.CancelledError as e:
        return "cancelled", e
    except Exception as e:
        return "exc", e


async def settle(n=30):
    """let everything which is ready run, without passing time"""
    for _ in range(n):
        await asyncio.sleep(0)


def canceller(task, at):
    """cancel ``task`` after the delay ``at``"""
    loop = asyncio.get_event_loop()
    return loop.call_later(at, task.cancel)
