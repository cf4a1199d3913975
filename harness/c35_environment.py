"""
C35 -- what surrounds an application: plugins, the choice of the event loop
and its creation, the loop objects belong to, identifiers.  The installed
distributions, how their plugins behave, the variables of the environment,
the settings of loops, random bits and clocks are solver-chosen.
"""
import asyncio
import importlib
import importlib.metadata
import importlib.util
import io
import logging
import os
import sys
import threading
import time
import types
import uuid

from symx.api import *
from symx import sim as _sim

import aiomisc
import aiomisc.compat
import aiomisc.utils
from aiomisc import ThreadPoolExecutor
from aiomisc.compat import EventLoopMixin, get_current_loop, set_current_loop

from .c31_logconfig import logs

PLUGINS = importlib.import_module("aiomisc.plugins")

BOUNDS = {
    "quick": "3 plugins of 2 names in 2 distributions, each loadable or not, "
             "its setup failing or not; 15 values of AIOMISC_USE_UVLOOP; pools "
             "of 1..3 threads; 2 loops; every 128 random bits, every two "
             "instants of the next 500 years",
    "thorough": "as quick, 4 plugins",
}
ASSUMPTIONS = ["importlib.metadata parses what distributions declare",
               "the standard library sets the version and variant bits of "
               "identifiers"]
OUTSIDE = ["uvloop itself", "the quality of random bits"]

OLD, NEW = "aiomisc", "aiomisc.plugins"


class Dist(importlib.metadata.Distribution):
    def __init__(self, i):
        self.i = i
        self.sections = {}

    def declare(self, group, name, value):
        self.sections.setdefault(group, []).append("%s = %s" % (name, value))

    def read_text(self, filename):
        if filename == "METADATA":
            return "Metadata-Version: 2.1\nName: dist%d\nVersion: 1.%d\n" % (
                self.i, self.i)
        if filename == "entry_points.txt":
            return "".join("[%s]\n%s\n" % (g, "\n".join(e))
                           for g, e in self.sections.items())

    def locate_file(self, path):
        return path


class installed:
    """the installed distributions, and the variables of the environment"""

    def __init__(self, dists, **env):
        self.dists, self.env = dists, env

    def __enter__(self):
        D = importlib.metadata.Distribution
        self.saved = D.__dict__["discover"]
        dists = self.dists
        D.discover = classmethod(lambda cls, **kw: iter(list(dists)))
        self.before = {k: os.environ.get(k) for k in self.env}
        self.put(self.env)
        self.modules = set(sys.modules)
        log = self.log = logging.getLogger("aiomisc.plugins")
        self.logging = log.handlers[:], log.propagate, log.level
        self.errors = []
        h = logging.Handler()
        h.emit = self.errors.append
        h.setLevel(logging.ERROR)
        log.handlers[:], log.propagate = [h], False
        return self

    def put(self, env):
        for k, v in env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v

    def __exit__(self, *exc):
        importlib.metadata.Distribution.discover = self.saved
        self.put(self.before)
        for m in set(sys.modules) - self.modules:
            if m.startswith("c35_"):
                del sys.modules[m]
        self.log.handlers[:], self.log.propagate, level = self.logging


class Exiting(types.ModuleType):
    @property
    def plugin(self):
        sys.exit(3)


class Plugin:
    def __init__(self, i, name, group, how):
        self.i, self.name, self.group, self.how = i, name, group, how
        self.setups = 0
        self.error = Err(i)
        mod = "c35_plug_%d" % i
        self.value = mod + (":inner.plugin" if i % 2 else "")
        if how == "no-module":
            self.value = "c35_missing_%d" % i
            return
        if how == "exits":
            m = Exiting(mod)
            self.value = mod + ":plugin"
        else:
            m = types.ModuleType(mod)
        sys.modules[mod] = m
        self.module = m
        if how == "exits":
            return
        if how == "no-attribute":
            self.value = mod + ":nothing"
            return
        if i % 2:
            m.inner = types.SimpleNamespace(plugin=types.SimpleNamespace())
            m = self.module = m.inner.plugin
        m.setup = self.setup
        m.__doc__ = "doc of %d" % i

    def setup(self):
        self.setups += 1
        if self.how == "setup-fails":
            raise self.error


def plugins(n, groups, names, hows):
    switch = pick("AIOMISC_NO_PLUGINS", [None, "", "1", "yes"])
    dists = [Dist(0), Dist(1)]
    with installed(dists, AIOMISC_NO_PLUGINS=switch) as env:
        ps = []
        for i in range(n):
            p = Plugin(i, pick("name%d" % i, names), pick("group%d" % i, groups),
                       pick("how%d" % i, hows))
            dists[i % 2].declare(p.group, p.name, p.value)
            ps.append(p)
        try:
            got = PLUGINS.setup_plugins()
            error = None
        except (Exception, SystemExit) as e:
            got, error = None, e
        if switch:
            cover("switched-off")
            check(error is None and len(got) == 0, "none when switched off")
            check(all(p.setups == 0 for p in ps), "none when switched off")
            return
        mine = [p for p in ps if p.group in (OLD, NEW)]
        good = [p for p in mine if p.how in ("fine", "setup-fails")]
        for p in ps:
            check(p.setups <= 1, "set up once")
            if p not in good:
                check(p.setups == 0, "only plugins are set up")
        failed = [p for p in good if p.setups and p.how == "setup-fails"]
        lost = [p for p in mine if p not in good]
        loading = len(env.errors) - len(failed)
        check(loading == len(lost), "those which can not be loaded are told",
              [r.getMessage() for r in env.errors])
        if error is not None:
            cover("setup-failed")
            check(len(failed) == 1 and error is failed[0].error,
                  "the error of a plugin's setup is raised", error)
            return
        check(not failed, "the error of a plugin's setup is raised")
        check(set(got) == {p.name for p in good}, "every plugin which loads",
              (set(got), {p.name for p in good}))
        for name in got:
            same = [p for p in good if p.name == name]
            used = [p for p in same if p.setups]
            check(len(used) == 1, "one of a name is set up", len(used))
            check(got[name] is used[0].module, "known by its name")
            if len(same) > 1:
                cover("same-name")
        try:
            got["other"] = None
        except TypeError:
            pass
        else:
            fail("can not be changed")
        if lost:
            cover("skipped")
        cover("loaded")


def listing():
    """python -m aiomisc.plugins"""
    quiet = pick("quiet", [None, "-q", "--silent", "-s"])
    silent = pick("output", [None, "-n", "--no-output"])
    level = pick("level", [None, "debug", "error"])
    fmt = pick("format", ["stream", "plain", "json"])
    n = choose("n", 4)
    main = importlib.import_module("aiomisc.plugins.__main__")
    table = types.MappingProxyType({
        "name%d" % i: types.SimpleNamespace(__doc__="doc-of-%d" % i)
        for i in reversed(range(n))})
    saved = main.plugins, sys.argv, sys.stdout, PLUGINS.plugins
    out = io.StringIO()
    with logs() as w:
        try:
            main.plugins = PLUGINS.plugins = table
            sys.stdout = out
            sys.argv = [x for x in ("prog", quiet, silent, level and
                                    "--log-level=" + level, "-F", fmt) if x]
            main.main()
        finally:
            main.plugins, sys.argv, sys.stdout, PLUGINS.plugins = saved
        text = w.text()
    names = ["name%d" % i for i in range(n)]
    printed = [x for x in out.getvalue().splitlines()
               if not x.startswith("{")]        # logs in JSON
    text += out.getvalue()
    check(printed == ([] if silent else names), "the names, in order", printed)
    told = not quiet and level != "error"
    for i in range(n):
        check(("doc-of-%d" % i in text) == told, "what they are for", text)
    check((" %d " % n in text) == told, "how many", text)
    cover("told" if told else "quiet")


VALUES = [None, "yes", "1", "enabled", "enable", "on", "true", "YES", "True",
          "0", "no", "", "off", "disabled", "false", "2"]


def policies():
    """the event loop policy: uvloop's when there is one and it is wanted"""
    value = pick("AIOMISC_USE_UVLOOP", VALUES)
    there = bool(choose("uvloop", 2))
    stand_in = types.ModuleType("uvloop")

    class EventLoopPolicy(asyncio.DefaultEventLoopPolicy):
        pass
    stand_in.EventLoopPolicy = EventLoopPolicy
    before = sys.modules.get("uvloop")
    with installed([], AIOMISC_USE_UVLOOP=value):
        sys.modules["uvloop"] = stand_in if there else None
        try:
            spec = importlib.util.spec_from_file_location(
                "aiomisc._compat_copy", aiomisc.compat.__file__)
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
        finally:
            if before is None:
                del sys.modules["uvloop"]
            else:
                sys.modules["uvloop"] = before
    wanted = value is None or value.lower() in (
        "yes", "1", "enabled", "enable", "on", "true")
    got = mod.event_loop_policy
    if there and wanted:
        cover("uvloop")
        check(isinstance(got, EventLoopPolicy), "uvloop is used", value)
    else:
        cover("asyncio")
        check(isinstance(got, asyncio.DefaultEventLoopPolicy) and
              not isinstance(got, EventLoopPolicy), "uvloop is not used", value)


class Policy(asyncio.DefaultEventLoopPolicy):
    def __init__(self):
        super().__init__()
        self.made = []

    def new_event_loop(self):
        loop = _sim.Loop()
        self.made.append(loop)
        return loop


class policy:
    """keeps the policy of the process"""

    def __enter__(self):
        self.saved = asyncio.get_event_loop_policy()

    def __exit__(self, *exc):
        asyncio.set_event_loop_policy(self.saved)


def creation(which):
    threads(free_choice=False)
    size = pick("size", [None, 0, 1, 2, 3])
    debug = pick("debug", [None, False, True]) if which == "both" else None
    d = pos_real("d")
    saved = ThreadPoolExecutor.DEFAULT_POOL_SIZE
    ThreadPoolExecutor.DEFAULT_POOL_SIZE = 2
    p, other = Policy(), Policy()
    try:
        with policy():
            current = pick("current", ["none", "idle", "closed"])
            asyncio.set_event_loop_policy(other)
            if current == "none":
                asyncio.set_event_loop(None)
            else:
                old = _sim.Loop()
                asyncio.set_event_loop(old)
                if current == "closed":
                    old.close()
            kw = {} if debug is None else {"debug": debug}
            if size is not None or choose("given", 2):
                kw["pool_size"] = size
            made = len(p.made)
            if which == "both":
                loop, pool = aiomisc.utils.create_default_event_loop(
                    policy=p, **kw)
                check(isinstance(pool, ThreadPoolExecutor), "its pool")
            else:
                loop = aiomisc.new_event_loop(policy=p, **kw)
            check(p.made == [loop], "a new loop of the policy")
            check(asyncio.get_event_loop() is loop, "is the current one")
            check(asyncio.get_event_loop_policy() is p, "its policy is used")
            check(loop.get_debug() == bool(debug), "debug", loop.get_debug())
            check(not loop.is_running() and not loop.is_closed(), "usable")
            real = size or 2
            running, top, where = [0], [0], set()

            def job():
                where.add(threading.current_thread())
                running[0] += 1
                top[0] = max(top[0], running[0])
                time.sleep(d)
                running[0] -= 1
                return "done"

            async def main():
                start = now()
                jobs = [loop.run_in_executor(None, job)
                        for _ in range(real + 1)]
                for j in jobs:
                    check((await j) == "done", "runs jobs")
                check(now() == start + 2 * d, "as many threads as asked for",
                      (now(), d))
                check(threading.main_thread() not in where, "in threads")
            loop.run_until_complete(main())
            check(top[0] == real, "as many threads as asked for", top[0])
            cover("%s-%s" % (current, size))
            if which == "both":
                pool.shutdown()
    finally:
        ThreadPoolExecutor.DEFAULT_POOL_SIZE = saved
        asyncio.set_event_loop(None)


def nested():
    """not while a loop is running"""
    threads(free_choice=False)
    p = Policy()
    with policy():
        async def main():
            before = asyncio.get_event_loop_policy()
            n = len(threading.enumerate())
            loop = asyncio.get_running_loop()
            try:
                if choose("which", 2):
                    aiomisc.new_event_loop(policy=p)
                else:
                    aiomisc.utils.create_default_event_loop(policy=p)
            except RuntimeError:
                cover("refused")
            else:
                fail("refused while a loop is running")
            check(p.made == [] and asyncio.get_event_loop_policy() is before
                  and asyncio.get_running_loop() is loop, "nothing is changed")
        run(main())


def mixin():
    """objects belong to the loop they first asked for, or were given"""
    class Plain(EventLoopMixin):
        pass

    class Slots(EventLoopMixin):
        __slots__ = ()
    obj = pick("class", [Plain, Slots])()
    given = pick("given", ["nothing", "none", "loop"])
    mark = object()
    if given == "none":
        obj._loop = None
    elif given == "loop":
        obj._loop = mark
    if given != "loop" and choose("ask-early", 2):
        try:
            obj.loop
        except RuntimeError:
            cover("refused")
        else:
            fail("refused without a loop")
    seen = []

    async def main():
        await asyncio.sleep(1)
        seen.append((obj.loop, asyncio.get_running_loop()))
        check(obj.loop is seen[0][0], "always the same loop")
    run(main())
    check(seen[0][0] is (mark if given == "loop" else seen[0][1]),
          "the loop given, or the running one")
    run(main())
    check(obj.loop is seen[0][0], "always the same loop")
    cover(given)


def current():
    """the current loop is one of the context"""
    async def main():
        marks = [object(), object()]
        first = pos_real("first")
        second = pos_real("second")

        def ask():
            try:
                return get_current_loop()
            except RuntimeError:
                return "refused"

        async def user(i, at):
            check(ask() == outer, "as where the task was made")
            await asyncio.sleep(at)
            check(ask() == outer, "others are not seen")
            set_current_loop(marks[i])
            await asyncio.sleep(1)
            check(ask() is marks[i], "what was set")
            cover("set")
        outer = "refused"
        if choose("outer", 2):
            outer = object()
            set_current_loop(outer)
        tasks = [asyncio.ensure_future(user(0, first)),
                 asyncio.ensure_future(user(1, second))]
        check(ask() == outer, "what was set")
        await asyncio.gather(*tasks)
        check(ask() == outer, "others are not seen")
        if outer == "refused":
            cover("refused")
    run(main())


class Bits:
    """a number of solver-chosen bits, least first; each 0, 1 or symbolic"""
    __class__ = property(lambda self: int)
    fresh = 0

    def __init__(self, bits):
        self.bits = bits
        while bits and type(bits[-1]) is int and bits[-1] == 0:
            bits.pop()

    @classmethod
    def new(cls, name, n):
        return cls([sym_int("%s.%d" % (name, i), 0, 1) for i in range(n)])

    @classmethod
    def of(cls, x):
        if type(x) is cls:
            return x
        return cls([(x >> i) & 1 for i in range(x.bit_length())])

    def value(self):
        out = 0
        for i, b in enumerate(self.bits):
            out = out + b * (1 << i)
        return out

    def bit(self, i):
        return self.bits[i] if i < len(self.bits) else 0

    def part(self, at, n):
        return Bits([self.bit(i) for i in range(at, at + n)])

    def __and__(self, mask):
        n = len(self.bits)
        return Bits([b if (mask >> i) & 1 else 0
                     for i, b in enumerate(self.bits)])
    __rand__ = __and__

    def __or__(self, mask):
        n = max(len(self.bits), mask.bit_length())
        return Bits([1 if (mask >> i) & 1 else self.bit(i) for i in range(n)])
    __ror__ = __or__

    def __lshift__(self, n):
        return Bits([0] * n + self.bits)

    def __rshift__(self, n):
        return Bits(self.bits[n:])

    def __mul__(self, o):
        n = o.bit_length() - 1
        if o != 1 << n:
            raise Exception("not a power of two")
        return self << n
    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self >> (o.bit_length() - 1)

    def __mod__(self, o):
        return self & (o - 1)

    def __add__(self, o):
        o = Bits.of(o)
        n = max(len(self.bits), len(o.bits))
        pairs = [(self.bit(i), o.bit(i)) for i in range(n)]

        def zero(x):
            return type(x) is int and x == 0
        if all(zero(a) or zero(b) for a, b in pairs):
            return Bits([b if zero(a) else a for a, b in pairs])
        Bits.fresh += 1
        out = Bits.new("sum%d" % Bits.fresh, n + 1)
        assume(out.value() == self.value() + o.value())
        return out
    __radd__ = __add__

    def __eq__(self, o):
        if o is None:
            return False
        o = Bits.of(o)
        return And(*[self.bit(i) == o.bit(i)
                     for i in range(max(len(self.bits), len(o.bits)))])

    def __ge__(self, o):
        if type(o) is int and o <= 0:
            return True
        return self.value() >= Bits.of(o).value()

    def __lt__(self, o):
        if type(o) is int and len(self.bits) < o.bit_length():
            return True
        return self.value() < Bits.of(o).value()

    def __le__(self, o):
        return Or(self < o, self == o)

    def __gt__(self, o):
        return Not(self <= o)
    __hash__ = None


def same(a, b, *runs):
    """do a and b agree in these runs of bits?"""
    return And(*[a.part(at, n) == b.part(at, n) for at, n in runs])


def well_formed(u, version):
    check(u.int.part(76, 4) == version, "version")
    check(u.int.part(62, 2) == 2, "variant")


def random_ids():
    drawn = []
    Bits.fresh = 0

    def getrandbits(n):
        drawn.append(Bits.new("bits%d" % len(drawn), n))
        return Bits(list(drawn[-1].bits))
    sim().os["getrandbits"] = getrandbits
    a, b = aiomisc.utils.fast_uuid4(), aiomisc.utils.fast_uuid4()
    cover("random")
    if type(a.int) is not Bits or len(drawn) != 2:
        return          # made of something else
    for u in (a, b):
        check(isinstance(u, uuid.UUID), "an identifier")
        well_formed(u, 4)
    check(Implies(a.int == b.int,
                  same(drawn[0], drawn[1], (0, 62), (64, 12), (80, 48))),
          "all 122 bits are random")


def time_ids():
    instants, drawn = [], []
    Bits.fresh = 0

    def time_ns():
        instants.append(Bits.new("t%d" % len(instants), 63))
        return Bits(list(instants[-1].bits))

    def getrandbits(n):
        drawn.append(Bits.new("bits%d" % len(drawn), n))
        return Bits(list(drawn[-1].bits))
    sim().os["getrandbits"] = getrandbits
    sim().os["time_ns"] = time_ns
    a, b = aiomisc.utils.fast_uuid1(), aiomisc.utils.fast_uuid1()
    cover("time")
    if type(a.int) is not Bits or len(instants) != 2:
        return
    for u in (a, b):
        well_formed(u, 1)
        check(u.int.part(0, 48) == uuid.getnode(), "of this host")
    equal = a.int == b.int
    x, y = instants
    d = x.value() - y.value()
    check(Implies(And(equal, d < 4096, d > -4096), x == y),
          "close instants differ")
    if len(drawn) == 2:
        check(Implies(equal, same(drawn[0], drawn[1], (0, 14))),
              "of the same instant differ in their random bits")


def scenarios(tier):
    deep = tier == "thorough"
    out = [
        Scenario("plugins kinds", plugins, dict(
            n=2, groups=[NEW, OLD, "aiomisc.plugins.x", "other"],
            names=["a", "b"], hows=["fine", "no-module", "no-attribute", "exits",
                                    "setup-fails"]),
            covers=("switched-off", "setup-failed", "same-name", "skipped",
                    "loaded")),
        Scenario("plugins several", plugins, dict(
            n=4 if deep else 3, groups=[NEW, OLD], names=["a", "b"],
            hows=["fine", "no-module", "setup-fails"] if deep else
            ["fine", "no-module"]),
            covers=("switched-off", "same-name", "skipped", "loaded")),
        Scenario("listing", listing, covers=("told", "quiet")),
        Scenario("policies", policies, covers=("uvloop", "asyncio")),
        Scenario("creation both", creation, dict(which="both"),
                 covers=("none-None", "idle-1", "closed-3", "idle-0")),
        Scenario("creation loop", creation, dict(which="loop"),
                 covers=("none-None", "idle-1", "closed-3", "idle-0")),
        Scenario("nested", nested, covers=("refused",)),
        Scenario("mixin", mixin, covers=("refused", "nothing", "none",
                                         "loop")),
        Scenario("current", current, covers=("set", "refused")),
        Scenario("random-ids", random_ids, covers=("random",)),
        Scenario("time-ids", time_ids, covers=("time",)),
    ]
    return out
