"""
C26 -- services as classes and objects; chunk_list.  Which parameters are
required, given and assigned, and every value are symbolic or chosen.
"""
import asyncio
import copy
import pickle

from symx.api import *

import aiomisc
from aiomisc.service import base as B
from aiomisc.utils import chunk_list
from aiomisc.context import Context

BOUNDS = {
    "quick": "3 parameters with symbolic integer values, <= 3 assignments "
             "and restorations; two levels of classes; 9 kinds of methods; "
             "chunks of 0..7 items with symbolic sizes",
    "thorough": "<= 4 assignments, 10 items",
}
ASSUMPTIONS = []
OUTSIDE = ["parameters which a subclass takes as arguments of its own "
           "__init__ (address, port, ...) are not parameters of the service: "
           "servers and clients cannot be restored", "chunks of size 0"]

NAMES = ["alpha", "beta", "_gamma"]
STATEFUL = ["loop", "start_event"]


class Plain(aiomisc.Service):
    async def start(self):
        return await self.context["key"]


class Defaults(Plain):
    alpha = 0
    beta = None
    _gamma = "default"


class Needs(Plain):
    __required__ = "alpha", "_gamma"
    beta = "default"


class More(Needs):
    """what the base requires is inherited"""


class Other(Needs):
    __required__ = ["beta"]


class Task(B.TaskStoreBase):
    __required__ = ("beta",)

    async def start(self):
        pass


REQUIRED = {Plain: set(), Defaults: set(), Needs: {"alpha", "_gamma"},
            More: {"alpha", "_gamma"}, Other: {"beta"}, Task: {"beta"}}
CLASSES = list(REQUIRED)


TABLE = []


class Box:
    """a symbolic value which can be pickled"""

    def __init__(self, v):
        self.v = v
        TABLE.append(self)
        self.i = len(TABLE) - 1

    def __reduce__(self):
        return unbox, (self.i,)

    def __eq__(self, o):
        return isinstance(o, Box) and bool(self.v == o.v)

    def __bool__(self):
        return bool(self.v != 0)

    def __repr__(self):
        return "Box %d" % self.i


def unbox(i):
    return Box(TABLE[i].v)


def value(tag):
    if sym_bool("none" + tag):
        return None
    return Box(sym_int(tag, -2, 1000))


def made(cls, given):
    try:
        s = cls(**given)
    except AttributeError as e:
        lost = REQUIRED[cls] - set(given)
        check(lost, "refused-only-without-a-required-one", repr(e))
        check(any(set(a) == lost for a in e.args
                  if isinstance(a, (set, frozenset, list, tuple))),
              "refused-only-without-a-required-one", repr(e))
        cover("refused")
        return None
    check(REQUIRED[cls] <= set(given), "refuses-without-a-required-one",
          "%r %r" % (cls.__name__, sorted(given)))
    cover("created")
    return s


def reads_as(s, cls, want, label):
    for k in NAMES:
        try:
            got = getattr(s, k)
        except AttributeError as e:
            check(k not in want and not hasattr(cls, k), label,
                  "%s: %r" % (k, e))
            continue
        if k in want:
            check(got == want[k], label, "%s is %r" % (k, got))
        else:
            check(hasattr(cls, k) and got is getattr(cls, k), label,
                  "%s is %r" % (k, got))


def required(ci):
    cls = CLASSES[ci]
    given = {k: value("v" + k) for k in NAMES if sym_bool("given" + k)}
    s = made(cls, given)
    if s is None:
        return
    reads_as(s, cls, given, "given-parameters-are-attributes")
    another = made(cls, {k: i for i, k in enumerate(NAMES)})
    reads_as(s, cls, given, "services-are-independent")
    reads_as(another, cls, {k: i for i, k in enumerate(NAMES)},
             "services-are-independent")


def assignments(ci, steps, how):
    cls = CLASSES[ci]
    given = {k: value("v" + k) for k in NAMES
             if k in REQUIRED[cls] or sym_bool("given" + k)}
    s = made(cls, given)
    want = dict(given)
    for i in range(steps):
        what = pick("step%d" % i, NAMES + ["restore"])
        if what != "restore":
            # only given ones are parameters
            assume(what in given)
            v = want[what] = value("w%d" % i)
            setattr(s, what, v)
            reads_as(s, cls, want, "assigned-ones-are-kept")
            cover("assigned")
            continue
        if how == "pickle":
            r = pickle.loads(pickle.dumps(s, protocol=pick(
                "protocol%d" % i, [2, pickle.HIGHEST_PROTOCOL])))
        elif how == "copy":
            r = copy.copy(s)
        else:
            r = copy.deepcopy(s)
        check(type(r) is cls and r is not s, "restored-has-the-parameters")
        reads_as(r, cls, want, "restored-has-the-parameters")
        if given:
            k = sorted(given)[0]
            setattr(r, k, -5)
            reads_as(s, cls, want, "services-are-independent")
            v = want[k]
            setattr(s, k, -6)
            check(getattr(r, k) == -5, "services-are-independent")
            setattr(s, k, v)
            setattr(r, k, v)
        s = r
        cover("restored")
    if not issubclass(cls, B.TaskStoreBase):
        starts(s)


def starts(s):
    async def main():
        loop = asyncio.get_running_loop()
        context = Context(loop)
        try:
            s.set_loop(loop)
            check(s.loop is loop, "restored-can-be-started")
            check(not s.start_event.is_set(), "restored-can-be-started")
            s.context["key"] = 7
            got = await s.start()
            check(got == 7, "restored-can-be-started")
            check(s.context is context, "restored-can-be-started")
            await s.stop()
        finally:
            context.close()
    try:
        run(main())
    except AttributeError as e:
        fail("restored-can-be-started", repr(e))


def k_async():
    async def f(self, *a):
        pass
    return f


def k_sync():
    def f(self, *a):
        pass
    return f


def k_gen():
    def f(self, *a):
        yield
    return f


def k_agen():
    async def f(self, *a):
        yield
    return f


def k_lambda():
    return lambda self, *a: None


def k_static_async():
    async def f(*a):
        pass
    return staticmethod(f)


def k_class_sync():
    def f(cls, *a):
        pass
    return classmethod(f)


def k_returns_coroutine():
    async def f(self, *a):
        pass
    return lambda self, *a: f(self, *a)


def k_threaded():
    return aiomisc.threaded(k_sync())


KINDS = {"inherited": (None, True), "async": (k_async, True),
         "sync": (k_sync, False), "generator": (k_gen, False),
         "async generator": (k_agen, False), "lambda": (k_lambda, False),
         "static async": (k_static_async, True),
         "class sync": (k_class_sync, False),
         "returns a coroutine": (k_returns_coroutine, False),
         "coroutine from aiomisc.timeout": (
             lambda: aiomisc.timeout(1)(k_async()), True)}


def definition(base, levels, extra, mixin=False):
    cls = base
    fine = {"start": True, "stop": True}
    for level in range(levels):
        ns = {}
        for m in "start", "stop":
            kind = pick("%s%d" % (m, level), list(KINDS))
            make, ok = KINDS[kind]
            if make is not None:
                ns[m] = make()
                fine[m] = ok
        if extra:
            kind = pick("ping%d" % level, ["async", "sync"])
            ns["ping"] = KINDS[kind][0]()
            fine["ping"] = KINDS[kind][1]
            ns["__async_required__"] = pick("form%d" % level, [
                ("start", "stop", "ping"), ["start", "ping", "stop"],
                {"ping", "start", "stop"}])
        try:
            if mixin:
                mix = type("Mixin%d" % level, (), ns)
                cls = type(cls)("S%d" % level, (mix, cls), {})
            else:
                cls = type(cls)("S%d" % level, (cls,), ns)
        except TypeError as e:
            check(not all(fine.values()), "defined-with-coroutines",
                  repr((fine, e)))
            cover("undefined")
            return
        check(all(fine.values()), "not-defined-without-coroutines",
              repr(fine))
        cover("defined")


def chunks(n, kind):
    items = [sym_int("i%d" % i) for i in range(n)]
    size = int(sym_int("size", 1, n + 2))
    source = {"list": list, "tuple": tuple, "iterator": iter,
              "generator": lambda x: (y for y in x)}[kind](items)
    got = list(chunk_list(source, size))
    check([x for c in got for x in c] == items if n else got == [],
          "every-item-in-order")
    for i, c in enumerate(got):
        check(isinstance(c, list), "chunks-are-lists")
        check(len(c) == size if i < len(got) - 1 else 0 < len(c) <= size,
              "all-but-the-last-are-full", repr(list(map(len, got))))
    cover("chunked")


def scenarios(tier):
    t = tier == "thorough"
    out = []
    for i, cls in enumerate(CLASSES):
        cv = ["created"]
        out.append(Scenario("required-" + cls.__name__, required,
                            dict(ci=i), covers=cv + (
                                ["refused"] if REQUIRED[cls] else [])))
        if cls is Task:
            continue
        for how in "pickle", "copy", "deepcopy":
            if how == "pickle":
                continue
            out.append(Scenario("%s-%s" % (how, cls.__name__), assignments,
                                dict(ci=i, steps=4 if t else 3, how=how),
                                covers=["assigned", "restored"]))
        out.append(Scenario("pickle-" + cls.__name__, assignments,
                            dict(ci=i, steps=4 if t else 3, how="pickle"),
                            covers=["assigned", "restored"]))
    for name, base in (("service", aiomisc.Service), ("plain", Plain),
                       ("store", B.TaskStoreBase)):
        for levels in 1, 2:
            out.append(Scenario("define-%s-%d" % (name, levels), definition,
                                dict(base=base, levels=levels, extra=False),
                                covers=["defined", "undefined"]))
        out.append(Scenario("define-%s-mixin" % name, definition,
                            dict(base=base, levels=1, extra=False,
                                 mixin=True),
                            covers=["defined", "undefined"]))
        out.append(Scenario("define-%s-extra" % name, definition,
                            dict(base=base, levels=1, extra=True),
                            covers=["defined", "undefined"]))
    for kind in "list", "tuple", "iterator", "generator":
        for n in ((0, 1, 3, 7, 10) if t else (0, 1, 3, 5, 7)):
            out.append(Scenario("chunks-%s-%d" % (kind, n), chunks,
                                dict(n=n, kind=kind), covers=["chunked"]))
    return out
