import asyncio
import functools

from symx.api import *
from harness.ep_common import *

from aiomisc.signal import Signal, receiver

BOUNDS = {
    "quick": "histories of 4 operations over 3 receivers and 2 signals; "
             "calls of <=3 receivers of arbitrary duration and every "
             "outcome, changed while they run at any instant",
    "thorough": "histories of 5 operations; 4 receivers",
}
ASSUMPTIONS = ["instants are mathematical reals"]
OUTSIDE = ["order of the receivers", "receivers which are not reached "
           "because an earlier one failed"]


class Recv(functools.partial):
    """a coroutine function whose place in a set is the same every time"""

    def __hash__(self):
        return self.args[0]

    def __eq__(self, other):
        return self is other


class Book:
    """receivers and what became of them"""

    def __init__(self, n):
        self.calls = []
        self.d = [None] * n
        self.exc = [None] * n
        self.running = 0
        self.n = n
        self.last_end = None
        self.fns = [self.make(i) for i in range(n)]

    def make(self, i):
        async def recv(_, *args, **kwargs):
            self.calls.append((i, args, kwargs))
            try:
                await nap(self.d[i])
                if self.exc[i] is not None:
                    raise self.exc[i]
            finally:
                self.last_end = now()
        return Recv(recv, i)

    def take(self):
        out, self.calls = self.calls, []
        return out


def plain(*a, **k):
    return None


def gen(*a):
    yield 1


async def agen(*a):
    yield 1


class Obj:
    def __call__(self):
        return 1


REFUSED = [None, plain, max, gen, agen, Obj(), 5,
           functools.partial(plain, 1)]


def history(n, steps, ops=("connect", "disconnect", "freeze", "copy",
                           "call"), deco=False):
    """any history against a set of receivers"""
    book = Book(n)
    async def main():
        first = Signal()
        sigs = [(first, set(), [False])]
        check(not first.is_frozen, "frozen-flag")

        async def judge(k):
            s, want, frozen = sigs[k]
            check(s.is_frozen is frozen[0], "frozen-flag")
            book.take()
            arg, val = object(), object()
            r = await s.call(arg, key=val)
            check(r is None, "result")
            got = book.take()
            check(sorted(c[0] for c in got) == sorted(want),
                  "every-receiver-once")
            check(all(c[1] == (arg,) and c[2] == {"key": val}
                      for c in got), "its-arguments")

        for step in range(steps):
            k = choose("signal", len(sigs)) if len(sigs) > 1 else 0
            s, want, frozen = sigs[k]
            op = pick("op", ops)
            if op == "connect":
                i = choose("receiver", n)
                try:
                    if deco and choose("decorator", 2):
                        check(receiver(s)(book.fns[i]) is book.fns[i],
                              "the-decorator-keeps-the-function")
                    else:
                        s.connect(book.fns[i])
                    check(not frozen[0], "frozen-refuses")
                    want.add(i)
                except RuntimeError:
                    check(frozen[0], "connect-works")
            elif op == "disconnect":
                i = choose("receiver", n)
                try:
                    s.disconnect(book.fns[i])
                    check(not frozen[0], "frozen-refuses")
                    want.discard(i)
                except RuntimeError:
                    check(frozen[0], "disconnect-works")
            elif op == "freeze":
                s.freeze()
                frozen[0] = True
            elif op == "copy":
                if len(sigs) > 2:
                    assume(False)
                c = s.copy()
                check(isinstance(c, Signal) and c is not s, "copy")
                sigs.append((c, set(want), [False]))
            elif op == "bad":
                bad = pick("bad", REFUSED)
                try:
                    if choose("decorator", 2):
                        receiver(s)(bad)
                    else:
                        s.connect(bad)
                except RuntimeError:
                    pass
                else:
                    fail("not-a-coroutine-function-is-refused")
            else:
                await judge(k)
        for k in range(len(sigs)):
            await judge(k)
    return run(main())


def calling(n, fails=False, change=None, twice=False):
    """one call of receivers which take their time"""
    book = Book(n)

    async def main():
        s = Signal()
        for i in range(n):
            book.d[i] = sym_real("d", 0)
            if fails and choose("fails", 2):
                book.exc[i] = Err(i)
            s.connect(book.fns[i])
        late = []

        async def extra(*a):
            late.append(now())
        t0 = now()
        t = asyncio.ensure_future(outcome(s.call(1)))
        t2 = asyncio.ensure_future(outcome(s.call(2))) if twice else None
        if change:
            C = sym_real("change_at", 0)
            await nap(C)
            if t.done():
                cover("after")
            else:
                cover("during")
            if change == "connect":
                s.connect(Recv(extra, n))
            elif change == "disconnect":
                victim = choose("victim", n)
                s.disconnect(book.fns[victim])
            elif change == "freeze":
                s.freeze()
            elif change == "cancel":
                t.cancel()
        k, v = await outcome(t)
        if k == "ok":
            k, v = v
        at = now()
        calls = [c for c in book.calls if c[1] == (1,)]
        seen = [c[0] for c in calls]
        check(len(set(seen)) == len(seen), "every-receiver-once")
        bad = [book.exc[i] for i in range(n) if book.exc[i] is not None]
        if change == "cancel" and k == "cancelled":
            check(at <= t0 + C, "ends-when-cancelled")
            return
        if bad:
            check(k == "exc" and any(v is b for b in bad),
                  "errors-reach-the-caller")
        else:
            check(k == "ok" and v is None, "unexpected-error")
            want = set(range(n))
            if change == "disconnect":
                # it may have had its turn or not
                want.discard(victim)
                check(want <= set(seen), "every-receiver-once")
            else:
                check(want == set(seen), "every-receiver-once")
            if change is None and not twice:
                longest = smax(0.0, *book.d)
                total = sum(book.d)
                check(And(at - t0 >= longest, at - t0 <= total),
                      "ends-after-all-of-them")
            if not twice:
                check(at >= book.last_end if n else True,
                      "ends-after-all-of-them")
        if twice:
            k2, v2 = await t2
            if not bad:
                check(k2 == "ok", "unexpected-error")
                two = sorted(c[0] for c in book.calls if c[1] == (2,))
                check(two == list(range(n)), "every-receiver-once")
            else:
                check(k2 == "exc" and any(v2 is b for b in bad),
                      "errors-reach-the-caller")
        check(at is not None and len(late) <= 1, "every-receiver-once")
    return run(main())


class Grave(BaseException):
    """not an Exception"""


ERRORS = [KeyError, IndexError, LookupError, RuntimeError, TypeError,
          ValueError, AttributeError, OSError, ConnectionError, TimeoutError,
          asyncio.TimeoutError, asyncio.CancelledError, StopAsyncIteration,
          ReferenceError, ArithmeticError, AssertionError, Grave, EOFError,
          RecursionError, NotImplementedError, ImportError, MemoryError]


def kinds_of_errors():
    """whatever a receiver raises reaches the caller"""
    book = Book(2)

    async def main():
        s = Signal()
        exc = pick("error", ERRORS)("boom")
        book.exc[0] = exc
        book.d[1] = sym_real("d", 0)
        for i in range(2):
            s.connect(book.fns[i])
        try:
            await s.call(1)
        except BaseException as e:
            check(e is exc, "errors-reach-the-caller", repr(e))
        else:
            fail("errors-reach-the-caller")
        # and does no harm to the signal
        book.exc[0] = None
        book.take()
        await s.call(2)
        check(sorted(c[0] for c in book.take()) == [0, 1],
              "every-receiver-once")
    return run(main())


NAMES = ("pre_start", "post_start", "pre_stop", "post_stop")


def classes():
    """receivers of the class and of one entrypoint"""
    saved = {n: getattr(Entrypoint, n.upper()) for n in NAMES}
    g = guarded()

    async def main():
        calls = []

        def make(tag):
            async def recv(*, entrypoint, services):
                calls.append((tag, entrypoint))
            return recv
        name = pick("name", NAMES)
        cls = getattr(Entrypoint, name.upper())
        early = entry()
        how = choose("how", 2)
        if how:
            receiver(cls)(make("class"))
        else:
            cls.connect(make("class"))
        a, b = entry(), entry()
        getattr(a, name).connect(make("a"))
        second = choose("second", 2)
        if second:
            receiver(cls)(make("later"))
        c = entry()
        order = [early, a, b, c]
        wants = {0: set(), 1: {"class", "a"}, 2: {"class"},
                 3: {"class", "later"} if second else {"class"}}
        k = choose("which", 4)
        ep = order[k]
        async with ep:
            for n in NAMES:
                s = getattr(ep, n)
                if s.is_frozen:
                    try:
                        s.connect(make("never"))
                    except RuntimeError:
                        pass
                    else:
                        fail("frozen-refuses")
        got = [c[0] for c in calls if c[1] is ep]
        check(len(got) == len(calls), "receiver-gets-the-entrypoint")
        # one which was created before may see it or not
        check(sorted(got) == sorted(wants[k]) if k else
              set(got) <= {"class", "later"},
              "class-receivers-are-seen-by-later-entrypoints")
        # another one afterwards: the class was not frozen along
        calls.clear()
        ep2 = entry()
        getattr(ep2, name).connect(make("own"))
        async with ep2:
            pass
        want = {"own", "class"} | ({"later"} if second else set())
        check(sorted(c[0] for c in calls if c[1] is ep2) == sorted(want),
              "class-receivers-are-seen-by-later-entrypoints")
    with g:
        try:
            for n in NAMES:
                setattr(Entrypoint, n.upper(), Signal())
            run(main())
        finally:
            for n, s in saved.items():
                setattr(Entrypoint, n.upper(), s)


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Scenario("history", history, dict(n=2, steps=4)),
        Scenario("refused", history, dict(
            n=1, steps=2, ops=("connect", "bad", "freeze", "copy"),
            deco=True)),
        Scenario("calling", calling, dict(n=3, fails=True)),
        Scenario("calling-none", calling, dict(n=0)),
        Scenario("twice", calling, dict(n=2, fails=True, twice=True)),
        Scenario("connect-during", calling, dict(n=2, change="connect"),
                 covers=("during",)),
        Scenario("disconnect-during", calling, dict(
            n=2, change="disconnect"), covers=("during",)),
        Scenario("freeze-during", calling, dict(n=2, change="freeze"),
                 covers=("during",)),
        Scenario("cancel", calling, dict(n=2, change="cancel"),
                 covers=("during",)),
        Scenario("classes", classes, {}),
        Scenario("errors", kinds_of_errors, {}),
    ] + ([
        Scenario("history-three", history, dict(n=3, steps=4)),
        Scenario("history-long", history, dict(
            n=2, steps=5, ops=("connect", "disconnect", "freeze", "copy"))),
        Scenario("calling4", calling, dict(n=4, fails=True)),
    ] if deep else [])
