"""
C24 -- asynchronous files.  Recording files behind the public get_opener()
take symbolic arguments and durations, and are compared with what they have
been asked; histories of operations on real files in a scratch directory are
compared with those of ordinary files.
"""
import asyncio
import bz2
import concurrent.futures
import gc
import gzip
import io
import lzma
import os
import pathlib
import shutil
import sys
import tempfile
import time

from symx.api import *

from aiomisc import ThreadPoolExecutor
from aiomisc.io import (
    AsyncBinaryIO, AsyncFileIO, AsyncTextIO, Compression, async_open,
)

BOUNDS = {
    "quick": "any integer arguments, any durations of operations; 3 "
             "concurrent openers or readers; histories of 2 operations out "
             "of 22 on files in 14 modes, plain or compressed in 3 ways, and "
             "of 3 operations in 3 modes",
    "thorough": "histories of 3 operations in all modes",
}
ASSUMPTIONS = ["the executor runs what it is given"]
OUTSIDE = ["a file whose opening is cancelled", "attributes which the "
           "wrapped file does not have"]


class Recording(concurrent.futures.Executor):
    """runs the work after its duration and tells who works"""

    def __init__(self, loop, name):
        self.loop = loop
        self.name = name
        self.delay = 0
        self.count = 0

    def submit(self, fn, *args, **kwargs):
        f = concurrent.futures.Future()
        self.count += 1

        def work():
            if not f.set_running_or_notify_cancel():
                return
            WORKING.append(self.name)
            try:
                r = fn(*args, **kwargs)
            except BaseException as e:
                f.set_exception(e)
            else:
                f.set_result(r)
            finally:
                WORKING.pop()
        self.loop.call_later(self.delay, work)
        return f


class Default(Recording, concurrent.futures.ThreadPoolExecutor):
    def shutdown(self, *a, **kw):
        pass


WORKING = []


def executors():
    del WORKING[:]
    loop = asyncio.get_running_loop()
    default, own = Default(loop, "default"), Recording(loop, "own")
    loop.set_default_executor(default)
    return default, own


class Failure(Exception):
    pass


class Recorder:
    """stands for a file: remembers calls, returns what is prepared"""

    name, mode, closed = "name", "rb", False

    def __init__(self):
        self.calls = []
        self.result = object()
        self.error = None

    def __hash__(self):
        return 7

    def _call(self, name, args, kwargs):
        self.calls.append((name, args, kwargs, list(WORKING)))
        if self.error is not None:
            raise self.error
        return self.result

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **kw: self._call(name, a, kw)


def op(name):
    return lambda self, *a, **kw: self._call(name, a, kw)


for _n in "__enter__", "__exit__":
    setattr(Recorder, _n, op(_n))


BLOCKING = {
    "read": [(), (1,)], "readline": [(), (1,)], "readlines": [(), (1,)],
    "seek": [(1,), (1, 2)], "truncate": [(), (1,)], "write": [("s",)],
    "writelines": [("s",)], "flush": [()], "close": [()], "tell": [()],
    "peek": [(1,)], "read1": [(1,)], "readinto": [("s",)], "detach": [()],
}
OTHER = ["readable", "writable", "seekable"]
DEFAULTS = {"read": (-1,), "readline": (-1,), "readlines": (-1,),
            "truncate": (None,), "seek": (0,)}


def same_args(name, got, want):
    """up to the defaults of the file's methods"""
    want, got = list(want), list(got)
    full = {"seek": (None, 0)}.get(name, DEFAULTS.get(name, ()))
    for x in (want, got):
        x.extend(full[len(x):])
    if len(want) != len(got):
        return False
    return And(*[a is b or (a == b if type(a) is not object else False)
                 for a, b in zip(got, want)])


def proxy(name):
    """the operation with any arguments: called once, in the executor"""
    shapes = BLOCKING.get(name, [()])
    shape = pick("shape", shapes)
    args = tuple(object() if a == "s" else sym_int("n%d" % i, -5, 1 << 40)
                 for i, a in enumerate(shape))
    fails = bool(sym_bool("fails"))
    own = bool(sym_bool("own"))
    kw = {}
    if name in ("peek", "read1", "detach", "readinto") and \
            choose("kwargs", 2):
        kw = {"size": sym_int("kw", 0, 9)}
    d = sym_real("d", 0)

    async def main():
        default, mine = executors()
        rec = Recorder()
        if name in ("writelines", "flush", "close"):
            rec.result = None
        opened = []

        class F(AsyncBinaryIO):
            @staticmethod
            def get_opener():
                def opener(*a, **k):
                    opened.append((a, k, list(WORKING)))
                    return rec
                return opener
        f = F("/no/where", "rb", executor=mine if own else None, buffering=7)
        await f
        where = ["own" if own else "default"]
        check(opened == [(("/no/where", "rb"), {"buffering": 7}, where)],
              "opened-once-as-requested", repr(opened))
        token = rec.result
        if fails:
            rec.error = Failure()
        mine.delay = default.delay = d
        t0 = now()
        r = await outcome(getattr(f, name)(*args, **kw))
        if fails:
            check(r[0] == "exc" and r[1] is rec.error,
                  "the-result-of-the-file", repr(r))
        else:
            check(r[0] == "ok" and r[1] is token,
                  "the-result-of-the-file", repr(r))
        check(len(rec.calls) == 1, "called-once", repr(rec.calls))
        (got, a, k, who), = rec.calls
        check(got == name, "the-same-operation", got)
        check(same_args(name, a, args), "the-same-arguments", repr(a))
        check(k == kw if not kw else k.get("size") == kw["size"],
              "the-same-arguments", repr(k))
        if name in BLOCKING:
            check(who == where, "blocking-work-in-the-executor", repr(who))
            check(now() - t0 == d, "one-job")
        cover("failed" if fails else "done")
        await f.open()
        check(len(opened) == 1, "opened-once-as-requested")
        f._fp = None
    return run(main())


def context(n):
    """the context closes the file, whatever happens in it"""
    how = pick("how", ["with", "await-with", "open-with", "nested"])
    ends = pick("ends", ["normal", "raise", "cancel"])
    own = bool(sym_bool("own"))
    open_fails = choose("open-fails", 2)

    async def main():
        default, mine = executors()
        rec = Recorder()
        opens = []

        class F(AsyncBinaryIO):
            @staticmethod
            def get_opener():
                def opener(*a, **k):
                    opens.append(list(WORKING))
                    if open_fails:
                        raise OSError(2, "no such")
                    return rec
                return opener
        f = F("/no/where", executor=mine if own else None)
        where = ["own" if own else "default"]
        error = Err("body")
        inside = []

        async def body():
            if how == "await-with":
                check(await f is f, "await-gives-the-file")
            if how == "open-with":
                await f.open()
            async with f as g:
                check(g is f, "context-gives-the-file")
                if how == "nested":
                    await f.open()
                inside.append(1)
                if ends == "raise":
                    raise error
                if ends == "cancel":
                    await asyncio.sleep(100)
        t = asyncio.ensure_future(outcome(body()))
        await asyncio.sleep(1)
        if ends == "cancel":
            t.cancel()
        r = await t
        check(len(opens) == 1 and opens[0] == where,
              "opened-once-as-requested", repr(opens))
        if open_fails:
            check(r[0] == "exc" and isinstance(r[1], OSError) and
                  not inside, "failure-to-open-is-reported", repr(r))
            cover("not-opened")
            return
        check(inside == [1], "context-is-entered")
        if ends == "normal":
            check(r[0] == "ok", "context-ends-as-its-body", repr(r))
        elif ends == "raise":
            check(r[1] is error, "context-ends-as-its-body", repr(r))
        else:
            check(r[0] == "cancelled", "context-ends-as-its-body", repr(r))
        closing = [c for c in rec.calls if c[0] in ("__exit__", "close")]
        check(closing, "leaving-closes")
        check(all(c[3] == where for c in closing),
              "blocking-work-in-the-executor", repr(closing))
        cover("closed")
        f._fp = None
    return run(main())


def opening(n):
    """concurrent openers"""
    d = [sym_real("d%d" % i, 0) for i in range(n)]
    fail_first = choose("fail_first", 2)

    async def main():
        default, mine = executors()
        rec = Recorder()
        opens = []

        class F(AsyncBinaryIO):
            @staticmethod
            def get_opener():
                def opener(*a, **k):
                    opens.append(1)
                    if len(opens) == 1 and fail_first:
                        raise OSError(2, "no such")
                    return rec
                return opener
        f = F("/no/where")

        async def user(i):
            await asyncio.sleep(d[i])
            default.delay = d[(i + 1) % n]
            how = pick("how%d" % i, ["open", "await", "with"])
            if how == "open":
                await f.open()
            elif how == "await":
                await f
            else:
                await f.__aenter__()
            check(f.fp is rec, "opened-file-is-used")
        rs = await asyncio.gather(*[outcome(user(i)) for i in range(n)])
        bad = [r for r in rs if r[0] != "ok"]
        check(len(bad) == fail_first and
              all(isinstance(r[1], OSError) for r in bad),
              "failure-to-open-is-reported", repr(rs))
        check(len(opens) == 1 + fail_first, "opening-happens-once",
              repr(len(opens)))
        cover("opened")
        f._fp = None
    return run(main())


def lines(readers, n):
    """concurrent iteration yields every line once"""
    threads(free_choice=False)
    d = sym_real("d", 0, strict=True)
    step = [sym_real("s%d" % i, 0) for i in range(readers)]

    async def main():
        loop = asyncio.get_running_loop()
        loop.set_default_executor(ThreadPoolExecutor(readers))

        class Slow(Recorder):
            at = 0

            def readline(self, limit=-1):
                at = self.at
                time.sleep(d)
                self.at = at + 1
                return b"line %d\n" % at if at < n else b""
        rec = Slow()

        class F(AsyncBinaryIO):
            @staticmethod
            def get_opener():
                return lambda *a, **k: rec
        f = await F("/no/where")
        got = []

        async def reader(i):
            async for line in f:
                got.append(line)
                await asyncio.sleep(step[i])
        await asyncio.gather(*[reader(i) for i in range(readers)])
        check(sorted(got) == [b"line %d\n" % i for i in range(n)],
              "every-line-once", repr(got))
        cover("iterated")
        f._fp = None
    return run(main())


# ------------------------------------------------- against ordinary files
PLAIN = {Compression.NONE: open, Compression.GZIP: gzip.open,
         Compression.BZ2: bz2.open, Compression.LZMA: lzma.open}
CONTENT = [b"", b"one\ntwo\r\nthree"]


def menu(text):
    s = (lambda x: x) if text else (lambda x: x.encode())
    return [
        ("read",), ("read", 2), ("readline",), ("readline", 2),
        ("readlines",), ("readlines", 3), ("write", s("new\nlines\n")),
        ("writelines", [s("a\n"), s("b")]), ("seek", 0), ("seek", 2),
        ("seek", 0, 2), ("seek", 1, 1), ("tell",), ("truncate",),
        ("truncate", 2), ("flush",), ("readable",), ("writable",),
        ("seekable",), ("close",), ("ITER",), ("write", 5),
    ]


SHORT = [0, 1, 2, 6, 8, 9, 12, 14, 20]
MODES = ["r", "rt", "rb", "w", "wb", "a", "ab", "x", "xb", "r+", "w+", "rb+",
         "wb+", "a+"]


def desc(kind, value):
    return kind, value if kind == "ok" else (type(value), str(value))


def plain_op(f, o):
    try:
        if o[0] == "ITER":
            # next() of an ordinary text file also disables tell()
            out = []
            while True:
                out.append(f.readline())
                if not out[-1]:
                    return "ok", out[:-1]
        r = getattr(f, o[0])(*o[1:])
        return "ok", r
    except Exception as e:
        return "raise", (type(e), str(e))


async def async_op(f, o):
    try:
        if o[0] == "ITER":
            return "ok", [x async for x in f]
        return "ok", await getattr(f, o[0])(*o[1:])
    except Exception as e:
        return "raise", (type(e), str(e))


def alike(a, b, o):
    if a[0] != b[0]:
        return False
    if a[0] == "ok":
        return a[1] == b[1]
    return a[1] == b[1] or a[1][0] is b[1][0] and issubclass(
        a[1][0], (OSError, TypeError, EOFError))


def history(compression, steps, modes, short=False):
    comp = Compression[compression]
    mode = pick("mode", modes)
    content = CONTENT[choose("content", 2)] if mode[0] in "rx" else \
        CONTENT[1]
    text = "b" not in mode
    ops = menu(text)
    if short:
        ops = [ops[i] for i in SHORT]
    todo = [pick("op%d" % i, ops) for i in range(steps)]
    kw = {}
    if text:
        kw["encoding"] = pick("encoding", ["utf-8", "utf-16"]) \
            if short else "latin-1"
    scratch = tempfile.mkdtemp(prefix="c24-")
    try:
        return _history(comp, mode, content, todo, kw, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _history(comp, mode, content, todo, kw, scratch):
    real = PLAIN[comp]
    names = [os.path.join(scratch, x) for x in ("plain", "async")]
    if content:
        for x in names:
            with real(x, "wb") as f:
                f.write(content)

    full = mode
    if "b" not in mode and "t" not in mode:
        full = mode + "t"
    plain = []
    try:
        f = real(names[0], full, **kw)
    except Exception as e:
        plain.append(("raise", (type(e), str(e))))
    else:
        for o in todo:
            plain.append(plain_op(f, o))
        plain.append(("ok", f.closed))
        plain.append(plain_op(f, ("close",)))

    async def main():
        executors()
        f = async_open(names[1], mode, compression=comp, **kw)
        try:
            await f.open()
        except Exception as e:
            got = [("raise", (type(e), str(e)))]
            cover("not-opened")
        else:
            got = []
            for o in todo:
                got.append(await async_op(f, o))
            got.append(("ok", f.closed()))
            got.append(await async_op(f, ("close",)))
            cover("opened")
        for a, b, o in zip(got, plain, todo + [("closed",), ("close",)]):
            check(alike(a, b, o), "as-the-ordinary-file",
                  "%s %s in %s: %r instead of %r" % (o, todo, mode, a, b))
        check(len(got) == len(plain), "as-the-ordinary-file",
              "%r %r" % (got, plain))
        ends = []
        for x in names:
            if os.path.exists(x):
                with open(x, "rb") as g:
                    data = g.read()
                if comp is Compression.GZIP:
                    # without the headers, which have names and times
                    try:
                        data = gzip.decompress(data)
                    except Exception as e:
                        data = type(e)
                ends.append(data)
            else:
                ends.append(None)
        check(ends[0] == ends[1], "same-content-in-the-end", repr(ends))
    return run(main())


# --------------------------------------------------------------- lifecycle
class Unraisable:
    def __enter__(self):
        self.seen = []
        self.saved = sys.unraisablehook
        sys.unraisablehook = lambda u: self.seen.append(
            repr(u.exc_value))
        return self

    def __exit__(self, *a):
        sys.unraisablehook = self.saved


def discard():
    """a file in any state can be forgotten"""
    cls = pick("kind", ["text", "binary", "gzip", "gzip-text"])
    state = pick("state", ["new", "failed", "opened", "closed", "left"])
    scratch = tempfile.mkdtemp(prefix="c24-")

    async def main():
        executors()
        path = os.path.join(scratch, "x" if state != "failed" else "no/x")
        mode = "wb" if cls in ("binary", "gzip") else "w"
        f = async_open(path, mode, compression=Compression.GZIP
                       if cls.startswith("gzip") else Compression.NONE)
        if state == "failed":
            try:
                await f.open()
                fail("failure-to-open-is-reported")
            except FileNotFoundError:
                pass
        if state in ("opened", "closed"):
            await f.open()
            await f.write("x" if mode == "w" else b"x")
            real = f.fp
        if state == "closed":
            await f.close()
        if state == "left":
            async with f:
                real = f.fp
        if state in ("closed", "left"):
            check(f.closed() and real.closed, "leaving-closes")
        with Unraisable() as u:
            del f
            gc.collect()
        check(not u.seen, "discarded-silently", repr(u.seen))
        if state not in ("new", "failed"):
            check(real.closed, "discarding-closes")
        cover(state)
    try:
        return run(main())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def unopened():
    """nothing can be done with a file which is not opened"""
    text = sym_bool("text")
    f = async_open("/no/where", "r" if text else "rb")
    name = pick("op", list(BLOCKING) + OTHER + ["ITER"])

    async def main():
        executors()
        if name == "ITER":
            r = await async_op(f, ("ITER",))
        else:
            arg = {"seek": (0,), "write": ("x",), "writelines": (["x"],),
                   "readinto": (bytearray(1),)}.get(name, ())
            r = await async_op(f, (name,) + arg)
        check(r[0] == "raise" and r[1][0] is RuntimeError,
              "unopened-is-refused", repr(r))
        for attr in ("mode", "name") + (
                ("encoding", "errors", "newlines", "line_buffering")
                if text else ()):
            try:
                getattr(f, attr)
                fail("unopened-is-refused", attr)
            except RuntimeError:
                pass
        for m in ("fileno", "isatty", "closed"):
            try:
                getattr(f, m)()
                fail("unopened-is-refused", m)
            except RuntimeError:
                pass
        cover("refused")
    return run(main())


def attributes():
    """what can be asked without waiting"""
    text = bool(sym_bool("text"))
    newline = pick("newline", [None, "", "\n", "\r\n"]) if text else None
    errors = pick("errors", ["strict", "replace"])
    scratch = tempfile.mkdtemp(prefix="c24-")

    async def main():
        default, mine = executors()
        path = os.path.join(scratch, "x")
        with open(path, "wb") as g:
            g.write(b"a\r\nb\n")
        kw = dict(newline=newline, errors=errors, encoding="utf-8") \
            if text else {}
        f = await async_open(path, "r+" if text else "rb+", executor=mine,
                             **kw)
        with open(path, "r+" if text else "rb+", **kw) as g:
            check(await f.readline() == g.readline(), "as-the-ordinary-file")
            for a in ("name",) + (
                    ("encoding", "errors", "newlines", "line_buffering")
                    if text else ("mode",)):
                check(getattr(f, a) == getattr(g, a),
                      "as-the-ordinary-file", a)
            check(f.isatty() == g.isatty() and f.closed() == g.closed,
                  "as-the-ordinary-file")
            check(isinstance(f.fileno(), int) and os.fstat(f.fileno()).st_ino
                  == os.fstat(g.fileno()).st_ino, "as-the-ordinary-file")
        if text:
            # the bytes below
            await f.seek(0)
            check(await f.buffer().read() == b"a\r\nb\n", "buffer")
            gc.collect()
            check(not f.closed(), "buffer-can-be-discarded")
            b = f.buffer()
            n = mine.count
            await b.write(b"c")
            await b.flush()
            check(mine.count == n + 2, "buffer-uses-the-executor")
            with open(path, "rb") as g:
                check(g.read() == b"a\r\nb\nc", "buffer")
            await f.reconfigure(line_buffering=True)
            check(f.line_buffering is True, "keyword-arguments")
            cover("text")
        await f.close()
        cover("attributes")
    try:
        return run(main())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def comparison():
    """of several files"""
    scratch = tempfile.mkdtemp(prefix="c24-")
    modes = [pick("mode%d" % i, ["w", "wb"]) for i in range(2)]
    comp = [pick("comp%d" % i, [Compression.NONE, Compression.GZIP])
            for i in range(2)]
    opened = choose("opened", 2)

    async def main():
        executors()
        a, b = [async_open(os.path.join(scratch, "ab"[i]), modes[i],
                           compression=comp[i]) for i in range(2)]
        if opened:
            await a, await b
            check(hash(a) == hash(a), "hash-is-stable")
            check(a in {a} and [b, a].index(a) == 1, "found-among-files")
            for f in (lambda: a < b, lambda: a > b, lambda: a <= a):
                try:
                    f()
                except TypeError:
                    continue
                check(f() is True and f is not None, "ordering")
        check(a == a and not a != a, "equal-to-itself")
        check(a != b and not a == b, "different-files-are-not-equal")
        check(a != "a" and a != os.path.join(scratch, "a"),
              "different-files-are-not-equal")
        if opened:
            await a.close()
            await b.close()
        cover("compared")
    try:
        return run(main())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


NAMES = ["/no/where", " spaces ", "", "rel/../b.rb", "~/t", "ü\n.gz",
         pathlib.Path("/no/where.b"), pathlib.Path(" t ")]


def arguments():
    """whatever the file is opened with arrives at the opener"""
    name = pick("name", NAMES)
    comp = pick("compression", list(Compression))
    binary = choose("binary", 2)
    mode = pick("mode", ["rb", "wb+", "br", "a+b"] if binary else
                ["r", "w+", "rt", "xt", "t+a"])
    size = sym_int("buffering", -1, 1 << 20)
    how = pick("how", ["none", "keyword", "positional"])
    opens = []
    encoding = pick("encoding", [None, "latin-1", ""])

    async def main():
        default, mine = executors()
        own = choose("own", 2)
        rec = Recorder()
        cls = comp.value[0 if binary else 1]
        real = vars(cls).get("get_opener")

        def opener(*a, **kw):
            opens.append((a, kw, list(WORKING)))
            return rec
        cls.get_opener = staticmethod(lambda: opener)
        try:
            kw = {"executor": mine} if own else {}
            args = ()
            if encoding is not None:
                kw["encoding"] = encoding
            if how == "keyword":
                kw["buffering"] = size
                kw["errors"] = None
            elif how == "positional":
                # the executor is the first of them
                kw.pop("executor", None)
                kw.pop("encoding", None)
                args = (comp, "utf-8" if encoding is None else encoding,
                        mine if own else None, size)
            else:
                kw["newline"] = ""
            if not args:
                kw["compression"] = comp
            f = async_open(name, mode, *args, **kw)
            check(type(f) is cls, "the-class-of-the-compression")
            check(not opens, "opened-when-asked")
            await f
        finally:
            if real is None:
                del cls.get_opener
            else:
                cls.get_opener = real
        (a, k, who), = opens
        check(who == ["own" if own else "default"],
              "blocking-work-in-the-executor", repr(who))
        check(a[0] == str(name) and type(a[0]) is str,
              "opened-once-as-requested", repr(a))
        want = mode if binary or "t" in mode else mode + "t"
        check(sorted(a[1]) == sorted(want), "opened-once-as-requested",
              repr(a))
        rest, named = list(a[2:]), dict(k)
        if args:
            check(len(rest) == 1 and rest[0] == size,
                  "opened-once-as-requested", repr(a))
            check(named.pop("encoding", None) == (
                None if binary else args[1]),
                  "opened-once-as-requested", repr(k))
            cover("positional")
        else:
            check(not rest, "opened-once-as-requested", repr(a))
            given = named.pop("encoding", None)
            if binary:
                check(given is None, "opened-once-as-requested", repr(k))
            else:
                check(given == (sys.getdefaultencoding() if encoding is None
                                else encoding),
                      "opened-once-as-requested", repr(k))
            for x in "buffering", "errors", "newline":
                if x in kw:
                    check(x in named and named.pop(x) == kw[x],
                          "opened-once-as-requested", repr(k))
            cover("keyword")
        check(not named, "opened-once-as-requested", repr(named))
        f._fp = None
    return run(main())


def scenarios(tier):
    t = tier == "thorough"
    out = [Scenario("proxy-" + name, proxy, dict(name=name),
                    covers=["failed", "done"])
           for name in list(BLOCKING) + OTHER]
    for c in Compression:
        modes = MODES if c is Compression.NONE else [
            m for m in MODES if m in ("r", "rb", "wb", "a", "xb", "r+")]
        out.append(Scenario(
            "history-" + c.name.lower(), history,
            dict(compression=c.name, steps=3 if t else 2, modes=modes,
                 short=c in (Compression.BZ2, Compression.LZMA)),
            covers=["opened", "not-opened"]))
    out += [
        Scenario("long-text", history, dict(
            compression="NONE", steps=4 if t else 3, modes=["r+", "w+"],
            short=True), covers=["opened"]),
        Scenario("long-binary", history, dict(
            compression="NONE", steps=4 if t else 3, modes=["rb+"],
            short=True), covers=["opened"]),
        Scenario("context", context, dict(n=1),
                 covers=["closed", "not-opened"]),
        Scenario("arguments", arguments, {}, covers=[
            "positional", "keyword"]),
        Scenario("opening", opening, dict(n=3), covers=["opened"]),
        Scenario("lines-two", lines, dict(readers=2, n=2),
                 covers=["iterated"]),
        Scenario("lines-one", lines, dict(readers=1, n=3),
                 covers=["iterated"]),
        Scenario("discard", discard, {}, covers=[
            "new", "failed", "opened", "closed", "left"]),
        Scenario("unopened", unopened, {}, covers=["refused"]),
        Scenario("attributes", attributes, {},
                 covers=["attributes", "text"]),
        Scenario("comparison", comparison, {}, covers=["compared"]),
    ]
    return out
