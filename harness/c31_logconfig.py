"""
C31 -- setting up logging, as it is (aiomisc_log) and in a loop (aiomisc.log).
The level, the format, how they are given, the handlers, their levels and
those of the records, what was set up before and what goes wrong in the loop
are solver-chosen; what arrives at the handlers and at the captured standard
error decides.
"""
import asyncio
import importlib.util
import io
import json
import logging
import os
import re
import sys
import time
import types

from symx.api import *
from symx.net import FakeSocket, Network

import aiomisc_log
import aiomisc.log
from aiomisc_log.enum import LogFormat, LogLevel

BOUNDS = {
    "quick": "all formats, given as names or members; levels as "
             "names, members and numbers 0..60; records of the levels around "
             "it; up to 2 handlers, one of any level; set up once or twice; 10 "
             "kinds of errors of the loop",
    "thorough": "as quick, with 2 handlers of any level",
}
ASSUMPTIONS = ["rich does not wrap short messages"]
OUTSIDE = ["what logging_journald sends to its socket", "the end of the process"]

FORMATS = ["stream", "color", "json", "plain", "rich", "rich_tb", "disabled",
           "syslog"]


class Target(logging.Handler):
    def __init__(self, level=0):
        super().__init__(level)
        self.got = []

    def emit(self, record):
        self.got.append(record)


class Stderr(io.StringIO):
    def fileno(self):
        return 2


class SyslogSocket(FakeSocket):
    sent = []

    def sendto(self, data, *addr):
        self.sent.append(bytes(data).decode())

    send = sendto

    def connect(self, address):
        pass


class logs:
    """keeps the set-up of the process itself as it was"""

    def __enter__(self):
        root = self.root = logging.getLogger()
        self.saved = root.handlers[:], root.level, sys.excepthook, sys.stderr
        self.loggers = [
            (l, l.handlers[:], l.level, l.propagate, l.disabled)
            for l in map(logging.getLogger, (
                "unhandled", "asyncio", "asyncio.unhandled", "some.where"))]
        root.handlers[:] = []
        root.setLevel(logging.WARNING)
        self.raising = logging.raiseExceptions
        sys.stderr = Stderr()
        SyslogSocket.sent = []
        sim().os["socket"] = SyslogSocket
        return self

    def text(self):
        return sys.stderr.getvalue() + "\n".join(SyslogSocket.sent)

    def __exit__(self, *exc):
        try:
            import rich
            rich._console = None
        except ImportError:
            pass
        root = self.root
        root.handlers[:], level, sys.excepthook, sys.stderr = self.saved
        root.setLevel(level)
        for l, handlers, level, propagate, disabled in self.loggers:
            l.handlers[:] = handlers
            l.setLevel(level)
            l.propagate, l.disabled = propagate, disabled


def given_level(name, few):
    """(as given, its number)"""
    kind = pick(name + "-given", ["name", "member", "number"])
    if kind == "number":
        n = pick(name, [15, 40, 60] if few else [0, 1, 10, 15, 20, 29, 30, 31, 40, 50, 60])
        return n, n
    m = pick(name, list(LogLevel))
    return (m.name if kind == "name" else m), int(m)


def given_format(names, name="format"):
    f = pick(name, names)
    return (f if choose(name + "-given", 2) else LogFormat[f]), f


def lines(text, tag):
    return sum(tag in x for x in text.splitlines())


def around(n):
    return sorted({max(1, n - 1), max(1, n), n + 1})


def expect(w, formats, targets, level, tag, at, count=1, err=None):
    """``tag`` has been logged at level ``at``"""
    for t in targets:
        n = sum(tag in r.getMessage() for r in t.got)
        wanted = count if And(at >= level, at >= t.level) else 0
        check(n == wanted, "reaches the handlers which are to get it",
              (tag, n, wanted))
    n = lines(w.text(), tag)
    wanted = count if formats != "disabled" and at >= level else 0
    check(n == wanted, "reaches the handler of the format once",
          (tag, formats, n, wanted))


def setups(w, basic_config, names, n, again, **kw):
    """configures once or twice; what is set up in the end"""
    old = []
    kw["stream"] = sys.stderr
    if again:
        old = [Target() for _ in range(n)]
        first = "json" if names != ["json"] else "plain"
        basic_config(level="debug", log_format=first, handlers=old, **kw)
    level, number = given_level("level", "loop" in kw)
    fmt, name = given_format(names)
    targets = []
    for i in range(n):
        targets.append(Target())
        if i == 0 or not names[1:]:
            targets[i].level = sym_int("handler%d" % i, 0, 60)
    basic_config(level=level, log_format=fmt, handlers=iter(targets), **kw)
    return old, targets, number, name


def direct(names, n, again):
    with logs() as w:
        old, targets, level, name = setups(
            w, aiomisc_log.basic_config, names, n, again)
        check(logging.getLogger().level == level, "level of the root logger",
              (logging.getLogger().level, level))
        check(len(logging.getLogger().handlers) ==
              n + (name != "disabled"), "exactly the handlers asked for",
              logging.getLogger().handlers)
        check(int(aiomisc_log.LOG_LEVEL.get()) == level, "level is known")
        check(LogFormat(aiomisc_log.LOG_FORMAT.get()).name == name,
              "format is known", aiomisc_log.LOG_FORMAT.get())
        log = logging.getLogger("some.where")
        for at in around(level):
            if name == "disabled" and not n:
                break
            log.log(at, "tag%d,", at)
        for at in around(level):
            if name == "disabled" and not n:
                break
            expect(w, name, targets, level, "tag%d," % at, at)
        try:
            raise ValueError("oops-1")
        except ValueError:
            info = sys.exc_info()
        for o in old:
            del o.got[:]
        before = w.text()
        sys.excepthook(*info)
        cover("unhandled")
        for t in targets:
            n_ = [r for r in t.got if r.exc_info]
            check(len(n_) == (
                1 if And(level <= 40, t.level <= 40) else 0)
                  and all(
                r.exc_info[1] is info[1] for r in n_),
                "unhandled errors reach the handlers", t.got)
        if name != "disabled":
            new = w.text()[len(before):]
            check(("Unhandled exception" in new) == (level <= 40), "unhandled errors reach the "
                  "handler of the format", new)
        for o in old:
            check(not o.got, "the earlier set-up is replaced", o.got)


ANSI = re.compile(r"\x1b\[[0-9;]*m")


def written(name):
    """what a format writes of a record"""
    given = pick("date_format", [None, "%d/%m/%Y %H-%M", "%Y", Ellipsis])
    if given is Ellipsis and name not in ("stream", "json"):
        assume(False)
    created = pick("created", [0.0, 86400.5, 1700000000.25])
    level = pick("level", [10, 20, 30, 40, 50])
    fails = choose("fails", 2)
    with logs() as w:
        kw = {} if given is None else {"date_format": given}
        stream = w.own = Stderr()
        to = sys.stderr
        if name in ("color", "json") or name.startswith("rich"):
            if name == "json" or choose("stream", 2):
                kw["stream"] = to = stream
        aiomisc_log.basic_config(level="debug", log_format=name, **kw)
        record = logging.makeLogRecord(dict(
            name="some.where", levelno=level,
            levelname=logging.getLevelName(level), msg="the %s,",
            args=("message",), created=created, threadName="thr"))
        if fails:
            try:
                raise ValueError("oops-3")
            except ValueError:
                record.exc_info = sys.exc_info()
        logging.getLogger("some.where").handle(record)
        text = ANSI.sub("", to.getvalue()) if name != "syslog" else \
            "\n".join(SyslogSocket.sent)
        other = stream if to is sys.stderr else sys.stderr
        check(not other.getvalue() or name == "syslog",
              "written where it was asked for", other.getvalue())
        cover("written")
        if fails and name != "json":
            check("oops-3" in text, "the exception is written", text)
            boxed = any(0x2500 <= ord(c) < 0x2580 for c in text)
            check(boxed == (name == "rich_tb"), "kind of the traceback", text)
        if name != "json":
            text = text.split("Traceback")[0].strip("\n ")
        local = time.localtime(created)
        date = None if given in (None, Ellipsis) else time.strftime(
            given, local)
        simple = "%s:some.where:the message," % record.levelname
        if name == "plain":
            check(text == "the message,", "just the message", text)
        elif name == "syslog":
            body = text.split("\0")[0].split("<", 1)[1].split(">", 1)
            check(body[1].strip() == "the message,", "just the message", body)
            check(int(body[0]) & 7 == {10: 7, 20: 6, 30: 4, 40: 3,
                                       50: 2}[level], "priority", body)
        elif name == "stream":
            wanted = simple if date is None else date + " " + simple
            check(text == wanted, "level, name and message", text)
        elif name == "color":
            wanted = "%s [T:thr] %s:some.where: the message," % (
                date or time.strftime("%Y-%m-%d %H:%M:%S", local),
                record.levelname)
            check(text == wanted, "date, thread, level, name and message",
                  text)
        elif name.startswith("rich"):
            wanted = [date or time.strftime("[%X]", local), record.levelname,
                      "the message,"]
            # nothing is repeated by rich
            check(all(x in text for x in wanted), "date, level and message",
                  text)
        elif name == "json":
            payload = json.loads(text)
            check(payload["msg"] == "the message,", "message", payload)
            if date is not None:
                check(payload.get("@timestamp") == date, "date", payload)


def refused():
    with logs() as w:
        f = pick("set up", [aiomisc_log.basic_config, None])
        bad = pick("bad", [dict(level="loud"), dict(log_format="fancy"),
                           dict(level="INFO "), dict(log_format="")])

        async def inside():
            aiomisc.log.basic_config(**bad)

        try:
            if f is None:
                run(inside())
            else:
                f(**bad)
        except (KeyError, ValueError, TypeError):
            cover("refused")
        else:
            fail("accepted", bad)


def fresh(name):
    """a module of aiomisc_log as it would be imported now"""
    spec = importlib.util.spec_from_file_location(
        "aiomisc_log.copy_of_it", os.path.join(
            os.path.dirname(aiomisc_log.__file__), *name) + ".py")
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


class modules:
    """what is installed"""

    def __init__(self, **mods):
        self.mods = mods

    def __enter__(self):
        self.saved = {k: sys.modules.get(k) for k in self.mods}
        sys.modules.update(self.mods)

    def __exit__(self, *exc):
        for k, v in self.saved.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v


def defaults():
    """the format and the level when nothing is asked for"""
    journal = pick("journal", ["missing", "no", "yes"])
    tty = bool(choose("tty", 2))
    rich = bool(choose("rich", 2))
    library = types.ModuleType("logging_journald")
    library.check_journal_stream = lambda: journal == "yes"
    isatty = os.isatty
    with logs(), modules(
            logging_journald=None if journal == "missing" else library,
            rich=types.ModuleType("rich") if rich else None):
        os.isatty = lambda fd: fd == 2 and tty
        try:
            mod = fresh(["enum"])
            got = mod.LogFormat.default()
        finally:
            os.isatty = isatty
    wanted = "journald" if journal == "yes" else "plain" if not tty else \
        "rich" if rich else "color"
    check(got == wanted, "the default format", (got, wanted))
    check(mod.LogLevel.default() == "info", "the default level")
    check(set(mod.LogFormat.choices()) == set(FORMATS) | {"journald"},
          "all formats may be chosen", mod.LogFormat.choices())
    check({n: int(mod.LogLevel[n]) for n in mod.LogLevel.choices()} == {
        "critical": 50, "error": 40, "warning": 30, "info": 20, "debug": 10,
        "notset": 0}, "all levels may be chosen")
    cover(wanted)


def journald():
    """the format of the journal, its library and its socket there or not"""
    library = pick("library", ["missing", "there"])
    there = bool(choose("socket", 2))
    level = pick("level", [10, 20, 30, 40, 50])
    fails = choose("fails", 2)
    sent = []

    class Transport:
        def __init__(self, *args, **kwargs):
            pass

        def send(self, pairs):
            sent.append(dict(pairs))

    class Path:
        def exists(self):
            return there

        def __str__(self):
            return "/scratch/journal"
    import logging_journald as real
    saved = (real.JournaldTransport, real.JournaldLogHandler.SOCKET_PATH,
             aiomisc_log.journald_formatter)
    with logs(), modules(
            logging_journald=real if library == "there" else None):
        real.JournaldTransport = Transport
        real.JournaldLogHandler.SOCKET_PATH = Path()
        try:
            mod = fresh(["formatter", "journald"])
            aiomisc_log.journald_formatter = mod.journald_formatter
            try:
                aiomisc_log.basic_config(level="debug", log_format="journald")
            except (ImportError, FileNotFoundError) as e:
                cover("unavailable")
                check(isinstance(e, ImportError) == (library == "missing"),
                      "what is missing", e)
                check(library == "missing" or not there, "refused when "
                      "there is no journal")
                return
            check(library == "there" and there, "refused when there is no "
                  "journal")
            record = logging.makeLogRecord(dict(
                name="some.where", levelno=level, module="m", funcName="f",
                levelname=logging.getLevelName(level), msg="the %s,",
                args=("message",), created=1700000000.25))
            if fails:
                try:
                    raise ValueError("oops-3")
                except ValueError:
                    record.exc_info = sys.exc_info()
            logging.getLogger("some.where").handle(record)
            check(len(sent) == 1, "written once", sent)
            got = sent[0]
            check(got["message"].split("\n")[0] == "the message,",
                  "the message", got)
            check(got["priority"] == {10: 7, 20: 6, 30: 4, 40: 3,
                                      50: 0}[level] or level == 50,
                  "the priority", got)
            check(got["logger_name"] == "some.where", "the logger", got)
            check(("oops-3" in str(got.get("traceback"))) == bool(fails),
                  "the error", got)
            cover("written")
        finally:
            (real.JournaldTransport, real.JournaldLogHandler.SOCKET_PATH,
             aiomisc_log.journald_formatter) = saved


ERRORS = ["exception", "message", "task", "future", "cancelled", "pending",
          "clash", "source", "transport", "handle"]


class FakeTransport(asyncio.Transport):
    def __repr__(self):
        return "<the transport>"


async def raising():
    raise ValueError("oops-2")


async def context(kind, loop):
    """(what is given to the loop, its exception)"""
    c = {"message": "odd thing,"}
    e = None
    if kind == "exception":
        e = c["exception"] = ValueError("oops-2")
    elif kind == "task":
        t = c["task"] = asyncio.ensure_future(raising())
        await asyncio.wait([t])
        e = t.exception()
    elif kind == "future":
        f = c["future"] = loop.create_future()
        e = ValueError("oops-2")
        f.set_exception(e)
    elif kind == "cancelled":
        f = c[pick("holder", ["future", "task"])] = asyncio.ensure_future(
            asyncio.sleep(100))
        f.cancel()
        await asyncio.wait([f])
    elif kind == "pending":
        key = pick("holder", ["future", "task"])
        f = c[key] = asyncio.ensure_future(asyncio.sleep(0.3))
    elif kind == "clash":
        c[pick("key", ["name", "args", "process", "asctime", "exc_info"])] = 1
    elif kind == "source":
        import traceback
        c["source_traceback"] = traceback.extract_stack()
        c["exception"] = e = ValueError("oops-2")
    elif kind == "transport":
        c["transport"] = FakeTransport({"peername": ("127.0.0.1", 5)})
        c["protocol"] = asyncio.Protocol()
        c["socket"] = FakeSocket()
    elif kind == "handle":
        c["handle"] = loop.call_later(0.1, lambda: None)
    return c, e


def in_loop(names, n, again, kinds):
    kind = pick("error", kinds)

    async def main(w):
        loop = asyncio.get_running_loop()
        old, targets, level, name = setups(
            w, aiomisc.log.basic_config, names, n, again,
            flush_interval=0.25, loop=loop if again else None)
        check(logging.getLogger().level == level, "level of the root logger")
        check(len(logging.getLogger().handlers) ==
              n + (name != "disabled"), "exactly the handlers asked for",
              logging.getLogger().handlers)
        log = logging.getLogger("some.where")
        ats = around(level)
        for at in ats:
            if name == "disabled" and not n:
                break
            log.log(at, "tag%d,", at)
        await asyncio.sleep(1)
        for at in ats:
            if name == "disabled" and not n:
                break
            expect(w, name, targets, level, "tag%d," % at, at)
        c, e = await context(kind, loop)
        for o in old:
            del o.got[:]
        before = w.text()
        loop.call_exception_handler(c)
        await asyncio.sleep(1)
        cover("error of the loop")
        for t in targets:
            got = [r for r in t.got if "odd thing," in r.getMessage()]
            check(len(got) == (1 if And(level <= 40, t.level <= 40) else 0),
                  "errors of the loop reach the handlers",
                  [r.getMessage() for r in t.got])
            for r in got:
                check((r.exc_info and r.exc_info[1] or None) is e,
                      "with its exception", r.exc_info)
        if name != "disabled":
            new = w.text()[len(before):]
            check(lines(new, "odd thing,") == (level <= 40), "errors of the loop reach "
                  "the handler of the format", new)
        for o in old:
            check(not o.got, "the earlier set-up is replaced", o.got)
        for h in list(logging.getLogger().handlers):
            h.close()

    with logs() as w:
        threads(free_choice=False)
        return run(main(w))


def scenarios(tier):
    out = []
    if tier == "thorough":
        for name in FORMATS:
            out.append(Scenario("levels " + name, direct,
                                dict(names=[name], n=2, again=False),
                                covers=["unhandled"]))
    out += [Scenario("refused", refused, covers=["refused"]),
            Scenario("defaults", defaults, covers=[
                "journald", "plain", "rich", "color"]),
            Scenario("journald", journald, covers=["unavailable", "written"])]
    for name in FORMATS:
        if name != "disabled":
            out.append(Scenario("written " + name, written, dict(name=name),
                                covers=["written"]))
    for again in False, True:
        for n in (0, 1, 2):
            tail = "%d%s" % (n, " again" if again else "")
            out.append(Scenario(
                "direct " + tail, direct,
                dict(names=FORMATS, n=n, again=again),
                covers=["unhandled"]))
            for i in range(0, len(ERRORS), 5):
                if i and n == 2:
                    continue
                out.append(Scenario(
                    "loop %s %d" % (tail, i), in_loop,
                    dict(names=["plain", "json", "disabled"], n=n,
                         again=again, kinds=ERRORS[i:i + 5]),
                    covers=["error of the loop"]))
    return out
