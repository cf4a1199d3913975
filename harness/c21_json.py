"""
C21 -- JSONLogFormatter on records whose level is a symbolic integer and
whose fields, arguments, extra attributes and exceptions are solver-chosen.
"""
import json
import logging
import math
import sys

from symx.api import *

from aiomisc_log.formatter.json import JSONLogFormatter

BOUNDS = {
    "quick": "levels 0..60; each standard field absent (None) or given; two "
             "extra attributes of 12 kinds of values and 8 of names; up to "
             "3 positional or named arguments; exceptions without, with a "
             "cause, with broken texts; three timestamp formats",
    "thorough": "levels 0..120, pairs of standard fields absent",
}
ASSUMPTIONS = ["the message renders with its arguments"]
OUTSIDE = ["objects nested deeper than the recursion limit",
           "extra attributes named as the standard fields"]

KNOWN = {10: {"debug"}, 20: {"info"}, 30: {"warn", "warning"},
         40: {"error"}, 50: {"crit", "critical", "fatal"}}
FIELDS = {
    "filename": "code_file", "funcName": "code_func", "lineno": "code_line",
    "module": "code_module", "name": "identifier", "msg": "message_raw",
    "process": "pid", "processName": "process_name",
    "threadName": "thread_name",
}


def refuse(name):
    fail("valid-json", "%s is not JSON" % name)


def unique(pairs):
    keys = [k for k, _ in pairs]
    check(len(set(keys)) == len(keys), "valid-json", "repeated key")
    return dict(pairs)


def format_(record, fmt=None):
    fmt = fmt or JSONLogFormatter()
    before = dict(record.__dict__)
    try:
        text = fmt.format(record)
    except Exception as e:
        fail("formatting-never-raises", repr(e))
    check(isinstance(text, str), "one-text", repr(type(text)))
    after = record.__dict__
    check(list(before) == list(after) and
          all(before[k] is after[k] for k in before),
          "record-is-not-changed")
    try:
        out = json.loads(text, parse_constant=refuse,
                         object_pairs_hook=unique)
    except ValueError as e:
        fail("valid-json", repr(e))
    check(isinstance(out, dict), "one-object")
    check("\n" not in text, "one-line")
    return out


def record(level=20, msg="message", args=(), exc_info=None, **kw):
    r = logging.LogRecord("some.name", level, "/a/b/file.py", 42, msg, args,
                          exc_info, "func", None)
    r.__dict__.update(kw)
    return r


def standard(r, out):
    fields = out.get("@fields")
    check(isinstance(fields, dict), "has-the-fields")
    for name, mapped in FIELDS.items():
        v = r.__dict__.get(name)
        check(mapped in fields or v is None, "standard-fields", mapped)
        got = fields.get(mapped)
        if v is None:
            ok = got in (None, "None", 0, "")
        elif name in ("lineno", "process"):
            ok = got == int(v)
        else:
            ok = got == str(v)
        check(ok, "standard-fields", "%s: %r" % (mapped, got))
    check(out.get("msg") == r.getMessage(), "rendered-message")
    return fields


def same_level(r, out):
    got = out.get("level", "absent")
    if r.levelno == 0:
        check(got in (None, "notset", "NOTSET"), "level", repr(got))
    elif r.levelno in KNOWN:
        check(str(got).lower() in KNOWN[r.levelno], "level", repr(got))
    else:
        check(got == r.levelno or
              str(got).lower() == r.levelname.lower(), "level", repr(got))


def levels(top):
    """any level"""
    n = int(sym_int("level", 0, top))
    named = bool(sym_bool("named"))
    r = record(level=n)
    if named:
        r.levelname = "CUSTOM"
    out = format_(r)
    standard(r, out)
    same_level(r, out)
    cover("levels")


def absent(n):
    """any missing standard field, odd types of messages and names"""
    kw = {}
    for i in range(n):
        k = choose("absent%d" % i, len(FIELDS) + 1)
        if k:
            kw[list(FIELDS)[k - 1]] = None
    msg = pick("msg", ["m", "", "\u20ac \"quoted\" \\ \n\x00", 5, None,
                       ("a", 1), Err("message"), {"k": "v"}, b"bytes"])
    r = record(msg=msg)
    r.__dict__.update(kw)
    if "msg" in kw:
        msg = None
    out = format_(r)
    fields = standard(r, out)
    check(out["msg"] == str(msg), "rendered-message")
    same_level(r, out)
    cover("absent")


class Broken:
    def __repr__(self):
        raise Err("repr")


class Plain:
    def __repr__(self):
        return "<plain>"

    __hash__ = None


def cyclic():
    x = [1]
    x.append(x)
    return x


def cyclic_dict():
    x = {"a": 1}
    x["self"] = x
    return x


ANY = object()
#: value, what is expected
VALUES = {
    "str": lambda: ("text", "text"), "int": lambda: (5, 5),
    "false": lambda: (False, False), "zero": lambda: (0.0, 0.0),
    "nan": lambda: (math.nan, ANY), "inf": lambda: (-math.inf, ANY),
    "list": lambda: ([1, "a", None], [1, "a", None]),
    "tuple": lambda: ((1, 2), [1, 2]),
    "dict": lambda: ({"a": {"b": [1]}}, {"a": {"b": [1]}}),
    "odd-keys": lambda: ({(1, 2): "v", 3: "w"}, ANY),
    "object": lambda: (Plain(), "<plain>"),
    "inside": lambda: ([Plain(), {"x": Plain()}],
                       ["<plain>", {"x": "<plain>"}]),
    "bytes": lambda: (b"\xff", repr(b"\xff")),
    "set": lambda: ({1}, "{1}"),
    "broken": lambda: (Broken(), ANY),
    "cyclic": lambda: (cyclic(), ANY),
    "cyclic-dict": lambda: (cyclic_dict(), ANY),
    "nan-inside": lambda: ({"a": [math.nan, 1]}, ANY),
    "exception": lambda: (Err("x"), repr(Err("x"))),
    "empty": lambda: ("", ""), "emptylist": lambda: ([], []),
}
NAMES = ["extra", "Extra2", "", "1", 7, ("t", 1), "a b", "args_", "\u20ac",
         "level", "message", "asctime", "exc_text", "timestamp"]


def extras(second):
    """any extra attributes"""
    a = pick("name", NAMES)
    kinds = sorted(VALUES)
    values = {}
    va, ea = VALUES[kinds[choose("value", len(kinds))]]()
    extra = {a: va}
    expect = {a: ea}
    if second:
        b = pick("name2", ["z", 8, "\""])
        vb, eb = VALUES[kinds[choose("value2", len(kinds))]]()
        extra[b] = vb
        expect[b] = eb
    r = record(**{})
    for k, v in extra.items():
        r.__dict__[k] = v
    out = format_(r)
    fields = standard(r, out)
    for k, e in expect.items():
        text = k if isinstance(k, str) else None
        names = [text] if text is not None else [str(k), repr(k)]
        found = [n for n in names if n in fields]
        check(bool(found), "extra-fields", "%r is lost" % (k,))
        if e is not ANY:
            check(fields[found[0]] == e and
                  type(fields[found[0]]) is type(e), "extra-fields",
                  "%r: %r" % (k, fields[found[0]]))
    same_level(r, out)
    cover("extras")


class Num:
    def __str__(self):
        return "as-text"

    def __repr__(self):
        return "as-repr"


def arguments():
    """any arguments"""
    named = bool(sym_bool("named"))
    kinds = [lambda: "text", lambda: 5, lambda: None, lambda: Num(),
             lambda: [1], lambda: ("t",), lambda: {"k": 1}]
    n = pick("n", [1, 2, 3] if not named else [1, 2])
    vals = [kinds[choose("arg%d" % i, len(kinds))]() for i in range(n)]
    if named:
        keys = ["a", "b"][:n]
        args = (dict(zip(keys, vals)),)
        msg = " ".join("%%(%s)s" % k for k in keys)
    else:
        args = tuple(vals)
        if n == 1 and isinstance(vals[0], dict):
            msg = "%(k)s"       # logging takes it for named arguments
            vals = [1]
        else:
            msg = " ".join(["%s"] * n)
    want = " ".join(map(str, vals))
    r = record(msg=msg, args=args)
    out = format_(r)
    fields = standard(r, out)
    check(out["msg"] == want, "rendered-message", out["msg"])
    got = [v for k, v in fields.items() if k.startswith("argument_")]
    check(got == [str(v) for v in vals], "each-argument",
          "%r instead of %r" % (got, [str(v) for v in vals]))
    cover("arguments")


class BadText(Exception):
    def __str__(self):
        raise Err("str")


def exceptions():
    """any exception"""
    kind = pick("kind", [None, "plain", "cause", "context", "bad", "group",
                         "none", "notb", "chain-cycle", "false"])
    stack = pick("stack", [None, "Stack (most recent call last):\n  x"])
    text = pick("exc_text", [None, "cached\ntext"])
    info = None
    names = []
    try:
        if kind == "plain":
            names = ["ValueError: boom"]
            raise ValueError("boom")
        elif kind == "cause":
            names = ["KeyError: 'first'", "ValueError: second"]
            try:
                raise KeyError("first")
            except KeyError as e:
                raise ValueError("second") from e
        elif kind == "context":
            names = ["KeyError: 'first'", "ValueError: second"]
            try:
                raise KeyError("first")
            except KeyError:
                raise ValueError("second")
        elif kind == "bad":
            names = ["BadText"]
            raise BadText()
        elif kind == "group":
            names = ["ValueError: boom", "KeyError: 'key'"]
            raise ExceptionGroup("g", [ValueError("boom"), KeyError("key")])
        elif kind == "chain-cycle":
            names = ["ValueError: a"]
            a, b = ValueError("a"), ValueError("b")
            a.__context__, b.__context__ = b, a
            raise a
    except Exception:
        info = sys.exc_info()
    if kind == "none":
        info = (None, None, None)
    elif kind == "notb":
        e = ValueError("boom")
        info = (type(e), e, None)
        names = ["ValueError: boom"]
    elif kind == "false":
        info = False
    r = record(exc_info=info, stack_info=stack, exc_text=text)
    out = format_(r)
    fields = standard(r, out)
    if names:
        st = out.get("stackTrace")
        check(isinstance(st, str), "stack-trace")
        for n in names:
            check(n in st, "stack-trace", "%r is not in %r" % (n, st))
        if kind not in ("notb",):
            check("c21_json.py" in st, "stack-trace", "no lines")
        check(fields.get("errno") not in (None, 0), "errno")
        cover("exception")
    elif not info:
        check(out.get("stackTrace") is None, "stack-trace")
        check(fields.get("errno") == 0, "errno")
    if stack:
        check(fields.get("stack_info") == stack, "extra-fields",
              "stack_info")
    cover("no-exception")


def stamps():
    """the timestamp when configured"""
    fmt = pick("format", [None, Ellipsis, "%s", "%Y", "[%H:%M]"])
    at = pick("at", [0.0, 1700000000.25, 1e9])
    r = record()
    r.created = at
    f = JSONLogFormatter(datefmt=fmt)
    out = format_(r, f)
    standard(r, out)
    if fmt in (None, Ellipsis):
        check("@timestamp" not in out, "timestamp-when-configured")
    elif fmt == "%s":
        check(out.get("@timestamp") == at, "timestamp-when-configured")
    else:
        import time
        check(out.get("@timestamp") == time.strftime(
            fmt, time.localtime(at)), "timestamp-when-configured")
    cover("stamps")


def made():
    """records made by the package itself"""
    kind = pick("kind", ["makeLogRecord", "logger", "extra"])
    out = []
    if kind == "makeLogRecord":
        r = logging.makeLogRecord({"msg": "x"})
        fmt = format_(r)
        check(fmt["msg"] == "x", "rendered-message")
    else:
        logger = logging.Logger("n", 1)

        class H(logging.Handler):
            def emit(self, r):
                out.append(r)
        logger.addHandler(H())
        lost = pick("lost", ["logThreads", "logProcesses",
                             "logMultiprocessing", None])
        if lost:
            keep = getattr(logging, lost)
            setattr(logging, lost, False)
        try:
            if kind == "extra":
                logger.info("a %s", 1, extra={"x": 5, "_private": 6,
                                              "none": None})
            else:
                logger.log(7, "a %s", 1)
        finally:
            if lost:
                setattr(logging, lost, keep)
        res = format_(out[0])
        fields = standard(out[0], res)
        check(res["msg"] == "a 1", "rendered-message")
        same_level(out[0], res)
        if kind == "extra":
            check(fields.get("x") == 5, "extra-fields")
    cover("made-" + kind)


def several(n):
    """one formatter for different records, one after the other"""
    makers = [
        lambda: record(),
        lambda: record(msg="a %s", args=(1,), level=30, extra=5),
        lambda: record(exc_info=(ValueError, ValueError("boom"), None)),
        lambda: record(msg="b %(k)s", args=({"k": 2},), level=40, other=[1]),
        lambda: record(exc_text="cached", stack_info="stack", level=50),
        lambda: record(msg="x" * 3, process=None, threadName=None),
    ]
    f = JSONLogFormatter(datefmt=pick("format", [None, "%Y"]))
    twice = choose("twice", 2)
    for i in range(n):
        r = makers[choose("record%d" % i, len(makers))]()
        for _ in range(1 + twice):
            one = format_(r, f)
            two = format_(r, JSONLogFormatter(datefmt=f.datefmt))
            check(one == two, "no-traces-of-other-records")
        standard(r, one)
        same_level(r, one)
    cover("several")


def long():
    """large records"""
    size = pick("size", [1000, 65536, 70001, 1 << 20])
    what = pick("what", ["msg", "arg", "extra", "many", "deep", "trace"])
    kw = {}
    if what == "msg":
        r = record(msg="m" * size)
    elif what == "arg":
        r = record(msg="%s", args=("m" * size,))
    elif what == "many":
        r = record(msg="x", **{"e%d" % i: i for i in range(size >> 8)})
    elif what == "deep":
        x = []
        for _ in range(min(size, 200)):
            x = [x, math.nan]
        r = record(extra=x)
    elif what == "trace":
        e = ValueError("m" * size)
        r = record(exc_info=(type(e), e, None))
    else:
        r = record(extra="m" * size)
    out = format_(r)
    fields = standard(r, out)
    if what == "arg":
        check(fields["argument_0"] == "m" * size, "each-argument")
    elif what == "extra":
        check(fields["extra"] == "m" * size, "extra-fields")
    elif what == "many":
        check(all(fields["e%d" % i] == i for i in range(size >> 8)),
              "extra-fields")
    elif what == "trace":
        check("m" * size in out["stackTrace"], "stack-trace")
    cover("long")


def scenarios(tier):
    t = tier == "thorough"
    return [
        Scenario("levels", levels, dict(top=120 if t else 60),
                 covers=["levels"]),
        Scenario("absent", absent, dict(n=3 if t else 2), covers=["absent"]),
        Scenario("extras", extras, dict(second=t), covers=["extras"]),
        Scenario("arguments", arguments, {}, covers=["arguments"]),
        Scenario("exceptions", exceptions, {},
                 covers=["exception", "no-exception"]),
        Scenario("several", several, dict(n=3 if t else 2),
                 covers=["several"]),
        Scenario("long", long, {}, covers=["long"]),
        Scenario("stamps", stamps, {}, covers=["stamps"]),
        Scenario("made", made, {}, covers=[
            "made-makeLogRecord", "made-logger", "made-extra"]),
    ]
