"""
symx.explore -- exhaustive exploration of the symbolic execution tree of a set
of scenarios, on several processes, plus concrete replay of models.
"""
import ctypes
import gc
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random as _random
import signal
import sys
import time
import traceback

from . import core
from .core import (
    ENGINE, Hang, Inconclusive, Infeasible, PathEnd, Stats, Violation,
)

REPO = os.environ.get("VERIF_REPO", "/repo")
_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter


class Scenario:
    def __init__(self, name, fn, params=None, covers=(), path_timeout=20.0,
                 max_paths=None, reset=None):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.covers = tuple(covers)
        self.path_timeout = path_timeout
        self.max_paths = max_paths


# -- functions of /repo executed ------------------------------------------------

class FuncRecorder:
    """records every /repo code object executed (sys.monitoring, PY_START)"""
    TOOL = 4

    def __init__(self):
        self.seen = set()
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "symx")
        except ValueError:
            pass
        mon.register_callback(self.TOOL, mon.events.PY_START, self._start)
        mon.set_events(self.TOOL, mon.events.PY_START)

    def _start(self, code, off):
        fn = code.co_filename
        if fn.startswith(REPO + "/"):
            self.seen.add("%s:%s" % (fn[len(REPO) + 1:], code.co_qualname))
        return sys.monitoring.DISABLE


# -- single path ------------------------------------------------------------------

class PathResult:
    __slots__ = ("status", "label", "detail", "tb", "events", "covered")


def _on_alarm(signum, frame):
    from . import sim
    spent = ENGINE.path_solver_s - ENGINE.alarm_base
    if ENGINE.mode == "sym" and spent > 1 and ENGINE.path_solver_s < 300:
        # it was the solver which took that long
        ENGINE.alarm_base = ENGINE.path_solver_s
        signal.setitimer(signal.ITIMER_REAL, spent)
        return
    e = Hang("wall clock limit of one path exceeded (busy loop)")
    if ENGINE.abort is None:
        ENGINE.abort = e
        s = sim.SIM
        if s is not None and s.cur.idx != 0 and s.cur.ident:
            # the busy thread is a simulated one
            ctypes.pythonapi.PyThreadState_SetAsyncExc(
                ctypes.c_ulong(s.cur.ident), ctypes.py_object(Hang))
            signal.setitimer(signal.ITIMER_REAL, 3)
            return
    raise e


_cleanups = []


def on_path_end(fn):
    _cleanups.append(fn)


def execute(scn, mode, prefix=(), values=None):
    """run one path; leaves ENGINE populated; returns PathResult"""
    ENGINE.begin(mode, prefix, values)
    res = PathResult()
    res.tb = ""
    res.label = res.detail = ""
    from . import patches
    patches.begin_path()
    ENGINE.alarm_base = 0.0
    signal.setitimer(signal.ITIMER_REAL, scn.path_timeout)
    try:
        try:
            scn.fn(**scn.params)
            if ENGINE.abort is not None:
                raise ENGINE.abort
            res.status = "ok"
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as e:
        res.status, res.label, res.detail = "violation", e.label, str(e.detail)
        res.tb = traceback.format_exc(limit=-6)
    except Infeasible as e:
        res.status, res.detail = "infeasible", str(e)
    except Hang as e:
        res.status, res.label, res.detail = "violation", "hang", str(e)
        res.tb = traceback.format_exc(limit=-8)
    except Inconclusive as e:
        res.status, res.detail = "inconclusive", str(e)
        res.tb = traceback.format_exc(limit=-12)
    except PathEnd as e:
        res.status, res.detail = "inconclusive", repr(e)
        res.tb = traceback.format_exc(limit=-12)
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as e:
        a = ENGINE.abort
        if isinstance(a, Violation):
            res.status, res.label, res.detail = (
                "violation", a.label, str(a.detail))
        elif isinstance(a, Infeasible):
            res.status, res.detail = "infeasible", str(a)
        elif isinstance(a, Hang):
            res.status, res.label, res.detail = "violation", "hang", str(a)
        elif a is not None:
            res.status, res.detail = "inconclusive", repr(a)
        else:
            res.status = "violation"
            res.label = "unexpected-exception:" + type(e).__name__
            res.detail = str(e)[:500]
        res.tb = traceback.format_exc(limit=-12)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        res.events = list(ENGINE.events)
        res.covered = set(ENGINE.covered)
        try:
            patches.end_path()
        except BaseException as e:      # pragma: no cover
            res.status, res.detail = "inconclusive", "teardown: %r" % (e,)
    return res


def _finish(mode_obj=None):
    ENGINE.end()
    gc.collect(0)


def norm_event(v):
    from fractions import Fraction
    if isinstance(v, bool):
        return v
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return repr(v)
        return Fraction(v)
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, tuple):
        return tuple(norm_event(i) for i in v)
    return v


def run_conc(scn, values):
    res = execute(scn, "conc", values=values)
    missing = ENGINE.notes.get("missing", [])
    used = dict(ENGINE.vars)
    _finish()
    return res, missing, used


# -- worker ------------------------------------------------------------------------

class WorkerResult:
    pass


def worker_main(conn, scenarios, opts):
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    sys.unraisablehook = lambda *_: None
    gc.collect()
    gc.freeze()
    gc.disable()
    rng = _random.Random(opts["seed"] * 1000003 + opts["wid"])
    rec = FuncRecorder()
    stats = Stats()
    ENGINE.stats = stats
    per = {}
    samples = []
    covered = {}
    stack = []
    stop = False
    val_every = opts["validate_every"]
    budget_samples = 3
    while True:
        if not stack:
            conn.send(("idle", None))
            while True:
                msg = conn.recv()
                if msg[0] == "donate":
                    conn.send(("donated", []))
                    continue
                break
            if msg[0] == "finish":
                break
            stack.extend(msg[1])
            continue
        si, prefix = stack.pop()
        scn = scenarios[si]
        t0 = _real_perf()
        forks = stats.forks
        res = execute(scn, "sym", prefix)
        if res.status == "violation" and res.label == "hang":
            # was it the machine?
            _finish()
            ENGINE.end()
            time.sleep(1)
            stats.forks = forks
            res = execute(scn, "sym", prefix)
        stats.paths += 1
        st = per.setdefault(si, {"paths": 0, "infeasible": 0, "wall_s": 0.0})
        st["paths"] += 1
        stats.steps += ENGINE.steps
        pend = ENGINE.pending
        # deeper alternatives first on the stack top -> DFS
        stack.extend((si, p) for p in pend)
        covered.setdefault(si, set()).update(res.covered)
        if res.status == "infeasible":
            stats.infeasible += 1
            st["infeasible"] += 1
        elif res.status == "inconclusive":
            _finish()
            conn.send(("inconclusive", (scn.name, res.detail, res.tb)))
        elif res.status == "violation":
            values, exact = (None, False)
            try:
                ENGINE.mode = "sym"
                values, exact = ENGINE.concrete_model()
            except Exception as e:
                values = None
                res.detail += " [model: %r]" % e
            _finish()
            conn.send(("violation", (
                scn.name, res.label, res.detail, res.tb, values, exact,
                [repr(e) for e in res.events][:200])))
        else:
            want_val = (stats.paths <= 2 or
                        rng.random() < 1.0 / val_every)
            if want_val:
                try:
                    ENGINE.mode = "sym"
                    values, exact = ENGINE.concrete_model()
                    ev = None
                    if values is not None and exact:
                        ev = [norm_event(ENGINE.eval_in(ENGINE._cmodel, e))
                              for e in res.events]
                except Exception as e:
                    values, ev = None, None
                _finish()
                if ev is not None:
                    cres, missing, used = run_conc(scn, values)
                    cev = [norm_event(e) for e in cres.events]
                    if (cres.status != "ok" or cev != ev or missing):
                        stats.val_mismatch += 1
                        d = next((i for i, (a, b) in enumerate(zip(ev, cev))
                                  if a != b), min(len(ev), len(cev)))
                        conn.send(("mismatch", (
                            scn.name, cres.status, cres.label, cres.detail,
                            cres.tb, values, repr(missing[:5]),
                            repr(ev[max(0, d - 3):d + 3]),
                            repr(cev[max(0, d - 3):d + 3]))))
                    else:
                        stats.validated += 1
                        if len(samples) < budget_samples:
                            samples.append({
                                "scenario": scn.name,
                                "inputs": {k: (v if not isinstance(v, float)
                                               else round(v, 6))
                                           for k, v in
                                           list(values.items())[:24]},
                                "trace": [repr(e)[:100] for e in
                                          cres.events[:12]],
                            })
            else:
                _finish()
        ENGINE.end()
        st["wall_s"] += _real_perf() - t0
        while conn.poll(0):
            msg = conn.recv()
            if msg[0] == "donate":
                k = len(stack) // 2
                give, stack = stack[:k], stack[k:]
                conn.send(("donated", give))
            elif msg[0] == "finish":
                stop = True
        if stop:
            break
        if stats.paths % 2000 == 0:
            gc.collect()
    conn.send(("result", {
        "stats": stats.as_dict(), "per": per, "samples": samples,
        "covered": covered, "functions": sorted(rec.seen),
    }))
    try:
        while True:
            m = conn.recv()
            if m[0] == "exit":
                break
    except EOFError:
        pass
    os._exit(0)


# -- master -------------------------------------------------------------------------

class Exploration:
    def __init__(self):
        self.stats = Stats()
        self.violations = []
        self.inconclusive = []
        self.mismatches = []
        self.per = {}
        self.samples = []
        self.covered = {}
        self.functions = set()
        self.complete = False
        self.wall_s = 0.0


def explore(scenarios, nproc=None, seed=1, validate_every=50, time_limit=600,
            stop_on_violation=True, max_violations=6, quiet=True):
    nproc = nproc or int(os.environ.get("SYMX_PROCS", "0")) or min(
        8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    out = Exploration()
    t0 = _real_monotonic()
    workers = {}
    for wid in range(nproc):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker_entry, args=(
            b, scenarios, dict(seed=seed, wid=wid,
                               validate_every=validate_every)))
        p.daemon = True
        p.start()
        b.close()
        workers[a] = {"p": p, "state": "busy", "asked": False, "res": None}
    frontier = [(i, ()) for i in range(len(scenarios))]
    finishing = False
    first_v = None

    def finish_all():
        nonlocal finishing
        if finishing:
            return
        finishing = True
        for c, w in workers.items():
            if w["state"] != "gone":
                try:
                    c.send(("finish", None))
                except OSError:
                    pass

    while True:
        now = _real_monotonic()
        live = [c for c, w in workers.items() if w["state"] != "gone"]
        if not live:
            break
        if not finishing:
            idle = [c for c in live if workers[c]["state"] == "idle"]
            while idle and frontier:
                c = idle.pop()
                n = max(1, len(frontier) // (2 * nproc))
                batch = frontier[:n]
                del frontier[:n]
                workers[c]["state"] = "busy"
                c.send(("work", batch))
            if idle and not frontier:
                if len(idle) == len(live):
                    out.complete = True
                    finish_all()
                    continue
                busy = [c for c in live if workers[c]["state"] == "busy"
                        and not workers[c]["asked"]]
                for c in busy:
                    workers[c]["asked"] = True
                    c.send(("donate", None))
            if now - t0 > time_limit:
                out.inconclusive.append(
                    ("*", "time limit of %.0fs reached" % time_limit, ""))
                finish_all()
            if first_v is not None and (
                    now - first_v > 3 or
                    len(out.violations) >= max_violations):
                if stop_on_violation:
                    finish_all()
        ready = mpc.wait(live, timeout=0.5)
        for c in ready:
            w = workers[c]
            try:
                kind, data = c.recv()
            except (EOFError, OSError):
                w["state"] = "gone"
                if w["res"] is None:
                    out.inconclusive.append(
                        ("*", "worker process died (exit %s)" % (
                            w["p"].exitcode,), ""))
                    finish_all()
                continue
            if kind == "idle":
                w["state"] = "idle"
            elif kind == "donated":
                w["asked"] = False
                frontier.extend(data)
            elif kind == "violation":
                out.violations.append(data)
                if first_v is None:
                    first_v = _real_monotonic()
            elif kind == "inconclusive":
                out.inconclusive.append(data)
                if len(out.inconclusive) > 20:
                    finish_all()
            elif kind == "mismatch":
                out.mismatches.append(data)
                if len(out.mismatches) > 20:
                    finish_all()
            elif kind == "result":
                w["res"] = data
                out.stats.add(data["stats"])
                for si, d in data["per"].items():
                    t = out.per.setdefault(
                        si, {"paths": 0, "infeasible": 0, "wall_s": 0.0})
                    for k in t:
                        t[k] += d[k]
                out.samples.extend(data["samples"])
                for si, s in data["covered"].items():
                    out.covered.setdefault(si, set()).update(s)
                out.functions.update(data["functions"])
                w["state"] = "gone"
                try:
                    c.send(("exit", None))
                except OSError:
                    pass
        if finishing and _real_monotonic() - t0 > time_limit + 60:
            break
    if out.complete and out.stats.paths != out.stats.forks + len(scenarios):
        out.complete = False
        out.inconclusive.append(("*", "lost work items: %d paths, %d forks" % (
            out.stats.paths, out.stats.forks), ""))
    for c, w in workers.items():
        w["p"].join(1)
        if w["p"].is_alive():
            w["p"].kill()
    out.wall_s = _real_monotonic() - t0
    return out


def _worker_entry(conn, scenarios, opts):
    try:
        worker_main(conn, scenarios, opts)
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)
