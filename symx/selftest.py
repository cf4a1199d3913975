"""setup: the engine finds a planted bug, and proves a correct program"""
import asyncio
import time

from symx import core, patches

patches.install()

from symx import explore  # noqa: E402
from symx.api import *    # noqa: E402,F403


def timers(bug):
    A = pos_real("a")
    B = pos_real("b")

    async def main():
        log = []

        async def w(tag, d):
            await asyncio.sleep(d)
            log.append(tag)
        await asyncio.gather(w("a", A), w("b", B))
        if bool(A < B):
            check(log == ["a", "b"], "order")
            cover("a-first")
        elif bug:
            check(log == ["b", "a"] and Not(A == B + 1), "order")
        t = now()
        check(And(t >= A, t >= B), "time")
    run(main())


def race(bug):
    import threading
    v = [0]
    lock = threading.Lock()

    def inc():
        if bug:
            t = v[0]
            sim().point()
            v[0] = t + 1
        else:
            with lock:
                t = v[0]
                sim().point()
                v[0] = t + 1

    threads(preempt=2)
    ts = [threading.Thread(target=inc) for _ in range(2)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    check(v[0] == 2, "lost-update")
    cover("end")


def main():
    ok = True
    for name, fn in (("timers", timers), ("race", race)):
        for bug in (False, True):
            scn = Scenario(name, fn, dict(bug=bug))
            out = explore.explore([scn], nproc=2, seed=1)
            found = bool(out.violations)
            good = found == bug and (bug or out.complete) and \
                not out.inconclusive and not out.mismatches
            print("selftest %-8s bug=%-5s paths=%-4d found=%-5s %s" % (
                name, bug, out.stats.paths, found,
                "ok" if good else "FAILED"))
            ok = ok and good
    return 0 if ok else 2
