"""plant.py FILE... : turn descriptions of planted bugs into /verif/seeded/*.

FILE holds blocks
  == id property
  needs: ...
  breaks: ...
  @ path
  old
  ---
  new
  (more @ blocks)
  demo:
  python text
Each is tried in a scratch copy: demo passes without, fails with the patch,
and the tests (test_*.py named by tests:, or all) pass with it."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import json
import multiprocessing

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
# exit 0: the property held, otherwise not
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
"""


def parse(text):
    for block in re.split(r"(?m)^== ", text)[1:]:
        head, _, rest = block.partition("\n")
        bid, prop = head.split()
        body, _, demo = rest.partition("\ndemo:\n")
        pre, *subs = re.split(r"(?m)^@ ", body)
        meta = dict(re.findall(r"(?m)^(needs|breaks|tests): (.*)$", pre))
        edits = []
        for s in subs:
            path, _, r = s.partition("\n")
            old, _, new = r.partition("\n---")
            edits.append((path.strip(), old, new.strip("\n") if new else ""))
        yield bid, prop, meta, edits, demo


def env(copy):
    e = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", HOME="/root", LANG="C.UTF-8")
    return e


def tests(copy):
    base = json.load(open("/opt/vp/BASELINE.json"))
    xml = copy + "/out.xml"
    r = subprocess.run(
        [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60",
         "--aiomisc-test-timeout=60", "-o", "junit_family=xunit2",
         "--junitxml", xml, "--doctest-modules",
         "--ignore=tests/test_cron.py", "tests"], cwd=copy, env=env(copy),
        capture_output=True, text=True)
    out = [l for l in r.stdout.splitlines()
           if l.startswith(("FAILED", "ERROR"))]
    return out


def main():
    blocks = [b for f in sys.argv[1:] for b in parse(open(f).read())]
    with multiprocessing.Pool(2) as pool:
        for _ in pool.imap_unordered(one, blocks, 1):
            pass


def one(block):
    known = [l.strip() for l in open(HERE + "/tools/unstable.txt")] \
        if os.path.exists(HERE + "/tools/unstable.txt") else []
    for bid, prop, meta, edits, demo in [block]:
        tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
        copy = tmp + "/repo"
        try:
            shutil.copytree(os.environ.get("VERIF_REPO", "/repo"), copy, symlinks=True)
            d = tmp + "/demo"
            os.mkdir(d)
            open(d + "/demo.py", "w").write(demo)
            open(d + "/demo.sh", "w").write(DEMO)
            def run_demo():
                return subprocess.run(
                    ["bash", d + "/demo.sh"], cwd=copy,
                    capture_output=True, text=True)
            r0 = run_demo()
            bad = None
            for path, old, new in edits:
                src = open(copy + "/" + path).read()
                if src.count(old) != 1:
                    bad = "edit matches %d times: %r" % (
                        src.count(old), old)
                    break
                open(copy + "/" + path, "w").write(
                    src.replace(old, new, 1))
            if bad:
                print(bid, "BAD", bad)
                continue
            r1 = run_demo()
            diff = subprocess.run(["git", "diff", "--"] + [e[0] for e in edits], cwd=copy,
                                  capture_output=True, text=True).stdout
            t = tests(copy)
            t = [l for l in t if not any(k and k in l for k in known)]
            ok = r0.returncode == 0 and r1.returncode != 0 and not t
            print(bid, "OK" if ok else "BAD", "demo", r0.returncode,
                  r1.returncode, "failed tests", t[:4], flush=True)
            if not ok:
                print(r0.stdout[-800:], r0.stderr[-800:], r1.stdout[-400:],
                      r1.stderr[-400:])
                continue
            out = HERE + "/seeded/" + bid
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.sh", "w").write(DEMO)
            open(out + "/demo.py", "w").write(demo)
            json.dump({"property": prop, "needs": meta["needs"],
                       "what_it_breaks": meta["breaks"]},
                      open(out + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
