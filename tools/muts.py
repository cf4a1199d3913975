"""muts.py PROP... < mutants : try many textual changes of /repo.
Mutant: a line '@ path', then 'old' lines, '---', 'new' lines, ended by the
next '@' line or the end"""
import os
import re
import subprocess
import sys

props = sys.argv[1:]
muts = []
for block in sys.stdin.read().split("\n@ "):
    block = block.lstrip("@ ").strip("\n")
    if block.endswith("\n=="):
        block = block[:-3]
    if not block:
        continue
    path, _, rest = block.partition("\n")
    old, _, new = rest.partition("\n---")
    muts.append((path.strip(), old, new.lstrip("\n") if new else ""))
for path, old, new in muts:
    full = os.environ.get("VERIF_REPO", "/repo") + "/" + path
    src = open(full).read()
    if src.count(old) != 1:
        # blank lines do not matter
        rx = r"\n(?:[ \t]*\n)*".join(
            re.escape(x) for x in old.split("\n") if x.strip())
        found = re.findall(rx, src)
        if len(found) == 1:
            old = found[0]
    if src.count(old) != 1:
        print("SKIP (%d matches) %r" % (src.count(old), old))
        continue
    try:
        open(full, "w").write(src.replace(old, new, 1))
        for prop in props:
            r = subprocess.run([os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/check", prop], capture_output=True,
                               text=True)
            last = [l for l in r.stdout.splitlines()
                    if "counterexample" in l or "ERROR" in l or
                    "inconclusive" in l.lower() or "INCONC" in l.upper()]
            print(prop, "rc", r.returncode, repr(old.strip()[:60]), "->",
                  repr(new.strip()[:60]), (last or r.stderr.splitlines()[-1:]
                                           or [""])[0][:160], flush=True)
    finally:
        open(full, "w").write(src)
