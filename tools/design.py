"""writes DESIGN.md from doc/*.md, props.py, the harnesses, the evidence of
the last runs, known_findings.txt and seeded/"""
import ast
import json
import os
import re
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa


def read(*p):
    with open(os.path.join(ROOT, *p)) as f:
        return f.read()


def wrap(text, first="", rest=None):
    return textwrap.fill(" ".join(text.split()), 79, initial_indent=first,
                         subsequent_indent="  " if rest is None else rest,
                         break_long_words=False, break_on_hyphens=False)


def consts(src):
    out = {}
    tree = ast.parse(src)
    for n in tree.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    labels = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            k = {"check": 1, "fail": 0}.get(n.func.id)
            if k is None or len(n.args) <= k:
                continue
            a = n.args[k]
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                if a.value not in labels:
                    labels.append(a.value)
    return out, labels, ast.get_docstring(tree)


o = [read("doc", "head.md")]
findings = [l.strip() for l in read("known_findings.txt").splitlines()
            if l.strip() and not l.startswith("#")]
seeds = {}
sd = os.path.join(ROOT, "seeded")
for i in sorted(os.listdir(sd)):
    m = json.loads(read("seeded", i, "meta.json"))
    seeds.setdefault(m["property"], []).append((i, m))

o.append("## Properties\n")
for p in props.PROPS:
    o.append("### %s %s\n" % (p["id"], p["title"]))
    o.append(wrap(p["statement"], rest="") + "\n")
    o.append(wrap("**Anchors:** " + ", ".join("`%s`" % f
                                              for f in p["files"])))
    h = p["harness"]
    if not h:
        o.append("\n" + wrap("**Not applicable:** " + p["na"]) + "\n")
        continue
    c, labels, doc = consts(read("harness", h + ".py"))
    o.append(wrap("**Quantified over:** " + p["text"]))
    o.append(wrap("**Why tests do not settle it:** " + p["why"]))
    dec = "**Decided by** bounded symbolic execution (`harness/%s.py`). " % h
    if doc:
        dec += doc
    o.append(wrap(dec))
    if labels:
        o.append(wrap("**Assertions** (each one a query on every path): " +
                      ", ".join(labels) + "; and no path may hang, crash or "
                      "leave an unexpected exception."))
    b = c.get("BOUNDS", {})
    o.append(wrap("**Bounds, quick:** " + b.get("quick", "?")))
    o.append(wrap("**Bounds, thorough:** " + b.get("thorough", "?")))
    if c.get("ASSUMPTIONS"):
        o.append(wrap("**Assumes:** " + "; ".join(c["ASSUMPTIONS"])))
    if c.get("OUTSIDE"):
        o.append(wrap("**Outside:** " + "; ".join(c["OUTSIDE"])))
    try:
        e = json.loads(read("evidence", p["id"] + ".json"))
        if e["tier"] == "quick":
            n = e["coverage"]["states"]
            o.append("**Cost of the quick check:** about %d s, about %s paths"
                     % (max(1, round(e["wall_s"])),
                        n if n < 1000 else "%d000" % round(n / 1000)))
    except (OSError, KeyError):
        pass
    fs = [f for f in findings if ("property=%s " % p["id"]) in f]
    if fs:
        o.append("\n**Defects found by it:**\n")
        for f in fs:
            kind, rest = f.split(":", 1)
            m = re.match(r"\s*property=\S+ (\w+) (.*)", rest)
            o.append(wrap("* %s (%s %s)" % (m.group(2), kind, m.group(1))))
    o.append("")

o.append(read("doc", "tail.md"))
for k in sorted(seeds):
    for i, m in seeds[k]:
        o.append(wrap("* `%s` (%s): %s; needs %s. Caught by: %s." % (
            i, k, m["what_it_breaks"], m["needs"],
            m.get("caught_by") or k)))
o.append("")
text = "\n".join(o)
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write(text)
print(len(text.splitlines()), "lines")
