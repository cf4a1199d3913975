"""
check driver:   run.py <PROPERTY> [--tier quick|thorough]
                run.py --replay <file>
                run.py --selftest
exit 0: held on everything explored; 1: VIOLATION; 2: error / inconclusive
"""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.monotonic()


def _paths():
    sys.dont_write_bytecode = True
    # the script directory would shadow stdlib-like names
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != here]
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def load(prop):
    index = json.load(open(os.path.join(VERIF, "harness", "index.json")))
    mod = importlib.import_module("harness." + index[prop])
    return mod


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            head, _, desc = line[7:].partition(" :: ")
            d = dict(kv.split("=", 1) for kv in head.split())
            if d.get("property") == prop:
                out.append((d["scenario"], d["label"], desc))
    return out


def do_replay(path, verbose=True):
    from symx import patches
    patches.install()
    from symx import explore
    import signal
    rp = json.load(open(path))
    mod = load(rp["property"])
    scns = {s.name: s for s in mod.scenarios(rp["tier"])}
    scn = scns[rp["scenario"]]
    signal.signal(signal.SIGALRM, explore._on_alarm)
    sys.unraisablehook = lambda *_: None
    res, missing, used = explore.run_conc(scn, rp["values"])
    if verbose:
        for e in res.events:
            print("   ", *[str(x) for x in e])
        print("replay: status=%s label=%s %s" % (
            res.status, res.label, res.detail))
        if res.tb:
            print(res.tb)
        if missing:
            print("replay: values missing from the model:", missing)
    if res.status == "violation":
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="scenario name filter (debugging)")
    ap.add_argument("--procs", type=int, default=0)
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
    _paths()
    if a.replay:
        sys.exit(do_replay(a.replay))
    if a.selftest:
        from symx import selftest
        sys.exit(selftest.main())
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(run_check(a.property, tier, seed, a))


def run_check(prop, tier, seed, a):
    from symx import patches
    patches.install()
    from symx import explore
    try:
        mod = load(prop)
        scns = mod.scenarios(tier)
    except Exception:
        # the code under test cannot be imported / bound
        import traceback
        traceback.print_exc()
        print("ERROR property=%s harness cannot bind to the code" % prop)
        return 2
    if a.only:
        scns = [s for s in scns if a.only in s.name]
    limit = getattr(mod, "TIME_LIMIT", {}).get(
        tier, 700 if tier == "quick" else 7200)
    known = known_findings(prop)
    out = explore.explore(
        scns, nproc=a.procs or None, seed=seed,
        validate_every=getattr(mod, "VALIDATE_EVERY", 40),
        time_limit=limit, stop_on_violation=not known,
        max_violations=10 ** 9 if known else 6)
    rc = 0
    viols = []
    known_hit = {}
    replays = []
    for v in out.violations:
        name, label = v[0], v[1]
        k = next((k for k in known if k[0] == name and k[1] == label), None)
        if k is not None:
            known_hit[k] = known_hit.get(k, 0) + 1
        else:
            viols.append(v)
    # distinct first, a few of each
    seen = {}
    todo = []
    for v in viols:
        key = (v[0], v[1])
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= 2:
            todo.append(v)
    reproduced = []
    unreproduced = []
    rdir = os.path.join(VERIF, "replays")
    for v in todo[:8]:
        name, label, detail, tb, values, exact, events = v
        if values is None:
            unreproduced.append((name, label, "no model " + detail))
            continue
        os.makedirs(rdir, exist_ok=True)
        blob = json.dumps({
            "property": prop, "tier": tier, "scenario": name,
            "label": label, "detail": detail, "values": values,
            "exact": exact, "events": events, "traceback": tb,
        }, indent=1, sort_keys=True, default=repr)
        h = hashlib.sha1(blob.encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            f.write(blob + "\n")
        try:
            r = subprocess.run(
                [sys.executable, "-B", os.path.abspath(__file__),
                 "--replay", path],
                capture_output=True, text=True, timeout=120,
                env=dict(os.environ))
            ok = r.returncode == 1
            tail = r.stdout[-3000:] + r.stderr[-1500:]
        except subprocess.TimeoutExpired as e:
            ok = True
            tail = "replay does not terminate"
        if ok:
            reproduced.append((v, path))
            if a.verbose:
                print(tail)
            if not a.verbose:
                break
        else:
            unreproduced.append((name, label, detail + "\n" + tb +
                                 "\n--- replay:\n" + tail))
    for i, s in enumerate(scns):
        cov = out.covered.get(i, set())
        p = out.per.get(i, {})
        print("scenario %-28s paths=%-6d infeasible=%-4d cpu=%.1fs covers=%d"
              % (s.name, p.get("paths", 0), p.get("infeasible", 0),
                 p.get("wall_s", 0.0), len(cov)))
    missing_cover = []
    if out.complete and not viols:
        for i, s in enumerate(scns):
            for c in s.covers:
                if c not in out.covered.get(i, set()):
                    missing_cover.append("%s/%s" % (s.name, c))
    st = out.stats
    bounds = getattr(mod, "BOUNDS", {})
    cov = {
        "states": st.paths + st.forks,
        "transitions": max(0, st.paths + st.forks - len(scns)),
        "traces_validated_against_impl": st.validated,
        "samples": out.samples[:5],
        "scenarios": [
            {"name": s.name, "params": repr(s.params)[:300],
             "paths": out.per.get(i, {}).get("paths", 0)}
            for i, s in enumerate(scns)],
        "symbolic_paths": st.paths,
        "path_forks_decided_by_solver": st.forks,
        "branch_decisions": st.decisions,
        "infeasible_paths": st.infeasible,
        "event_loop_steps": st.steps,
        "queries_discharged": st.queries,
        "queries_sat": st.q_sat,
        "queries_unsat": st.q_unsat,
        "queries_unknown": st.q_unknown,
        "solver_s": round(st.solver_s, 3),
        "assertions_evaluated": st.assertions,
        "functions_encoded": sorted(out.functions),
        "reachability_witnesses": sorted(
            "%s/%s" % (scns[i].name, c)
            for i, cs in out.covered.items() for c in cs),
        "bounds": bounds.get(tier, bounds),
        "outside_the_claim": getattr(mod, "OUTSIDE", []),
        "exhaustive": bool(out.complete),
        "known_findings_hit": {
            "%s/%s" % (k[0], k[1]): n for k, n in known_hit.items()},
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "model_checking", "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - T0, 3),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(
                VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write("\n")
    print("property=%s tier=%s paths=%d forks=%d queries=%d (unsat=%d) "
          "solver=%.1fs validated=%d wall=%.1fs complete=%s" % (
              prop, tier, st.paths, st.forks, st.queries, st.q_unsat,
              st.solver_s, st.validated, out.wall_s, out.complete))
    for k in known:
        if k in known_hit:
            print("KNOWN-FINDING: property=%s scenario=%s label=%s %s" % (
                prop, k[0], k[1], k[2]))
    if reproduced:
        for (v, path) in reproduced:
            print("  counterexample: scenario=%s assertion=%s %s" % (
                v[0], v[1], v[2]))
            print("  values: %s" % json.dumps(v[4], default=repr)[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if unreproduced:
        for u in unreproduced:
            print("UNREPRODUCED scenario=%s label=%s %s" % u)
        rc = 2
    if out.inconclusive:
        for s in out.inconclusive[:5]:
            print("INCONCLUSIVE scenario=%s %s\n%s" % s)
        rc = 2
    if out.mismatches:
        for m in out.mismatches[:5]:
            print("MODEL-MISMATCH", *m, sep="\n    ")
        rc = 2
    if missing_cover:
        print("VACUOUS: never reached: %s" % ", ".join(missing_cover))
        rc = 2
    if not out.complete and rc == 0:
        print("INCOMPLETE exploration")
        rc = 2
    return rc


if __name__ == "__main__":
    main()
