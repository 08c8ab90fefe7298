"""python3-vt symx/run.py <PROPERTY> : decide one property.

Exit 0: held on everything explored; exit 1 with a VIOLATION line: broken;
anything else: the check itself failed.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def reexec():
    env = dict(os.environ)
    if env.get("PYTHONHASHSEED") == "0" and env.get("PYTHONDONTWRITEBYTECODE"):
        return
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env)


def known_findings():
    """[(property, call)] of the recorded, unrepaired defects."""
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property="):
                pid, _, rest = line[len("known: property=") :].partition(" ")
                out.append((pid, rest))
    return out


def replay(path):
    """Run a recorded counterexample against the untouched code."""
    from symx import explore

    with open(path, encoding="utf-8") as fh:
        rec = json.load(fh)
    r = explore.Runner(rec["module"], rec["tier"])
    ji = [j[0] for j in r.jobs].index(rec["job"])
    msg, h = r.concrete(ji, rec["assignment"])
    for n, a, kw, o in h.calls:
        print(
            "%s(%s) -> %s"
            % (
                n,
                ", ".join([repr(x) for x in a] + ["%s=%r" % kv for kv in kw.items()]),
                repr(o.value) if o.exc is None else "raises %r" % o.exc,
            )
        )
    if msg is None:
        print("the property holds on this input")
        return 0
    print("BROKEN:", msg)
    return 1


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in argv[1:]:
        if a.startswith("--tier="):
            tier = a[7:]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    module = pid.lower()
    from symx import core, explore

    meta = load_meta(module)
    budget = float(
        os.environ.get("SYMX_BUDGET", meta["budget"][0 if tier == "quick" else 1])
    )
    known = [c for p, c in known_findings() if p == pid]
    seen_known = set()

    def skip(v):
        for c in known:
            if any(x["call"] == c for x in v["calls"]):
                seen_known.add(c)
                return True
        return False

    res = explore.explore(module, tier, budget, vfrac=meta.get("vfrac", 4), skip=skip)
    tot = core.Stats()
    for s in res["stats"]:
        tot.merge(s)
    rc = 0
    viol = None
    for v in res["violations"]:
        rec = {"property": pid, "module": module, "tier": tier, **v}
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % pid)
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(readable(rec))
        out = subprocess.run(
            [sys.executable, "-B", os.path.abspath(__file__), "--replay", path],
            capture_output=True,
            text=True,
        )
        if out.returncode == 1 and "BROKEN:" in out.stdout:
            viol = (rec, path, out.stdout)
            break
        tot.mismatch += 1
    jobs = []
    for name, s, left in zip(res["jobs"], res["stats"], res["left"]):
        jobs.append(
            {
                "job": name,
                "paths": s.paths,
                "reachable_paths": s.sat_paths,
                "prefixes_left_unexplored": left,
                "checks": s.checks,
                "not_encoded_paths": s.unsupported,
            }
        )
    complete = (
        not any(res["left"])
        and tot.unsupported == 0
        and tot.unknown == 0
        and tot.mismatch == 0
    )
    vac = [j["job"] for j in jobs if j["reachable_paths"] == 0 and not j["prefixes_left_unexplored"]]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot.sat_paths,
            "transitions": tot.branches,
            "traces_validated_against_impl": tot.validated,
            "samples": res["samples"] or [{"note": "no path finished"}],
            "paths_explored": tot.paths,
            "paths_infeasible_or_cut_by_assumption": tot.aborted,
            "assertions_discharged": tot.checks,
            "solver_queries": tot.queries,
            "solver_seconds": round(tot.qtime, 2),
            "solver_unknown": tot.unknown,
            "rewriting_lemmas_proved_by_solver": tot.identities,
            "functions_encoded": sorted(
                f for f in tot.functions if not f.startswith(("props.", "spec."))
            ),
            "bounds": meta["bounds"][tier],
            "outside_bounds": meta["outside"],
            "jobs": jobs,
            "jobs_without_reachable_path": vac,
            "inconclusive_paths": tot.unsupported + tot.mismatch,
            "inconclusive_reasons": dict(
                sorted(tot.unsup_msgs.items(), key=lambda t: -t[1])[:20]
            ),
            "encoding_mismatches": tot.mismatch,
            "exhaustive": bool(complete and viol is None),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(res["wall"], 2),
        "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(
        os.path.join(HERE, "evidence", pid + ".json"), "w", encoding="utf-8"
    ) as fh:
        fh.write(readable(ev) + "\n")
    for c in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, c))
    print(
        "%s %s: %d paths (%d reachable), %d assertions, %d solver queries in %.1fs, "
        "%d paths validated on the real code, wall %.1fs"
        % (
            pid,
            tier,
            tot.paths,
            tot.sat_paths,
            tot.checks,
            tot.queries,
            tot.qtime,
            tot.validated,
            res["wall"],
        )
    )
    if not complete and viol is None:
        print(
            "INCONCLUSIVE PART: %d prefixes not explored, %d paths not encoded, "
            "%d mismatches, %d unknown; see evidence"
            % (sum(res["left"]), tot.unsupported, tot.mismatch, tot.unknown)
        )
    if vac:
        print("VACUOUS jobs:", ", ".join(vac))
    if viol:
        rec, path, out = viol
        print(rec["message"])
        print(out.strip())
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    sys.stdout.flush()
    return rc


def readable(x):
    s = json.dumps(x, ensure_ascii=False, indent=1)
    try:
        s.encode("utf-8")
    except UnicodeEncodeError:
        # half a surrogate pair
        s = json.dumps(x, indent=1)
    return s


def load_meta(module):
    from symx import loader

    p = loader.SymPackage(HERE, ("props", "spec"), symbolic=False)
    return p.load("props." + module).META


if __name__ == "__main__":
    reexec()
    sys.stdout.reconfigure(errors="backslashreplace")
    sys.path.insert(0, HERE)
    sys.exit(main(sys.argv[1:]))
