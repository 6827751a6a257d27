"""bin/check <property>: decides one property on /repo's current working tree.

Order: the deductive layers (Verus units, Kani proofs) and the build of the bounded layer run side by side; then the
bounded suites run. Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
"""
import json, os, shutil, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
from . import suites, props
from .common import VERIF, WORK, REPO, log, elapsed


def known_findings(prop):
    """Lines `known: property=<id> case=<n> <text>` of known_findings.txt."""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                parts = l.split(" ", 3)
                out.append((int(parts[2].split("=")[1]), parts[3]))
    except OSError:
        pass
    return out


def deductive(prop, tier, wdir):
    obl, errs, assumptions = [], [], []
    jobs = []
    with ThreadPoolExecutor(2) as ex:
        if prop.get("verus"):
            from . import verus
            jobs.append(ex.submit(verus.run_units, prop["verus"], tier, wdir))
        if prop.get("kani"):
            from . import kani
            jobs.append(ex.submit(kani.run_harnesses, prop["kani"], tier, wdir))
        for j in jobs:
            try:
                r = j.result()
                obl += r["obligations"]
                errs += r["errors"]
                assumptions += r["assumptions"]
            except Exception as e:  # a broken back end is never an alarm
                errs.append("deductive layer: %s" % traceback.format_exc()[-800:])
    return obl, errs, assumptions


def bounded(pid, prop, tier, seed, wdir, built, factor=1.0):
    drv, hooks, srv = built
    total = prop.get("time", 45) * (1 if tier == "quick" else 8) * factor
    names = prop["suites"]
    weights = [w for _, w in names]
    res = []
    for name, w in names:
        ms = int(1000 * total * w / sum(weights))
        r = suites.run_suite(drv, srv, name, pid, seed, ms, 7, wdir)
        log("[%s] %5.1f s suite %s: %d cases, %d foreign, %s" % (pid, elapsed(), name, r["cases"], r["foreign"],
                                                          "FAILED" if r["failures"] else "clean"))
        res.append(r)
        if r["failures"]:
            break
    return res


def main(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    prop = props.PROPS[pid]
    wdir = os.path.join(WORK, pid)
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(wdir)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)

    need_srv = any(n in suites.SERVER_SUITES for n, _ in prop["suites"])
    notes = []
    with ThreadPoolExecutor(2) as ex:
        dj = ex.submit(deductive, prop, tier, wdir)
        drv, hooks, n = suites.build_driver()
        notes += n
        srv = suites.build_server() if need_srv else None
        obl, errs, assumptions = dj.result()
    notes += errs
    log("[%s] %5.1f s deductive layer: %d obligations, %d discharged" % (
        pid, elapsed(), len(obl), sum(o["status"] == "discharged" for o in obl)))
    for o in obl:
        if o["status"] != "discharged":
            log("   %s %s: %s" % (o["status"], o["name"], o["detail"][:300].replace("\n", " ")))
    for x in notes:
        log("   note: " + x[:600])
    failed = [o for o in obl if o["status"] == "failed"]
    undecided = [o for o in obl if o["status"] == "undecided"]

    res = bounded(pid, prop, tier, seed, wdir, (drv, hooks, srv))
    if (failed or undecided) and not any(r["failures"] for r in res):
        # search longer for an input that shows what the failed obligation says, or to make up for a proof that was lost
        res = res + bounded(pid, prop, tier, seed + 1000003, wdir, (drv, hooks, srv), 1.5)

    # known findings: reproduced on the real code, reported, never an alarm
    for case, text in known_findings(pid):
        rc, rep, _ = suites.run_one(drv, srv, "known", "*", seed, os.path.join(wdir, "known.json"),
                                    ["--only", str(case), "--time-ms", "60000"], 120)
        if rep and rep.get("failure") and "recorded finding" in rep["failure"]["what"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, text), flush=True)

    violation = None
    unconfirmed = 0
    for r in res:
        for f in r["failures"]:
            again = suites.confirm(drv, srv, r["suite"], pid, seed, f, wdir)
            if "hang" in f.get("what", "") and again is False:
                unconfirmed += 1
                notes.append("unconfirmed hang in %s case %s" % (r["suite"], f.get("case")))
                continue
            path = os.path.join(rdir, "%s.json" % pid)
            json.dump({"property": pid, "kind": "failing input", "suite": r["suite"], "seed": seed, "failure": f,
                       "reproduced_alone": again,
                       "failed_obligations": [{k: o[k] for k in ("name", "detail")} for o in failed],
                       "rerun": "%s %s --prop %s --seed %d --only %s" % (
                           drv, r["suite"], pid, seed, f.get("case"))}, open(path, "w"), indent=1)
            violation = (path, "", f["what"])
            break
        if violation:
            break
    if not violation and failed:
        path = os.path.join(rdir, "%s.obligation.json" % pid)
        cex = next((o.get("replayed") for o in failed if o.get("replayed")), None)
        json.dump({"property": pid, "kind": "failed obligation", "failed_obligations": failed}, open(path, "w"), indent=1)
        violation = (path, "" if cex else " no-failing-input-found", "obligation %s" % failed[0]["name"])

    cases = sum(r["cases"] for r in res)
    samples = []
    for o in obl[:3]:
        samples.append({"obligation": o["name"], "backend": o["backend"], "status": o["status"]})
    for r in res:
        samples.append({"suite": r["suite"], "cases": r["cases"], "counters": r["stats"]})
    disc = [o for o in obl if o["status"] == "discharged"]
    cov = {
        "obligations": len(obl),
        "discharged": len(disc),
        "undecided": [{"name": o["name"], "why": o["detail"][:400]} for o in undecided],
        "failed": [{"name": o["name"], "why": o["detail"][:400]} for o in failed],
        "by_backend": {b: sum(o["backend"] == b for o in disc) for b in sorted({o["backend"] for o in obl})},
        "functions_under_contract": sorted({f for o in obl for f in o.get("functions", [])}),
        "solver_s": round(sum(o.get("seconds", 0) for o in obl), 2),
        "obligation_list": [{"name": o["name"], "backend": o["backend"], "status": o["status"],
                             "seconds": o.get("seconds", 0)} for o in obl],
        "checker_cmd": prop.get("checker_cmd", "verus <unit>.rs; cargo kani --harness <h>") if obl else "none",
        "trusted_base": sorted(set(assumptions)) or ["none recorded"],
        "evaluations": cases,
        "distinct_nontrivial": sum(r["cases"] for r in res),
        "rule": "bounded layer, not counted as proved. " + " | ".join("%s: %s" % (r["suite"], r["rule"]) for r in res)
                + ". Every case index has its own random stream, so cases are distinct by construction.",
        "samples": samples,
        "suites": [{k: r[k] for k in ("suite", "cases", "foreign", "stats", "errors", "wall_s")} for r in res],
        "hooks": hooks,
        "explanation": prop.get("explanation", ""),
        "notes": [x[:800] for x in notes],
    }
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": prop["level"], "coverage": cov,
               "assumptions": prop.get("assumptions", []), "wall_s": round(elapsed(), 1),
               "violations": 1 if violation else 0},
              open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if violation:
        log("[%s] violation: %s" % (pid, violation[2][:1500]))
        print("VIOLATION property=%s replay=%s%s" % (pid, violation[0], violation[1]), flush=True)
        return 1
    if cases == 0 and not disc:
        log("nothing was explored: %s" % [r["errors"] for r in res])
        return 2
    return 0
