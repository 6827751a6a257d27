"""Kani back end: complete (loop-free or fully unwound) symbolic proofs of single functions of the real crate.

The harnesses live in hooks/*.rs and are included into the crate under `--cfg polodb_verif`; Kani compiles /repo's
current source every time.
"""
import os, re, time
from .common import HOOKS, REPO, TARGET, env, run, log

CRATE = os.path.join(REPO, "src", "polodb_core")


def blocks(out):
    """Output of every harness: name -> text (with -j the lines of one harness are printed together)."""
    res, cur = {}, None
    for l in out.split("\n"):
        m = re.search(r"Checking harness (\S+?)\.\.\.", l)
        if m:
            cur = m.group(1).rpartition("::")[2]
            res[cur] = ""
        elif cur:
            res[cur] += l + "\n"
    return res


def cmd(names, target, extra=()):
    c = ["cargo", "kani", "--target-dir", target, "--output-format", "regular"]
    for h in names:
        c += ["--harness", h]
    return c + list(extra)


def run_harnesses(harnesses, tier, wdir):
    """harnesses: list of (name, [functions under contract], what it shows)."""
    t0 = time.time()
    e = env(POLODB_VERIF_DIR=HOOKS, RUSTFLAGS="--cfg polodb_verif -A warnings", CARGO_NET_OFFLINE="true")
    names = [h[0] for h in harnesses]
    target = os.path.join(TARGET, "kani")
    limit = 330 if tier == "quick" else 1500
    rc, out, to = run(cmd(names, target), limit, e, cwd=CRATE, out=os.path.join(wdir, "kani.txt"))
    bl = blocks(out)
    res = {"obligations": [], "errors": [], "assumptions": [
        "kani: the Rust standard library and the compiler as Kani models them; harness inputs are unconstrained values of "
        "the argument types (no loop bound is used: CBMC's unwinding assertions are on)"]}
    for name, fns, what in harnesses:
        b = bl.get(name)
        o = {"name": "kani:%s" % name, "backend": "kani/cbmc", "functions": fns, "status": "undecided", "detail": "",
             "seconds": 0}
        if b is None:
            o["detail"] = "no result (%s): %s" % ("time limit" if to else "build", out[-600:])
        else:
            m = re.search(r"Verification Time: ([0-9.]+)s", b)
            o["seconds"] = float(m.group(1)) if m else round(time.time() - t0, 1)
            if "VERIFICATION:- SUCCESSFUL" in b:
                sat = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", b)
                if sat and sat.group(1) != sat.group(2):
                    o["detail"] = "a cover property of the harness is unreachable: the harness is vacuous"
                else:
                    o["status"] = "discharged"
            elif "VERIFICATION:- FAILED" in b:
                fails = re.findall(r"Failed Checks: (.*)\n(.*)", b)
                real = [f for f in fails if "unwinding assertion" not in f[0] and "not currently supported" not in f[0]]
                if real:
                    o["status"] = "failed"
                    o["detail"] = "%s: %s" % (what, "; ".join(" ".join(x.strip() for x in f) for f in real[:4]))
                else:
                    o["detail"] = "; ".join(f[0] for f in fails[:4]) or b[-400:]
            else:
                o["detail"] = "no verdict: " + b[-400:]
        res["obligations"].append(o)
    bad = [o for o in res["obligations"] if o["status"] == "failed"]
    if bad:
        # the verifier's counterexample: the bytes of every nondeterministic value
        rc, out, to = run(cmd([bad[0]["name"].split(":")[1]], target, ["-Z", "concrete-playback", "--concrete-playback=print"]),
                          200, e, cwd=CRATE, out=os.path.join(wdir, "kani_cex.txt"))
        m = re.search(r"```\n(.*?)```", out, re.S)
        if m:
            bad[0]["counterexample"] = m.group(1)
            bad[0]["detail"] += " | counterexample: " + " ".join(re.findall(r"// (\S+)", m.group(1)))[:300]
    return res
