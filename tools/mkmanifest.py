#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/vf/props.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import props
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hooks = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], text=True).split()
m = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "hooks": {"guard": "cfg(polodb_verif)",
              "enable": "RUSTFLAGS='--cfg polodb_verif' POLODB_VERIF_DIR=/verif/hooks (the files there are included at the end of the modules they verify)",
              "source_commits": hooks},
    "checks": [],
    "not_applicable": [{"property": k, "reason": v} for k, v in props.NOT_APPLICABLE.items()],
    "notes": "Every check: Verus units over functions extracted from /repo's current source, Kani proofs inside the crate through the hooks, then bounded suites against a reference model (labelled bounded, not counted as proved). See DESIGN.md.",
}


def technique(p):
    out = []
    if p["verus"]:
        units = sorted({v if isinstance(v, str) else v[0] for v in p["verus"]})
        out.append("Verus: contracts on the functions extracted from the current source (units %s)" % ", ".join(units))
    if p["kani"]:
        out.append("Kani: proof harnesses on the crate's own functions, all inputs")
    out.append("bounded stand-in for what is outside the contracts (generated cases against a reference model: %s)"
               % ", ".join(s[0] for s in p["suites"]))
    return "; ".join(out)


def level_note(p):
    if p["level"] == "proof":
        return ("proof of the functions under contract (listed with their assumptions in the evidence); "
                "the composition with functions not under contract is bounded")
    return "bounded: generated cases against a reference model"


for pid, p in sorted(props.PROPS.items()):
    m["checks"].append({
        "property": pid,
        "quick_cmd": "bin/check " + pid,
        "thorough_cmd": "VERIF_TIER=thorough bin/check " + pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": p.get("technique", technique(p)),
        "level": p["level"],
        "level_note": p.get("note", level_note(p)),
    })
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
