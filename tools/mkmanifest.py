#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.jsonl from jobs.py, properties.jsonl and the tables below."""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import jobs
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in jobs.PROPS:
        pr = jobs.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique="symbolic execution of the LLVM IR of /repo's functions, branches and assertions decided by z3 (QF_BV) over all values within the bounds, counterexamples replayed natively",
            level=pr.get("level", "model_checking"), level_note=("Bounds: " + pr["bounds"] + ". Outside: " + "; ".join(pr["outside"]) + ".")[:1500],
            evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet: the harness for this property is under construction")))
def sh(*a):
    return subprocess.run(a, capture_output=True, text=True).stdout
HOOKS = [l.split()[0] for l in sh("git", "-C", "/repo", "log", "--format=%H %s").splitlines() if "verification hooks" in l]
m = dict(version=1, setup_cmd="python3 check.py setup", hooks=dict(guard="cfg(anothertls_verif)", enable="RUSTFLAGS=--cfg anothertls_verif (check.py sets it)", source_commits=HOOKS), checks=checks, not_applicable=na,
         notes="One engine (/verif/engine), one set of harnesses (/verif/harness), one table of jobs (/verif/jobs.py); see DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
