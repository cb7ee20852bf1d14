#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and units/props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cfg = json.load(open(os.path.join(V, "units", "props.json")))
NA = {
    "C23": "confidentiality and authentication rest on the cryptography of rustls; no contract on functions of this repository expresses them",
    "C24": "liveness over thread schedules; contracts verified function by function express partial correctness (and termination of one function), not progress of interacting threads",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                           evidence_file="evidence/%s.json" % i,
                           technique=c.get("technique", "contract-based deductive verification (Verus) of the functions extracted from /repo, with a bounded run of the real code next to it"),
                           level=c.get("level", "proof"), level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the machinery that decides it is not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="cfg(wruster_verif)", enable='RUSTFLAGS="--cfg wruster_verif"', source_commits=["089360c0e553f2a07d019cbdd51af87697c4e1e7"]),
         checks=checks, not_applicable=na,
         notes="See DESIGN.md. check.py extracts the functions of /repo (tools/vx), puts the contracts of units/*.vu on them and runs Verus; replay/ runs the real code.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
