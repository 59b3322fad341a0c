#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and checks it against the schema (run with python3-vt for the check)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def c(id, technique, note, level="exploration"):
    T[id] = dict(property=id, quick_cmd="bash check.sh "+id, thorough_cmd="VERIF_TIER=thorough bash check.sh "+id,
                 evidence_file="evidence/%s.json" % id, technique=technique, level=level, level_note=note)
TRUST = " Trusts the reference arithmetic in harness/ref (self-tested in setup) and the Go toolchain."
NET = " Runs the real round server over an in-memory network and stand-ins for core-go and tss-lib (stubs/)."
exec(open(os.path.join(here, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
ids = [p["id"] for p in props]
assert set(T) <= set(ids)
m = dict(version=1, setup_cmd="bash setup.sh", checks=[T[i] for i in ids if i in T],
         not_applicable=[dict(property=i, reason=NA.get(i, "no check has been built for it yet")) for i in ids if i not in T],
         notes="Every check builds the monitors in harness/ against /repo's working tree and runs them; no hooks in /repo are needed. Known findings: known_findings.txt.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(m["checks"]), "checks")
except ImportError:
    print("not validated")
