#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registered generators."""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check_registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = check_registry.NOT_APPLICABLE
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
checks, na = [], []
for p in props:
    if p["id"] in check_registry.PROPS:
        pr = check_registry.PROPS[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd=f"python3 /verif/check.py {p['id']} quick",
                           thorough_cmd=f"python3 /verif/check.py {p['id']} thorough",
                           evidence_file=f"evidence/{p['id']}.json",
                           technique="TLA+ specification, TLC trace validation of the real code" +
                                     (" + exhaustive TLC model " + ", ".join(check_registry.MODELS[p["id"]]) if p["id"] in check_registry.MODELS else ""),
                           level=pr["level"],
                           level_note=check_registry.NOTES.get(p["id"], check_registry.NOTE)))
    else:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check yet")))
m = dict(version=1,
         setup_cmd="python3 /verif/tools/setup.py",
         hooks=dict(guard="komunikilo_verif (rustc --cfg)", enable="harness/.cargo/config.toml sets rustflags --cfg komunikilo_verif; cargo builds the driver with a path dependency on /repo", source_commits=hook),
         checks=checks, not_applicable=na,
         notes="TLA+ / TLC.  See DESIGN.md.  known-findings.txt lists genuine defects.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
