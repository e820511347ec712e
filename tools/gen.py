#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py for the properties that have a check in checks/table.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/tools", V + "/checks"]
import props, table
claimed = [p for p in props.PROPS if p["id"] in table.PROPS]
missing = set(table.PROPS) - {p["id"] for p in claimed}
assert not missing, missing
with open(V + "/properties.jsonl", "w") as f:
    for p in claimed + [x for x, _ in props.NA]:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="true",
         hooks=dict(guard="TINYDIP_SIM_REDUCED_TYPES", enable="run_check.py compiles the command-line interface with -DTINYDIP_SIM_REDUCED_TYPES (fewer pixel types instantiated); all other checks need no hook", source_commits=["aac9df3"]),
         checks=[], not_applicable=[dict(property=x["id"], reason=r) for x, r in props.NA])
for p in claimed:
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 run_check.py %s --tier quick" % p["id"], thorough_cmd="python3 run_check.py %s --tier thorough" % p["id"],
                            technique="deterministic simulation with fault injection (seeded scheduler, in-memory disk, allocator and clock; reference model; race detector)",
                            level="exploration", level_note=p["note"]))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
import jsonschema
ps = json.load(open("/root/.vp/PROPERTIES.schema.json")); ms = json.load(open("/root/.vp/MANIFEST.schema.json"))
for l in open(V + "/properties.jsonl"): jsonschema.validate(json.loads(l), ps)
jsonschema.validate(m, ms)
print(len(claimed), "claimed", len(props.NA), "not applicable")
