"""Writes MANIFEST.json from properties.jsonl and checks/meta.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(os.path.join(ROOT, "checks", "meta.json")))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl")) if x.strip()]
NA = {"C31": "No CUDA device, driver or compiler in this sandbox: the GPU extension cannot be built "
             "or run, so no input can be generated against it."}
NOTE = ("Exploration: seeded random search over the generated domain described in the evidence rule "
        "and DESIGN.md, judged by an independent oracle; nothing is claimed for inputs outside it. "
        "Trusts numpy/scipy as reference arithmetic and the C/C++ compiler at the variant's "
        "optimisation level.")
checks, na = [], []
for p in props:
    c = p["id"]
    if c in meta:
        m = meta[c]
        checks.append({
            "property": c,
            "quick_cmd": "./check %s" % c,
            "thorough_cmd": "./check %s --tier thorough" % c,
            "technique": m.get("technique", "property-based testing (Hypothesis) against a reference oracle"),
            "level": m.get("level", "exploration"),
            "level_note": m.get("level_note", NOTE),
        })
    else:
        na.append({"property": c, "reason": NA.get(c, "Check not built yet.")})
man = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
       "notes": "No hooks: checks build /repo's working tree out of tree (under /verif/.build) and "
                "use only public behaviour."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
