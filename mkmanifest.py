"""Write MANIFEST.json for the properties that have a module in sim/props."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(ln)["id"] for ln in open(HERE + "/properties.jsonl")]
checks, na = [], []
NA = ("A pure function of its arguments: no schedule, clock, I/O, fault, "
      "history or shared state takes part, so there is nothing for a "
      "simulator to decide. What its state and inputs share with other "
      "calls is covered by P17 and P18.")
for i in ids:
    if os.path.exists("%s/sim/props/%s.py" % (HERE, i.lower())):
        m = importlib.import_module("sim.props." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "/opt/venv/bin/python -B -m sim check %s" % i,
            "thorough_cmd":
                "/opt/venv/bin/python -B -m sim check %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection",
            "level": "exploration",
            "level_note":
                "Seeded search over %s simulated runs (quick), each judged "
                "against a reference model; a clean batch is evidence, not "
                "proof. Assumes: %s. Runs real code of: %s; stubs: %s." % (
                    m.RUNS["quick"], "; ".join(
                        getattr(m, "ASSUMPTIONS", [])) or "nothing further",
                    ", ".join(m.REAL), ", ".join(m.STUB))})
    elif i in ("P19", "P20", "P21", "P22"):
        na.append({"property": i, "reason": NA})
    else:
        na.append({"property": i, "reason": "Not built yet."})
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump({"version": 1,
               "setup_cmd": "/opt/venv/bin/python -B -m sim list",
               "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: every seam is patched from "
                        "outside (see DESIGN.md)."}, f, indent=1)
    f.write("\n")
