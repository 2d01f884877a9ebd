"""Regenerates MANIFEST.json from properties.jsonl and sim/meta.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sim import meta
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
NA = "a pure function of one finished input: no schedule, clock, I/O, fault, random draw or history for a simulator to decide; input generation alone would not be deterministic simulation"
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in meta.META:
        m = meta.META[pid]
        checks.append({
            "property": pid, "quick_cmd": f"./check {pid} quick", "thorough_cmd": f"./check {pid} thorough",
            "technique": "deterministic simulation with fault injection: " + m["how"], "level": m["level"],
            "level_note": m["note"],
        })
    else:
        na.append({"property": pid, "reason": NA})
doc = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"from sim import engine; engine.ensure_shim()\"", "checks": checks, "not_applicable": na,
       "notes": "No hooks were needed in /repo: the code's own seams (threads, random_state, files, streams, callbacks, joblib backends) and libc interposition carry the simulation."}
json.dump(doc, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
