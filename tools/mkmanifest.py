"""Writes /verif/MANIFEST.json from the property list and the notes below."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
NA = NOTES["not_applicable"]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES["claimed"] and os.path.exists(os.path.join(V, "dst", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "technique": "deterministic simulation with fault injection: " + NOTES["claimed"][i]["technique"],
                       "level": "exploration", "level_note": NOTES["claimed"][i]["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: its simulation is still being built")})
m = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the Py4J/JPype bridge, subprocess launch, threading locks, builtins.open/os and the command line, all replaced from /verif."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
