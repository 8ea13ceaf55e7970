import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for q in props:
    i = q["id"]
    n = NOTES.get(i)
    if n is None or not os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        na.append({"property": i, "reason": (n or {}).get("na", "its contracts are not built yet")})
        continue
    cmd = "/opt/venv/bin/python check.py %s" % i
    checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
                   "technique": n.get("technique", "contracts on the real functions, verification conditions generated from /repo's source by pyvc, discharged by a ring normaliser and z3"),
                   "level": n["level"], "level_note": n["note"]})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, numba, scipy'", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: contracts live in /verif/props and are attached to the functions of /repo by name; the verified text is parsed from /repo on every run."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
