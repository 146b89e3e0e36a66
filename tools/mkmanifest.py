#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules and the reasons below."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks = []
have = set()
for f in sorted(os.listdir(os.path.join(V, "dst", "props"))):
    if not f.endswith(".py"):
        continue
    pid = f[:-3].upper()
    have.add(pid)
    m = {}
    for n in ast.parse(open(os.path.join(V, "dst", "props", f)).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("LEVEL", "RUNS"):
            m[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({"property": pid, "quick_cmd": "python3 dst/check.py run " + pid,
                   "thorough_cmd": "python3 dst/check.py run %s --tier thorough" % pid,
                   "technique": "deterministic simulation with fault injection: " + NOTES["technique"][pid],
                   "level": m["LEVEL"], "level_note": NOTES["note"][pid] + " %d seeded runs in the quick tier, %d in the thorough tier." % (m["RUNS"]["quick"], m["RUNS"]["thorough"])})
na = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in have:
        na.append({"property": p, "reason": NOTES["na"].get(p, "No check has been built for it yet.")})
json.dump({"version": 1, "setup_cmd": "python3 dst/build.py plain && python3 dst/build.py sched", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
