#!/usr/bin/env python3
"""note.py ID technique note: sets the texts of a check and rewrites the manifest."""
import json, os, subprocess, sys
d = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(d, "notes.json")
n = json.load(open(p))
n["technique"][sys.argv[1]] = sys.argv[2]
n["note"][sys.argv[1]] = sys.argv[3]
json.dump(n, open(p, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(d, "mkprops.py")])
subprocess.check_call([sys.executable, os.path.join(d, "mkmanifest.py")])
