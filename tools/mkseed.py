"""mkseed(name, property, edits, needs, breaks, demo): writes seeded/<name>/.

edits: list of (file, old text, new text[, occurrence]); the demo is Python that
exits non zero when the property is broken; it may import worlds and cbs."""
import difflib
import json
import os
import shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def mkseed(name, prop, edits, needs, breaks, demo):
    d = os.path.join(V, "seeded", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    text = {}
    for e in edits:
        f, old, new = e[:3]
        s = text.setdefault(f, [open(os.path.join(REPO, f)).read()] * 2)
        n = s[1].count(old)
        k = e[3] if len(e) > 3 else 0
        if n == 0 or (n > 1 and len(e) < 4):
            raise SystemExit("%s: %d matches in %s of %r" % (name, n, f, old))
        p = -1
        for _ in range(k + 1):
            p = s[1].index(old, p + 1)
        text[f] = [s[0], s[1][:p] + new + s[1][p + len(old):]]
    with open(os.path.join(d, "patch.diff"), "w") as out:
        for f, (a, b) in sorted(text.items()):
            out.writelines(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    for f in ("mk.py", "demo.sh"):
        shutil.copy(os.path.join(V, "tools/seedlib", f), d)
    for f in ("worlds.py", "cbs.py"):
        shutil.copy(os.path.join(V, "dst", f), d)
    shutil.copytree(os.path.join(V, "standins"), os.path.join(d, "standins"))
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
