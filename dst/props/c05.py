"""C05: loading a damaged or unreadable file never corrupts the session."""
import os

import core
import devfile
import worlds

LEVEL = "fault_enumeration"
RUNS = {"quick": 2500, "thorough": 60000}
SHRINK = ["loads", "devices", "have"]
RULE = ("Each run writes a file of one to three devices, then loads seeded damages of it (truncation, zeroed or lost "
        "regions, junk, flipped bits, edited lines, numbers, names and blocks, read errors, short reads) into a session that "
        "holds other devices, compares the session with its state before after every failure, and finally loads the intact file.")
REAL = ["all of devsim (plain build), including the flex scanner and bison parser"]
STUB = ["fopen/fread/fclose of files under the scratch directory (scheduled faults)", "BLAS/LAPACK", "symbolic engine", "sparse direct solver"]
ASSUME = ["corruption that keeps the file well formed and only changes values is the content of the file"]


def small(rng):
    dim = rng.choice([1, 1, 2, 3])
    return {"dim": dim, "nreg": rng.choice([1, 2]), "nx": rng.choice([2, 4]) if dim == 1 else rng.choice([1, 2]), "ny": 1,
            "nvar": rng.choice([1, 2]), "elem": dim > 1 and rng.random() < 0.5, "top": rng.choice([0.0, 0.4])}


def plan(rng, tier, index):
    devices = [["d%d" % i, small(rng)] for i in range(rng.choice([1, 1, 2, 3]))]
    have = [["h%d" % i, small(rng)] for i in range(rng.choice([0, 0, 1, 2]))]
    if rng.random() < 0.1 and have:
        have[0][0] = "d0"
    loads = []
    for _ in range(rng.randint(1, 5)):
        if rng.random() < 0.2:
            loads.append({"k": rng.choice(["open", "read", "readfrom", "readshort", "missing", "directory", "empty"]), "f": rng.random(),
                          "err": rng.choice([5, 13, 9]), "arg": rng.choice([1, 13, 512])})
        else:
            loads.append({"k": rng.choice(devfile.KINDS), "f": rng.choice([rng.random(), rng.random(), 1.0 - 0.03 * rng.random()]), "g": rng.random(), "s": rng.getrandbits(32)})
    return {"devices": devices, "have": have, "loads": loads, "typ": rng.choice(["devsim", "devsim", "devsim_data"]), "solve": rng.random() < 0.5}


def described(content, st, ctx):
    """What the loaded devices have to show, given the file."""
    try:
        devs = devfile.parse(content)
    except devfile.Torn as e:
        return "a block does not end: %s" % e
    except devfile.Odd:
        return None
    ctx.probe("described")
    for d in devs:
        s = st["devices"].get(d["name"])
        if s is None:
            return "device %s is in the file" % d["name"]
        for kind in ("regions", "contacts", "interfaces"):
            miss = set(d[kind]) - set(s[kind])
            if miss:
                return "%s %s of device %s are in the file" % (kind, sorted(miss), d["name"])
        for r, x in d["regions"].items():
            q = s["regions"][r]
            # a damaged index may name a node of the region a second time
            n = x["elements"].get("nodes", [])
            nn = len(q["node"]["x"][1]) if q["node"].get("x", ("?",))[0] == "ok" else None
            if n and nn is not None and nn not in (len(n), len(set(n))):
                return "region %s has %s nodes, the file %d" % (r, nn, len(n))
            for (kind, name), (t, v) in x["models"].items():
                if name.endswith("_prev") or t in ("BUILTIN", "DATAPARENT"):
                    continue
                if name not in q[kind]:
                    return "%s model %s of region %s is in the file" % (kind, name, r)
                got = q[kind][name]
                if t == "DATA" and kind == "node" and name not in BUILT and got[0] == "ok":
                    if tuple(got[1]) != tuple(v):
                        return "node model %s of region %s: %r, the file has %r" % (name, r, got[1][:5], v[:5])
                if t == "UNIFORM" and kind == "node" and name not in BUILT and got[0] == "ok" and set(got[1]) - {v}:
                    return "node model %s of region %s: %r, the file has %r" % (name, r, got[1][:5], v)
            miss = set(x["equations"]) - set(q["equations"])
            if miss:
                return "equations %s of region %s are in the file" % (sorted(miss), r)
        for kind in ("contacts", "interfaces"):
            for c, x in d[kind].items():
                rows = [z for q in x["elements"].values() for z in q]
                sides = (s[kind][c]["nodes"],) if kind == "contacts" else s[kind][c]["nodes"]
                for i, got in enumerate(sides):
                    want = {n for z in rows for n in z[i * len(z) // len(sides):(i + 1) * len(z) // len(sides)]}
                    have = {n for z in got[1] for n in z} if got[0] == "ok" else want
                    if kind == "interfaces" and len(set(x["head"])) == 1:
                        # the lists are asked for by region
                        continue
                    # nodes alone need not make up a whole edge or triangle
                    if have - want or want - have and (s["dim"] == 1 or "nodes" not in x["elements"]):
                        return "%s has nodes %r, the file %r" % (c, got[1], sorted(want))
                miss = set(x["equations"]) - set(s[kind][c]["equations"])
                if miss:
                    return "equations %s of %s are in the file" % (sorted(miss), c)
                if kind == "interfaces":
                    miss = {n for _, n in x["models"]} - set(s[kind][c]["models"])
                    if miss:
                        return "models %s of interface %s are in the file" % (sorted(miss), c)
    return None


BUILT = {"AtContactNode", "ContactNSurfaceNormal_x", "ContactNSurfaceNormal_y", "ContactNSurfaceNormal_z", "ContactSurfaceArea",
         "NSurfaceNormal_x", "NSurfaceNormal_y", "NSurfaceNormal_z", "NodeVolume", "SurfaceArea", "coordinate_index", "node_index",
         "x", "y", "z", "InterfaceNSurfaceNormal_x", "InterfaceNSurfaceNormal_y", "InterfaceNSurfaceNormal_z", "InterfaceSurfaceArea"}


def execute(plan, ctx):
    w = ctx.session("writer")
    for d, P in plan["devices"]:
        w.op(["toy", d, P])
    if plan["solve"] and plan["devices"]:
        w.op(["dc"])
    r = w.op(["write", "io/good", plan["typ"]])
    if r[0] != "ok":
        raise core.Harness("write: %r" % (r,))
    w.kill()
    good = open("io/good", "rb").read()
    fresh = ctx.session("fresh")
    r = fresh.op(["load", "io/good"])
    if r[0] != "ok":
        raise core.Violation("good-load-failed", "a written file does not load: %r" % (r,))
    ref = fresh.snap()
    fresh.kill()
    if plan["devices"]:
        e = described(good, ref, ctx)
        if e:
            raise core.Violation("incomplete", "loading an intact file: " + e)
    s = ctx.session("a")
    twin = ctx.session("twin")
    for d, P in plan["have"]:
        s.op(["toy", d, P])
        twin.op(["toy", d, P])
    before = s.snap()
    clash = set(before["devices"]) & {d for d, _ in plan["devices"]} or set(before["meshes"]) & {d for d, _ in plan["devices"]}
    for l in plan["loads"]:
        k = l["k"]
        content = good
        arm = []
        f = "io/bad"
        must_fail = False
        if k == "open":
            arm = [{"op": "openr", "kind": "err", "at": 0, "err": l["err"]}]
        elif k in ("read", "readfrom"):
            nread = len(good) // 4096 + 1
            arm = [{"op": "read", "kind": "err" if k == "read" else "errfrom", "at": int(l["f"] * nread), "err": l["err"]}]
        elif k == "readshort":
            arm = [{"op": "read", "kind": "short", "at": 0, "arg": l["arg"]}]
        elif k == "missing":
            f, must_fail = "io/nosuch", True
        elif k == "directory":
            f, must_fail = "io/dir", True
            os.makedirs(f, exist_ok=True)
        elif k == "empty":
            content = b""
        else:
            content = devfile.damage(good, l)
        with open("io/bad", "wb") as o:
            o.write(content)
        s.call(core.io_arm, arm)
        r = s.op(["load", f])
        fired, _, _ = s.call(core.io_disarm)
        for a, n in zip(arm, fired):
            if n:
                ctx.fault("%s-%s" % (a["op"], a["kind"]), n)
                must_fail = must_fail or a["kind"] != "short"
        if not arm:
            ctx.fault("damage-" + k)
        after = s.snap()
        if r[0] == "py" and r[1] not in ("UnicodeDecodeError",):
            raise core.Violation("wrong-exception", "%r: %r" % (l, r))
        if r[0] == "ok":
            if must_fail:
                raise core.Violation("silent", "%r succeeded" % (l,))
            whole, rest = devfile.complete_prefix(content)
            new = set(after["devices"]) - set(before["devices"])
            if k in ("trunc", "zerotail", "zerohole", "empty", "cut", "readshort"):
                if rest:
                    raise core.Violation("silent", "%r: the file ends inside a device, yet loading it succeeded" % (l,))
                if k in ("trunc", "empty", "readshort") and not clash and new != set(whole):
                    raise core.Violation("silent", "%r: loaded %r, the file holds %r" % (l, sorted(new), whole))
            e = described(content, after, ctx)
            if e:
                raise core.Violation("incomplete", "%r succeeded, but %s" % (l, e))
            ctx.probe("loaded-damaged")
            if content != good:
                # what was loaded has to be usable, whatever its values
                s.op(["dc", {"maximum_iterations": 3}])
            for d in sorted(new):
                s.op(["c", "delete_device", {"device": d}])
                s.op(["c", "delete_mesh", {"mesh": d}])
            after = s.snap()
            if content != good:
                # the solve may have moved the other devices as well
                for d, P in plan["have"]:
                    s.op(["toy_reset", d])
                    twin.op(["toy_reset", d])
                before = twin.snap()
                after = s.snap()
            df = worlds.diff(worlds.strip_currents(before), worlds.strip_currents(after))
            before = after
            if df:
                raise core.Violation("state", "after %r was loaded and deleted again: %s" % (l, "; ".join(df)))
        else:
            ctx.probe("rejected")
            df = worlds.diff(before, after)
            if df:
                raise core.Violation("state", "%r failed (%.200s) but changed the session: %s" % (l, r[1], "; ".join(df)))
    if plan["have"]:
        a, b = s.op(["dc"]), twin.op(["dc"])
        strip = (lambda x: x) if a[0] == "ok" else worlds.strip_currents
        df = worlds.diff(strip(twin.snap()), strip(s.snap()))
        if a != b or df:
            raise core.Violation("later", "the devices that were there solve differently after failed loads: %r %r %s" % (a, b, "; ".join(df)))
    r = s.op(["load", "io/good"])
    if clash:
        if r[0] == "ok":
            raise core.Violation("silent", "a device that exists was loaded again: %r" % (r,))
        return
    if r[0] != "ok":
        raise core.Violation("good-load-failed", "the intact file does not load after failed loads: %r" % (r,))
    st = s.snap()
    for d, _ in plan["devices"]:
        df = worlds.diff(ref["devices"][d], st["devices"][d])
        if df:
            raise core.Violation("later", "device %s loaded after failed loads differs: %s" % (d, "; ".join(df)))
