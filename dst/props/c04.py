"""C04: a device file that was not completely written is reported as an error."""
import glob
import os

import core

LEVEL = "fault_enumeration"
RUNS = {"quick": 2500, "thorough": 60000}
SHRINK = ["cmds", "devices"]
RULE = ("Each run builds one to three devices, measures the calls and bytes of every write command of the plan without "
        "faults, then repeats each command with file faults at seeded positions (open, write, close; error, error from "
        "there on, short transfer, full disk), and again without faults.")
REAL = ["all of devsim (plain build)", "libstdc++ file streams", "Linux file system in a scratch directory"]
STUB = ["fopen/fclose/write/writev of files under the scratch directory (scheduled faults)", "BLAS/LAPACK", "symbolic engine", "sparse direct solver"]
ASSUME = ["durability beyond the operating system (fsync) is not promised by the simulator and not checked"]
ERRS = [28, 5, 122, 27]  # ENOSPC EIO EDQUOT EFBIG


def plan(rng, tier, index):
    n = rng.choice([1, 1, 2, 3])
    devices = []
    for i in range(n):
        dim = rng.choice([1, 1, 2, 3])
        P = {"dim": dim, "nreg": rng.choice([1, 1, 2]), "nx": rng.choice([2, 5, 60]) if dim == 1 else rng.choice([2, 5]),
             "ny": rng.choice([1, 2, 4]) if dim == 2 else rng.choice([1, 2]), "nvar": rng.choice([1, 2]), "elem": dim > 1 and rng.random() < 0.5,
             "top": rng.choice([0.0, 0.4])}
        devices.append(["d%d" % i, P])
    cmds = []
    for j in range(rng.randint(1, 4)):
        typ = rng.choice([None, "devsim", "devsim_data", "vtk", "tecplot"])
        dev = rng.choice([None] + [d[0] for d in devices])
        faults = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.choice(["open", "err", "err", "errfrom", "full", "full", "full", "short", "close", "close", "path", "none"])
            faults.append({"k": k, "f": rng.choice([0.0, 1.0, rng.random()]), "err": rng.choice(ERRS), "arg": rng.choice([1, 7, 100, 4096])})
        cmds.append({"typ": typ, "dev": dev, "file": "io/out%d" % rng.randrange(2), "faults": faults,
                     "filt": rng.choice([None, None, "even", "x"]) if typ in ("vtk", "tecplot") else None,
                     "pre": rng.random() < 0.4, "again": rng.random() < 0.3})
    return {"devices": devices, "cmds": cmds, "solve": rng.random() < 0.6}


def files():
    out = {}
    for f in sorted(glob.glob("io/**", recursive=True)):
        if os.path.isfile(f):
            out[f] = open(f, "rb").read()
    return out


def clear(pre=None):
    for f in glob.glob("io/*"):
        os.remove(f)
    if pre:
        for n in ("", ".vtm", ".visit", "_0.vtu"):
            with open(pre + n, "wb") as f:
                f.write(b"old content\n" * 20000)


def complete(c, names, dims, content):
    """What any complete output has to contain."""
    typ = c["typ"] or "devsim"
    devs = [c["dev"]] if c["dev"] else names
    if typ in ("devsim", "devsim_data"):
        t = content.get(c["file"], b"").decode()
        for d in devs:
            if t.count('begin_device "%s"\n' % d) != 1:
                return "device %s is not in the file once" % d
        for k in ("device", "region", "contact", "interface", "nodes", "edges", "triangles", "tetrahedra", "coordinates"):
            b = sum(1 for x in t.split("\n") if x.split(" ")[0] == "begin_" + k)
            e = sum(1 for x in t.split("\n") if x == "end_" + k)
            if b != e:
                return "%d begin_%s but %d end_%s" % (b, k, e, k)
    elif typ == "vtk":
        nreg = sum(dims[d] for d in devs)
        for i in range(nreg):
            t = content.get("%s_%d.vtu" % (c["file"], i), b"")
            if not t.rstrip().endswith(b"</VTKFile>"):
                return "vtu file %d is not complete" % i
        if not content.get(c["file"] + ".vtm", b"").rstrip().endswith(b"</VTKFile>"):
            return "vtm file is not complete"
        if content.get(c["file"] + ".visit", b"").count(b"\n") != nreg + 1:
            return "visit file is not complete"
    else:
        t = content.get(c["file"], b"")
        if t.count(b"ZONE T=") != sum(dims[d] for d in devs):
            return "%d zones" % t.count(b"ZONE T=")
    return None


def execute(plan, ctx):
    s = ctx.session("a")
    names = []
    dims = {}
    for d, P in plan["devices"]:
        r = s.op(["toy", d, P])
        if r[0] != "ok":
            raise core.Harness("setup: %r" % (r,))
        names.append(d)
    if plan["solve"] and names:
        s.op(["dc"])
    before = s.snap()
    for d in names:
        dims[d] = len(before["devices"][d]["regions"])
    single = {}
    for c in plan["cmds"]:
        if c["dev"] and c["dev"] not in names:
            continue
        multi = (c["typ"] in ("vtk", "tecplot")) and not c["dev"] and len(names) > 1
        o = ["write", c["file"], c["typ"], c["dev"], c["filt"]]
        clear(c["file"] if c["pre"] and not multi else None)
        s.call(core.io_arm, [])
        r = s.op(o)
        _, calls, nbytes = s.call(core.io_disarm)
        if multi:
            if r[0] != "err":
                raise core.Violation("silent", "%r succeeded although the format holds one device: %r" % (o, r))
            continue
        if r[0] != "ok":
            raise core.Violation("good-write-failed", "%r: %r" % (o, r))
        ref = files()
        if c["pre"]:
            ref = {k: v for k, v in ref.items() if not v.startswith(b"old content")}
            bad = [k for k, v in ref.items() if b"old content" in v]
            if bad:
                raise core.Violation("old-content", "%s keeps content from before %r" % (bad, o))
        w = complete(c, names, dims, ref)
        if w or not ref:
            raise core.Violation("incomplete", "%r returned normally: %s" % (o, w or "no file"))
        if (c["typ"] or "devsim") in ("devsim", "devsim_data"):
            single[(c["typ"] or "devsim", c["dev"])] = ref[c["file"]]
        if ctx.probes.get("calls", 0) == 0:
            ctx.probe("calls", calls[2])
        # the same with faults
        clear(c["file"] if c["pre"] else None)
        arm, direct = [], None
        for f in c["faults"]:
            k = f["k"]
            if k == "open":
                arm.append({"op": "openw", "kind": "err", "at": pick(f, calls[0]), "err": f["err"]})
            elif k in ("err", "errfrom"):
                arm.append({"op": "write", "kind": k, "at": pick(f, calls[2]), "err": f["err"]})
            elif k == "full":
                arm.append({"op": "write", "kind": "full", "at": min(int(f["f"] * nbytes[2]), nbytes[2] - 1), "err": f["err"]})
            elif k == "short":
                arm.append({"op": "write", "kind": "short", "at": pick(f, calls[2]), "arg": f["arg"]})
            elif k == "close":
                arm.append({"op": "close", "kind": "err", "at": pick(f, calls[3]), "err": f["err"]})
            elif k == "path":
                direct = "io/nosuch/out"
        s.call(core.io_arm, arm)
        fo = list(o)
        if direct:
            fo[1] = direct
        r = s.op(fo)
        fired, fcalls, _ = s.call(core.io_disarm)
        hard = bool(direct)
        for a, n in zip(arm, fired):
            if n:
                ctx.fault("%s-%s" % (a["op"], a["kind"]), n)
                if a["kind"] != "short":
                    hard = True
        if direct:
            ctx.fault("missing-directory")
        if r[0] == "py":
            raise core.Violation("wrong-exception", "%r with faults %r: %r" % (fo, arm, r))
        if hard and r[0] == "ok":
            raise core.Violation("silent", "%r returned normally although %s" % (
                fo, "its directory does not exist" if direct else "a file operation failed: %r fired %r" % (arm, fired[:len(arm)])))
        if not hard:
            if r[0] != "ok":
                raise core.Violation("false-error", "%r failed without a file error (%r): %r" % (fo, arm, r))
            diff_files(ref, c, fo, "under short transfers")
        ctx.state((c["typ"], c["dev"] is None, [f["k"] for f in c["faults"]], [a.get("at") for a in arm], r[0]))
        if c["again"]:
            clear()
        # once the cause is gone
        r = s.op(o)
        if r[0] != "ok":
            raise core.Violation("not-repeatable", "%r after a failed attempt (%r): %r" % (o, arm, r))
        diff_files(ref, c, o, "after a failed attempt")
    for t in ("devsim", "devsim_data"):
        if (t, None) in single and all((t, d) in single for d in names):
            ctx.probe("all-versus-single")
            if b"".join(single[(t, d)] for d in sorted(names)) != single[(t, None)]:
                raise core.Violation("all-differs", "the file of all devices is not that of the devices one by one (%s)" % t)
    after = s.snap()
    import worlds
    df = worlds.diff(before, after)
    if df:
        raise core.Violation("state", "writing changed the session: " + "; ".join(df))


def pick(f, n):
    return min(int(f["f"] * n), n - 1)


def diff_files(ref, c, o, when):
    got = files()
    for k, v in ref.items():
        if got.get(k) != v:
            g = got.get(k)
            i = 0 if g is None else next((i for i, (a, b) in enumerate(zip(g, v)) if a != b), min(len(g), len(v)))
            raise core.Violation("content", "%r returned normally %s but %s has %s bytes instead of %d, first difference at %d" % (
                o, when, k, None if g is None else len(g), len(v), i))
