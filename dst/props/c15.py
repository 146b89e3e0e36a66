"""C15: devices in one session do not influence one another."""
import random
from collections import Counter

import core
import devfile
import mix
import reject
import scen
import worlds
from props import c03

LEVEL = "simulation"
RUNS = {"quick": 1500, "thorough": 60000}
SHRINK = ["steps", "devs"]
RULE = ("Each run interleaves the seeded histories of two or three devices (built command by command, edited, given models and parameters, saved, "
        "loaded, deleted and built anew under the same name; failing commands, exhausted memory and solver faults on the way) in one session, and "
        "runs the history of each one in a session of its own, which starts afresh where the device was deleted. A step on one device may not change "
        "anything of the others; each device has to be the same, bit for bit, as in the session of its own; combined solves give each the solution, "
        "the currents and the matrix entries that it has on its own.")
REAL = ["all of devsim (plain build)"]
STUB = ["sparse direct solver (scheduled failures)", "operator new (scheduled failures)", "BLAS/LAPACK", "symbolic engine"]
ASSUME = ["solutions are compared to 1e-6, and then made the same in both, since a combined solve takes the iterations of its slowest device",
          "transient analyses begin anew once a device was built, loaded or deleted"]
TIME_UNIT = "seconds of simulated transient time"
NAMES = [["d", "d1", "d11"], ["a", "aa", "b"], ["dev", "device", "0"], ["z_9", "z", "y"]]


def shape(rng, ckt):
    if rng.random() < 0.12 and not ckt:
        return ["diode", {"nx": rng.choice([3, 4]), "fine": 2, "ckt": [], "dd": False}]
    P = scen.toy_P(rng, circuit="vm" if ckt else None)
    P["nx"] = min(P["nx"], 3)
    if ckt and P.get("update") == "positive":
        P["init"] = 0.3
    if ckt:
        P["watch"] = "vm"
    return ["toy", P]


def plan(rng, tier, index):
    names = list(rng.choice(NAMES))
    rng.shuffle(names)
    n = rng.choice([2, 2, 2, 3])
    ckt = rng.randrange(n) if rng.random() < 0.3 else None
    devs = [[names[i]] + shape(rng, i == ckt) for i in range(n)]
    net = scen.world(random.Random(rng.getrandbits(30)), kinds=("ckt",))["net"] if ckt is not None else []
    net = [e for e in net if e["n1"] != "vl" and e["n2"] != "vl" and e["name"] != "L1"]
    steps = []
    done = [0.0] * n
    for _ in range(rng.choice([8, 14, 22])):
        i = rng.randrange(n)
        k = rng.random()
        if done[i] < 1.0:
            f = rng.choice([1.0, 1.0, 0.5, rng.random()])
            done[i] = min(1.0, done[i] + f)
            steps.append({"k": "build", "d": i, "f": f, "alloc": [[rng.random(), rng.random()] for _ in range(rng.choice([0, 0, 1, 3]))]})
        elif k < 0.3:
            steps.append({"k": "op", "d": i, "seed": rng.getrandbits(30), "alloc": rng.random() if rng.random() < 0.25 else None})
        elif k < 0.4:
            steps.append({"k": "bad", "d": i, "seed": rng.getrandbits(30)})
        elif k < 0.46:
            steps.append({"k": "delete", "d": i, "new": shape(rng, i == ckt) if rng.random() < 0.5 else None})
            done[i] = 0.0
        elif k < 0.54:
            steps.append({"k": "reload", "d": i, "all": rng.random() < 0.3})
        elif k < 0.92:
            a = scen.solve_args(rng, {"devs": devs})
            a.pop("solver_type", None)
            a["relative_error"] = rng.choice([1e-8, 1e-9])
            t = rng.choice(["dc", "dc", "dc", "transient_dc", "transient_bdf1", "transient_bdf1", "transient_tr"])
            if t in ("transient_bdf1", "transient_tr"):
                a.update({"tdelta": rng.choice([0.05, 0.1, 0.02]), "charge_error": 1e10, "gamma": 1.0})
            f = []
            if rng.random() < 0.2:
                f = [{"seam": "math", "which": rng.choice([0, 1]), "kind": rng.choice([1, 1, 2, 3]), "at": rng.choice([0, 0, 1, 2])}]
                f[0]["kind"] = 1 if f[0]["which"] == 0 else f[0]["kind"]
            steps.append({"k": "solve", "type": t, "args": a, "faults": f})
        else:
            steps.append({"k": "matrix"})
    ext = rng.choice([[], [], [], [], ["extended_solver", "extended_model", "extended_equation"], ["extended_model"]])
    return {"devs": devs, "ckt": ckt, "net": net, "steps": steps, "ext": ext,
            "threads": [2, rng.choice([1, 4])] if rng.random() < 0.15 else None, "solver": rng.random() < 0.15 and not ext}


def edit(rng, name, kind, P, net):
    """One good command on a device."""
    k = rng.random()
    r = "r0" if kind == "toy" else "bulk"
    if k < 0.2:
        return ["bias", name, rng.choice(["bot"] if P.get("ckt") else ["top", "bot"]), rng.choice([0.1, 0.2, 0.3]) if kind == "toy" else rng.choice([0.0, 0.1, 0.2])]
    if k < 0.28 and net:
        return ["c", "circuit_alter", {"name": "V1", "value": rng.choice([0.1, 0.3, 0.4])}]
    if k < 0.4 and kind == "toy":
        return ["c", "set_parameter", {"device": name, "region": "r0", "name": rng.choice(["g", "a", "k"]), "value": rng.choice([0.3, 0.6, 0.9])}]
    if k < 0.55 and kind == "toy":
        return ["models", name, rng.randrange(4), P.get("dim", 1) > 1]
    if k < 0.6:
        return ["c", "set_material", {"device": name, "region": r, "material": rng.choice(["Q", "R"])}]
    if k < 0.66:
        return ["c", "set_parameter", {"device": name, "name": rng.choice(["p", "q"]), "value": rng.choice([1.5, "text"])}]
    if k < 0.76:
        return ["c", "node_model", {"device": name, "region": r, "name": rng.choice(["own", "other"]), "equation": rng.choice(["2*NodeVolume", "x*x", "own+1", "p*x"])}]
    if k < 0.8:
        return ["c", "delete_node_model", {"device": name, "region": r, "name": rng.choice(["own", "other"])}]
    if k < 0.84 and kind == "toy":
        return ["setnodes", name, "r0", "u", [0.2, 0.1, 0.15]]
    if k < 0.88:
        return ["c", "node_solution", {"device": name, "region": r, "name": "w"}]
    if k < 0.91:
        return ["c", "contact_node_model", {"device": name, "contact": "top", "name": "cm", "equation": "3*NodeVolume"}]
    return ["fwrite", "io/w", rng.choice(["vtk", "tecplot", "devsim", "devsim_data"]), name, None]


def wrong(rng, name, kind):
    """A command that is rejected."""
    r = "r0" if kind == "toy" else "bulk"
    return rng.choice([
        ["c", "node_model", {"device": name, "region": r, "name": "bad", "equation": "exp("}],
        ["c", "node_model", {"device": name, "region": "nosuch", "name": "bad", "equation": "1"}],
        ["c", "edge_from_node_model", {"device": name, "region": r, "node_model": "nosuch"}],
        ["c", "set_node_values", {"device": name, "region": r, "name": "NodeVolume", "values": [1.0]}],
        ["c", "create_device", {"mesh": "nosuch", "device": name}],
        ["c", "create_device", {"mesh": "m_" + name, "device": name}],
        ["c", "equation", {"device": name, "region": r, "name": "Bad"}],
        ["c", "contact_equation", {"device": name, "contact": "nosuch", "name": "UEq"}],
        ["c", "delete_equation", {"device": name, "region": r, "name": "nosuch"}],
        ["c", "get_node_model_values", {"device": name, "region": r, "name": "nosuch"}],
        ["c", "load_devices", {"file": "io/nosuch"}],
        ["c", "add_1d_mesh_line", {"mesh": "m_" + name, "pos": 0.0, "ps": "x"}],
        ["c", "write_devices", {"file": "io/none", "device": name, "type": "nosuch"}]])


class Solo:
    """What should be known about one device."""

    def __init__(self):
        self.script = None
        self.at = 0
        self.s = None
        self.seen = None


def clean(st):
    """A device without the results of the last analysis."""
    st = dict(st)
    st["contacts"] = {c: dict(y, equations={q: z[0] for q, z in y["equations"].items()}) for c, y in st["contacts"].items()}
    return st


def execute(plan, ctx):
    J = ctx.session("joint")
    devs = [list(d) for d in plan["devs"]]
    solo = [Solo() for _ in devs]
    kept = {}
    failed = set()  # devices which have the copies of the solution that a failed solve makes
    tran = 0
    pre = [["c", "set_parameter", {"name": x, "value": True}] for x in plan["ext"]]
    if plan["solver"]:
        pre.append(["use_solver"])
    if plan["threads"]:
        pre.append(["c", "set_parameter", {"name": "threads_available", "value": plan["threads"][0]}])
        pre.append(["c", "set_parameter", {"name": "threads_task_size", "value": plan["threads"][1]}])
        pre.append(["threads_on", 77, 0, 30])
    for o in pre:
        J.op(o)
    count = 0

    def fresh(i):
        nonlocal count
        x = solo[i]
        if x.s:
            x.s.kill()
        count += 1
        x.s = ctx.session("solo%d-%d" % (i, count))
        for o in pre:
            x.s.op(o)
        x.script, x.at = None, 0

    def script(i):
        x = solo[i]
        if x.script is None:
            rec = ctx.session("rec")
            name, kind, P = devs[i]
            W = {"devs": [[name, kind, P]], "net": plan["net"] if i == plan["ckt"] else [], "nodes": ["vdd", "vm"] if i == plan["ckt"] else []}
            x.script = [o for o in rec.call(reject.record, scen.build(W)) if o[1] != "solve"]
            rec.kill()
        return x.script

    def built(i):
        return solo[i].script is not None and solo[i].at >= len(solo[i].script)

    def waiting():
        """A circuit whose device is yet to come."""
        c = plan["ckt"]
        return c is not None and solo[c].at > 0 and devs[c][0] not in kept

    def others(i, what):
        """Nothing but device i may have changed."""
        have = J.op(["c", "get_device_list", {}])[1]
        for j in range(len(devs)):
            name = devs[j][0]
            if j == i:
                continue
            if (name in have) != (name in kept):
                raise core.Violation("other", "%s: device %s %s" % (what, name, "appeared" if name in have else "is gone"))
            if name in kept:
                d = worlds.diff(kept[name], J.snap("dev:" + name))
                if d:
                    raise core.Violation("other", "%s changed device %s: %s" % (what, name, "; ".join(d)))
        if i is not None:
            name = devs[i][0]
            if name in have:
                kept[name] = J.snap("dev:" + name)
            else:
                kept.pop(name, None)

    def same(i, what):
        """Device i is as in a session of its own."""
        name = devs[i][0]
        x = solo[i]
        have = name in x.s.op(["c", "get_device_list", {}])[1]
        if have != (name in kept):
            raise core.Violation("same", "%s: device %s exists %s" % (what, name, "only in a session of its own" if have else "in the joint session only"))
        if have:
            d = worlds.diff(clean(x.s.snap("dev:" + name)), clean(kept[name]))
            if d:
                raise core.Violation("same", "%s: device %s is not as in a session of its own: %s" % (what, name, "; ".join(d)))

    def both(i, o, alloc=None):
        x = solo[i]
        if alloc is not None:
            x.s.op(["arm", [{"seam": "alloc", "at": 10 ** 9, "n": 1}]])
        b = x.s.op(o)
        if alloc is not None:
            n = x.s.op(["disarm"])[1]["nalloc"]
            if n and b[0] == "ok" and o[0] == "c":
                J.op(["arm", [{"seam": "alloc", "at": min(n - 1, int(alloc * n)), "n": 1}]])
                a = J.op(o)
                f = J.op(["disarm"])[1]["fired"]
                if f:
                    ctx.fault("alloc")
                if a[0] == "ok":
                    return a, b
        a = J.op(o)
        if repr(a) != repr(b) and not (o[0] == "fwrite" and devs[i][0] in failed and a[0] == b[0]):
            raise core.Violation("result", "%r: %.600r, %.600r in a session of its own" % (o, a, b), key="result-" + (o[1] if o[0] == "c" else o[0]))
        return a, b

    for i in range(len(devs)):
        fresh(i)
    for st in plan["steps"]:
        k = st["k"]
        i = st.get("d")
        if i is not None and i >= len(devs):
            continue
        if k == "build":
            if built(i):
                continue
            sc = script(i)
            x = solo[i]
            end = min(len(sc), x.at + max(1, int(st["f"] * len(sc) + 0.5)))
            strikes = sorted((x.at + int(p * (end - x.at)), q) for p, q in st["alloc"])
            while x.at < end:
                al = next((q for p, q in strikes if p == x.at), None)
                both(i, sc[x.at], al)
                x.at += 1
            tran = 0
            others(i, "building %s" % devs[i][0])
            same(i, "while building")
            ctx.probe("built" if built(i) else "half-built")
        elif k in ("op", "bad"):
            if devs[i][0] not in kept or k == "op" and not built(i):
                continue
            rng = random.Random(st["seed"])
            o = edit(rng, *devs[i], plan["net"] if i == plan["ckt"] else []) if k == "op" else wrong(rng, devs[i][0], devs[i][1])
            a, b = both(i, o, st.get("alloc"))
            if k == "bad" and a[0] == "ok":
                ctx.probe("accepted")
            others(i, "%r" % (o,))
            same(i, "after %r" % (o,))
            ctx.probe("%s-%s" % (o[1] if o[0] == "c" else o[0], a[0]))
        elif k == "delete":
            name = devs[i][0]
            r = J.op(["c", "delete_device", {"device": name}])
            if (r[0] == "ok") != (name in kept):
                raise core.Violation("delete", "%s: %r" % (name, r))
            if i == plan["ckt"]:
                J.op(["c", "delete_circuit", {}])
            others(i, "deleting %s" % name)
            if name in kept:
                raise core.Violation("delete", "%s is still there" % name)
            J.op(["c", "delete_mesh", {"mesh": "m_" + name}])
            if st["new"]:
                devs[i] = [name] + st["new"]
            fresh(i)
            tran = 0
            ctx.probe("deleted")
        elif k == "reload":
            if devs[i][0] not in kept:
                continue
            which = [j for j in range(len(devs)) if devs[j][0] in kept and (j == i or st["all"])]
            tran = 0
            ok = True
            for j in which:
                # a device without models yet, or with those of deleted ones
                ok = ok and built(j) and not c03_dead(solo[j].s, devs[j])
            if not ok:
                continue
            name = devs[i][0]
            for j in which:
                n = devs[j][0]
                f = "io/r%d" % j
                b = [solo[j].s.op(o) for o in (["written_all"], ["write", f, "devsim", n, None], ["c", "delete_device", {"device": n}], ["nomesh", n], ["load", f])]
                if any(x[0] != "ok" for x in b[1:]):
                    raise core.Violation("reload", "%s: %r" % (n, b))
            if st["all"]:
                ops = [["written_all"], ["write", "io/all", "devsim", None, None]] + [["c", "delete_device", {"device": devs[j][0]}] for j in which] + [["nomesh", devs[j][0]] for j in which] + [["load", "io/all"]]
            else:
                ops = [["written_dev", name], ["write", "io/one", "devsim", name, None], ["c", "delete_device", {"device": name}], ["nomesh", name], ["load", "io/one"]]
            for o in ops:
                r = J.op(o)
                if r[0] != "ok":
                    raise core.Violation("reload", "%r: %r" % (o, r))
            # what a file does not carry
            for j in which:
                for o in c03.params_of({"params": {}, "devices": {devs[j][0]: kept[devs[j][0]]}})[1]:
                    both(j, o)
            for j in which:
                kept[devs[j][0]] = J.snap("dev:" + devs[j][0])
            others(i, "reloading")
            for j in which:
                same(j, "after reloading")
            ctx.probe("reloaded-all" if st["all"] else "reloaded")
        elif k == "matrix":
            if not kept or waiting() or not all(built(j) or devs[j][0] not in kept for j in range(len(devs))):
                continue
            a = matrix(J)
            total = {"static": Counter(), "dynamic": Counter()}
            if a is None:
                continue
            for j in range(len(devs)):
                if devs[j][0] in kept:
                    b = matrix(solo[j].s)
                    if b is None:
                        raise core.Violation("matrix", "%s on its own has no matrix" % devs[j][0])
                    for p in total:
                        total[p] += b[p]
            for p in total:
                if total[p] != a[p]:
                    raise core.Violation("matrix", "%s part: only in the joint matrix %r, missing from it %r" %
                                         (p, sorted((a[p] - total[p]).items())[:5], sorted((total[p] - a[p]).items())[:5]))
            ctx.probe("matrix")
        elif k == "solve":
            if not kept or waiting():
                continue
            t = st["type"]
            if t in ("transient_bdf1", "transient_tr") and not tran:
                t = "transient_dc"
            a = dict(st["args"])
            if t in ("dc", "transient_dc"):
                for q in ("tdelta", "charge_error", "gamma"):
                    a.pop(q, None)
            o = ["tran", t, a] if t != "dc" else ["dc", a]
            whole = all(built(j) or devs[j][0] not in kept for j in range(len(devs)))
            if st["faults"]:
                J.op(["arm", st["faults"]])
            r = J.op(o)
            fired = {}
            if st["faults"]:
                fired = J.op(["disarm"])[1]["fired"]
                for q, n in fired.items():
                    ctx.fault(q, n)
            if scen.failed(o, r):
                ctx.probe("failed" + ("-by-fault" if fired else ""))
                for n in kept:
                    d = worlds.diff(clean(kept[n]), clean(J.snap("dev:" + n)))
                    if d:
                        raise core.Violation("failed", "%r failed and changed %s: %s" % (o, n, "; ".join(d)))
                    kept[n] = J.snap("dev:" + n)
                failed.update(kept)
                if fired or not whole:
                    continue
                rs = [solo[j].s.op(o) for j in range(len(devs)) if devs[j][0] in kept]
                if not any(scen.failed(o, x) for x in rs):
                    ctx.log(J.op(["text"]))
                    raise core.Violation("combined", "%r of %r fails (%.300r), but succeeds for each of them alone" % (o, sorted(kept), r))
                ctx.log(J.op(["text"]))
                return
            if t == "transient_dc":
                tran = 1
            ctx.simtime += a.get("tdelta", 0.0)
            ctx.probe("solved-%d" % len(kept))
            new = {n: J.snap("dev:" + n) for n in kept}
            for j in range(len(devs)):
                n = devs[j][0]
                if n not in kept:
                    continue
                x = solo[j].s
                rs = x.op(o)
                if scen.failed(o, rs):
                    if not built(j):
                        # nothing to solve for yet
                        d = worlds.diff(clean(kept[n]), clean(new[n]))
                        if not d:
                            ctx.probe("without-equations")
                            failed.add(n)
                            continue
                        ctx.probe("partial")
                        return
                    raise core.Violation("alone", "%r of %r succeeds, but for %s alone it fails: %.300r" % (o, sorted(kept), n, rs))
                failed.discard(n)
                compare(J, x, n, new[n], ctx, o, bool(plan["ext"]))
                if j == plan["ckt"]:
                    circuit(J, x, o, bool(plan["ext"]))
            for n in kept:
                kept[n] = J.snap("dev:" + n)
            for j in range(len(devs)):
                if devs[j][0] in kept:
                    same(j, "after %r" % (o,))
    ctx.state("%d %s" % (len(kept), sorted(d[1] for d in devs)))


@worlds.op
def places():
    """Row of the matrix -> what it stands for."""
    import devsim
    out = {}
    for d in devsim.get_device_list():
        for r in devsim.get_region_list(device=d):
            for e in devsim.get_equation_list(device=d, region=r):
                for i, n in enumerate(devsim.get_equation_numbers(device=d, region=r, equation=e)):
                    out[str(n)] = "%s/%s/%s/%d" % (d, r, e, i)
    for n in devsim.get_circuit_node_list():
        out[str(devsim.get_circuit_equation_number(node=n))] = n
    return out


def matrix(s):
    r = s.op(["c", "get_matrix_and_rhs", {"format": "csc"}])
    if r[0] != "ok":
        return None
    w = s.op(["places"])[1]
    if isinstance(w, str):
        raise core.Harness(w)
    out = {}
    for p in ("static", "dynamic"):
        c = Counter()
        m = r[1].get(p)
        if m:
            ap = m["ap"]
            for j in range(len(ap) - 1):
                for k in range(ap[j], ap[j + 1]):
                    c["d %s / d %s = %r" % (w.get(str(m["ai"][k]), "?"), w.get(str(j), "?"), m["av"][k])] += 1
            for j, v in enumerate(m["rhs"]):
                c["%s = %r" % (w.get(str(j), "?"), v)] += 1
        out[p] = c
    return out


def c03_dead(s, dev):
    """Derived models whose base was deleted cannot be loaded."""
    return s.op(["orphans", dev[0]])[1]


@worlds.op
def orphans(dev):
    import devsim
    for r in devsim.get_region_list(device=dev):
        have = set(devsim.get_node_model_list(device=dev, region=r))
        for f in (devsim.get_edge_model_list, devsim.get_element_model_list):
            try:
                for n in f(device=dev, region=r):
                    if "@" in n and ":" not in n and n.split("@")[0] not in have:
                        return True
            except devsim.error:
                pass
    return False


@worlds.op
def nomesh(name):
    """A loaded device has a mesh of its name."""
    import devsim
    if name in devsim.get_mesh_list():
        devsim.delete_mesh(mesh=name)


@worlds.op
def written_all():
    return worlds.OPS["written"]()


@worlds.op
def written_dev(dev):
    import devsim
    for r in devsim.get_region_list(device=dev):
        have = devsim.get_node_model_list(device=dev, region=r)
        for n in c03.SOLUTION:
            if n in have:
                v = devsim.get_node_model_values(device=dev, region=r, name=n)
                devsim.set_node_values(device=dev, region=r, name=n, values=[float("%.15e" % x) for x in v])


def values(st):
    return {(r, n): y["node"][n][1] for r, y in st["regions"].items() for n in y["node"]
            if n in c03.SOLUTION and y["node"][n][0] == "ok"}


def compare(J, x, name, st, ctx, o, ext):
    a, b = values(st), values(x.snap("dev:" + name))
    if set(a) != set(b):
        raise core.Violation("alone", "%s: %r, %r" % (name, sorted(a), sorted(b)))
    exact = True
    for k in sorted(a):
        d = worlds.diff({"": b[k]}, {"": a[k]}, tol=1e-6)
        small = max([abs(v) for v in a[k] + b[k]] + [0.0]) < 1e-12
        if d and not small:
            raise core.Violation("solution", "%s of %s after %r, alone and in the joint session: %s" % (k, name, o, "; ".join(d)))
        exact = exact and repr(a[k]) == repr(b[k])
    ctx.probe("exact" if exact else "close")
    s = x.snap("dev:" + name)
    for c, y in s["contacts"].items():
        for q, z in y["equations"].items():
            w = st["contacts"][c]["equations"].get(q)
            for m in (1, 2):
                p, v = w[m], z[m]
                if p[0] != v[0]:
                    raise core.Violation("current", "%s/%s/%s: %r, alone %r" % (name, c, q, p, v))
                if p[0] == "ok" and not abs(p[1] - v[1]) <= 1e-4 * max(abs(p[1]), abs(v[1])) + 1e-6:
                    raise core.Violation("current", "%s/%s/%s: %r, alone %r" % (name, c, q, p, v))
    for (r, n), v in sorted(a.items()):
        if ext or repr(v) != repr(b[(r, n)]):
            # more digits than can be read
            for q in (x, J) if ext else (x,):
                q.op(["c", "set_node_values", {"device": name, "region": r, "name": n, "values": list(v)}])


def circuit(J, x, o, ext):
    a, b = J.op(["ckt_state"])[1], x.op(["ckt_state"])[1]
    d = worlds.diff(b, a, tol=1e-6)
    bad = [k for k in sorted(set(a["values"]) | set(b["values"])) for n in a["nodes"]
           if not (a["values"].get(k, {}).get(n, ("", 0.0))[1] == b["values"].get(k, {}).get(n, ("", 1.0))[1]
                   or abs(a["values"][k][n][1] - b["values"][k][n][1]) <= 1e-6 * max(1e-3, abs(a["values"][k][n][1])))]
    if bad and d:
        raise core.Violation("circuit", "after %r, alone and in the joint session: %s" % (o, "; ".join(d)))
    for sol, v in a["values"].items():
        for n, y in v.items():
            if y[0] == "ok":
                for q in (x, J) if ext else (x,):
                    q.op(["c", "set_circuit_node_value", {"solution": sol, "node": n, "value": y[1]}])


@worlds.op
def ckt_state():
    return worlds.circuit_state()
