"""C03: a saved session restored in a new process behaves like the original."""
import random

import core
import devfile
import scen
import worlds
from props import c01, c06, c16  # noqa: F401

LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 60000}
SHRINK = ["steps", "W.devs", "W.net"]
RULE = ("Half of the runs drive devices with solves (toy and diode devices in 1D to 3D, circuits, custom solver, user functions, custom equation) "
        "through a seeded history of dc and transient solves, definitions, deletions, value and equation edits, in a session that is never "
        "stopped and in one that is stopped again and again - between commands, in the middle of a solve, or while it writes another save - "
        "and continued in a fresh process from the last completed save and the commands since.  All values, lists and results of both are "
        "compared after every restart and command, and the files that both write.  The other half drives generated models (those of C06) "
        "and replaces the process by a restored one at seeded points; every value is compared with an independent evaluation.")
REAL = ["all of devsim (plain build)", "libstdc++ file streams", "Linux file system in a scratch directory"]
STUB = ["file calls (scheduled crashes)", "BLAS/LAPACK", "symbolic engine", "sparse direct solver"]
ASSUME = ["the restart sets parameters, circuit, user functions and custom solver again, in their last state",
          "a time derivative has no history after a restart: transients start again with transient_dc"]
TIME_UNIT = "seconds of simulated transient time"
TOL = 1e-7
SOLUTION = ("u", "v", "ew", "Potential", "Electrons", "Holes")


def plan(rng, tier, index):
    if rng.random() < 0.5:
        p = c06.plan(rng, tier, index)
        p["mode"] = "models"
        n = 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            i = rng.randint(len(p["steps"]) // 4, len(p["steps"]) - 2)
            p["steps"].insert(i, save(rng, 100 + n))
            n += 1
        return p
    W = scen.world(rng)
    W.pop("threads", None)
    toys = [d for d in W["devs"] if d[1] == "toy"]
    for d in toys:
        if d[2].get("dim", 1) > 1 and rng.random() < 0.4:
            d[2]["pt"] = True
    steps = []
    if rng.random() < 0.7:
        steps.append({"s": "op", "op": ["dc", scen.solve_args(rng, W)]})
    n = 0
    for _ in range(rng.randint(3, 9)):
        k = rng.random()
        if k < 0.3 or n == 0 and k < 0.5:
            steps.append(save(rng, n))
            n += 1
        elif k < 0.45:
            steps.append({"s": "op", "op": scen.move(rng, W)})
        elif k < 0.65:
            steps.append({"s": "op", "op": ["dc", scen.solve_args(rng, W)]})
        elif k < 0.78:
            typ = rng.choice(("transient_dc",) + scen.TRAN)
            steps.append({"s": "tran", "op": ["tran", typ, scen.tran_args(rng, W, typ)]})
        elif toys:
            d = rng.choice(toys)
            steps.append({"s": "op", "op": edit(rng, d)})
    steps.append(save(rng, n))
    for _ in range(rng.choice([1, 2, 3])):
        steps.append({"s": "op", "op": rng.choice([["dc", scen.solve_args(rng, W)], scen.move(rng, W)])})
    return {"mode": "solve", "W": W, "steps": steps, "each": rng.random() < 0.3, "odd": rng.random() < 0.2}


def save(rng, n):
    return {"s": "save", "file": "io/save%d" % (n % 3), "typ": rng.choice([None, "devsim"]), "seed": rng.randint(0, 10 ** 9),
            # how the process ends: not at all, when told to, in the middle of a solve, or of a later save
            "end": rng.choice(["none", "exit", "exit", "kill", "crash", "crash"]), "f": rng.random(), "before": rng.choice([False, True, "analysed"])}


def edit(rng, d):
    name, _, P = d
    elem = P.get("dim", 1) > 1 and rng.random() < 0.5
    r = rng.choice(worlds.toy_regions(P))
    k = rng.randrange(11)
    if k < 3:
        return ["models", name, rng.randrange(4), elem]
    if k == 3:
        return ["setnodes", name, r, rng.choice(["u", "u", "v"]) if P.get("nvar") == 2 else "u", [rng.choice([0.1, 0.2, 0.35]) for _ in range(rng.choice([1, 1, 3]))]]
    if k == 4:
        return ["data", name, r, elem, [rng.uniform(-1, 1) * 10.0 ** rng.choice([0, 0, 5, 200, -200, -308]) for _ in range(rng.choice([1, 4]))]]
    if k == 5:
        return ["c", rng.choice(["delete_node_model", "delete_edge_model"]), {"device": name, "region": r, "name": rng.choice(["m_grad", "dere", "m_avg"])}]
    if k == 6:
        return ["c", rng.choice(["set_material"]), {"device": name, "region": r, "material": rng.choice(["Si", "Gate oxide", "M7"])}]
    if k == 7:
        return rng.choice([["c", "cylindrical_node_volume", {"device": name, "region": r}],
                           ["c", "set_material", {"device": name, "contact": "top", "material": "poly Si"}],
                           ["c", "delete_contact_equation", {"device": name, "contact": "bot", "name": "UEq"}],
                           ["c", "contact_node_model", {"device": name, "contact": "top", "name": "m_c", "equation": "u*x+contactcharge_node"}],
                           ["c", "contact_edge_model", {"device": name, "contact": "top", "name": "m_ce", "equation": "u@n0*EdgeLength"}],
                           ["c", "interface_normal_model", {"device": name, "region": r, "interface": "i1"}]])
    if k > 8:
        return ["eqopts", name, rng.getrandbits(30), elem]
    if rng.random() < 0.4:
        return [rng.choice(["eqmoved", "eqmoved", "eqsecond"]), name, r]
    return ["equpd", name, r, rng.choice(["default", "log_damp", "positive"]), bool(P.get("elem")), rng.choice([0, 1, 2, 3])]


@worlds.op
def written():
    """Gives all solution variables the precision of a file."""
    import devsim
    for d in devsim.get_device_list():
        for r in devsim.get_region_list(device=d):
            have = devsim.get_node_model_list(device=d, region=r)
            for n in SOLUTION:
                if n in have:
                    v = devsim.get_node_model_values(device=d, region=r, name=n)
                    devsim.set_node_values(device=d, region=r, name=n, values=[float("%.15e" % x) for x in v])


@worlds.op
def precise():
    """Whether the coordinates survive a file."""
    import devsim
    for d in devsim.get_device_list():
        for r in devsim.get_region_list(device=d):
            for n in "xyz":
                if any(float("%.15e" % x) != x for x in devsim.get_node_model_values(device=d, region=r, name=n)):
                    return False
    return True


@worlds.op
def data(dev, reg, elem, v):
    """Data without a definition, on nodes, edges and elements."""
    import devsim
    a = dict(device=dev, region=reg)
    kinds = [(devsim.node_solution, devsim.set_node_values, devsim.get_node_model_values, "d_n"),
             (devsim.edge_solution, devsim.set_edge_values, devsim.get_edge_model_values, "d_e")]
    if elem:
        kinds.append((devsim.element_solution, devsim.set_element_values, devsim.get_element_model_values, "d_l"))
    for new, put, get, n in kinds:
        new(name=n, **a)
        m = len(get(name=n, **a))
        put(name=n, values=[float("%.15e" % v[i % len(v)]) for i in range(m)], **a)


@worlds.op
def equpd(dev, reg, how, elem, n):
    """Another form of the equation."""
    import devsim
    kw = {"element_model": "F"} if elem else {"edge_model": "F"}
    if n == 1:
        devsim.node_model(device=dev, region=reg, name="S2", equation="S*1.5")
        devsim.node_model(device=dev, region=reg, name="S2:u", equation="S:u*1.5")
        kw["node_model"] = "S2"
    elif n == 2:
        kw.update(node_model="S", time_node_model="Q")
    elif n == 3:
        devsim.edge_model(device=dev, region=reg, name="Sev", equation="0.1*u@n0*u@n1")
        devsim.edge_model(device=dev, region=reg, name="Sev:u@n0", equation="0.1*u@n1")
        devsim.edge_model(device=dev, region=reg, name="Sev:u@n1", equation="0.1*u@n0")
        kw.update(node_model="S", edge_volume_model="Sev")
    else:
        kw["node_model"] = "S"
    devsim.equation(device=dev, region=reg, name="UEq", variable_name="u", variable_update=how, **kw)


@worlds.op
def eqopts(dev, seed, elem):
    """Equations with seeded options of all kinds."""
    import devsim
    rng = random.Random(seed)
    where = rng.choice(["region", "region", "contact", "contact", "interface"])
    regs = sorted(devsim.get_region_list(device=dev))
    if where == "interface" and devsim.get_interface_list(device=dev):
        i = rng.choice(sorted(devsim.get_interface_list(device=dev)))
        r0, r1 = devsim.get_region_list(device=dev, interface=i)
        n0, n1 = (rng.choice(sorted(devsim.get_equation_list(device=dev, region=r)) or ["UEq"]) for r in (r0, r1))
        m = rng.choice(sorted(devsim.get_interface_model_list(device=dev, interface=i)) or ["Iu"])
        kw = dict(device=dev, interface=i, interface_model=m, type=rng.choice(["continuous", "fluxterm", "hybrid"]))
        if n0 == n1 and rng.random() < 0.5:
            kw["name"] = n0
        else:
            kw.update(name=rng.choice([n0, "other"]), name0=n0, name1=n1)
        return devsim.interface_equation(**kw)
    reg = rng.choice(regs)
    if where == "contact":
        contact = rng.choice(sorted(devsim.get_contact_list(device=dev)))
        reg = devsim.get_region_list(device=dev, contact=contact)[0]
    devsim.edge_from_node_model(device=dev, region=reg, node_model="u")
    if devsim.get_dimension(device=dev) > 1 and elem:
        devsim.element_from_node_model(device=dev, region=reg, node_model="u")
        for n, a, b in (("L0", "en0", "en1"), ("L1", "en1", "en0"), ("L2", "en0", "en0")):
            devsim.element_model(device=dev, region=reg, name=n, equation="0.2*u@%s^3+0.05*u@%s" % (a, b))
            for d in ("en0", "en1", "en2", "en3")[:1 + devsim.get_dimension(device=dev)]:
                devsim.element_model(device=dev, region=reg, name="%s:u@%s" % (n, d), equation="diff(0.2*u@%s^3+0.05*u@%s,u@%s)" % (a, b, d))
    for n, v in (("edge_node0_volume_model", "EdgeNodeVolume"), ("edge_node1_volume_model", "EdgeNodeVolume"),
                 ("element_node0_volume_model", "ElementNodeVolume"), ("element_node1_volume_model", "ElementNodeVolume")):
        devsim.set_parameter(device=dev, region=reg, name=n, value=v)
    models = {"node": [n for n in ("S", "Q", "u", "Sv") if n in devsim.get_node_model_list(device=dev, region=reg)],
              "edge": [n for n in ("F", "G", "EdgeLength") if n in devsim.get_edge_model_list(device=dev, region=reg)],
              "element": ["L0", "L1", "L2"] if elem and devsim.get_dimension(device=dev) > 1 else []}
    kw = dict(device=dev, name=rng.choice(["UEq", "UEq", "UEq", "VEq"]))
    if where == "contact":
        kw["contact"] = contact
        have = devsim.get_equation_list(device=dev, region=reg)
        if kw["name"] not in have:
            kw["name"] = "UEq"
        opts = {"node": ["node_model", "node_current_model", "node_charge_model"],
                "edge": ["edge_model", "edge_volume_model", "edge_current_model", "edge_charge_model"],
                "element": ["element_model", "volume_node0_model", "volume_node1_model", "element_current_model", "element_charge_model"]}
    else:
        kw.update(region=reg, variable_name="v" if kw["name"] == "VEq" else "u", variable_update=rng.choice(["default", "log_damp", "positive"]))
        opts = {"node": ["node_model", "time_node_model"], "edge": ["edge_model", "edge_volume_model"],
                "element": ["element_model", "volume_node0_model", "volume_node1_model"]}
    for k, l in opts.items():
        for o in l:
            if models[k] and rng.random() < 0.5:
                kw[o] = rng.choice(models[k])
    for a, b in ((0, 1), (1, 0)):
        # (one of them alone is an assertion at contacts)
        if "volume_node%d_model" % a in kw:
            kw.setdefault("volume_node%d_model" % b, "L1")
    if where == "contact":
        return devsim.contact_equation(**kw)
    return devsim.equation(**kw)


@worlds.op
def eqmoved(dev, reg):
    """Gives the equation another variable, and the first one again."""
    import devsim
    if "ew" not in devsim.get_node_model_list(device=dev, region=reg):
        devsim.node_solution(device=dev, region=reg, name="ew")
    q = devsim.get_equation_command(device=dev, region=reg, name="UEq")
    devsim.equation(**dict(q, variable_name="ew"))
    devsim.equation(**q)


@worlds.op
def eqsecond(dev, reg):
    """A further equation."""
    import devsim
    if "ew" not in devsim.get_node_model_list(device=dev, region=reg):
        devsim.node_solution(device=dev, region=reg, name="ew")
    devsim.node_model(device=dev, region=reg, name="ewm", equation="(ew-0.5)*NodeVolume")
    devsim.node_model(device=dev, region=reg, name="ewm:ew", equation="NodeVolume")
    devsim.equation(device=dev, region=reg, name="WEq", variable_name="ew", node_model="ewm")


# ------------------------------------------------------------------ restoring
def params_of(st):
    """set_parameter commands that give a session the parameters of a snapshot: (global, of devices)."""
    g, d = [], []
    for n, v in st["params"].items():
        if v[0] == "ok" and isinstance(v[1], (bool, int, float, str)) and n not in ("direct_solver", "solver_callback", "devsim_version"):
            g.append(["c", "set_parameter", {"name": n, "value": v[1]}])
    for dev, x in st["devices"].items():
        for n, v in x["params"].items():
            d.append(["c", "set_parameter", {"device": dev, "name": n, "value": v[1]}])
        for r, y in x["regions"].items():
            for n, v in y["params"].items():
                d.append(["c", "set_parameter", {"device": dev, "region": r, "name": n, "value": v[1]}])
    return g, d


def values_of(st):
    out = []
    for sol, v in st["circuit"]["values"].items():
        for n, x in v.items():
            if x[0] == "ok":
                out.append(["c", "set_circuit_node_value", {"solution": sol, "node": n, "value": x[1]}])
    return out


def start(s, st):
    """There are circuit values to set only once a matrix has been assembled."""
    if st["circuit"]["values"]:
        must(s, ["c", "get_matrix_and_rhs", {"format": "csc"}], "before circuit values are set")


def must(s, o, when):
    r = s.op(o)
    if r[0] != "ok":
        raise core.Violation("restore", "%.300r %s: %.600r" % (o, when, r[1:]), key="restore-" + (o[1] if o[0] == "c" else o[0]))
    return r[1]


class Twin:
    """The session that is restarted."""

    def __init__(self, ctx, W):
        self.ctx, self.W = ctx, W
        self.circuit = []   # commands that make the circuit
        self.n = 0
        self.s = ctx.session("b")

    def restore(self, files, st, before):
        """A fresh process continues from saved files; st is the snapshot when they were written."""
        W = self.W
        self.n += 1
        s = self.s = self.ctx.session("b%d" % self.n)
        g, d = params_of(st)
        if W.get("solver"):
            must(s, ["use_solver"], "in a fresh process")
        if W.get("math"):
            must(s, ["use_math"], "in a fresh process")
        for o in g:
            must(s, o, "in a fresh process")
        if before:
            for o in self.circuit:
                must(s, o, "in a fresh process")
            if before == "analysed":
                start(s, st)
        for f in files:
            must(s, ["load", f], "in a fresh process")
        if not before:
            for o in self.circuit:
                must(s, o, "after the load")
        for o in d:
            must(s, o, "after the load")
        start(s, st)
        for o in values_of(st):
            must(s, o, "after the load")
        if W.get("eq"):
            must(s, ["use_eq", W["eq"], "r0", "u", "UEq"], "after the load")
        return s


def strip(st):
    st = worlds.strip_currents(st)
    st["order"] = tuple(sorted(st["order"]))
    st["meshes"] = ()
    return st


def nocirc(d):
    return [x for x in d if not x.startswith("/circuit/values/")]


def same(a, b, exact):
    """Everything has to be the same, or, where lengths differ in the last place, all but what is calculated from the solution."""
    if exact:
        return worlds.diff(strip(a), strip(b), tol=1e-13)
    return worlds.diff(solved(strip(a)), solved(strip(b)), tol=TOL)


def solved(st):
    """What remains of a snapshot without the values of the models that are not solved for."""
    out = dict(st, devices={})
    out["circuit"] = dict(st["circuit"], values={k: {n: (v[0], 0.0 if v[0] == "ok" and abs(v[1]) < 1e-14 else v[1]) for n, v in x.items()}
                                                 for k, x in st["circuit"]["values"].items()})
    for d, x in st["devices"].items():
        out["devices"][d] = dict(x, regions={}, contacts=tuple(x["contacts"]), interfaces=tuple(x["interfaces"]))
        for r, y in x["regions"].items():
            out["devices"][d]["regions"][r] = dict(y, node={n: v if n in SOLUTION else "" for n, v in y["node"].items()}, edge=tuple(y["edge"]),
                                                   element=tuple(y["element"]))
    return out


def content(x):
    """A parsed file; how a constant is stored is not what is compared."""
    out = {}
    for d in x:
        e = out["dev " + d["name"]] = {"coordinates": tuple(v for c in d["coordinates"] for v in c)}
        for k in ("regions", "contacts", "interfaces"):
            for n, y in d[k].items():
                z = e[k + " " + n] = {"head": tuple(y["head"]), "equations": {q: v for q, v in y["equations"].items()},
                                      "elements": {q: tuple(v) for q, v in y["elements"].items()}, "models": {}}
                for (mk, mn), (t, v) in y["models"].items():
                    if t == "DATA" and len(set(v)) == 1:
                        t, v = "UNIFORM", v[0]
                    z["models"]["%s %s" % (mk, mn)] = (t, tuple(v) if isinstance(v, list) else v)
    return out


def fileof(s, f):
    r = s.op(["file_bytes", f])
    if r[0] != "ok":
        raise core.Violation("no-file", "%s: %r" % (f, r[1:]))
    try:
        return content(devfile.parse(bytes.fromhex(r[1])))
    except devfile.Odd as e:
        raise core.Violation("file", "%s is not in the format: %s" % (f, e))


# ------------------------------------------------------------------ execution
def execute(plan, ctx):
    if plan["mode"] == "models":
        return models_run(plan, ctx)
    W = plan["W"]
    A = ctx.session("a")
    T = Twin(ctx, W)
    ops = scen.build(W)
    net = [e for e in W["net"]]
    dio = [(d[0], d[2]["ckt"]) for d in W["devs"] if d[1] == "diode"]
    for n in W["nodes"]:
        T.circuit.append(["c", "add_circuit_node", {"name": n}])
    for e in net:
        if e["name"] != "Rd":
            T.circuit.append(["c", "circuit_element", e])
    for _, ck in dio:
        for c in ck:
            T.circuit.append(["c", "add_circuit_node", {"name": c + "_bias", "variable_update": "default"}])
    for e in net:
        if e["name"] == "Rd":
            T.circuit.append(["c", "circuit_element", e])
    for o in ops:
        a, b = A.op(o), T.s.op(o)
        if repr(a) != repr(b):
            raise core.Violation("twin", "%r: %r, %r" % (o, a, b))
        if a[0] != "ok":
            ctx.probe("unbuilt")
            return
    # (constants in the models of the diodes have more digits than a file)
    T.exact = must(A, ["precise"], "") and not any(d[1] == "diode" for d in W["devs"])
    ctx.probe("precise-%s" % T.exact)
    alters = {}
    saved = None     # (files, snapshot of A then, commands since)
    tran = 0
    for st in plan["steps"]:
        if st["s"] == "save":
            if not W["devs"]:
                continue
            files = []
            for z in (A, T.s):
                must(z, ["written"], "before a save")
            for d in (sorted(x[0] for x in W["devs"]) if plan["each"] else [None]):
                f = st["file"] + (d or "")
                o = ["write", f, st["typ"], d, None]
                a = A.op(["write", f + ".a", st["typ"], d, None])
                b = T.s.op(o)
                if repr(a) != repr(b) or a[0] != "ok":
                    raise core.Violation("save", "%r: %.300r in the session never stopped, %.300r after restarts" % (o, a, b))
                files.append(f)
            for f in files:
                d = worlds.diff(fileof(A, f + ".a"), fileof(T.s, f), tol=TOL if T.n else 1e-12)
                if d:
                    raise core.Violation("saved", "what a restored session saves is not what the one never stopped saves: %s" % "; ".join(d))
            snap = A.snap()
            T.s.snap()
            saved = (files, snap)
            if st["end"] == "none":
                ctx.probe("saved")
                continue
            if st["end"] == "crash":
                # it comes to nothing in the middle of the next save or solve
                k = int(st["f"] * 60)
                T.s.call(core.io_arm, [{"op": "write", "kind": "crash", "at": k % 4, "arg": int(st["f"] * 5000)}])
                try:
                    T.s.op(["write", "io/torn", None, None, None])
                    T.s.kill()
                except core.SimCrash:
                    ctx.fault("crash-in-write")
            else:
                ctx.fault(st["end"])
                T.s.kill()
            restart(T, ctx, saved, alters, A, st)
            tran = 0
            continue
        op = st["op"]
        if st["s"] == "tran":
            if op[1] == "transient_bdf2" and tran < 2 or op[1] != "transient_dc" and not tran:
                op = [op[0], "transient_dc", {k: v for k, v in op[2].items() if k not in ("tdelta", "charge_error", "gamma")}]
        a, b = A.op(op), T.s.op(op)
        if op[0] == "c" and op[1] == "circuit_alter" and a[0] == "ok":
            alters[op[2]["name"]] = op
        T.circuit = [x for x in T.circuit if x[1] != "circuit_alter"] + [alters[k] for k in sorted(alters)]
        if st["s"] == "tran":
            tran = (1 if op[1] == "transient_dc" else 2) if not scen.failed(op, a) else 0
        if a[0] != b[0] or scen.failed(op, a) != scen.failed(op, b):
            if not T.exact and op[0] in ("dc", "tran"):
                # (at the limit of what converges)
                ctx.probe("limit")
                return
            raise core.Violation("outcome", "%r: %.300r in the session never stopped, %.300r after %d restarts" % (op, a, b, T.n), key="outcome-" + op[0])
        if a[0] == "ok" and not (op[0] in ("dc", "tran")):
            d = worlds.diff({"r": a[1]}, {"r": b[1]}, tol=TOL)
            if d:
                raise core.Violation("result", "%r: %s" % (op, "; ".join(d)))
        ctx.probe("%s-%s" % (op[1] if op[0] == "c" else op[0], a[0]))
        if op[0] in ("dc", "tran") and scen.failed(op, a):
            # what a failed step leaves is what there was
            ctx.probe("failed")
        d = same(A.snap(), T.s.snap(), T.exact)
        if d:
            raise core.Violation("state", "after %r the restored session (%d restarts) differs: %s" % (op, T.n, "; ".join(d)), key="state-" + op[0])
        if op[0] in ("dc", "tran") and not scen.failed(op, a):
            x, y = (currents(z.snap()) for z in (A, T.s))
            floor = 1e-12 if T.exact else 1e-7
            for d in x:
                if any(not abs(p - q) <= 1e-4 * max(abs(p), abs(q)) + floor for p, q in zip(x[d], y[d])):
                    raise core.Violation("currents", "%s after %r: %r, %r" % (d, op, x[d], y[d]))
    ctx.state("%d restarts" % T.n)


def currents(st):
    """Contact currents and charges, those of a device as one vector."""
    out = {}
    for d, x in st["devices"].items():
        v = []
        for c, y in sorted(x["contacts"].items()):
            for q, z in sorted(y["equations"].items()):
                v += [z[1][1] if z[1][0] == "ok" else 0.0, z[2][1] if z[2][0] == "ok" else 0.0]
        out[d] = tuple(v)
    return out


def restart(T, ctx, saved, alters, A, st):
    files, snap = saved
    s = T.restore(files, snap, st["before"])
    d = same(snap, s.snap(), T.exact)
    if d:
        raise core.Violation("restored", "the session restored from %s differs from the one saved: %s" % (files, "; ".join(d)), key="restored-" + keyof(d))
    ctx.probe("restart")


def keyof(d):
    p = d[0].split(":")[0].split("/")
    return "-".join(x for x in p if x in ("contacts", "interfaces", "regions", "circuit", "params", "equations", "models", "node", "edge", "element", "nodes", "elements", "material"))


# ------------------------------------------------------------------ generated models
class Reader(c06.Run):
    def settle(self):
        """No definition may mean another thing now than when it was entered."""
        for _ in range(20):
            w = self.world
            bad = [k for k in w.keys() if w.table(*k[:3])[k[3]]["t"] == "expr"
                   and any(w.is_model(k[0], k[1], k[2], n) for n in w.table(*k[:3])[k[3]]["free"])]
            dead = [k for k in w.keys() if w.table(*k[:3])[k[3]]["t"] == "orphan"
                    or any(not w.is_model(kind, k[1], k[2], of) for kind, of in self.base(k))]
            if not bad and not dead:
                return
            for k in bad:
                de = w.table(*k[:3])[k[3]]
                self.step({"s": "def", "kind": k[0], "dev": k[1], "where": k[2], "name": k[3], "e": de["e"], "contact": de.get("contact")})
                if w.table(*k[:3])[k[3]] is de:
                    self.step({"s": "del", "kind": k[0], "dev": k[1], "where": k[2], "name": k[3]})
            for k in dead:
                if k[3] in w.table(*k[:3]):
                    self.step({"s": "del", "kind": k[0], "dev": k[1], "where": k[2], "name": k[3]})
        raise core.Harness("unsettled")

    def base(self, k):
        """The models that a derived model is made of; a file without them cannot be loaded."""
        de = self.world.table(*k[:3])[k[3]]
        if de["t"] in ("end", "avg", "avgd"):
            return [("node", de["of"])]
        if de["t"] == "opaque":
            return [tuple(x) for x in de["deps"]]
        return []

    def save(self, st):
        self.settle()
        s = self.s
        f = st["file"]
        must(s, ["write", f, st["typ"], None, None], "before the restart")
        keys = self.world.keys()
        old = s.op(["readm", [list(k) for k in keys]])[1]
        want = self.values(keys)
        snap = s.snap()
        # (differences of nearly equal values are not those of the original where lengths differ in the last place)
        close = 1e-9 if self.extended else 1e-12 if must(s, ["precise"], "") and not self.W["solve"] else None
        self.ctx.fault(st["end"])
        s.kill()
        self.n = getattr(self, "n", 0) + 1
        s = self.s = self.ctx.session("r%d" % self.n)
        W = self.W
        circuit = [["c", "add_circuit_node", {"name": n}] for n in W["nodes"]] + [["c", "circuit_element", e] for e in W["net"]]
        if W.get("alias"):
            circuit.append(["c", "circuit_node_alias", {"node": "vm", "alias": "alt"}])
        g, d = params_of(snap)
        for o in g + (circuit if st["before"] else []):
            must(s, o, "in a fresh process")
        if st["before"] == "analysed":
            start(s, snap)
        must(s, ["load", f], "in a fresh process")
        for o in ([] if st["before"] else circuit) + d:
            must(s, o, "after the load")
        start(s, snap)
        for o in values_of(snap):
            must(s, o, "after the load")
        rng = random.Random(st["seed"])
        order = list(range(len(keys)))
        rng.shuffle(order)
        new = s.op(["readm", [list(keys[i]) for i in order]])[1]
        for i, y in zip(order, new):
            self.compare(keys[i], want[i], y, "after a restart")
            x = old[i]
            if isinstance(want[i], core_missing):
                continue
            if x[0] == "ok" and y[0] == "ok" and close:
                if len(x[1]) != len(y[1]) or any(not abs(p - q) <= close * max(abs(p), abs(q)) + 1e-13 and p != q and p == p for p, q in zip(x[1], y[1])):
                    raise core.Violation("values", "%r after a restart: %r, %r" % (keys[i], x[1], y[1]))
        a, b = snap, s.snap()
        for dev in a["devices"]:
            for r in a["devices"][dev]["regions"]:
                for k in ("node", "edge", "element"):
                    x, y = (set(z["devices"][dev]["regions"][r][k]) if isinstance(z["devices"][dev]["regions"][r][k], dict) else set() for z in (a, b))
                    if x != y:
                        raise core.Violation("list", "%s models of %s/%s after a restart: lost %r, new %r" % (k, dev, r, sorted(x - y), sorted(y - x)))
                for k in ("elements", "equations", "material"):
                    df = worlds.diff({k: a["devices"][dev]["regions"][r][k]}, {k: b["devices"][dev]["regions"][r][k]})
                    if df:
                        raise core.Violation("restored", "%s/%s: %s" % (dev, r, "; ".join(df)), key="restored-" + k)
        # (a deleted model that a definition refers to is an unknown name in the new process)
        for k in keys:
            de = self.world.table(*k[:3])[k[3]]
            if de["t"] == "expr":
                de["free"] = self.world.free(k[0], k[1], k[2], de["e"])
        self.sync()
        self.ctx.probe("restart")


core_missing = c06.gen.Missing


def models_run(plan, ctx):
    run = Reader(plan["W"], ctx)
    for st in plan["steps"]:
        if st["s"] == "save":
            run.save(st)
        else:
            run.step(st)
