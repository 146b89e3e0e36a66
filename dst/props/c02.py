"""C02: a solve reports success only at a genuine solution."""
import asm
import core
import scen
import worlds

LEVEL = "fault_enumeration"
RUNS = {"quick": 2500, "thorough": 60000}
SHRINK = ["steps", "W.devs", "W.net"]
RULE = ("Each run builds a seeded session (toy devices in 1D to 3D with every kind of bulk, contact and interface term, diodes, circuits, "
        "direct, iterative and user supplied linear solvers, threads) and drives it through a seeded history of dc and transient "
        "solves, loose and tight limits, and linear solver faults (errors, exceptions, wrong, non finite and missing results) at chosen "
        "iterations.  After every solve that reports success an independent assembly of the equations measures the distance to the solution.")
REAL = ["all of devsim (plain build)"]
STUB = ["sparse direct solver (scheduled failures and wrong results)", "BLAS/LAPACK", "symbolic engine", "user supplied solver callback"]
ASSUME = ["a linear solver that returns a wrong, finite update in one iteration but reports success is only told apart by later iterations"]
TIME_UNIT = "seconds of simulated transient time"


def plan(rng, tier, index):
    W = scen.world(rng, kinds=("toy", "toy", "toy", "diode", "ckt"))
    W["devs"] = [[n, k, terms(rng, P) if k == "toy" else P] for n, k, P in W["devs"]]
    W.pop("eq", None)
    if rng.random() < 0.15:
        W["solver"] = "custom"
    steps = []
    tran = 0
    for _ in range(rng.randint(2, 7)):
        mv = [scen.move(rng, W)] if steps and rng.random() < 0.85 else []
        k = rng.random()
        if tran == 0 and k < 0.3:
            op = ["tran", "transient_dc", scen.solve_args(rng, W)]
            tran = 1
        elif tran and k < 0.6:
            typ = rng.choice(scen.TRAN if tran > 1 else scen.TRAN[:2])
            op = ["tran", typ, scen.tran_args(rng, W, typ)]
            tran = 2
        else:
            op = ["dc", scen.solve_args(rng, W)]
        a = op[-1]
        a["relative_error"] = rng.choice([1e-4, 1e-6, 1e-8, 1e-10, 1e-12])
        if rng.random() < 0.25:
            a["absolute_error"] = rng.choice([1e-3, 1e-6, 1e-9])
        a["maximum_iterations"] = rng.choice([2, 4, 8, 30, 60, 60])
        if rng.random() < 0.1:
            a["solver_type"] = "iterative"
        if rng.random() < 0.1:
            a["maximum_error"] = 10.0 ** rng.randint(-6, 3)
        steps.append({"move": mv, "op": op, "faults": faults(rng, W) if rng.random() < 0.6 else []})
    return {"W": W, "steps": steps}


def terms(rng, P):
    """More kinds of terms in the equations of a toy device."""
    P = dict(P)
    x = []
    if rng.random() < 0.3:
        x.append("evol")
    if P["dim"] > 1 and rng.random() < 0.35:
        x.append("nvol")
    if P["nreg"] > 1 and rng.random() < 0.35:
        P["itype"] = "hybrid"
    P["terms"] = x
    return P


def faults(rng, W):
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        if W.get("solver") and rng.random() < 0.7:
            kind, how = rng.choice([("factor", "raise"), ("factor", "status"), ("factor", "none"), ("factor", "badstatus"), ("solve", "raise"), ("solve", "status"),
                                    ("solve", "none"), ("solve", "short"), ("solve", "long"), ("solve", "nan"), ("solve", "allnan"), ("solve", "inf"),
                                    ("solve", "strings"), ("solve", "nox"), ("solve", "nostatus"), ("solve", "onenan")])
            out.append({"seam": "cb", "kind": kind, "how": how, "at": rng.choice([0, 0, 1, 1, 2, 3, 5])})
        elif not W.get("solver"):
            which, kind = rng.choice([(0, 1), (1, 1), (1, 2), (1, 3), (1, 4), (1, 4), (1, 2)])
            out.append({"seam": "math", "which": which, "kind": kind, "at": rng.choice([0, 0, 1, 1, 2, 3, 5])})
    return out


@worlds.op
def toy_terms(dev, P):
    """Adds an edge volume term and element volume terms to the equation of u."""
    import devsim
    for r in worlds.toy_regions(P):
        c = {k: v for k, v in devsim.get_equation_command(device=dev, region=r, name="UEq").items() if v != ""}
        if "evol" in P["terms"]:
            devsim.edge_from_node_model(device=dev, region=r, node_model="u")
            E = "0.1*(u@n0+u@n1)^3"
            devsim.edge_model(device=dev, region=r, name="EV", equation=E)
            for n in ("@n0", "@n1"):
                devsim.edge_model(device=dev, region=r, name="EV:u" + n, equation="diff(%s,u%s)" % (E, n))
            devsim.edge_model(device=dev, region=r, name="EdgeNodeVolume", equation="0.5*EdgeCouple*EdgeLength/%d" % P["dim"])
            devsim.set_parameter(device=dev, region=r, name="edge_node0_volume_model", value="EdgeNodeVolume")
            devsim.set_parameter(device=dev, region=r, name="edge_node1_volume_model", value="EdgeNodeVolume")
            c["edge_volume_model"] = "EV"
        if "nvol" in P["terms"]:
            devsim.element_from_node_model(device=dev, region=r, node_model="u")
            for m, E in (("V0", "0.2*u@en0^3+0.05*u@en1"), ("V1", "0.2*u@en1^3+0.05*u@en0")):
                devsim.element_model(device=dev, region=r, name=m, equation=E)
                for n in ("@en0", "@en1"):
                    devsim.element_model(device=dev, region=r, name=m + ":u" + n, equation="diff(%s,u%s)" % (E, n))
                for n in ("@en2", "@en3")[:P["dim"] - 1]:
                    devsim.element_model(device=dev, region=r, name=m + ":u" + n, equation="0")
                c[{"V0": "volume_node0_model", "V1": "volume_node1_model"}[m]] = m
            devsim.set_parameter(device=dev, region=r, name="element_node0_volume_model", value="ElementNodeVolume")
            devsim.set_parameter(device=dev, region=r, name="element_node1_volume_model", value="ElementNodeVolume")
        devsim.equation(**c)


def translate(o):
    """Circuit commands go through the assembly, which keeps the netlist."""
    if o[0] == "c" and o[1] == "circuit_element":
        return ["element", o[2]]
    if o[0] == "c" and o[1] == "circuit_alter":
        return ["alter", o[2]]
    return o


def begin(W, ctx, s):
    for o in scen.build(W):
        o = translate(o)
        r = s.op(o)
        if r[0] != "ok":
            ctx.probe("unbuilt")
            return False
        if o[0] == "toy" and o[2].get("terms"):
            r = s.op(["toy_terms", o[1], o[2]])
            if r[0] != "ok":
                raise core.Harness("%r" % (r,))
    return True


def check(s, op, hist, ctx, what):
    """Raises unless the state of the session solves what op had to solve."""
    r = s.op(["dump"])
    if r[0] != "ok":
        raise core.Violation("unreadable", "after %s succeeded (%s) the solution cannot be evaluated: %r" % (op, what, r))
    D = r[1]
    D["G"] = list(D["G"])
    try:
        e = asm.excess(D, op, hist, op[-1].get("relative_error", 1e-9))
    except (asm.Singular, IndexError):
        ctx.probe("singular")
        return D
    except asm.Bound:
        ctx.probe("at-bound")
        return D
    ctx.probe("checked-" + (op[1] if op[0] == "tran" else "dc"))
    if not e[0] <= 1.0:
        raise core.Violation("not-a-solution", "%s reported success (%s), but an exact step would move %s = %r by %r (%.3g times what the limits allow)"
                             % (op, what, e[1], e[2], e[3], e[0]))
    return D


def currents(s, D, ctx, op):
    for k, (i, q) in sorted(D["currents"].items()):
        dev, c, eq = k.split("/")
        for f, v in (("get_contact_current", i), ("get_contact_charge", q)):
            r = s.op(["c", f, {"device": dev, "contact": c, "equation": eq}])
            if r[0] != "ok" or not abs(r[1] - v) <= 1e-9 * max(abs(v), mag(D, dev)):
                raise core.Violation("current", "after %s, %s of %s is %r, that of the solution is %r" % (op, f, k, r, v))


def mag(D, dev):
    m = [abs(v) for n, v, i in zip(D["names"], D["x"], D["I"]) if n.startswith(dev + "/")]
    return max(m + [1e-30])


def execute(plan, ctx):
    W = plan["W"]
    s = ctx.session("a")
    if not begin(W, ctx, s):
        return
    hist = []
    for st in plan["steps"]:
        for o in st["move"]:
            r = s.op(translate(o))
            if r[0] != "ok":
                raise core.Violation("move", "%r: %r" % (o, r))
        op = st["op"]
        if op[0] == "tran" and op[1] != "transient_dc" and not hist or op[1] == "transient_bdf2" and len(hist) < 2:
            continue
        if st["faults"]:
            s.op(["arm", st["faults"]])
        r = s.op(op)
        s.op(["text"])
        fired = {}
        if st["faults"]:
            fired = s.op(["disarm"])[1]["fired"]
            for k, n in fired.items():
                f = next((f for f in st["faults"] if f["seam"] == k or k.startswith("cb")), None)
                ctx.fault(k + ("/%s%s" % (f.get("which", ""), f.get("kind", "")) if f and k == "math" else ""), n)
        if r[0] == "py":
            raise core.Violation("wrong-exception", "%s: %r" % (op, r))
        if scen.failed(op, r):
            ctx.probe("failed" + ("-by-fault" if fired else ""))
            continue
        D = check(s, op, hist, ctx, "faults that struck: %r" % (fired,) if fired else "no faults")
        currents(s, D, ctx, op)
        if op[0] == "tran":
            ctx.simtime += op[2].get("tdelta", 0.0)
            if op[1] == "transient_dc":
                hist = []
            hist = [(D["I"], D["Q"])] + hist[:2]
