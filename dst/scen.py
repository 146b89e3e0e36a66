"""Seeded worlds and histories shared by the properties."""
import worlds  # noqa: F401  (registers operations)
import cbs
import devsim
import core

op = worlds.op


@op
def use_solver():
    cbs.use_solver()


@op
def use_math():
    cbs.use_math()


@op
def use_eq(dev, reg, var, eq):
    cbs.use_eq(dev, reg, var, eq)


def _nothing(what, mode):
    return [], [], True


@op
def no_eq():
    # there is no command to remove a custom equation
    devsim.custom_equation(name="ceq", procedure=_nothing)


@op
def arm(f):
    """Arms the faults of one command; f is a list of {seam, ...}."""
    cb = []
    for x in f:
        s = x["seam"]
        if s == "cb":
            cb.append(x)
        elif s == "math":
            core.math_reset()
            core.math_fault(x["which"], x["kind"], x["at"])
        elif s == "thread":
            core.sim().sim_thread_on(x.get("seed", 1), 0, 30)
            core.sim().sim_thread_fail(x["at"], x["n"])
        elif s == "out":
            worlds.OUT.n = 0

            def fault(s, at=x["at"], how=x.get("how", "raise"), n=x.get("n", 1)):
                if s.startswith("\nEND "):
                    # written by a destructor
                    return
                k = worlds.OUT.n
                worlds.OUT.n = k + 1
                if at <= k < at + n:
                    worlds.OUT.fired = getattr(worlds.OUT, "fired", 0) + 1
                    if how == "raisebase":
                        raise KeyboardInterrupt("write %d" % k)
                    raise OSError(28, "no space left in the simulated terminal")
            worlds.OUT.fired = 0
            worlds.OUT.fault = fault
        elif s != "alloc":
            raise core.Harness("seam %r" % s)
    cbs.cb_arm(cb)
    for x in f:
        if x["seam"] == "alloc":
            if "limit" in x:
                core.alloc_limit(x["limit"])
            else:
                core.alloc_arm(x["at"], x["n"])


@op
def disarm():
    """Returns what fired: {seam: n}."""
    out = {}
    n, failed = core.alloc_disarm()
    if failed:
        out["alloc"] = failed
    calls, fired = cbs.cb_disarm()
    for k, v in fired.items():
        out["cb-" + k] = v
    m = core.math_counts()
    if m[2]:
        out["math"] = m[2]
    core.math_reset()
    if worlds.OUT.fault is not None:
        worlds.OUT.fault = None
        if worlds.OUT.fired:
            out["out"] = worlds.OUT.fired
    t = core.thread_stats()
    if t["create_failed"]:
        out["thread"] = t["create_failed"]
    core.sim().sim_thread_fail(-1, 0)
    return {"fired": out, "calls": calls, "nalloc": n}


@op
def threads_on(seed, mode, p):
    core.sim().sim_thread_on(seed, mode, p)


@op
def threads_off():
    core.sim().sim_thread_off()


@op
def extras(dev, P):
    """Models derived from solutions, parameters and circuit nodes."""
    ck = P.get("watch")
    for r in worlds.toy_regions(P):
        devsim.node_model(device=dev, region=r, name="der", equation="u*exp(-u)+top_bias*k" + ("+2*%s" % ck if ck else ""))
        devsim.edge_model(device=dev, region=r, name="dere", equation="u@n0*u@n1*EdgeLength + bot_bias" + ("+%s*%s" % (ck, ck) if ck else ""))
        devsim.node_model(device=dev, region=r, name="der2", equation="der*der + S")
        devsim.edge_from_node_model(device=dev, region=r, node_model="der2")


def toy_P(rng, dims=(1, 1, 1, 2, 2, 3), circuit=None):
    dim = rng.choice(dims)
    P = {"dim": dim, "nreg": rng.choice([1, 1, 2]), "nx": rng.choice([2, 3, 5]) if dim == 1 else rng.choice([1, 2]),
         "ny": 1 if dim == 1 else rng.choice([1, 1, 2, 3] if dim == 2 else [1, 1, 2]),
         "nvar": rng.choice([1, 1, 2]), "elem": dim > 1 and rng.random() < 0.4, "itype": rng.choice(["continuous", "fluxterm"]),
         "top": rng.choice([0.0, 0.2, 0.5]), "bot": rng.choice([0.0, 0.0, -0.1]), "grade": rng.choice([0.0, 0.5])}
    if dim == 3 and rng.random() < 0.5:
        # contacts which share nodes with others
        P["side"] = rng.sample(["alt", "mid", "zed"], rng.choice([1, 1, 2]))
        P["sideeq"] = rng.choice(["uv", "uv", "u", "v", ""])
    if rng.random() < 0.2:
        P["update"] = "log_damp"
    elif rng.random() < 0.12:
        P["update"] = "positive"
        P["init"] = 0.3
        P["top"], P["bot"] = rng.choice([0.2, 0.4]), rng.choice([0.1, 0.3])
    if circuit:
        P["ckt"] = circuit
    return P


def world(rng, maxdev=2, kinds=("toy", "toy", "toy", "diode", "ckt"), opts=True):
    """A plan of a session: list of devices and their surroundings."""
    W = {"devs": [], "net": [], "nodes": []}
    n = rng.choice([1] * 3 + list(range(1, maxdev + 1)))
    usecirc = rng.random() < 0.4
    kind0 = rng.choice(kinds)
    if kind0 == "ckt" or usecirc:
        W["nodes"] = ["vdd", "vm"]
        W["net"] = [{"name": "V1", "n1": "vdd", "n2": "0", "value": rng.choice([0.0, 0.3, 0.5]), "acreal": 1.0},
                    {"name": "R1", "n1": "vdd", "n2": "vm", "value": rng.choice([0.5, 2.0])},
                    {"name": "R2", "n1": "vm", "n2": "0", "value": rng.choice([1.0, 5.0])}]
        if rng.random() < 0.6:
            W["net"].append({"name": "C1", "n1": "vm", "n2": "0", "value": 0.3})
        if rng.random() < 0.3:
            W["nodes"].append("vl")
            W["net"].append({"name": "L1", "n1": "vm", "n2": "vl", "value": 0.2})
            W["net"].append({"name": "R3", "n1": "vl", "n2": "0", "value": 1.5})
        if rng.random() < 0.3:
            W["net"].append({"name": "I1", "n1": "0", "n2": "vm", "value": 0.1})
    if kind0 != "ckt" or rng.random() < 0.5:
        for i in range(n):
            name = rng.choice(["d%d", "a%d", "zz%d"]) % i
            if kind0 == "diode" and i == 0 and rng.random() < 0.8:
                W["devs"].append([name, "diode", {"nx": rng.choice([3, 4]), "fine": 2, "ckt": ["top"] if W["net"] and rng.random() < 0.7 else [],
                                                  "dd": rng.random() < 0.7}])
                if W["devs"][-1][2]["ckt"]:
                    W["net"].append({"name": "Rd", "n1": "vm", "n2": "top_bias", "value": 1e3})
            else:
                c = W["net"] and rng.random() < 0.7
                if kind0 == "diode":
                    c = False
                P = toy_P(rng, circuit=rng.choice(["vm", "vdd"]) if c else None)
                if P.get("update") == "positive" and c:
                    P["init"] = 0.3
                if W["net"]:
                    P["watch"] = "vm"
                if opts and rng.random() < 0.15:
                    W["math"] = True
                    P["S"] = rng.choice(["a*usq(u) + 0.8*u - g", "a*(exp(u)-1)+umul(k,u)-g"])
                W["devs"].append([name, "toy", P])
    if opts:
        if rng.random() < 0.25:
            W["solver"] = "custom"
        if rng.random() < 0.2:
            W["threads"] = [rng.choice([2, 3]), rng.choice([1, 2, 8])]
        toys = [d for d in W["devs"] if d[1] == "toy"]
        if toys and rng.random() < 0.15:
            W["eq"] = toys[0][0]
    return W


def build(W):
    ops = []
    if W.get("solver"):
        ops.append(["use_solver"])
    if W.get("math"):
        ops.append(["use_math"])
    for n in W["nodes"]:
        ops.append(["c", "add_circuit_node", {"name": n}])
    for e in W["net"]:
        if e["name"] != "Rd":
            ops.append(["c", "circuit_element", e])
    for name, kind, P in W["devs"]:
        ops.append([kind, name, P])
        if kind == "toy" and P.get("extras", True):
            ops.append(["extras", name, P])
    for e in W["net"]:
        if e["name"] == "Rd":
            ops.append(["c", "circuit_element", e])
    if W.get("eq"):
        ops.append(["use_eq", W["eq"], "r0", "u", "UEq"])
    if W.get("threads"):
        ops.append(["threads_on", 1234, 0, 30])
        ops.append(["c", "set_parameter", {"name": "threads_available", "value": W["threads"][0]}])
        ops.append(["c", "set_parameter", {"name": "threads_task_size", "value": W["threads"][1]}])
    dd = [d for d in W["devs"] if d[1] == "diode"]
    for name, kind, P in dd:
        ops.append(["dc", {}])
        if P.get("dd"):
            ops.append(["diode_dd", name, P])
    return ops


def move(rng, W, small=False):
    """An operation that changes what the next solve has to find."""
    k = rng.random()
    if W["net"] and k < 0.35:
        e = rng.choice([e for e in W["net"] if e["name"][0] in "VRI" and e["name"] != "Rd"])
        return ["c", "circuit_alter", {"name": e["name"], "value": rng.choice([0.05, 0.1, 0.4]) if e["name"][0] in "VI" else rng.choice([0.7, 3.0])}]
    if not W["devs"]:
        e = W["net"][0]
        return ["c", "circuit_alter", {"name": e["name"], "value": rng.choice([0.05, 0.1, 0.4])}]
    name, kind, P = rng.choice(W["devs"])
    if kind == "toy":
        if k < 0.6 or k < 0.8 and P.get("ckt"):
            return ["c", "set_parameter", {"device": name, "region": "r0", "name": rng.choice(["g", "a", "k"]), "value": rng.choice([0.3, 0.6, 0.9])}]
        pos = P.get("update") == "positive"
        return ["bias", name, rng.choice(["top", "bot"]), rng.choice([0.1, 0.2, 0.35]) if pos else rng.choice([-0.3, 0.0, 0.2, 0.6])]
    return ["bias", name, "bot" if P.get("ckt") else rng.choice(["top", "bot"]), rng.choice([-0.2, 0.0, 0.1, 0.3])]


TRAN = ("transient_bdf1", "transient_tr", "transient_bdf2")


def solve_args(rng, W):
    a = {"absolute_error": 1e12, "relative_error": rng.choice([1e-8, 1e-9, 1e-10]), "maximum_iterations": 60}
    if rng.random() < 0.25:
        a["info"] = True
    if any(d[1] == "toy" for d in W["devs"]) and rng.random() < 0.12:
        a["solver_type"] = "iterative"
    return a


def tran_args(rng, W, typ=None):
    a = solve_args(rng, W)
    a["tdelta"] = rng.choice([1e-9, 2e-10]) if any(d[1] == "diode" for d in W["devs"]) else rng.choice([0.05, 0.1, 0.02])
    a["charge_error"] = 1e10
    # a second order step ends what a trapezoidal step with the same gamma began
    a["gamma"] = rng.choice([0.5857864376269049, 0.5]) if typ == "transient_bdf2" else rng.choice([1.0, 1.0, 0.5857864376269049])
    return a


def failed(kind, r):
    """Whether a solve failed (by exception or by its info dictionary)."""
    return r[0] != "ok" or isinstance(r[1], dict) and r[1].get("converged") in (False, 0)
