"""C07: results do not depend on thread count, task size or thread schedule."""
import subprocess

import core
import scen
import worlds
from props import c02, c12  # noqa: F401

LEVEL = "fault_enumeration"
VARIANT = "sched"
RUNS = {"quick": 700, "thorough": 30000}
SHRINK = ["steps", "W.devs", "W.net"]
RULE = ("Each run drives the same seeded history (models of all kinds, floating point failures at single positions, parameter and solution "
        "changes, dc, transient and small signal solves, double and extended precision) through a single threaded session and through a "
        "session with seeded numbers of threads and task sizes, in which a seeded scheduler (synchronisation points only, random preemption at "
        "memory accesses, or priorities with change points) decides every interleaving, and thread creation and allocations inside workers "
        "fail at seeded points.  Results, errors and every value read have to be the same bit for bit, a vector clock detector watches every "
        "memory access of the simulator for races, and after a failed command no worker may be alive and its repetition has to agree.")
REAL = ["all of devsim (instrumented build)", "std::async of libstdc++"]
STUB = ["thread scheduling (pthread_create, mutexes, condition variables, futexes, guards)", "operator new and pthread_create (scheduled failures)",
        "BLAS/LAPACK", "sparse direct solver", "symbolic engine"]
ASSUME = ["memory accesses inside libstdc++ and libm are not watched for races"]
TIME_UNIT = "seconds of simulated transient time"


def plan(rng, tier, index):
    W = scen.world(rng, kinds=("toy", "toy", "toy", "diode", "ckt"))
    W.pop("threads", None)
    W.pop("eq", None)
    devs = []
    for n, k, P in W["devs"]:
        if k == "toy":
            P = c02.terms(rng, P)
            P["nx"] = rng.choice([3, 5, 7, 10, 16]) if P["dim"] == 1 else rng.choice([1, 2, 3])
        devs.append([n, k, P])
    W["devs"] = devs
    steps = []
    tran = 0
    for _ in range(rng.randint(2, 8)):
        k = rng.random()
        toys = [d for d in devs if d[1] == "toy"]
        if k < 0.35 and toys:
            n, _, P = rng.choice(toys)
            r = "r%d" % rng.randrange(P.get("nreg", 1))
            op = model(rng, n, r, P)
        elif k < 0.55:
            op = scen.move(rng, W)
        elif k < 0.62 and toys:
            op = ["setnodes", rng.choice(toys)[0], "r0", "u", [rng.choice([0.0, 0.1, 0.25, 0.3, 0.5, 1.0]) for _ in range(rng.choice([1, 3, 4, 7]))]]
        elif k < 0.7:
            op = ["small", {"type": "ac", "frequency": rng.choice([0.1, 1.0])}]
        elif k < 0.8:
            typ = "transient_dc" if not tran else rng.choice(scen.TRAN if tran > 1 else scen.TRAN[:2])
            op = ["tran", typ, scen.solve_args(rng, W) if not tran else scen.tran_args(rng, W, typ)]
            tran += 1
        else:
            op = ["dc", scen.solve_args(rng, W)]
        more = []
        if op[0] == "spike":
            for i, e in enumerate(rng.sample(BIG, rng.choice([1, 2, 4]))):
                kw = {"device": op[1], "region": op[2], "name": "b%d" % i}
                more.append({"op": ["c", "node_model", dict(kw, equation=e)], "set": None, "f": []})
                more.append({"op": ["c", "get_node_model_values", kw], "set": None, "f": []})
        st = {"op": op, "set": None, "f": []}
        if rng.random() < 0.3:
            st["set"] = [rng.choice([1, 2, 3, 4, 5, 7, 16, 0]), rng.choice([0, 1, 2, 3, 5, 8, 100])]
        if rng.random() < 0.3:
            st["f"] = [{"seam": "thread", "at": rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 20]), "n": rng.choice([1, 1, 2, 10**6])} if rng.random() < 0.6 else
                       {"seam": "alloc", "at": rng.choice([0, 1, 2, 5, 10, 20, 50, 100, 300, 1000]), "n": 1}]
        steps += [st] + more
    return {"W": W, "steps": steps, "first": [rng.choice([2, 2, 3, 4, 6]), rng.choice([0, 1, 1, 2, 3])],
            "sched": [rng.randrange(1 << 30), *rng.choice([[0, 30], [1, 30], [1, 300], [1, 300], [1, 3000], [1, 10000], [2, 300], [2, 5000]])],
            "ext": rng.random() < 0.1, "extm": rng.random() < 0.12}


EXPR = ["1/(u-0.25)", "log(u-0.2)", "exp(3000*u)", "pow(u-0.1, 0.5)", "u*u+k*exp(-u)", "ifelse(u > 0.2, u, -u)", "vec_max(u)-u", "vec_sum(u)*a",
        "1/(x-0.5)", "B(u)*dBdx(u)", "erf(u)+sqrt(abs(u))", "sqrt(u-0.3)", "der*u+node_index", "Fermi(u)+InvFermi(0.3+u)"]


BIG = ["big*big", "u+big*big", "a*big*3*big", "big*small", "big*big*small", "(big+big)*(1+big)", "small*small*k", "big*k-big*big*x"]


@worlds.op
def spike(dev, reg, at, v):
    """A few nodes hold a value whose square is out of range, or nearly."""
    import devsim
    for name, rest, val in (("big", 1.0, v), ("small", 1.0, 1.0 / v)):
        devsim.node_solution(device=dev, region=reg, name=name)
        devsim.edge_from_node_model(device=dev, region=reg, node_model=name)
        n = len(devsim.get_node_model_values(device=dev, region=reg, name=name))
        q = {int(f * n) for f in at}
        devsim.set_node_values(device=dev, region=reg, name=name, values=[val if i in q else rest for i in range(n)])


def model(rng, n, r, P):
    k = rng.random()
    m = rng.choice(["m0", "m1", "m2"])
    if rng.random() < 0.3:
        k = rng.random()
        if k < 0.5:
            return ["spike", n, r, [rng.random() * rng.choice([0.2, 1, 1]) for _ in range(rng.choice([1, 1, 2]))], rng.choice([1e200, 1e160, -1e200, 1e150])]
        if k < 0.75:
            return ["c", "node_model", {"device": n, "region": r, "name": m, "equation": rng.choice(BIG)}]
        return ["c", "edge_model", {"device": n, "region": r, "name": "e" + m, "equation": rng.choice(["big@n0*big@n1", "u@n0+big@n0*big@n0", "big@n1*small@n0*big@n1"])}]
    if k < 0.5:
        return ["c", "node_model", {"device": n, "region": r, "name": m, "equation": rng.choice(EXPR)}]
    if k < 0.7:
        return ["c", "edge_model", {"device": n, "region": r, "name": "e" + m, "equation": rng.choice(["u@n0-u@n1", "1/(u@n0-0.25)", "log(u@n1)*EdgeLength", "exp(2000*u@n1)"])}]
    if k < 0.78:
        return ["c", "edge_average_model", {"device": n, "region": r, "node_model": "u", "edge_model": "avg",
                                           "average_type": rng.choice(["arithmetic", "geometric", "gradient", "negative_gradient"])}]
    if k < 0.84:
        return ["c", "vector_gradient", {"device": n, "region": r, "node_model": "u"}]
    if k < 0.9:
        return ["c", "edge_from_node_model", {"device": n, "region": r, "node_model": "u"}]
    return ["c", "set_parameter", {"device": n, "region": r, "name": rng.choice(["a", "k"]), "value": rng.choice([0.3, 0.7])}]


def races(_=None):
    """Program counters of the races, relative to their library."""
    import ctypes
    n = core.thread_stats()["nraces"]
    out = []
    maps = []
    for line in open("/proc/self/maps"):
        p = line.split()
        if len(p) > 5 and p[5].startswith("/"):
            a, b = (int(x, 16) for x in p[0].split("-"))
            maps.append((a, b, int(p[2], 16), p[5]))
    for i in range(min(n, 4)):
        a, b, w = ctypes.c_uint64(), ctypes.c_uint64(), ctypes.c_int()
        if not core.sim().sim_race(i, ctypes.byref(a), ctypes.byref(b), ctypes.byref(w)):
            break
        loc = []
        for pc in (a.value, b.value):
            m = next((m for m in maps if m[0] <= pc < m[1]), None)
            base = min((x[0] for x in maps if m and x[3] == m[3]), default=0)
            loc.append((m[3] if m else "?", pc - base))
        out.append((tuple(loc), w.value))
    return tuple(out)


def where(loc):
    f, pc = loc
    try:
        t = subprocess.run(["addr2line", "-f", "-C", "-e", f, hex(pc - 1)], capture_output=True, text=True, timeout=60).stdout.split("\n")
        return t[0].split("(")[0] if t[0] != "??" else "?"
    except (OSError, subprocess.TimeoutExpired):
        return "?"


@worlds.op
def threads(n, task):
    import devsim
    devsim.set_parameter(name="threads_available", value=n)
    devsim.set_parameter(name="threads_task_size", value=task)


def look(s):
    d = s.snap()
    for k in ("threads_available", "threads_task_size"):
        for p in d["params"].values() if all(isinstance(x, dict) for x in d["params"].values()) else [d["params"]]:
            p.pop(k, None)
        d["params"].pop(k, None)
    return d


def watch(B, what, ctx):
    t = B.call(core.thread_stats)
    if t["alive"]:
        raise core.Violation("worker", "after %s %d workers are still running" % (what, t["alive"]))
    if t["nraces"]:
        R = B.call(races)
        names = sorted({" / ".join(sorted(where(x) for x in r[0])) for r in R})
        raise core.Violation("race", "during %s: unsynchronized accesses in %s" % (what, names), key="race:" + ";".join(names))
    return t


def same(a, b):
    return repr(a) == repr(b)


def execute(plan, ctx):
    W = plan["W"]
    A, B = ctx.session("a"), ctx.session("b")
    B.op(["threads_on", *plan["sched"]])
    A.op(["threads", 1, plan["first"][1]])
    B.op(["threads", *plan["first"]])
    for o in scen.build(W) + [["c", "set_parameter", {"name": n, "value": True}] for n, k in (("extended_solver", "ext"), ("extended_model", "extm")) if plan[k]]:
        ra = A.op(o)
        rb = B.op(o)
        if not same(ra, rb):
            raise core.Violation("result", "%s: %r single threaded, %r with threads %r" % (o, ra, rb, plan["first"]))
        watch(B, str(o), ctx)
        if ra[0] != "ok":
            ctx.probe("unbuilt")
            return
    cur = plan["first"]
    n = 0
    for st in plan["steps"]:
        op = st["op"]
        if st["set"]:
            cur = st["set"]
            B.op(["threads", *cur])
        ra = A.op(op)
        A.op(["text"])
        hit = {}
        if st["f"]:
            B.op(["arm", st["f"]])
            if st["f"][0]["seam"] == "thread":
                # arm() restarts the scheduler
                pass
        rb = B.op(op)
        if st["f"]:
            hit = B.op(["disarm"])[1]["fired"]
            for k, v in hit.items():
                ctx.fault(k, v)
        B.op(["text"])
        t = watch(B, "%s with threads %r" % (op, cur), ctx)
        if hit:
            B.op(["threads_on", plan["sched"][0] + n, *plan["sched"][1:]])
            if rb[0] != "ok":
                ctx.probe("failed-by-fault")
                rb = B.op(op)
                B.op(["text"])
                watch(B, "%s repeated with threads %r" % (op, cur), ctx)
            elif scen.failed(op, rb):
                rb = B.op(op)
        if not same(ra, rb):
            raise core.Violation("result", "%s: %r single threaded, %r with threads %r%s" % (op, ra, rb, cur, ", repeated after %r" % hit if hit else ""))
        ctx.probe("same-" + ra[0])
        a, b = look(A), look(B)
        t = watch(B, "reading after %s with threads %r" % (op, cur), ctx)
        if not same(a, b):
            raise core.Violation("values", "after %s with threads %r%s: %s" % (op, cur, ", repeated after %r" % hit if hit else "", worlds.diff(a, b)[:3]))
        if t["created"]:
            ctx.probe("threaded")
        ctx.states.add(str(t["trace"]))
        n += 1
        if op[0] == "tran":
            ctx.simtime += op[2].get("tdelta", 0.0)
