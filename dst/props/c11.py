"""C11: transient integration follows the accepted time steps only."""
import asm
import core
import scen
import worlds
from props import c02

LEVEL = "fault_enumeration"
RUNS = {"quick": 1500, "thorough": 40000}
SHRINK = ["steps", "W.devs", "W.net"]
RULE = ("Each run builds a seeded session with stored charge (toy devices in 1D to 3D, diodes, capacitors, inductors) and takes it through a "
        "seeded series of transient steps of all formulas and step sizes, restarts, dc solves and parameter changes in between.  Before the "
        "steps, attempts with other step sizes and formulas are rejected: by the charge projection, iteration and error limits, missing history, "
        "linear solver failures, callbacks, exhausted memory, threads and output.  A twin session never makes these attempts.")
REAL = ["all of devsim (plain build)"]
STUB = ["operator new, pthread_create (scheduled failures)", "thread scheduling", "BLAS/LAPACK", "symbolic engine", "sparse direct solver (scheduled failures)", "sys.stdout"]
ASSUME = []
TIME_UNIT = "seconds of simulated transient time"


def plan(rng, tier, index):
    W = scen.world(rng)
    if rng.random() < 0.5:
        W["devs"] = [[n, k, c02.terms(rng, P) if k == "toy" and not W.get("eq") else P] for n, k, P in W["devs"]]
    steps = [{"move": [], "attempts": [], "op": ["dc", scen.solve_args(rng, W)]}] if rng.random() < 0.5 else []
    n = 0
    for i in range(rng.randint(2, 8)):
        mv = [scen.move(rng, W)] if rng.random() < 0.7 else []
        k = rng.random()
        if n == 0 or k < 0.08:
            op = ["tran", "transient_dc", scen.solve_args(rng, W)]
            n = 1
        elif k < 0.16:
            op = ["dc", scen.solve_args(rng, W)]
        else:
            op = step(rng, W, scen.TRAN if n > 1 else scen.TRAN[:2])
            n += 1
        if rng.random() < 0.06 and W["devs"]:
            op[-1]["ext"] = rng.random() < 0.7
        st = {"move": mv, "attempts": [attempt(rng, W) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))] if i or n > 1 or rng.random() < 0.3 else [], "op": op}
        if rng.random() < 0.08:
            st["ic"] = True
            n = max(n, 1)
        if op[0] == "tran" and rng.random() < 0.3:
            st["late"] = rng.randint(1, 16)
        steps.append(st)
    if not W.get("solver") and rng.random() < 0.12:
        W["ext"] = True
    return {"W": W, "steps": steps}


def step(rng, W, types):
    typ = rng.choice(types)
    op = ["tran", typ, scen.tran_args(rng, W, typ)]
    if rng.random() < 0.4:
        op[2]["tdelta"] *= rng.choice([0.1, 0.5, 2.0, 10.0])
    if rng.random() < 0.4:
        op[2]["charge_error"] = rng.choice([1e-4, 1e-3, 1e-2, 0.1, 0.5])
    return op


def attempt(rng, W):
    op = step(rng, W, scen.TRAN)
    a = op[2]
    x = {"op": op, "faults": []}
    k = rng.random()
    if k < 0.25:
        a["charge_error"] = 10.0 ** rng.randint(-12, -3)
        a["tdelta"] *= rng.choice([1.0, 10.0, 100.0])
        x["c"] = "charge"
    elif k < 0.4:
        a["maximum_iterations"] = rng.choice([0, 1, 1, 2, 3])
        a["relative_error"] = 1e-16
        x["c"] = "iterations"
    elif k < 0.47:
        a["maximum_error"] = 10.0 ** rng.randint(-12, -3)
        a["absolute_error"] = 1e-16
        x["c"] = "maxerror"
    elif k < 0.55:
        what, v = rng.choice([("tdelta", 0.0), ("tdelta", None), ("tdelta", "x"), ("gamma", 0.0), ("charge_error", None), ("gamma", "y"), ("type", "transient_bdf3")])
        if what == "type":
            op[1] = v
        elif v is None:
            a.pop(what, None)
        else:
            a[what] = v
        x["c"] = "arguments"
    elif k < 0.6:
        op[:] = ["tran", "transient_dc", scen.solve_args(rng, W)]
        op[2]["maximum_iterations"] = rng.choice([0, 1])
        op[2]["relative_error"] = 1e-16
        x["c"] = "restart"
    else:
        f = rng.random()
        opts = ["alloc", "alloc", "out"]
        if W.get("solver"):
            opts += ["cbsolver"] * 3
        else:
            opts += ["math"] * 3
        if W.get("math"):
            opts += ["cbmath"] * 2
        if W.get("eq"):
            opts += ["cbeq"] * 2
        if W.get("threads"):
            opts += ["thread"]
        c = rng.choice(opts)
        x["c"] = c
        if c == "alloc":
            x["faults"] = [{"seam": "alloc", "at": int(4000 * f * f), "n": 1}]
        elif c == "out":
            x["faults"] = [{"seam": "out", "at": int(f * 12), "n": rng.choice([1, 1000]), "how": "raise"}]
        elif c == "math":
            which, kind = rng.choice([(0, 1), (1, 1), (1, 2), (1, 3), (1, 4)])
            x["faults"] = [{"seam": "math", "which": which, "kind": kind, "at": int(4 * f)}]
        elif c == "thread":
            x["faults"] = [{"seam": "thread", "at": int(f * 20), "n": rng.choice([1, 100]), "seed": 1234}]
        elif c == "cbsolver":
            kind, how = rng.choice([("init", "raise"), ("factor", "raise"), ("factor", "status"), ("solve", "raise"), ("solve", "status"), ("solve", "none"),
                                    ("solve", "short"), ("solve", "nan"), ("solve", "allnan"), ("solve", "inf"), ("factor", "nested")])
            x["faults"] = [{"seam": "cb", "kind": kind, "how": how, "at": int(f * f * (1 if kind == "init" else 4))}]
        elif c == "cbmath":
            x["faults"] = [{"seam": "cb", "kind": "math", "how": rng.choice(["raise", "none", "str", "nested"]), "at": int(f * f * 200)}]
        elif c == "cbeq":
            x["faults"] = [{"seam": "cb", "kind": "eq", "how": rng.choice(["raise", "none", "two", "oddmat", "strrhs", "nested"]), "at": int(f * f * 12)}]
    return x


@worlds.op
def initial_condition():
    """The present state becomes a time point, as it stands."""
    import devsim
    m = devsim.get_matrix_and_rhs(format="csc")
    devsim.set_initial_condition(static_rhs=list(m["static"]["rhs"]), dynamic_rhs=list(m["dynamic"]["rhs"]))


def both(A, B, o, ctx):
    o = c02.translate(o)
    ra, rb = A.op(o), B.op(o)
    if repr(ra) != repr(rb):
        raise core.Violation("twins-differ", "%r: %.300r, without the rejected attempts %.300r" % (o, ra, rb))
    return ra


def run_op(op):
    """(operations before, operation) of a solve."""
    a = dict(op[-1])
    e = a.pop("ext", None)
    return ([] if e is None else [["c", "set_parameter", {"name": "extended_solver", "value": e}]]), op[:-1] + [a]


def projection(D, hist, t):
    """Bounds of the relative error of the projected charge, leaving rows of rounding noise undecided."""
    I0, Q0 = hist[0]
    lo = hi = 0.0
    big = max([abs(q) for q in D["Q"]] + [abs(q) for q in Q0] + [0.0])
    for q, q0, i0, n in zip(D["Q"], Q0, I0, D["names"]):
        p = q0 - t * i0
        if q == 0.0:
            continue
        s = 1e-20 + abs(q) + abs(p)
        # differences of the order of rounding, or of the error that the solves left
        noise = 1e-9 * (abs(q0) + abs(t * i0) + abs(q)) + 1e-11 * big + 1e-30
        e = abs(q - p)
        lo = max(lo, (e - noise) / (s + noise))
        hi = max(hi, min(1.0, (e + noise) / max(s - noise, 1e-300)))
    return lo, hi


def accepted(A, op, hist, ctx, r, W):
    if op[0] == "tran" and op[1] != "transient_dc" and len(hist) < (2 if op[1] == "transient_bdf2" else 1):
        raise core.Violation("no-history", "%s succeeded although only %d time points were accepted before" % (op, len(hist)))
    if W.get("eq"):
        # the custom equation is not part of the assembly of the check
        return [(None, None)] + hist[:2] if op[0] == "tran" else hist
    D = c02.check(A, op, hist, ctx, "accepted")
    if op[0] != "tran":
        return hist
    if op[1] == "transient_dc":
        hist = []
    elif not D["positive"]:
        # a positive unknown that comes down to zero is of the order of rounding
        g = op[2].get("gamma", 1.0)
        lo, hi = projection(D, hist, op[2]["tdelta"] * (1.0 - g if op[1] == "transient_bdf2" else g))
        if lo > op[2].get("charge_error", 0.0):
            raise core.Violation("projection", "%s was accepted although the charge is %r off the projection" % (op, lo))
        if isinstance(r[1], dict) and not lo * (1 - 1e-6) <= r[1].get("charge_error", -1.0) <= hi * (1 + 1e-6):
            raise core.Violation("projection", "%s reported a charge error of %r, it is between %r and %r" % (op, r[1].get("charge_error"), lo, hi))
    return [(D["I"], D["Q"])] + hist[:2]


def execute(plan, ctx):
    W = plan["W"]
    A, B = ctx.session("a"), ctx.session("twin")
    for o in scen.build(W):
        o = c02.translate(o)
        r = both(A, B, o, ctx)
        if r[0] != "ok":
            ctx.probe("unbuilt")
            return
        if o[0] == "toy" and o[2].get("terms"):
            both(A, B, ["toy_terms", o[1], o[2]], ctx)
    if W.get("ext"):
        both(A, B, ["c", "set_parameter", {"name": "extended_solver", "value": True}], ctx)
    hist = []
    for st in plan["steps"]:
        for o in st["move"]:
            if both(A, B, o, ctx)[0] != "ok":
                raise core.Violation("move", "%r" % (o,))
        for x in st["attempts"]:
            pre, op = run_op(x["op"])
            faults = x["faults"]
            A.op(["text"])
            if faults:
                A.op(["arm", faults])
            r = A.op(op)
            A.op(["text"])
            fired = {}
            if faults:
                fired = A.op(["disarm"])[1]["fired"]
                for k, n in fired.items():
                    ctx.fault("%s/%s" % (x["c"], k), n)
            if scen.failed(op, r):
                if not faults:
                    ctx.fault(x["c"])
                continue
            rb = B.op(op)
            if fired:
                if scen.failed(op, rb):
                    raise core.Violation("twins-differ", "%s succeeded under %s, but fails without it: %r" % (op, fired, rb))
                hist = accepted(A, op, hist, ctx, r, W)
                ctx.probe("absorbed")
                d = worlds.diff(A.call(worlds.solution_state), B.call(worlds.solution_state))
                if d:
                    return
            else:
                if repr(rb) != repr(r):
                    raise core.Violation("retry-differs", "%s: %.400r after rejected attempts, %.400r without them" % (op, r, rb))
                hist = accepted(A, op, hist, ctx, r, W)
            ctx.simtime += op[2].get("tdelta", 0.0)
        pre, op = run_op(st["op"])
        for o in pre:
            both(A, B, o, ctx)
        if st.get("late"):
            # the time points are stored at the very end: the twin tells how many allocations that takes
            B.op(["arm", [{"seam": "alloc", "at": 10 ** 9, "n": 1}]])
            rb = B.op(op)
            n = B.op(["disarm"])[1]["nalloc"]
            A.op(["arm", [{"seam": "alloc", "at": max(0, n - st["late"]), "n": 1}]])
            ra = A.op(op)
            f = A.op(["disarm"])[1]["fired"]
            if f and scen.failed(op, ra):
                ctx.fault("alloc/late")
                ra = A.op(op)
            elif f:
                ctx.probe("absorbed")
        else:
            ra, rb = A.op(op), B.op(op)
        if repr(ra) != repr(rb):
            raise core.Violation("retry-differs", "%s: %.400r after rejected attempts, %.400r without them" % (op, ra, rb))
        if not scen.failed(op, ra):
            ctx.simtime += op[2].get("tdelta", 0.0) if op[0] == "tran" else 0.0
            hist = accepted(A, op, hist, ctx, ra, W)
        else:
            ctx.probe("failed-" + op[-2] if op[0] == "tran" else "failed-dc")
        state(A, B, op)
        if st.get("ic"):
            if both(A, B, ["initial_condition"], ctx)[0] != "ok":
                raise core.Violation("initial-condition", "%r" % (A.op(["initial_condition"]),))
            if W.get("eq"):
                hist = [(None, None)] + hist[:2]
            else:
                r = A.op(["dump"])
                if r[0] != "ok":
                    raise core.Violation("unreadable", "%r" % (r,))
                hist = [(r[1]["I"], r[1]["Q"])] + hist[:2]
            ctx.probe("initial-condition")


def state(A, B, op):
    d = worlds.diff(A.call(worlds.solution_state), B.call(worlds.solution_state))
    if d:
        raise core.Violation("retry-differs", "after %s the state differs from that of a session without rejected attempts: %s" % (op, "; ".join(d)))
