"""C01: a failed solve leaves the simulation exactly as it was."""
import core
import scen
import worlds

LEVEL = "fault_enumeration"
RUNS = {"quick": 2500, "thorough": 60000}
SHRINK = ["steps", "W.devs", "W.net"]
RULE = ("Each run builds a seeded session (toy and diode devices in 1D to 3D, circuits, custom solver, user functions, custom "
        "equation, threads), drives it and an untouched twin through a seeded history of dc and transient solves, and makes "
        "some of the solves fail in the first session only: iteration, error, divergence and charge limits, linear solver errors "
        "and non finite results at a chosen iteration, exceptions and junk from user callbacks at a chosen call, floating point "
        "exceptions, missing models, exhausted memory, threads that cannot be created, a broken output stream.")
REAL = ["all of devsim (plain build)"]
STUB = ["operator new, pthread_create (scheduled failures)", "thread scheduling", "BLAS/LAPACK", "symbolic engine", "sparse direct solver (scheduled failures)", "sys.stdout"]
ASSUME = ["contact currents and charges are results of a solve, not state: they are compared after a solve without scheduled faults only"]
TIME_UNIT = "seconds of simulated transient time"

CAUSES = ["maxiter", "maxiter", "maxerr", "maxdiv", "factor", "solve", "solvenan", "cbsolver", "cbmath", "cbeq", "fpe", "badparam",
          "charge", "alloc", "thread", "out", "positive", "nohistory", "noequation", "lin-iter"]


def plan(rng, tier, index):
    W = scen.world(rng)
    for name, kind, P in W["devs"]:
        if kind == "toy" and P.get("watch") and rng.random() < 0.5:
            # the equations themselves depend on the circuit
            P["gck"] = P["watch"]
    steps = []
    if rng.random() < 0.25:
        steps.append(fail(rng, W, ["dc", scen.solve_args(rng, W)]))
    steps.append({"s": "solve", "move": [], "op": ["dc", scen.solve_args(rng, W)]})
    tran = False
    for _ in range(rng.randint(1, 5)):
        k = rng.random()
        if not tran and k < 0.35:
            steps.append({"s": "solve", "move": [], "op": ["tran", "transient_dc", scen.solve_args(rng, W)]})
            tran = True
            continue
        mv = [scen.move(rng, W)] if rng.random() < 0.8 else []
        if tran and rng.random() < 0.75:
            typ = rng.choice(scen.TRAN)
            op = ["tran", typ, scen.tran_args(rng, W, typ)]
        else:
            op = ["dc", scen.solve_args(rng, W)]
            if rng.random() < 0.2:
                op = ["tran", "transient_dc", op[1]]
                tran = True
        if rng.random() < 0.6:
            steps.append(fail(rng, W, op, mv, tran))
        else:
            steps.append({"s": "solve", "move": mv, "op": op})
    return {"W": W, "steps": steps}


def fail(rng, W, op, mv=None, tran=False):
    causes = []
    toys = [d for d in W["devs"] if d[1] == "toy"]
    for _ in range(rng.choice([1, 1, 1, 2])):
        while True:
            c = rng.choice(CAUSES)
            special = [k for k, v in (("cbsolver", "solver"), ("cbmath", "math"), ("cbeq", "eq")) if W.get(v)]
            if special and rng.random() < 0.4:
                c = rng.choice(special)
            if c == "cbsolver" and not W.get("solver") or c == "cbmath" and not W.get("math") or c == "cbeq" and not W.get("eq"):
                continue
            if c in ("factor", "solve", "solvenan") and W.get("solver"):
                continue
            if c in ("fpe", "badparam", "noequation") and not W["devs"] or c == "positive" and not toys or c == "thread" and not W.get("threads"):
                continue
            if c == "charge" and op[1].startswith("transient_") is False if isinstance(op[1], str) else c == "charge":
                continue
            if c == "lin-iter" and not toys:
                continue
            break
        causes.append({"c": c, "f": rng.random(), "g": rng.random(), "how": None})
        x = causes[-1]
        if c == "cbsolver":
            x["kind"], x["how"] = rng.choice([("init", "raise"), ("init", "status"), ("init", "none"), ("init", "format"), ("factor", "raise"),
                                              ("factor", "status"), ("factor", "none"), ("factor", "nomessage"), ("factor", "badstatus"), ("solve", "raise"), ("solve", "status"), ("solve", "none"),
                                              ("solve", "short"), ("solve", "long"), ("solve", "nan"), ("solve", "allnan"), ("solve", "inf"), ("solve", "strings"),
                                              ("solve", "nox"), ("solve", "nostatus"), ("solve", "raisedev"), ("factor", "nested")])
        elif c == "cbmath":
            x["kind"], x["how"] = "math", rng.choice(["raise", "none", "str", "nan", "inf", "raisedev", "nested"])
        elif c == "cbeq":
            x["kind"], x["how"] = "eq", rng.choice(["raise", "none", "two", "badbool", "oddmat", "oddrhs", "strmat", "strrhs", "num", "nested",
                                                    "bigrow", "bigmat", "bigcol", "negrow", "negmat", "bigrowraw", "bigmatraw"])
    return {"s": "fail", "move": mv or [], "op": op, "causes": causes}


def setup(x, W, op, plan_seed):
    """(faults, operations before, operations after, operation) of a cause."""
    c, f, g = x["c"], x["f"], x["g"]
    args = dict(op[-1])
    before, after, faults = [], [], []
    toys = [d for d in W["devs"] if d[1] == "toy"]
    dev = W["devs"][int(f * len(W["devs"]))] if W["devs"] else None
    if c == "maxiter":
        args["maximum_iterations"] = [0, 1, 1, 2, 3, 4][int(f * 6)]
        args["relative_error"] = 1e-15
    elif c == "maxerr":
        args["maximum_error"] = 10.0 ** (-12 + 10 * f)
        args["absolute_error"] = 1e-16
    elif c == "maxdiv":
        args["maximum_divergence"] = 1 if f < 0.5 else 0
        args["relative_error"] = 1e-18
        args["maximum_iterations"] = 8
    elif c == "factor":
        faults.append({"seam": "math", "which": 0, "kind": 1, "at": int(f * 4)})
    elif c == "solve":
        faults.append({"seam": "math", "which": 1, "kind": 1, "at": int(f * 4)})
    elif c == "solvenan":
        faults.append({"seam": "math", "which": 1, "kind": 2 if g < 0.5 else 3, "at": int(f * 4)})
    elif c in ("cbsolver", "cbmath", "cbeq"):
        n = {"init": 1, "factor": 4, "solve": 4, "math": 150, "eq": 9}[x["kind"]]
        faults.append({"seam": "cb", "kind": x["kind"], "how": x["how"], "at": int(f * f * n)})
    elif c == "fpe":
        name, kind, P = dev
        if kind == "toy":
            before.append(["c", "set_parameter", {"device": name, "region": "r0", "name": "a" if g < 0.5 else "g", "value": 1e308}])
            after.append(["restore", name, "r0", "a" if g < 0.5 else "g"])
        else:
            before.append(["c", "set_parameter", {"device": name, "region": "bulk", "name": "T", "value": 300.0}])
            before.append(["bias", name, "bot", 1e5])
            after.append(["restore", name, None, "bot_bias"])
    elif c == "badparam":
        name, kind, P = dev
        r, n = ("r0", "k") if kind == "toy" else ("bulk", "V_t")
        before.append(["c", "set_parameter", {"device": name, "region": r, "name": n, "value": "not a number"}])
        after.append(["restore", name, r, n])
    elif c == "charge":
        args["charge_error"] = 10.0 ** (-12 + 10 * f)
    elif c == "alloc":
        # single failures, or no more than so many bytes
        faults.append({"seam": "alloc", "at": int(4000 * f * f), "n": 1} if g < 0.6 else {"seam": "alloc", "limit": int(10 ** (1.5 + 4.5 * f))})
    elif c == "thread":
        faults.append({"seam": "thread", "at": int(f * 20), "n": 1 if g < 0.6 else 100, "seed": 1234})
    elif c == "out":
        faults.append({"seam": "out", "at": int(f * 12), "n": 1 if g < 0.5 else 1000, "how": "raise"})
    elif c == "positive":
        name, kind, P = toys[int(f * len(toys))]
        before.append(["equpdate", name, P, "positive"])
        after.append(["equpdate", name, P, P.get("update", "default")])
    elif c == "nohistory":
        pass
    elif c == "noequation":
        name, kind, P = dev
        r = "r0" if kind == "toy" else "bulk"
        before.append(["breakmodel", name, r, "F" if kind == "toy" else "DField"])
        after.append(["mendmodel", name, r, "F" if kind == "toy" else "DField"])
    elif c == "lin-iter":
        args["solver_type"] = "iterative"
        args["maximum_iterations"] = 1 + int(f * 3)
        args["relative_error"] = 1e-16
    return faults, before, after, op[:-1] + [args]


SAVED = {}


@worlds.op
def remember(devreg):
    """Values of the parameters that causes overwrite."""
    import devsim
    for dev, r, n in devreg:
        kw = {"device": dev, "name": n}
        if r:
            kw["region"] = r
        SAVED[(dev, r, n)] = devsim.get_parameter(**kw)


@worlds.op
def restore(dev, r, n):
    import devsim
    kw = {"device": dev, "name": n, "value": SAVED[(dev, r, n)]}
    if r:
        kw["region"] = r
    devsim.set_parameter(**kw)


@worlds.op
def equpdate(dev, P, upd):
    worlds.toy_equations(dev, dict(P, update=upd))


@worlds.op
def breakmodel(dev, r, name):
    """A model that the equations need gets a definition that cannot be evaluated."""
    import devsim
    devsim.node_model(device=dev, region=r, name="boom", equation="log(0*NodeVolume)")
    SAVED[("eq", dev, r)] = {e: devsim.get_equation_command(device=dev, region=r, name=e) for e in devsim.get_equation_list(device=dev, region=r)}
    e = sorted(SAVED[("eq", dev, r)])[-1]
    c = dict(SAVED[("eq", dev, r)][e])
    c["node_model"] = "boom"
    devsim.equation(**{k: v for k, v in c.items() if v != ""})


@worlds.op
def mendmodel(dev, r, name):
    import devsim
    for e, c in sorted(SAVED[("eq", dev, r)].items()):
        devsim.equation(**{k: v for k, v in c.items() if v != ""})
    devsim.delete_node_model(device=dev, region=r, name="boom")


def params(W):
    out = []
    for name, kind, P in W["devs"]:
        if kind == "toy":
            out += [(name, "r0", n) for n in ("a", "g", "k")]
        else:
            out += [(name, "bulk", "V_t"), (name, "bulk", "T"), (name, None, "bot_bias")]
    return out


def same(before, after):
    """Differences; what a first analysis creates as zero does not count."""
    b, a = before["circuit"]["values"], after["circuit"]["values"]
    extra = {k for k in a if k not in b}
    for k in sorted(extra):
        if any(v != ("ok", 0.0) for v in a[k].values()):
            return ["circuit solution %s: %r appeared" % (k, a[k])]
    after = dict(after, circuit=dict(after["circuit"], values={k: v for k, v in a.items() if k in b}))
    return worlds.diff(before, after)


def execute(plan, ctx):
    W = plan["W"]
    A, T = ctx.session("a"), ctx.session("twin")
    for o in scen.build(W):
        ra, rt = A.op(o), T.op(o)
        if repr(ra) != repr(rt):
            raise core.Violation("twins-differ", "%r: %r in one process, %r in another" % (o, ra, rt))
        if ra[0] != "ok":
            ctx.probe("unbuilt")
            return
    for st in plan["steps"]:
        for o in st["move"]:
            if A.op(o) != T.op(o):
                raise core.Violation("move", "%r" % (o,))
        op = st["op"]
        if st["s"] == "fail":
            prm = [list(p) for p in params(W)]
            A.op(["remember", prm])
            T.op(["remember", prm])
            for x in st["causes"]:
                faults, before, after, fop = setup(x, W, op, plan.get("seed"))
                for o in before:
                    A.op(o)
                    T.op(o)
                was = A.snap()
                A.op(["text"])
                if faults:
                    A.op(["arm", faults])
                r = A.op(fop)
                fired = {}
                if faults:
                    fired = A.op(["disarm"])[1]["fired"]
                    for k, n in fired.items():
                        ctx.fault("%s/%s" % (x["c"], k), n)
                if r[0] == "py" and r[1] not in ("MemoryError", "CallbackError", "OSError"):
                    ctx.probe("odd-exception-" + r[1])
                bad = scen.failed(fop, r)
                if not bad and faults and not fired:
                    ctx.probe("not-fired")
                if bad:
                    if not faults:
                        ctx.fault(x["c"])
                    now = A.snap()
                    if faults:
                        # may strike while the currents of the contacts are stored: those are not part of the state
                        d = same(worlds.strip_currents(was), worlds.strip_currents(now))
                    else:
                        d = same(was, now)
                    if d:
                        raise core.Violation("changed", "after %s failed (%s, %r) the session has changed: %s" % (fop, x["c"], r[1] if r[0] != "ok" else "info", "; ".join(d)))
                else:
                    rt = T.op(fop)
                    if scen.failed(fop, rt):
                        raise core.Violation("twins-differ", "%s succeeded under %s, but fails without it: %r" % (fop, x["c"], rt))
                    a, t = A.call(worlds.solution_state), T.call(worlds.solution_state)
                    d = worlds.diff(a, t, tol=1e-3)
                    if d:
                        raise core.Violation("phantom", "%s under %s reported success at another state: %s" % (fop, x["c"], "; ".join(d)))
                    if fired and x["c"] in ("cbeq", "cbmath"):
                        # the assembly for the history took what the callback gave, which no snapshot shows
                        ctx.probe("absorbed")
                        return
                    if repr(A.snap()) != repr(T.snap()):
                        # an absorbed fault moved the result within the tolerance, or left the value a callback gave
                        ctx.probe("absorbed")
                        return
                for o in after:
                    A.op(o)
                    T.op(o)
        ra, rt = A.op(op), T.op(op)
        ctx.probe("solve-failed" if scen.failed(op, rt) else "solve-" + (op[0] if op[0] == "dc" else op[1]))
        if op[0] == "tran" and not scen.failed(op, rt):
            ctx.simtime += op[2].get("tdelta", 0.0)
        if repr(ra) != repr(rt):
            raise core.Violation("retry-differs", "%s: %.600r after failures, %.600r without them" % (op, ra, rt))
        a, t = A.snap(), T.snap()
        d = worlds.diff(a, t)
        if d:
            raise core.Violation("retry-differs", "after %s the state differs from that of a session without failures: %s" % (op, "; ".join(d)))
