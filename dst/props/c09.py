"""C09: resetting the simulator returns it to its initial state."""
import core
import mix
import worlds

LEVEL = "simulation"
RUNS = {"quick": 4000, "thorough": 60000}
SHRINK = ["histories", "histories.0", "histories.1", "program", "program.0"]
RULE = ("Each run drives a session through one to three seeded histories (devices in 1D to 3D, diodes, circuits, all analyses, linear "
        "solver faults, failing user functions and solvers, custom equations, simulated threads, half built meshes, models of all kinds, "
        "global parameters, writes, loads of sound and damaged files, commands with mistakes, exhausted memory), resets it after each, and then "
        "runs a seeded program of the same kinds of steps, which shares names with the histories.  The same program in a fresh process has to "
        "give the same answers, error messages, printed text, files, matrices and values, bit for bit.")
REAL = ["all of devsim (plain build)"]
STUB = ["sparse direct solver (scheduled failures)", "BLAS/LAPACK", "symbolic engine", "user supplied solver, functions and equations", "thread scheduler"]
ASSUME = ["numbers of seconds in the printed text are not compared"]
TIME_UNIT = "seconds of simulated transient time"


def plan(rng, tier, index):
    h = [mix.chunks(rng, rng.choice([0, 1, 2, 4, 8]), alloc=True) for _ in range(rng.choice([1, 1, 2, 3]))]
    return {"histories": h, "program": mix.chunks(rng, rng.choice([2, 4, 8])), "snap": rng.random() < 0.5, "start": rng.random() < 0.3}


def text(s):
    return mix.said(s.op(["text"])[1])


def execute(plan, ctx):
    A, B = ctx.session("a"), ctx.session("fresh")
    B.op(["place", "b"])
    for h in plan["histories"]:
        for c in h:
            for o in c:
                r = A.op(o)
                if r[0] == "py" and o[0] != "c":
                    ctx.probe("py-" + o[0])
                elif o[0] == "under":
                    for k in r[1][1]:
                        ctx.fault(k)
        r = A.op(["reset"])
        if r[0] != "ok":
            raise core.Violation("reset", "reset_devsim: %r" % (r,))
        ctx.probe("reset")
        d = worlds.diff(B.snap(), A.snap())
        if d:
            raise core.Violation("left", "after reset_devsim the session is not empty: %s" % "; ".join(d))
        text(B)
    if plan["start"]:
        for s in (A, B):
            s.op(["c", "get_parameter_list", {}])
    A.op(["place", "a"])
    for i, c in enumerate(plan["program"]):
        for o in c:
            a, b = A.op(o), B.op(o)
            if mix.differ(a, b):
                raise core.Violation("result", "%r after a reset: %.700r, %.700r in a fresh process" % (o, a, b), key="result-" + (o[1] if o[0] == "c" else o[0]))
            x, y = text(A), text(B)
            if x != y:
                raise core.Violation("text", "%r after a reset prints %.600r, %.600r in a fresh process" % (o, x, y))
            ctx.probe("%s-%s" % (o[1] if o[0] == "c" else o[0], a[0]))
            if o[0] == "tran" and a[0] == "ok":
                ctx.simtime += o[2].get("tdelta", 0.0)
        if plan["snap"] or i == len(plan["program"]) - 1:
            d = worlds.diff(B.snap(), A.snap())
            if d:
                raise core.Violation("state", "the session differs from that of a fresh process: %s" % "; ".join(d))
            text(A), text(B)
