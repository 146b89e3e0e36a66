"""C10: results do not depend on memory layout or on unrelated work."""
import core
import mix
import scen
import worlds

LEVEL = "simulation"
RUNS = {"quick": 3000, "thorough": 80000}
SHRINK = ["program", "program.0", "history", "history.0"]
RULE = ("Each run gives one seeded program (devices in 1D to 3D, diodes, circuits, all analyses, solver faults, models of all kinds, assembled "
        "matrices, files, loads, half built meshes, commands with mistakes) to a plain session, to one whose heap has a seeded layout with seeded "
        "junk in new and freed memory and on the stack and whose clock jumps, and to one in which seeded devices, meshes and circuits were built, solved and deleted before. "
        "All answers, error messages, printed text, files and values have to be the same, bit for bit.")
REAL = ["all of devsim (plain build)"]
STUB = ["the clock (seeded steps and jumps)", "operator new and delete (seeded addresses and junk)", "sparse direct solver (scheduled failures)", "BLAS/LAPACK", "symbolic engine", "thread scheduler"]
ASSUME = ["memory of malloc is not laid out by the simulator", "numbers of seconds in the printed text are not compared"]
TIME_UNIT = "seconds of simulated transient time"


def rename(o, names):
    if isinstance(o, list):
        return [rename(x, names) for x in o]
    if isinstance(o, dict):
        return {k: rename(v, names) for k, v in o.items()}
    return names.get(o, o) if isinstance(o, str) else o


def history(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        W = scen.world(rng, opts=False)
        ops = mix.build(W)
        if rng.random() < 0.3:
            ops = ops[:rng.randrange(len(ops) + 1)]
        for _ in range(rng.choice([0, 1, 2, 4])):
            if (W["devs"] or W["net"]) and rng.random() < 0.5:
                ops.append(scen.move(rng, W))
            if rng.random() < 0.6:
                ops.append(mix.analysis(rng, W, faults=True))
            else:
                e = mix.edit(rng, W, 90)
                if e[1] != "set_parameter" and e[0] != "refn" and e[1] != "symdiff":
                    ops.append(e)
        if rng.random() < 0.3:
            ops.append(["halfmesh", "hm", rng.choice([1, 2, 3]), rng.choice([1, 3, 8]), {"nreg": 2}])
        if rng.random() < 0.5:
            # names of their own
            ops = rename(ops, {d[0]: "h" + d[0] for d in W["devs"]})
        # time points that belong to nothing are not deleted with anything
        ops = [o for o in ops if "set_initial_condition" not in repr(o) and o[1] != "delete_equation"]
        ops.append(["removeall", rng.getrandbits(30)])
        out.append(ops)
    return out


def plan(rng, tier, index):
    P = mix.chunks(rng, rng.choice([2, 4, 8]))
    return {"program": P, "layout": rng.getrandbits(30) | 1, "junk": rng.getrandbits(8),
            "history": history(rng) if rng.random() < 0.6 else [], "both": rng.random() < 0.5}


def execute(plan, ctx):
    A = ctx.session("plain")
    others = []
    if plan["both"] or not plan["history"]:
        s = ctx.session("layout", plan["layout"])
        s.op(["clock", plan["layout"]])
        ctx.fault("clock")
        others.append(("in another heap", s, plan["junk"]))
    if plan["history"]:
        h = ctx.session("history", plan["layout"] if plan["junk"] % 2 else 0)
        for c in plan["history"]:
            for o in c:
                r = h.op(o)
                if o[0] == "removeall" and r[0] != "ok":
                    raise core.Violation("remove", "%r" % (r,))
                if o[0] == "under":
                    for k in r[1][1]:
                        ctx.fault("history-" + k)
        ctx.fault("history")
        d = worlds.diff(A.snap(), h.snap())
        if d:
            raise core.Violation("left", "after everything was deleted: %s" % "; ".join(d))
        mix_text(A), mix_text(h)
        others.append(("after other devices were deleted", h, None))
    for z in [A] + [z for _, z, _ in others]:
        z.op(["place", z.name])
    for i, c in enumerate(plan["program"]):
        for o in c:
            a = A.op(o)
            x = mix_text(A)
            name = o[1] if o[0] == "c" else o[0]
            ctx.probe("%s-%s" % (name, a[0]))
            if o[0] == "tran" and a[0] == "ok":
                ctx.simtime += o[2].get("tdelta", 0.0)
            for what, s, junk in others:
                if junk is not None:
                    b = s.op(["junked", (junk + 37 * i) & 255, o])[1]
                    ctx.fault("junk")
                else:
                    b = s.op(o)
                if mix.differ(a, b):
                    raise core.Violation("result", "%r %s: %.700r, otherwise %.700r" % (o, what, b, a), key="result-" + name)
                y = mix_text(s)
                if x != y:
                    raise core.Violation("text", "%r %s prints %.600r, otherwise %.600r" % (o, what, y, x))
        if plan["junk"] % 3 == 0 or i == len(plan["program"]) - 1:
            a = A.snap()
            for what, s, junk in others:
                d = worlds.diff(a, s.snap())
                if d:
                    raise core.Violation("state", "%s: %s" % (what, "; ".join(d)))
            for s in [A] + [s for _, s, _ in others]:
                mix_text(s)


def mix_text(s):
    return mix.said(s.op(["text"])[1])
