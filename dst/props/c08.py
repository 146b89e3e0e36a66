"""C08: a rejected command has no effect."""
import core
import reject
import scen
import worlds

LEVEL = "simulation"
RUNS = {"quick": 2500, "thorough": 60000}
SHRINK = ["tries", "W.devs", "W.net"]
RULE = ("Each run builds a seeded world out of plain commands and interleaves them with seeded commands of all kinds that have "
        "mistakes in their arguments (missing, unknown, mistyped options, wrong names, wrong lengths, wrong order of commands). "
        "After every rejected command the whole session is compared with what it was before; a second session that is only given "
        "the accepted commands has to give the same answers, values, solutions and files to the end.")
REAL = ["all of devsim (plain build)"]
STUB = ["BLAS/LAPACK", "symbolic engine", "sparse direct solver"]
ASSUME = ["currents and charges of contacts are results of the last solve, not state", "commands that are accepted are valid"]


def plan(rng, tier, index):
    W = scen.world(rng, opts=False)
    for x in W["devs"]:
        if x[1] == "toy":
            x[2]["extras"] = False
    n = rng.randint(6, 24)
    tries = []
    for _ in range(n):
        k = rng.random()
        tries.append({"at": rng.choice([rng.random(), rng.random(), 1.0]), "seed": rng.getrandbits(40),
                      "base": "next" if k < 0.4 else "prev" if k < 0.6 else None,
                      "bad": 0 if k > 0.9 else rng.choice([1, 1, 1, 2])})
    tries.sort(key=lambda t: t["at"])
    return {"W": W, "tries": tries, "solve": rng.random() < 0.7, "mid": rng.random() < 0.3, "end": rng.choice(["dc", "tran", "none"]),
            "write": rng.choice(["devsim", "vtk", "tecplot"])}


def execute(plan, ctx):
    W = plan["W"]
    rec = ctx.session("recorder")
    script = rec.call(reject.record, scen.build(W))
    rec.kill()
    a, t = ctx.session("a"), ctx.session("twin")
    tries = list(plan["tries"])
    if plan["solve"]:
        at = len(script) // 2 if plan["mid"] and not W["net"] else len(script)
        script = script[:at] + [["dc", {}]] + script[at:]

    def both(o):
        x, y = a.op(o), t.op(o)
        if x != y:
            raise core.Violation("later", "%r gives %r, but %r in a session that never issued the rejected commands" % (o, x, y))
        return x

    last = None
    for i, o in enumerate(script + [None]):
        while tries and (o is None or tries[0]["at"] * (len(script) + 0.999) < i + 1):
            q = tries.pop(0)
            base = {"next": o, "prev": last, None: None}[q["base"]]
            if base is not None and base[0] != "c":
                base = None
            try:
                c, r, df, seen = a.call(reject.attempt, q["seed"], base, q["bad"])
            except core.SessionDied as e:
                with open("io/try") as f:
                    c = f.read()
                raise core.Violation("died-" + e.how.replace(" ", "-"), "%s on %s" % (e, c), key="died-" + c[:40])
            c2, _, _, seen2 = t.call(reject.attempt, q["seed"], base, q["bad"], True)
            d2 = worlds.diff(seen2, seen)
            if c2 != c or d2:
                raise core.Violation("later", "the session differs from one that never issued the rejected commands: %s" % "; ".join(d2))
            if df:
                raise core.Violation("effect", "%r was rejected (%.200s) but changed the session: %s" % (c[1:], r[1:], "; ".join(df)), key="effect-" + c[1])
            ctx.log("try %r -> %r" % (c, r))
            if r[0] == "ok" or reject.ran(c, r):
                ctx.probe("accepted")
                x = t.call(reject.issue, c)
                if x != r:
                    raise core.Violation("later", "%r gives %r, but %r in a session that never issued the rejected commands" % (c, r, x))
            else:
                t.call(reject.issue, None)
                ctx.fault("rejected-" + ("python" if r[0] == "py" else "error"))
                ctx.probe("reject:" + c[1])
        if o is not None:
            both(o)
            last = o
    if plan["end"] == "dc":
        both(["dc", {}])
    elif plan["end"] == "tran":
        both(["tran", "transient_dc", {"maximum_iterations": 30}])
        both(["tran", "transient_bdf1", {"maximum_iterations": 30, "tdelta": 1e-3, "charge_error": 1e10}])
    df = worlds.diff(t.snap(), a.snap())
    if df:
        raise core.Violation("later", "the session differs from one that never issued the rejected commands: %s" % "; ".join(df))
    if both(["write", "io/end", plan["write"]])[0] == "ok":
        pass
