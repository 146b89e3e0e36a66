"""C13: errors raised in user callbacks surface and leave the session intact."""
import cbs
import core
import reject
import scen
import worlds
from props import c01, c12  # noqa: F401

LEVEL = "fault_enumeration"
RUNS = {"quick": 2500, "thorough": 60000}
SHRINK = ["steps", "W.devs", "W.net"]
RULE = ("Each run builds a seeded session with a user supplied linear solver, registered math functions in node, edge and element models, a "
        "custom equation, and output filters, and gives the same seeded commands (definitions, value reads, dc, transient, small signal and noise "
        "solves, matrix assembly, files in four formats, printing) to it and to a twin.  The twin counts the calls; in the first session one of "
        "these calls, or one write to the output stream, raises one of several kinds of exceptions or returns something unusable, before "
        "the command is repeated with working callbacks.  Raised exceptions must fail the command with the simulator's error; a junk "
        "value must fail it or make no difference; the repetition has to give what the twin has, bit for bit.")
REAL = ["all of devsim (plain build)"]
STUB = ["user callbacks and sys.stdout", "BLAS/LAPACK", "symbolic engine", "sparse direct solver"]
ASSUME = ["commands called by the callback itself are not rolled back"]
TIME_UNIT = "seconds of simulated transient time"

RAISE = ("raise", "raisedev", "raisebase", "nested")
HOWS = {"math": ("none", "str", "list", "badlist", "dict", "obj", "evil", "evil3", "complex", "bytes", "type"),
        "init": ("none", "str", "num", "list", "dict", "obj", "evil", "evil3", "status", "format", "nostatus", "nosolver", "badstatus", "nomessage", "type"),
        "factor": ("none", "str", "num", "list", "dict", "obj", "evil", "evil3", "status", "nostatus", "badstatus", "nomessage", "type"),
        "solve": ("none", "str", "num", "list", "dict", "obj", "evil", "evil3", "status", "nostatus", "badstatus", "nomessage", "short", "long",
                  "nan", "allnan", "inf", "strings", "nox", "xnum", "xevil", "xevil3", "xliar", "xbytes"),
        "eq": ("none", "str", "num", "list", "badlist", "dict", "obj", "evil", "evil3", "two", "badbool", "oddmat", "oddrhs", "strmat", "strrhs", "bigrow",
               "negrow", "bigmat", "bigcol", "negmat", "bigrowraw", "bigmatraw", "evilbool", "evilmat", "evilrhs", "hugerow", "matnum", "liar"),
        "filter": ("evil",)}
# kinds of callbacks by what is done
MODELS = ["node", "edge", "elem", "const"]


def plan(rng, tier, index):
    W = scen.world(rng)
    W.pop("threads", None)
    if rng.random() < 0.5:
        W["solver"] = "custom"
    toys = [d for d in W["devs"] if d[1] == "toy"]
    if toys and rng.random() < 0.6:
        W["math"] = True
        if rng.random() < 0.5:
            toys[0][2]["S"] = rng.choice(["a*usq(u) + 0.8*u - g", "a*(exp(u)-1)+umul(k,u)-g"])
    if toys and rng.random() < 0.4:
        W["eq"] = toys[0][0]
    elem = [d for d in toys if d[2].get("dim", 1) > 1]
    steps = []
    tran = 0
    if rng.random() < 0.7:
        steps.append({"pre": [], "op": ["dc", scen.solve_args(rng, W)], "faults": []})
    for _ in range(rng.randint(3, 9)):
        k = rng.random()
        pre = [scen.move(rng, W)] if rng.random() < 0.7 else []
        if k < 0.25:
            op = ["dc", scen.solve_args(rng, W)]
        elif k < 0.4:
            typ = "transient_dc" if not tran else rng.choice(scen.TRAN if tran > 1 else scen.TRAN[:2])
            tran = 1 if typ == "transient_dc" else 2
            op = ["tran", typ, scen.solve_args(rng, W) if tran == 1 else scen.tran_args(rng, W, typ)]
        elif k < 0.5 and W["net"]:
            op = ["small", {"type": "ac", "frequency": rng.choice([0.0, 1.0])}] if rng.random() < 0.6 else \
                 ["small", {"type": "noise", "frequency": 1.0, "output_node": "vdd"}]
        elif k < 0.56:
            op = ["c", "get_matrix_and_rhs", {"format": "csc"}]
        elif k < 0.68 and W.get("math"):
            name, _, P = rng.choice(toys)
            m = rng.choice(MODELS)
            pre = pre + [["usermodel", name, m, rng.randrange(3)]]
            op = ["c", "get_%s_model_values" % {"node": "node", "const": "node", "edge": "edge", "elem": "edge"}[m],
                  {"device": name, "region": "r0", "name": "um_" + m}]
        elif k < 0.9 and W["devs"]:
            typ = rng.choice(["vtk", "vtk", "tecplot", "devsim", "devsim_data"])
            op = ["fwrite", "o%d" % len(steps), typ, rng.choice([None, rng.choice(W["devs"])[0]]) ,
                  rng.choice([None, "even", "x"]) if typ in ("vtk", "tecplot") else None]
        elif W["devs"]:
            d = rng.choice(W["devs"])
            r = "r0" if d[1] == "toy" else "bulk"
            op = rng.choice([["c", "print_node_values", {"device": d[0], "region": r, "name": "NodeVolume"}],
                             ["c", "print_edge_values", {"device": d[0], "region": r, "name": "EdgeLength"}],
                             ["c", "node_model", {"device": d[0], "region": r, "name": "again", "equation": "%d*NodeVolume" % rng.randrange(3)}],
                             ["c", "edge_model", {"device": d[0], "region": r, "name": "eagain", "equation": "%d*EdgeLength" % rng.randrange(3), "display_type": "scalar"}],
                             ["c", "node_solution", {"device": d[0], "region": r, "name": "sol%d" % rng.randrange(2)}],
                             ["c", "symdiff", {"expr": "diff(exp(x*y),x)"}],
                             ["c", "delete_node_model", {"device": d[0], "region": r, "name": "again"}]])
        else:
            op = ["c", "get_circuit_node_list", {}]
        f = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            f.append({"pick": rng.random(), "f": rng.choice([0.0, 0.999, rng.random(), rng.random()]), "h": rng.random(), "raise": rng.random() < 0.5})
        steps.append({"pre": pre, "op": op, "faults": f})
    return {"W": W, "steps": steps, "debug": rng.choice([None, None, "info", "verbose"]), "bf": [[rng.random(), rng.random(), rng.random() < 0.3] for _ in range(rng.choice([0, 0, 1, 3]))]}


@worlds.op
def usermodel(dev, kind, n):
    import devsim
    e = ["2*%s", "%s+k", "-%s"][n]
    kw = {"device": dev, "region": "r0", "name": "um_" + kind}
    if kind == "node":
        devsim.node_model(equation=e % "umul(u+k,usq(u))", **kw)
    elif kind == "const":
        devsim.node_model(equation=e % "usq(3)", **kw)
    elif kind == "edge":
        devsim.edge_from_node_model(device=dev, region="r0", node_model="u")
        devsim.edge_model(equation=e % "umul(u@n0,usq(u@n1))", **kw)
    else:
        devsim.node_model(device=dev, region="r0", name="um_e", equation=e % "usq(u)")
        devsim.edge_average_model(device=dev, region="r0", node_model="um_e", edge_model="um_elem")


@worlds.op
def fwrite(file, typ, dev, filt):
    import devsim
    kw = {"file": file, "type": typ}
    if dev:
        kw["device"] = dev
    if filt:
        f = worlds.FILTERS[filt]

        def test(n):
            how = cbs.tick("filter")
            if how in cbs.JUNK:
                return cbs.JUNK[how]
            return n == "" or bool(f(n))
        kw["include_test"] = test
    devsim.write_devices(**kw)
    return files(file)


def files(stem):
    import os
    import zlib
    out = {}
    d = os.path.dirname(stem) or "."
    b = os.path.basename(stem)
    for n in sorted(os.listdir(d)):
        if n.startswith(b):
            with open(os.path.join(d, n), "rb") as f:
                x = f.read()
            out[n] = "%d %08x" % (len(x), zlib.crc32(x))
    return out


def both(A, B, o, what):
    a, b = A.op(o), B.op(o)
    if repr(a) != repr(b):
        raise core.Violation("later", "%r %s: %.600r, %.600r in a session without failing callbacks" % (o, what, a, b))
    return a


def strip(d):
    return worlds.strip_currents(d)


class Accepted(Exception):
    pass


def execute(plan, ctx):
    try:
        run(plan, ctx)
    except Accepted:
        pass


def run(plan, ctx):
    W = plan["W"]
    rec = ctx.session("recorder")
    V = dict(W)
    for k in ("solver", "math", "eq"):
        V.pop(k, None)
    cbsops = [["use_math"]] if W.get("math") else []
    if W.get("solver"):
        cbsops.append(["use_solver"])
    script = rec.call(reject.record, cbsops[:1] * bool(W.get("math")) + scen.build(V))
    rec.kill()
    script = [o for o in script if o[1] != "register_function"]
    A, B = ctx.session("a"), ctx.session("b")
    if plan["debug"]:
        both(A, B, ["c", "set_parameter", {"name": "debug_level", "value": plan["debug"]}], "")
    for o in cbsops:
        both(A, B, o, "")
    bad = sorted([int(x * len(script)), y, z] for x, y, z in plan["bf"])
    for i, o in enumerate(script):
        done = False
        while bad and bad[0][0] <= i:
            x, y, z = bad.pop(0)
            done = done or x == i and strike(A, B, o, [("out", 1 + int(y * 3), y, z)], ctx)
        if done:
            continue
        r = both(A, B, o, "while building")
        if r[0] != "ok":
            ctx.probe("unbuilt")
    if W.get("eq"):
        both(A, B, ["use_eq", W["eq"], "r0", "u", "UEq"], "")
    tran = 0
    for st in plan["steps"]:
        for o in st["pre"]:
            both(A, B, o, "before")
        op = st["op"]
        if op[0] == "tran" and op[1] != "transient_dc" and not tran or op[0] == "tran" and op[1] == "transient_bdf2" and tran < 2:
            continue
        # the twin tells how often what is called; looking calculates models, which then are not calculated by the command
        was = None
        if op[0] in ("dc", "tran"):
            was = A.snap()
            B.snap()
        B.op(["arm", [{"seam": "out", "at": 10 ** 9, "n": 0}]])
        rb = B.op(op)
        calls = B.op(["disarm"])[1]["calls"]
        calls["out"] = B.op(["writes"])[1]
        if op[0] == "tran" and not scen.failed(op, rb):
            tran = 1 if op[1] == "transient_dc" else 2
            ctx.simtime += op[2].get("tdelta", 0.0)
        kinds = sorted(k for k, n in calls.items() if n)
        done = False
        if kinds:
            for x in st["faults"]:
                k = kinds[int(x["pick"] * len(kinds))]
                n = calls[k]
                hows = RAISE if x["raise"] or k == "out" else HOWS[k]
                done = hit(A, op, rb, B, {"kind": k, "at": min(n - 1, int(x["f"] * n)), "how": hows[int(x["h"] * len(hows))]}, ctx, was)
                if done:
                    break
        if not done:
            ra = A.op(op)
            if repr(ra) != repr(rb):
                raise core.Violation("later", "%r after failed callbacks: %.600r, %.600r in a session without" % (op, ra, rb))
        ctx.probe("%s-%s" % (op[1] if op[0] == "c" else op[0], rb[0]))
        a, b = A.snap(), B.snap()
        d = worlds.diff(a, b)
        if d:
            raise core.Violation("later", "after %r the state differs from that of a session without failing callbacks: %s" % (op, "; ".join(d)))


@worlds.op
def writes():
    return worlds.OUT.n


def hit(A, op, rb, B, f, ctx, was):
    """One attempt with a failing callback; whether it ended up as if the command had been carried out."""
    if f["kind"] == "out":
        A.op(["arm", [{"seam": "out", "at": f["at"], "n": 1, "how": f["how"]}]])
    else:
        A.op(["arm", [dict(f, seam="cb")]])
    r = A.op(op)
    fired = A.op(["disarm"])[1]["fired"]
    for k, n in fired.items():
        ctx.fault("%s/%s" % (k, f["how"]), n)
    if not fired:
        # what an earlier attempt has calculated is not calculated again
        ctx.probe("not-fired")
        if repr(r) != repr(rb):
            raise core.Violation("later", "%r after failed callbacks: %.600r, %.600r in a session without" % (op, r, rb))
        return True
    if r[0] == "py":
        raise core.Violation("wrong-exception", "%r with %r raised %s: %s" % (op, f, r[1], r[2]))
    if not scen.failed(op, r):
        if f["how"] in RAISE:
            raise core.Violation("swallowed", "%r reported success although %s raised an exception at call %d (%s)" % (op, f["kind"], f["at"], f["how"]),
                                 key="swallowed-%s-%s" % (op[1] if op[0] == "c" else op[0], f["kind"]))
        if f["kind"] == "eq":
            # entries which are not looked at in this assembly: the others of the answer are missing
            ctx.probe("accepted")
            raise Accepted
        if repr(r) != repr(rb):
            raise core.Violation("junk", "%r with %r: %.500r, %.500r without it" % (op, f, r, rb))
        return True
    if was is None:
        return False
    d = c01.same(strip(was), strip(A.snap()))
    if d:
        raise core.Violation("changed", "%r failed (%r, %.200r) and left changes: %s" % (op, f, r[1], "; ".join(d)),
                             key="changed-%s-%s" % (op[1] if op[0] == "c" else op[0], f["kind"]))
    return False


def strike(A, B, o, faults, ctx):
    """A command of the construction, with a broken output stream."""
    was = A.snap()
    B.snap()
    for _, at, y, base in faults:
        A.op(["arm", [{"seam": "out", "at": 0 if y < 0.6 else int((y - 0.6) * 10), "n": 1, "how": "raisebase" if base else "raise"}]])
        r = A.op(o)
        fired = A.op(["disarm"])[1]["fired"]
        for k, n in fired.items():
            ctx.fault("%s/build" % k, n)
        if fired:
            if r[0] != "err":
                raise core.Violation("swallowed", "%r: %r with a broken output stream" % (o, r), key="swallowed-%s-out" % o[1])
            d = c01.same(strip(was), strip(A.snap()))
            B.snap()
            if d:
                raise core.Violation("changed", "%r failed (output) and left changes: %s" % (o, "; ".join(d)), key="changed-%s-out" % o[1])
        else:
            # this was the command itself
            b = B.op(o)
            if repr(r) != repr(b):
                raise core.Violation("later", "%r: %r, %r in the twin" % (o, r, b))
            return True
