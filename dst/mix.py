"""Seeded programs out of everything a session can do, good and bad."""
import os
import random
import re

import asm
import cbs
import core
import devfile
import devsim
import reject
import scen
import worlds
from props import c01, c02, c07, c12, c13, c14, c16  # noqa: F401  (register operations)


# ------------------------------------------------------------------ operations
@worlds.op
def attempts(seed, n, bad):
    """Some commands with arguments that mostly make sense, and mistakes."""
    r = random.Random(seed)
    out = []
    for _ in range(n):
        N = reject.names()
        cmd = r.choice(reject.TRY)
        kw = reject.fill(r, cmd, N, None)
        args = []
        if r.random() < bad:
            kw, args = reject.spoil(r, cmd, kw, N)
        if cmd == "reset_devsim":
            kw["nosuch_option"] = 1
        if cmd == "solve" and (not isinstance(kw.get("maximum_iterations", 5), int) or kw.get("maximum_iterations", 5) > 20):
            kw["maximum_iterations"] = 5
        with open("io/try", "w") as f:
            f.write(repr((cmd, kw, args)))
        out.append((cmd, repr(worlds.apply(["cj", cmd, kw, args]))))
    return out


@worlds.op
def halfmesh(name, dim, n, P):
    """The first n commands of a mesh."""
    done = 0

    class Enough(Exception):
        pass

    class Some:
        def __getattr__(self, x):
            f = getattr(devsim, x)

            def g(**kw):
                nonlocal done
                done += 1
                if done > n:
                    raise Enough()
                return f(**kw)
            return g
    was = worlds.devsim
    worlds.devsim = Some()
    try:
        worlds.OPS["mesh"](name, dict(P, dim=dim))
    except Enough:
        pass
    finally:
        worlds.devsim = was
    return done


@worlds.op
def under(fault, o):
    """An operation with a fault."""
    worlds.apply(["arm", fault])
    r = worlds.apply(o)
    d = worlds.apply(["disarm"])
    return (repr(r), sorted(k for k in d[1]["fired"] if k[:2] == "cb" or any(f["seam"] == k for f in fault)))


@worlds.op
def damaged(file, d):
    with open(file, "rb") as f:
        b = f.read()
    with open(file + "_d", "wb") as f:
        f.write(devfile.damage(b, d))
    return worlds.apply(["load", file + "_d"])


@worlds.op
def reset():
    """Only the simulator's own state is its business; the rest is forgotten here."""
    core.alloc_disarm()
    core.math_reset()
    core.sim().sim_thread_off()
    worlds.OUT.fault = None
    for x in (cbs.COUNT, cbs.ARM, cbs.FIRED, cbs.DATA, asm.GEO, asm.NET, asm.ALIAS, c01.SAVED):
        x.clear()
    r = devsim.reset_devsim()
    worlds.OUT.take()
    return r


@worlds.op
def removeall(seed):
    """Deletes everything there is a command for."""
    r = random.Random(seed)
    ds = list(devsim.get_device_list())
    r.shuffle(ds)
    for d in ds:
        devsim.delete_device(device=d)
    ms = list(devsim.get_mesh_list())
    r.shuffle(ms)
    for m in ms:
        devsim.delete_mesh(mesh=m)
    devsim.delete_circuit()


@worlds.op
def place(name):
    """A directory with files of the session's own."""
    os.makedirs(os.path.join(name, "io"))
    os.chdir(name)


@worlds.op
def clock(seed):
    core.sim().sim_clock(seed)


@worlds.op
def junked(byte, o):
    core.sim().sim_stack_junk(byte, 65536)
    return worlds.apply(o)


def _refn(x, *a):
    return 3.0 * x + sum(a)


@worlds.op
def refn(name, nargs):
    """Another function of that name."""
    return devsim.register_function(name=name, nargs=nargs, procedure=_refn)


def said(text):
    """What was printed, without the time it took."""
    return core.ADDRESS.sub(" at", re.sub(r"\([0-9.e+-]+ sec\)", "(sec)", text))


def differ(a, b):
    """Two answers, but for the addresses of python objects."""
    return core.ADDRESS.sub(" at", repr(a)) != core.ADDRESS.sub(" at", repr(b))


# ------------------------------------------------------------------ programs
def world(rng, **kw):
    W = scen.world(rng, **kw)
    W["devs"] = [[n, k, c02.terms(rng, P) if k == "toy" and rng.random() < 0.3 else P] for n, k, P in W["devs"]]
    if any(d[1] == "toy" and d[2].get("terms") for d in W["devs"]):
        W.pop("eq", None)
    return W


def build(W):
    out = []
    for o in scen.build(W):
        out.append(o)
        if o[0] == "toy" and o[2].get("terms"):
            out.append(["toy_terms", o[1], o[2]])
    return out


def analysis(rng, W, faults=True):
    k = rng.random()
    if k < 0.4:
        o = ["dc", scen.solve_args(rng, W)]
    elif k < 0.55:
        o = ["tran", "transient_dc", scen.solve_args(rng, W)]
    elif k < 0.75:
        typ = rng.choice(scen.TRAN)
        o = ["tran", typ, scen.tran_args(rng, W, typ)]
    elif k < 0.82 and W["net"]:
        o = ["small", {"type": "ac", "frequency": rng.choice([0.0, 1.0])}]
    elif k < 0.88 and W["net"]:
        o = ["small", {"type": "noise", "frequency": 1.0, "output_node": "vdd"}]
    elif k < 0.94:
        o = ["c", "get_matrix_and_rhs", {"format": rng.choice(["csc", "csr"])}]
    else:
        o = ["c", "set_initial_condition", {"static_rhs": [0.1] * 3, "dynamic_rhs": [0.2] * 3}]
    if o[0] in ("dc", "tran"):
        if rng.random() < 0.2:
            o[-1]["maximum_iterations"] = rng.choice([1, 2, 3])
        if faults and rng.random() < 0.25:
            f = c02.faults(rng, W)
            if f:
                return ["under", f, o]
    return o


def edit(rng, W, n):
    """Models, materials, parameters, reads and files of one of the devices."""
    devs = W["devs"]
    k = rng.random()
    if not devs or k < 0.12:
        return ["c", "set_parameter", {"name": rng.choice(["k", "p0", "a", "edge_couple_model", "node_volume_model", "extended_solver",
                                                             "extended_model", "extended_equation", "debug_level", "threads_task_size"]),
                                       "value": rng.choice([1, 2.5, "EdgeCouple", "NodeVolume", True, False, "info", "verbose"])}]
    d, kind, P = rng.choice(devs)
    r = "r0" if kind == "toy" else "bulk"
    if k < 0.17:
        return ["c", "node_model", {"device": d, "region": r, "name": "fn", "equation": rng.choice(["usq(2)", "umul(k,x)", "usq(NodeVolume)", "usq(x,2)"])}]
    if k < 0.19:
        return ["c", "symdiff", {"expr": rng.choice(["usq(x)", "diff(usq(x),x)", "umul(a,b)", "diff(u*NodeVolume,u)", "umul(a)"])}]
    if k < 0.21:
        return ["refn", rng.choice(["usq", "umul"]), rng.choice([1, 2])]
    if k < 0.35 and kind == "toy":
        return ["models", d, rng.randrange(4), P.get("dim", 1) > 1]
    if k < 0.5 and kind == "toy":
        return c16.read(rng, [d, kind, P])
    if k < 0.62:
        typ = rng.choice(["vtk", "tecplot", "devsim", "devsim_data"])
        return ["fwrite", "io/o%d" % n, typ, rng.choice([None, d]), rng.choice([None, "even", "x"]) if typ in ("vtk", "tecplot") else None]
    if k < 0.7:
        return ["c", "set_material", {"device": d, "region": r, "material": rng.choice(["Q", "R"])}]
    if k < 0.76:
        return ["c", "node_model", {"device": d, "region": r, "name": "fn", "equation": rng.choice(["usq(2)", "nosuch+1", "2*NodeVolume", "vm*2", "k"])}]
    if k < 0.8:
        return ["c", "get_node_model_values", {"device": d, "region": r, "name": "fn"}]
    if k < 0.86:
        return ["c", rng.choice(["delete_node_model", "delete_edge_model"]), {"device": d, "region": r, "name": rng.choice(["m_n", "F", "S", "m_e", "EdgeLength"])}]
    if k < 0.92:
        return ["c", "delete_device", {"device": d}]
    if k < 0.96:
        return ["c", "delete_circuit", {}]
    return ["c", "delete_equation", {"device": d, "region": r, "name": "UEq" if kind == "toy" else "PotentialEquation"}]


def chunks(rng, n, alloc=False, opts=True, bad=0.6, deletes=True, threads=True):
    """A list of lists of operations; alloc: with failing allocations too."""
    W = world(rng, opts=opts)
    if not threads:
        W.pop("threads", None)
    ops = build(W)
    out = []
    if alloc and rng.random() < 0.3 and ops:
        # the construction stops halfway
        i = rng.randrange(len(ops))
        ops = ops[:i] + [["under", [{"seam": "alloc", "at": int(10 ** (rng.random() * 4)), "n": 1}], ops[i]]] + (ops[i + 1:] if rng.random() < 0.5 else [])
    out.append(ops)
    if opts and not W.get("solver") and not W.get("eq") and rng.random() < 0.3:
        out.append([["c", "set_parameter", {"name": x, "value": True}] for x in ("extended_solver", "extended_model", "extended_equation")])
    for j in range(n):
        k = rng.random()
        if k < 0.4:
            c = [scen.move(rng, W)] if (W["devs"] or W["net"]) and rng.random() < 0.6 else []
            c.append(analysis(rng, W))
        elif k < 0.62:
            c = [edit(rng, W, j)]
            if not deletes and c[0][1] in ("delete_device", "delete_circuit", "set_parameter"):
                c = []
        elif k < 0.72:
            c = [["halfmesh", rng.choice(["m_d0", "m_a0", "hm", "m_zz0"]), rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 5, 8, 12]), {"nreg": rng.choice([1, 2])}]]
        elif k < 0.8:
            c = [["toy", "sv%d" % j, scen.toy_P(rng)], ["fwrite", "io/s%d" % j, rng.choice(["devsim", "devsim_data"]), "sv%d" % j, None],
                 ["c", "delete_device", {"device": "sv%d" % j}]]
            if rng.random() < 0.5:
                c.append(["load", "io/s%d" % j])
            if rng.random() < 0.6:
                c.append(["damaged", "io/s%d" % j, {"k": rng.choice(devfile.KINDS), "f": rng.random(), "g": rng.random(), "s": rng.getrandbits(30)}])
        elif k < 0.82 and opts and W["devs"]:
            d = rng.choice(W["devs"])
            a = {"device": d[0], "region": "r0" if d[1] == "toy" else "bulk", "name": "fn"}
            f, v = rng.choice([("usq(x)", "usq(2)"), ("usq(x)", "usq(x)"), ("umul(x,y)", "umul(x,3)"), ("usq(x,y)", "usq(x,2)")])
            c = [["c", "symdiff", {"expr": "declare(%s)" % f}], ["c", "node_model", dict(a, equation=v)], ["c", "get_node_model_values", a]]
        elif k < 0.86:
            c = [["gmsh_file", scen.toy_P(rng)], ["fload", "gm", "gmsh"]]
        else:
            c = [["attempts", rng.getrandbits(40), rng.choice([1, 3, 6]), bad]]
        if alloc and c and rng.random() < 0.12:
            i = rng.randrange(len(c))
            if c[i][0] != "under":
                c[i] = ["under", [{"seam": "alloc", "at": int(10 ** (rng.random() * 4)), "n": 1}], c[i]]
        out.append(c)
    return out
