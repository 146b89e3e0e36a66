"""Commands with seeded mistakes in their arguments (runs inside sessions)."""
import array
import functools
import json
import os
import random
import sys

import devsim
import worlds

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "commands.json")) as _f:
    COMMANDS = json.load(_f)

READS = ("get_", "print_", "debug_", "symdiff")


class Hostile:
    """Raises whenever it is asked for anything."""

    def _raise(self, *a):
        raise ValueError("hostile")

    __str__ = __float__ = __int__ = __index__ = __bool__ = __len__ = __iter__ = __getitem__ = __call__ = __eq__ = __hash__ = _raise

    def __repr__(self):
        return "hostile"


JUNKS = {"bytes": b"\xff\x00x", "object": object(), "lambda": (lambda *a: 0.0), "set": {1, 2}, "type": int, "gen": range(3),
         "big": 10 ** 40, "complex": 1j, "tuple": ("a", 1, None), "surrogate": "a\ud800", "nan": float("nan"), "inf": float("-inf"),
         "hostile": Hostile(), "array": array.array("d", [1.0, 2.0]), "intarray": array.array("i", [1, 0]), "dict": {"a": 1}}


def unjunk(v):
    if isinstance(v, dict) and "__junk__" in v:
        return JUNKS[v["__junk__"]]
    if isinstance(v, list):
        return [unjunk(x) for x in v]
    return v


@worlds.op
def cj(name, kw, args=()):
    """A command whose arguments may be things JSON cannot carry."""
    return getattr(devsim, name)(*[unjunk(a) for a in args], **{k: unjunk(v) for k, v in kw.items()})


# --------------------------------------------------------------------------
# recording the plain commands that the operations of a world consist of
# --------------------------------------------------------------------------
def plain(v):
    if hasattr(v, "tolist"):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def record(ops):
    """Applies operations; returns the plain devsim commands they issued."""
    log = []
    for n in COMMANDS:
        f = getattr(devsim, n)

        def wrapped(*a, _f=f, _n=n, **kw):
            log.append((_n, {k: plain(v) for k, v in kw.items()}, len(log)))
            i = len(log) - 1
            try:
                return _f(*a, **kw)
            except BaseException:
                log[i] = None
                raise
        setattr(devsim, n, wrapped)
    for o in ops:
        worlds.apply(o)
    return [["c", x[0], x[1]] for x in log if x and not x[0].startswith(READS)]


# --------------------------------------------------------------------------
# commands and mistakes
# --------------------------------------------------------------------------
def names():
    """What there is to name."""
    N = {"device": sorted(devsim.get_device_list()), "mesh": sorted(devsim.get_mesh_list()), "dev": {}}
    N["node"] = list(devsim.get_circuit_node_list())
    N["solution"] = sorted(devsim.get_circuit_solution_list())
    for d in N["device"]:
        D = {"region": sorted(devsim.get_region_list(device=d)), "contact": sorted(devsim.get_contact_list(device=d)),
             "interface": sorted(devsim.get_interface_list(device=d))}
        N["dev"][d] = D
    return N


EXPR = ("u*u + 1", "exp(u) - k", "k*EdgeLength", "u@n0 - u@n1", "u@r0 - u@r1", "x*y", "nosuch*2", "u@en0*2", "1.5", "vec_sum(1,2,3)")
BADEXPR = ("", "u+*2", "exp(", "diff(u", ")", "nosuchfun(u)", "exp(u,u)", "pow(u)", "diff(exp(nosuchfun(u)),u)", "u@", "1e", "ifelse(u)",
           "exp(u))", "u u", "@", "diff(u)", "\x00", "declare(u)", "define(f,g)", "diff(u,2)", "diff(u,u*u)")
TYPES = {"type": ("continuous", "fluxterm", "hybrid"), "calc_type": ("default", "avoidzero"), "variable_update": ("default", "log_damp", "positive"),
         "average_type": ("arithmetic", "geometric", "gradient", "negative_gradient"), "display_type": ("vector", "scalar", "nodisplay"),
         "format": ("csc", "csr"), "dir": ("x", "y")}


def pick(r, xs, other="nosuch"):
    xs = list(xs)
    return r.choice(xs) if xs else other


def fill(r, cmd, N, P):
    """Arguments that mostly make sense."""
    kw = {}
    opts = COMMANDS[cmd]
    d = pick(r, N["device"])
    D = N["dev"].get(d, {"region": [], "contact": [], "interface": []})
    reg = pick(r, D["region"])

    def models(kind):
        f = {"node": devsim.get_node_model_list, "edge": devsim.get_edge_model_list, "element": devsim.get_element_model_list}[kind]
        try:
            return sorted(f(device=d, region=reg))
        except devsim.error:
            return []

    def guarded(f, **k):
        try:
            return sorted(f(**k))
        except devsim.error:
            return []
    new = r.choice(["n%d" % r.randrange(4), "N_x", "_q", "u", "S", "F", "r9", "x", "k"])
    for o, t, req in opts:
        if not req and r.random() < 0.6:
            continue
        if o == "device":
            v = d if cmd != "create_device" else r.choice(["dn%d" % r.randrange(3), d])
        elif o == "mesh":
            v = pick(r, N["mesh"]) if not cmd.startswith("create_") or cmd == "create_device" else "mn%d" % r.randrange(3)
        elif o in ("region", "region0", "region1"):
            v = reg if o == "region" else pick(r, D["region"])
        elif o == "contact":
            v = pick(r, D["contact"])
        elif o == "interface":
            v = pick(r, D["interface"])
        elif o in ("node_model", "time_node_model", "node_current_model", "node_charge_model"):
            v = pick(r, models("node"))
        elif o in ("edge_model", "edge_volume_model", "edge_current_model", "edge_charge_model"):
            v = pick(r, models("edge")) if cmd != "edge_average_model" else new
        elif o in ("element_model", "element_current_model", "element_charge_model", "volume_node0_model", "volume_node1_model"):
            v = pick(r, models("element"))
        elif o == "interface_model":
            v = pick(r, guarded(devsim.get_interface_model_list, device=d, interface=kw.get("interface", "")))
        elif o in ("derivative", "variable_name", "variable"):
            v = r.choice(["u", "v", "Potential", "nosuch", "x"])
        elif o == "circuit_node":
            v = pick(r, N["node"])
        elif o == "node":
            v = pick(r, N["node"])
        elif o in ("n1", "n2"):
            v = r.choice(list(N["node"]) + ["nn%d" % r.randrange(3), "0"])
        elif o == "solution":
            v = pick(r, N["solution"], "dcop")
        elif o in ("alias",):
            v = r.choice(["al%d" % r.randrange(3), pick(r, N["node"])])
        elif o in ("equation", "expr"):
            if cmd.startswith("get_contact_c"):
                v = r.choice(["UEq", "VEq", "PotentialEquation", "nosuch"])
            elif cmd == "get_equation_numbers":
                v = r.choice(["UEq", "VEq", "nosuch"])
            else:
                v = r.choice(EXPR)
        elif o == "name" and "equation" in cmd and cmd != "custom_equation":
            v = r.choice(["UEq", "VEq", "PotentialEquation", "WEq"])
        elif o == "name" and ("_model_values" in cmd or cmd.startswith(("print_", "delete_", "set_node", "set_edge", "set_elem"))):
            kind = "node" if "node" in cmd else "element" if "element" in cmd else "edge"
            if "interface" in cmd:
                v = pick(r, guarded(devsim.get_interface_model_list, device=d, interface=kw.get("interface", "")))
            else:
                v = pick(r, models(kind))
        elif o == "name" and cmd.startswith("circuit_"):
            v = r.choice(["V1", "R1", "C1", "L1", "I1", "R77", "V77", "X1", "Q"])
        elif o == "name" and "circuit" in cmd:
            v = r.choice(["nn%d" % r.randrange(3), pick(r, N["node"])])
        elif o == "name" and cmd.endswith("parameter"):
            v = r.choice(["k", "g", "top_bias", "newp"])
        elif o == "name" and ("contact" in cmd or "interface" in cmd) and "model" not in cmd:
            v = r.choice([pick(r, D["contact"]), pick(r, D["interface"]), "cnew%d" % r.randrange(2)])
        elif o == "name":
            v = new
        elif o == "init_from":
            v = pick(r, models("node" if "node" in cmd else "element" if "element" in cmd else "edge"))
        elif o == "values":
            try:
                f = {"set_node_values": devsim.get_node_model_values, "set_edge_values": devsim.get_edge_model_values}.get(cmd, devsim.get_element_model_values)
                n = len(f(device=d, region=reg, name=kw.get("name", "")))
            except devsim.error:
                n = 4
            v = [r.choice([0.25, 0.5, 1]) for _ in range(n)]
        elif o in ("nodes0", "nodes1"):
            v = sorted(r.sample(range(4), 2))
        elif o in ("static_rhs", "dynamic_rhs"):
            v = [0.0] * r.choice([3, 5, 8])
        elif o == "coordinates":
            v = [float(r.randrange(3)) for _ in range(3 * r.choice([2, 3, 4]))]
        elif o == "elements":
            v = [1, 0, 0, 1, 0, 1, 0]
        elif o == "physical_names":
            v = ["a", "b"]
        elif o == "procedure":
            v = {"__junk__": "lambda"}
        elif o == "nargs":
            v = r.choice([1, 2])
        elif o in TYPES:
            v = r.choice(TYPES[o])
            if cmd == "write_devices":
                v = r.choice(["devsim", "vtk", "tecplot", "floops"])
            if cmd == "solve":
                v = r.choice(["dc", "ac", "noise", "transient_dc", "transient_bdf1"])
        elif o == "file":
            v = r.choice(["io/out", "io/nosuch"])
        elif o == "index":
            v = r.choice([0, 1])
        elif t == "f":
            v = r.choice([0.25, 0.5, 1.0])
        elif t == "i":
            v = r.choice([1, 5])
        elif t == "b":
            v = r.choice([True, False])
        else:
            v = r.choice(["M", "tag", "top", "a"])
        kw[o] = v
    return kw


def pool(o, N):
    """Names of all kinds."""
    out = ["", "nosuch", "0", "x", "all", "bad name", "a@b", "none"] + N["device"] + N["mesh"] + N["node"][:3]
    for D in N["dev"].values():
        for q in D.values():
            out += q
    return out


def spoil(r, cmd, kw, N):
    """Makes one mistake."""
    opts = {o: (t, q) for o, t, q in COMMANDS[cmd]}
    kw = dict(kw)
    k = r.random()
    have = [o for o in opts if o in kw]
    need = [o for o in have if opts[o][1]]
    args = []
    if k < 0.08 and need:
        del kw[r.choice(need)]
    elif k < 0.13:
        kw[r.choice(["nosuch_option", "Device", "values ", "x" * 40])] = r.choice([1, "a", None])
    elif k < 0.15:
        args = [r.choice(["a", 1])]
    elif k < 0.40 and have:
        o = r.choice(have)
        kw[o] = r.choice([None, True, -1, 0, 7, 1.5, "", "abc", "1.5x", [], ["a"], [[]], {}, [None], {"__junk__": r.choice(sorted(JUNKS))}])
    elif k < 0.70 and have:
        o = r.choice([o for o in have if opts[o][0] == "s"] or have)
        if o in ("equation", "expr") and r.random() < 0.7:
            kw[o] = r.choice(BADEXPR)
        elif o == "procedure":
            kw[o] = r.choice([None, "x", 1, []])
        else:
            kw[o] = r.choice(pool(o, N))
    elif k < 0.80 and any(isinstance(kw[o], list) for o in have):
        o = r.choice([o for o in have if isinstance(kw[o], list)])
        v = list(kw[o])
        j = r.random()
        if j < 0.3:
            v = v[:-1]
        elif j < 0.5:
            v = v + [v[-1] if v else 0]
        elif j < 0.9 and v:
            v[r.randrange(len(v))] = r.choice([None, "junk", [], 1e10, -1, 10 ** 9])
        else:
            v = []
        kw[o] = v
    elif k < 0.90:
        # names two things alike, or adds an option that does not go with the others
        extra = [o for o in opts if o not in kw]
        if extra:
            o = r.choice(extra)
            kw[o] = r.choice(pool(o, N)) if opts[o][0] == "s" else r.choice([1, -1, "a"])
        elif len(have) > 1:
            a, b = r.sample(have, 2)
            kw[a] = kw[b]
    else:
        o = r.choice(have) if have else None
        if o:
            same = [q for q in have if type(kw[q]) is type(kw[o])]
            q = r.choice(same)
            kw[o], kw[q] = kw[q], kw[o]
    return kw, args


MESHNUM = ("pos", "ps", "ns", "bloat", "xl", "xh", "yl", "yh")


def attempt(seed, base, bad, shadow=False):
    """One command, maybe with a mistake.

    Returns (operation, result, differences, session before).  A shadow makes up
    and looks at the same things, but does not issue the command."""
    r = random.Random(seed)
    N = names()
    if base is None:
        cmd = r.choice(TRY)
        kw = fill(r, cmd, N, None)
    else:
        cmd, kw = base[1], dict(base[2])
    args = []
    for _ in range(bad):
        kw, args = spoil(r, cmd, kw, N)
    if cmd == "reset_devsim" and not kw and not args:
        kw["nosuch_option"] = 1
    if cmd == "solve" and (not isinstance(kw.get("maximum_iterations", 5), int) or kw.get("maximum_iterations", 5) > 20):
        kw["maximum_iterations"] = "x"
    o = ["cj", cmd, kw, args]
    with open("io/try", "w") as f:
        f.write(repr(o))
    # reading a model may bring back its deleted companion
    worlds.snapshot()
    before = worlds.snapshot()
    if shadow:
        return o, None, [], before
    res = worlds.apply(o)
    if res[0] == "ok" or ran(o, res):
        return o, res, [], before
    after = worlds.snapshot()
    return o, res, worlds.diff(before, after), before


def ran(o, res):
    """The analysis failed, and not because of a mistake in its arguments."""
    return o[1] in ("solve", "get_matrix_and_rhs") and ("Convergence failure" in str(res[1]) or "DEVSIM FATAL" in str(res[1]))


def issue(o):
    """What the shadow session does after its other one issued the command."""
    if o is None:
        worlds.snapshot()
        return None
    return worlds.apply(o)


TRY = sorted(COMMANDS)
