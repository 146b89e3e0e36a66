"""C12: the circuit solution always corresponds to the current netlist."""
import math

import asm
import core
import scen
import worlds
from props import c02

LEVEL = "fault_enumeration"
RUNS = {"quick": 5000, "thorough": 60000}
SHRINK = ["steps", "net", "alias", "W.devs"]
RULE = ("Each run builds a seeded netlist of voltage and current sources, resistors, capacitors and inductors between seeded nodes (odd names, "
        "both grounds, aliases, elements between the same nodes, self connected and floating elements), with or without devices that are connected "
        "to its nodes or watch them, and drives it through a seeded history of altered parameters, node values set by name and alias, dc, small "
        "signal, noise and transient solves, linear solver failures, and deletion and rebuilding of the circuit.  After every solve that reports "
        "success an independent assembly of the netlist as it then is gives Kirchhoff's law and the branch laws; the small signal system is "
        "solved independently at the same frequency.  A model of the node values follows every value read.")
REAL = ["all of devsim (plain build)"]
STUB = ["sparse direct solver (scheduled failures and non finite results)", "BLAS/LAPACK", "symbolic engine", "user supplied solver callback"]
ASSUME = ["netlists whose equations are singular are not judged when the stand-in for the sparse solver gives them a finite solution"]
TIME_UNIT = "seconds of simulated transient time"

NODES = ["vdd", "vm", "1", "2", "10", "out", "a.b", "Z", "z", "R1", "V9.x", "n 1", "_"]
GND = ["0", "GND"]


def netlist(rng, must=()):
    nodes = list(must) + rng.sample(NODES, rng.randint(1, 4))
    nodes = list(dict.fromkeys(nodes))
    rng.shuffle(nodes)
    net = []
    names = {}

    def add(t, a, b):
        k = names[t] = names.get(t, 0) + 1
        e = {"name": "%s%s" % (rng.choice([t, t, t.lower()]), rng.choice(["%d", "x%d", "_%d"]) % k), "n1": a, "n2": b,
             "value": {"V": rng.choice([0.0, 0.2, -0.5]), "I": rng.choice([0.0, 0.1, -0.05]), "R": rng.choice([0.5, 2.0, 100.0, -3.0]),
                       "C": rng.choice([0.3, 0.01, 0.0]), "L": rng.choice([0.2, 0.0, 3.0])}[t]}
        if t == "V" and rng.random() < 0.7:
            e["acreal"] = rng.choice([1.0, -2.0, 0.5])
            if rng.random() < 0.5:
                e["acimag"] = rng.choice([1.0, 0.3])
        net.append(e)

    def gnd():
        return rng.choice(GND)
    # every node has a way to the ground, mostly
    for i, n in enumerate(nodes):
        if rng.random() < 0.96:
            other = gnd() if i == 0 or rng.random() < 0.4 else rng.choice(nodes[:i])
            add(rng.choice("RRRRRV" if i else "RRVV"), *((n, other) if rng.random() < 0.6 else (other, n)))
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        a = rng.choice(nodes + GND)
        b = rng.choice(nodes + GND)
        t = rng.choice("RRCCLII" + ("V" if rng.random() < 0.3 else ""))
        add(t, a, b)
    rng.shuffle(net)
    return nodes, net


def plan(rng, tier, index):
    W = {"devs": [], "net": [], "nodes": []}
    tap = rng.choice(["vm", "tap"])
    must = []
    if rng.random() < 0.45:
        must = ["vm"]
        for i in range(rng.choice([1, 1, 2])):
            if i == 0 and rng.random() < 0.25:
                W["devs"].append(["d0", "diode", {"nx": 3, "fine": 2, "ckt": [], "dd": rng.random() < 0.5}])
            else:
                P = scen.toy_P(rng, circuit=rng.choice([tap, tap, None]))
                if P.get("update") == "positive":
                    del P["update"]
                P["watch"] = tap
                W["devs"].append(["%s%d" % (rng.choice("ay"), i), "toy", c02.terms(rng, P)])
    if rng.random() < 0.15:
        W["solver"] = "custom"
    ext = rng.random() < 0.05
    nodes, net = netlist(rng, must)
    alias = []
    if must and tap != "vm":
        alias.append(["vm", tap])
    for _ in range(rng.choice([0, 0, 1, 2])):
        alias.append([rng.choice(nodes + ["0", "GND"] + [e["name"] + ".I" for e in net if e["name"][0] in "VvLl"]), rng.choice(["al", "A2", "sense", "0.x"])])
    alias = list({a[1]: a for a in alias}.values())
    # aliases are there before the elements which use them
    early = rng.random() < 0.5
    if early:
        for e in net:
            for k in ("n1", "n2"):
                al = [a[1] for a in alias if a[0] == e[k] and "." not in a[0]]
                if al and rng.random() < 0.6:
                    e[k] = rng.choice(al)
    steps = []
    tran = 0
    cur = (nodes, net, alias)
    for _ in range(rng.randint(3, 10)):
        k = rng.random()
        n, e, al = cur
        reach = n + [a[1] for a in al]
        x = rng.choice(e) if e else None
        if k < 0.3 and x:
            t = x["name"][0].upper()
            p = rng.choice(["value", t, None] + (["acreal", "acimag"] * 2 if t == "V" else []))
            kw = {"name": x["name"], "value": {"V": rng.choice([0.0, 0.7, -0.3]), "I": rng.choice([0.2, -0.1, 0.0]), "R": rng.choice([0.7, 3.0, 50.0]),
                                               "C": rng.choice([0.5, 0.02]), "L": rng.choice([0.4, 1.0])}[t]}
            if p:
                kw["param"] = p
            steps.append({"op": ["alter", kw]})
        elif k < 0.4:
            steps.append({"op": ["c", "set_circuit_node_value", {"solution": rng.choice(["dcop", "dcop", "dcop", "ssac_real", "ssac_imag"]),
                                                               "node": rng.choice(reach + ["0"]), "value": rng.choice([0.3, -1.0, 0.0, 1e-3])}]})
        elif k < 0.44 and W["devs"] and W["devs"][0][1] == "toy":
            steps.append({"op": scen.move(rng, dict(W, net=[]))})
        elif k < 0.48:
            must2 = must
            nn, ne = netlist(rng, must2)
            cur = (nn, ne, [["vm", tap]] if must and tap != "vm" else [])
            steps.append({"rebuild": [ne, cur[2]]})
            tran = 0
        elif k < 0.7:
            steps.append({"op": ["dc", scen.solve_args(rng, W)]})
        elif k < 0.88:
            steps.append({"op": ["small", {"type": "ac", "frequency": rng.choice([0.0, 1e-3, 0.1, 1.0, 7.5, 1e3])}]})
        elif k < 0.92:
            steps.append({"op": ["small", {"type": "noise", "frequency": rng.choice([0.1, 1.0]), "output_node": rng.choice(reach)}]})
        else:
            typ = "transient_dc" if not tran else rng.choice(scen.TRAN if tran > 1 else scen.TRAN[:2])
            tran = 1 if typ == "transient_dc" else 2
            steps.append({"op": ["tran", typ, scen.solve_args(rng, W) if tran == 1 else scen.tran_args(rng, W, typ)]})
        o = steps[-1].get("op")
        if o and o[0] in ("dc", "small", "tran"):
            if o[0] != "small":
                o[-1].pop("solver_type", None)
                o[-1]["relative_error"] = rng.choice([1e-6, 1e-9, 1e-11])
                o[-1]["maximum_iterations"] = rng.choice([1, 3, 30, 30, 30])
            if rng.random() < 0.3:
                f = c02.faults(rng, W)
                if o[0] == "small":
                    # there is one linear solve
                    f = [x for x in f if x.get("kind") != 4]
                    for x in f:
                        x["at"] = 0
                steps[-1]["faults"] = f
    return {"W": W, "net": net, "alias": alias, "early": early, "steps": steps, "ext": ext, "nodes": nodes}


@worlds.op
def small(kw):
    import devsim
    return devsim.solve(**kw)


def put(s, ctx, net, alias, nodes, early):
    for e in net:
        for k in ("n1", "n2"):
            pass
    if early:
        for n in nodes:
            r = s.op(["c", "add_circuit_node", {"name": n}])
            if r[0] != "ok":
                raise core.Violation("add", "%s: %r" % (n, r))
        for a in alias:
            if "." not in a[0] or a[0] in nodes:
                link(s, a)
    for e in net:
        r = s.op(["element", e])
        if r[0] != "ok":
            raise core.Violation("element", "%r: %r" % (e, r))
    for a in alias:
        if not early or "." in a[0] and a[0] not in nodes:
            link(s, a)


def link(s, a):
    # the node may have been taken out by shrinking
    s.op(["net_alias", *a])


def names(net, alias, nodes):
    al = {a[1]: a[0] for a in alias}
    out = set(nodes)
    for e in net:
        out |= {al.get(str(e[k]), str(e[k])) for k in ("n1", "n2")}
        if e["name"][0] in "VvLl":
            out.add(e["name"] + ".I")
    return out - set(GND)


class Book:
    """What every node value has to read as."""

    def __init__(self):
        self.val = None

    def look(self, s, want, what, changed=(), setv=None):
        r = s.op(["net_state"])
        if r[0] != "ok":
            raise core.Violation("unreadable", "after %s the circuit cannot be read: %r" % (what, r))
        st = r[1]
        if set(st["nodes"]) != want or len(st["nodes"]) != len(want):
            raise core.Violation("nodes", "after %s the nodes are %r, those of the netlist are %r" % (what, sorted(st["nodes"]), sorted(want)))
        st["val"] = {k: v for k, v in st["val"].items() if not k.endswith("_prev")}
        for sol, v in st["val"].items():
            for a, n in st["alias"].items():
                if repr(v[a]) != repr(v.get(n)):
                    raise core.Violation("alias", "after %s, %s of %r is %r, and of its alias %r %r" % (what, sol, n, v.get(n), a, v[a]))
            for g in GND:
                if v[g] != 0.0:
                    raise core.Violation("ground", "after %s, %s of %s is %r" % (what, sol, g, v[g]))
            old = (self.val or {}).get(sol)
            if old is not None and sol not in changed:
                for n in v:
                    if n in old and repr(v[n]) != repr(old[n]):
                        w = old[n]
                        if setv and setv[0] == sol and st["alias"].get(n, n) == st["alias"].get(setv[1], setv[1]):
                            w = setv[2]
                        if repr(v[n]) != repr(w):
                            raise core.Violation("value", "after %s, %s of %r is %r instead of %r" % (what, sol, n, v[n], w))
        if setv and setv[1] not in GND and st["alias"].get(setv[1]) not in GND and st["val"][setv[0]][setv[1]] != setv[2]:
            raise core.Violation("set", "after %s, %s of %r reads %r" % (what, setv[0], setv[1], st["val"][setv[0]][setv[1]]))
        eq = [st["eq"][n] for n in st["nodes"]]
        if st["val"] and (min(eq, default=0) < 0 or len(set(eq)) != len(eq)):
            raise core.Violation("numbers", "after %s the equation numbers are %r" % (what, st["eq"]))
        for a, n in st["alias"].items():
            if st["eq"][a] != st["eq"].get(n):
                raise core.Violation("alias", "after %s the equation of %r is %r, and of its alias %r %r" % (what, n, st["eq"].get(n), a, st["eq"][a]))
        self.val = {k: dict(v) for k, v in st["val"].items()}
        return st


def system(D, f):
    J = [(i, j, complex(v)) for i, j, v in D["G"]]
    if f:
        J += [(i, j, 2j * math.pi * f * v) for i, j, v in D["C"]]
    return J


def fields(s, D, suffix):
    """Device values of a small signal analysis in the order of the unknowns; None where there is none."""
    out = []
    cache = {}
    for nme in D["names"]:
        if nme.startswith("ckt/"):
            out.append(None)
            continue
        dev, reg, var, i = nme.split("/")
        k = (dev, reg, var)
        if k not in cache:
            v = []
            for x in suffix(dev, reg, var):
                r = s.op(["c", "get_node_model_values", {"device": dev, "region": reg, "name": x}])
                if r[0] != "ok":
                    raise core.Violation("unreadable", "%s of %s/%s: %r" % (x, dev, reg, r))
                v.append(r[1])
            cache[k] = v
        a, b = cache[k]
        out.append(complex(a[int(i)], b[int(i)]))
    return out


def compare(D, y, got, what, skip=()):
    m = {}
    for n, v in zip(D["names"], y):
        k = n.split("/")[0]
        m[k] = max(m.get(k, 0.0), abs(v))
    m["ckt"] = m.get("ckt", 0.0)
    top = max(m.values(), default=0.0)
    for j, (n, v, g) in enumerate(zip(D["names"], y, got)):
        if j in skip or g is None:
            continue
        if not abs(v - g) <= 1e-6 * abs(v) + 1e-7 * m[n.split("/")[0]] + 1e-12 * top + 1e-300:
            raise core.Violation("small-signal", "%s: %s is %r, the solution of the linearized equations is %r" % (what, n, g, v))


def small_check(s, op, D, st, ctx):
    kw = op[1]
    n = len(D["names"])
    J = system(D, kw["frequency"])
    b = [0.0] * n
    if kw["type"] == "ac":
        for i, re, im in D["ac"]:
            b[i] -= complex(re, im)
        a = "ssac"
    else:
        J = [(j, i, v) for i, j, v in J]
        out = st["alias"].get(kw["output_node"], kw["output_node"])
        if "ckt/" + out not in D["names"]:
            ctx.probe("noise-elsewhere")
            return
        b[D["names"].index("ckt/" + out)] = -1.0
        a = "noise_" + kw["output_node"]
    if any(v != v or abs(v) == float("inf") for _, _, v in J):
        ctx.probe("singular")
        return
    try:
        y = asm.correction(J, b)
    except asm.Singular:
        ctx.probe("singular")
        return
    if max((abs(v) for v in y), default=0.0) > 1e9:
        # nearly singular
        ctx.probe("singular")
        return
    ctx.probe("checked-" + kw["type"])
    R, Im = st["val"].get(a + "_real", {}), st["val"].get(a + "_imag", {})
    got = [complex(R[x[4:]], Im[x[4:]]) if x.startswith("ckt/") else None for x in D["names"]]
    compare(D, y, got, "after %s" % (op,))
    if kw["type"] == "ac":
        compare(D, y, fields(s, D, lambda d, r, v: (v + "_Real", v + "_Imag")), "after %s" % (op,))
        return
    eq = {}

    def suffix(d, r, v):
        if (d, r, v) not in eq:
            for e in s.op(["c", "get_equation_list", {"device": d, "region": r}])[1]:
                c = s.op(["c", "get_equation_command", {"device": d, "region": r, "name": e}])[1]
                eq[d, r, c["variable_name"]] = e
        return ["%s_%s_%s" % (kw["output_node"], eq[d, r, v], x) for x in ("real", "imag")]
    yy = list(y)
    for row, t in D["moved"]:
        yy[row] = 0.0 if t is None else y[t]
    compare(D, yy, fields(s, D, suffix), "after %s" % (op,), set(D["kept"]))


def finite(st, sols):
    return all(abs(v) < float("inf") for x in sols for v in st["val"].get(x, {}).values())


def execute(plan, ctx):
    W = plan["W"]
    s = ctx.session("a")
    if W.get("solver"):
        s.op(["use_solver"])
    net, alias, nodes = plan["net"], plan["alias"], plan["nodes"] if plan["early"] else []
    put(s, ctx, net, alias, nodes, plan["early"])
    if not c02.begin(dict(W, net=[], nodes=[]), ctx, s):
        return
    if plan["ext"]:
        s.op(["c", "set_parameter", {"name": "extended_solver", "value": True}])
    extra = {P.get("ckt") for _, k, P in W["devs"] if k == "toy" and P.get("ckt")}
    want = names(net, alias, nodes)
    al = {a[1]: a[0] for a in alias}
    if {al.get(x, x) for x in extra} - want:
        return
    book = Book()
    book.look(s, want, "the netlist")
    hist = []
    for st in plan["steps"]:
        if "rebuild" in st:
            ne, na = st["rebuild"]
            r = s.op(["net_delete"])
            if r[0] != "ok":
                raise core.Violation("delete", "%r" % (r,))
            book = Book()
            put(s, ctx, ne, na, [], False)
            want = names(ne, na, [])
            book.look(s, want, "rebuilding")
            hist = []
            if {x for x in extra if {a[1]: a[0] for a in na}.get(x, x) not in want}:
                return
            continue
        op = st["op"]
        if op[0] == "alter" and op[1]["name"] not in s.op(["net_names"])[1]:
            continue
        if op[0] not in ("dc", "small", "tran"):
            r = s.op(op)
            if op[0] == "c" and op[1] == "set_circuit_node_value":
                kw = op[2]
                ok = book.val and kw["solution"] in book.val
                if (r[0] == "ok") != bool(ok):
                    if r[0] == "err" and ok and kw["node"] not in book.val[kw["solution"]]:
                        continue
                    raise core.Violation("set", "%s: %r" % (op, r))
                book.look(s, want, str(op), setv=(kw["solution"], kw["node"], kw["value"]) if ok else None)
                continue
            if r[0] != "ok":
                raise core.Violation("move", "%s: %r" % (op, r))
            book.look(s, want, str(op))
            continue
        if op[0] == "tran" and op[1] != "transient_dc" and not hist or op[0] == "tran" and op[1] == "transient_bdf2" and len(hist) < 2:
            continue
        if st.get("faults"):
            s.op(["arm", st["faults"]])
        r = s.op(op)
        fired = {}
        if st.get("faults"):
            fired = s.op(["disarm"])[1]["fired"]
            for k, n in fired.items():
                ctx.fault(k, n)
        if r[0] == "py":
            raise core.Violation("wrong-exception", "%s: %r" % (op, r))
        bad = scen.failed(op, r)
        what = "%s %s" % (op, "failed" if bad else "succeeded")
        if op[0] == "small":
            a = ["ssac_real", "ssac_imag"] if op[1]["type"] == "ac" else ["noise_%s_%s" % (op[1]["output_node"], x) for x in ("real", "imag")]
            new = [x for x in a if not book.val or x not in book.val]
            state = book.look(s, want, what, changed=new if bad else a)
            if bad:
                ctx.probe("failed-small" + ("-by-fault" if fired else ""))
                continue
            if want and not finite(state, a):
                raise core.Violation("not-finite", "%s (faults that struck: %r) with values which are not finite: %r" % (what, fired, {x: state["val"].get(x) for x in a}))
            r = s.op(["dump"])
            if r[0] != "ok":
                if "circuit solution" in str(r) or not want:
                    continue
                raise core.Violation("unreadable", "after %s: %r" % (op, r))
            D = r[1]
            D["G"] = list(D["G"])
            small_check(s, op, D, state, ctx)
            continue
        state = book.look(s, want, what, changed=() if bad else ("dcop",))
        if bad:
            ctx.probe("failed" + ("-by-fault" if fired else ""))
            continue
        if not finite(state, ["dcop"]):
            raise core.Violation("not-finite", "%s (%r) with values which are not finite: %r" % (what, fired, state["val"].get("dcop")))
        D = c02.check(s, op, hist, ctx, "faults that struck: %r" % (fired,) if fired else "no faults")
        if op[0] == "tran":
            ctx.simtime += op[2].get("tdelta", 0.0)
            if op[1] == "transient_dc":
                hist = []
            hist = [(D["I"], D["Q"])] + hist[:2]


@worlds.op
def net_names():
    return list(asm.NET)
