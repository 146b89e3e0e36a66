"""C06: model values read back are always those of the current state."""
import random
import math

import core
import gen
import scen
import worlds

LEVEL = "exploration"
RUNS = {"quick": 7000, "thorough": 400000}
SHRINK = ["steps", "W.devs"]
RULE = ("Each run builds seeded devices in 1D to 3D with and without a circuit and drives them through a seeded history of model "
        "definitions and redefinitions with shared subexpressions, deletions, solution, parameter and circuit value changes at every "
        "level, successful and failing solves, rejected commands and exhausted memory, with reads of random models in random order "
        "in between. Every value read is compared with an independent evaluation of its definition; at the end and at seeded points "
        "all values are compared with those of a fresh process that is given the final definitions and values only.")
REAL = ["all of devsim (plain build)"]
STUB = ["operator new (scheduled failures)", "BLAS/LAPACK", "symbolic engine", "sparse direct solver"]
ASSUME = ["a model whose definition refers to something that does not exist has no value to compare"]
TIME_UNIT = "not applicable (no simulated clock)"

PARAMS = ["p0", "p1", "p2", "k", "top_bias"]
SOL = ["u", "w"]
NODE = ["m%d" % i for i in range(6)]
CON = ["c0", "c1"]
EDGE = ["e%d" % i for i in range(5)]
AVG = ["v0", "v1"]
ELEM = ["l%d" % i for i in range(4)]
IFACE = ["f%d" % i for i in range(3)]
NODED = ["m0:u", "m1:u"]
EDGED = ["%s:u@n%d" % (e, i) for e in ("e0", "e1") for i in (0, 1)]
VALS = [0.0, 0.1, 0.25, -0.4, 0.7, 1.3, 0.3]


def mkworld(rng):
    W = {"devs": [], "net": [], "nodes": []}
    if rng.random() < 0.5:
        W["nodes"] = ["vdd", "vm"]
        W["net"] = [{"name": "V1", "n1": "vdd", "n2": "0", "value": 0.3},
                    {"name": "R1", "n1": "vdd", "n2": "vm", "value": 0.5},
                    {"name": "R2", "n1": "vm", "n2": "0", "value": 2.0}]
        if rng.random() < 0.4:
            W["alias"] = True
    solve = rng.random() < 0.5
    for i in range(rng.choice([1, 1, 2])):
        P = scen.toy_P(rng, circuit="vm" if W["net"] and rng.random() < 0.5 else None)
        P.pop("update", None)
        P.pop("init", None)
        P["extras"] = False
        if not solve:
            P["ckt"] = None
        W["devs"].append(["d%d" % i, "toy", P])
    W["solve"] = solve
    return W


class Names:
    """What a generated expression may refer to."""

    def __init__(self, W):
        self.W = W
        self.known = {}

    def leaf(self, rng, kind, dev, where):
        P = dict((d[0], d[2]) for d in self.W["devs"])[dev]
        k = rng.random()
        if k < 0.22:
            return rng.choice(PARAMS)
        if k < 0.3 and self.W["nodes"]:
            return rng.choice(self.W["nodes"] + (["alt"] if self.W.get("alias") else []))
        if kind == "node":
            return rng.choice(SOL * 2 + NODE + CON + ["x", "y", "NodeVolume"] + (["u_gradx"] if rng.random() < 0.2 else []))
        if kind == "edge":
            return rng.choice([rng.choice(SOL + NODE) + rng.choice(["@n0", "@n1"])] * 2 + EDGE[:3] + AVG + ["es", "EdgeLength", "unitx"])
        if kind == "element":
            return rng.choice([rng.choice(SOL + NODE) + rng.choice(["@en0", "@en1", "@en2"])] * 2 + ELEM + EDGE[:2] + ["es", "EdgeLength", rng.choice(SOL) + "@n1","ls", "ElementEdgeCouple", rng.choice(EDGE) + "_x", "l0_x"])
        return rng.choice([rng.choice(SOL + NODE) + rng.choice(["@r0", "@r1"])] * 3 + IFACE)

    def base(self, rng, kind):
        return {"node": rng.choice(["u", "w", "x"]), "edge": rng.choice(["u@n0", "w@n1", "EdgeLength"]),
                "element": rng.choice(["u@en0", "w@en1"]), "interface": rng.choice(["u@r0", "w@r1"])}[kind]


def plan(rng, tier, index):
    W = mkworld(rng)
    # the solutions and their equations in the other precision from the start
    W["extended"] = W["solve"] and rng.random() < 0.25
    N = Names(W)
    pools = {"node": [], "edge": [], "element": [], "interface": []}
    steps = []

    def place(kind):
        while True:
            d, _, P = rng.choice(W["devs"])
            if kind == "element" and P["dim"] == 1 or kind == "interface" and P["nreg"] == 1:
                if all(kind == "element" and x[2]["dim"] == 1 or kind == "interface" and x[2]["nreg"] == 1 for x in W["devs"]):
                    return None, None, None
                continue
            if kind == "interface":
                return d, "i1", P
            return d, rng.choice(worlds.toy_regions(P)), P

    def define(kind=None):
        kind = kind or rng.choice(["node"] * 4 + ["edge"] * 4 + ["element"] * 3 + ["interface"] * 2)
        d, r, P = place(kind)
        if d is None:
            return
        e = gen.expr(rng, lambda: N.leaf(rng, kind, d, r), lambda: N.base(rng, kind), rng.choice([1, 2, 3]), pools[kind])
        if rng.random() < 0.15:
            # has no value everywhere unless the parameter is large
            x = ["n", "pq"] if rng.random() < 0.3 else ["+", ["n", "pq"], ["n", N.base(rng, kind)]]
            e = ["+", e, ["f", "log", x]]
        st = {"s": "def", "kind": kind, "dev": d, "where": r, "name": rng.choice({"node": NODE, "edge": EDGE, "element": ELEM, "interface": IFACE}[kind]), "e": e}
        if kind in ("node", "edge") and rng.random() < 0.15:
            # what is used as the derivative of another model
            st["name"] = rng.choice(NODED if kind == "node" else EDGED)
        if kind == "node" and rng.random() < 0.15 and "vec_" not in gen.text(e):
            c = rng.choice(["top", "bot"])
            st["contact"] = c
            st["where"] = "r0" if c == "top" else worlds.toy_regions(P)[-1]
            st["name"] = rng.choice(CON)
        steps.append(st)

    def values():
        n = rng.choice([1, 1, 2, 3, 5])
        return [rng.choice(VALS) if rng.random() < 0.6 else round(rng.uniform(-1, 1), 3) for _ in range(n)]

    def one():
        k = rng.random()
        if k < 0.2:
            define()
        elif k < 0.30:
            what = rng.choice(["edge", "edge", "element"])
            d, r, P = place(what)
            if d:
                steps.append({"s": "ends", "dev": d, "where": r, "kind": what, "of": rng.choice(SOL + NODE)})
        elif k < 0.36:
            d, r, P = place("node")
            steps.append({"s": "avg", "dev": d, "where": r, "of": rng.choice(SOL + NODE), "name": rng.choice(AVG), "how": rng.choice(["arithmetic", "arithmetic", "gradient", "negative_gradient", "geometric"])})
            if steps[-1]["how"] == "geometric":
                # of what is known exactly: close to zero the sign matters
                steps[-1]["of"] = rng.choice(SOL)
            if rng.random() < 0.4:
                steps[-1].update(s="avgd", of=rng.choice(["u", "m0", "m1"]))
                if steps[-1]["how"] == "geometric":
                    steps[-1]["how"] = "arithmetic"
        elif k < 0.42:
            what = rng.choice(["elem_edge", "elem_pair", "elem_edge_d", "elem_pair_d", "vecelem", "grad"])
            d, r, P = place("element" if what != "grad" else "node")
            if d and what[-2:] == "_d":
                of = rng.choice(["e0", "e1", "v0"])
                if of != "v0" and rng.random() < 0.7:
                    for i in (0, 1):
                        e = gen.expr(rng, lambda: N.leaf(rng, "edge", d, r), lambda: N.base(rng, "edge"), rng.choice([0, 1, 2]), pools["edge"])
                        steps.append({"s": "def", "kind": "edge", "dev": d, "where": r, "name": "%s:u@n%d" % (of, i), "e": e})
                steps.append({"s": what, "dev": d, "where": r, "dim": P["dim"], "of": of})
            elif d:
                steps.append({"s": what, "dev": d, "where": r, "dim": P["dim"],
                              "of": rng.choice(EDGE + AVG) if what in ("elem_edge", "elem_pair") else "l0" if what == "vecelem" else "u"})
        elif k < 0.56:
            d, r, P = place("node")
            lv = rng.random()
            steps.append({"s": "par", "dev": d if lv < 0.75 else None, "region": r if lv < 0.4 else None, "name": rng.choice(PARAMS if lv < 0.75 else PARAMS[:3]), "v": rng.choice(VALS)})
            if steps[-1]["name"] == "k" and steps[-1]["v"] <= 0:
                steps[-1]["v"] = 0.8
            if rng.random() < 0.3:
                steps[-1].update(name="pq", v=rng.choice([3.0, 2.7, 2.7, -0.3, 0.2, -4.0]))
        elif k < 0.72:
            kind = rng.choice(["node"] * 5 + ["edge", "element"])
            d, r, P = place(kind)
            if d:
                nm = {"node": rng.choice(SOL), "edge": "es", "element": "ls"}[kind]
                how = rng.choice(["set", "set", "one", "uni", "from"]) if kind == "node" else rng.choice(["sol", "set", "from"])
                steps.append({"s": how, "kind": kind, "dev": d, "where": r, "name": nm, "v": values(), "i": rng.random(),
                              "src": rng.choice({"node": NODE + SOL, "edge": EDGE + ["u@n0"], "element": ELEM + ["u@en1"]}[kind])})
        elif k < 0.77:
            kind = rng.choice(["node", "node", "edge", "element", "interface"])
            d, r, P = place(kind)
            if d:
                steps.append({"s": "del", "kind": kind, "dev": d, "where": r,
                              "name": rng.choice({"node": NODE + CON + ["w", "m0:u"], "edge": EDGE + AVG + ["u@n0", "m0@n0", "e0:u@n0", "v0:u@n1"], "element": ELEM + ["e0_x", "u@en0", "e0_x:u@en0"], "interface": IFACE}[kind])})
        elif k < 0.83 and W["nodes"]:
            steps.append({"s": "ckt", "node": rng.choice(W["nodes"]), "v": rng.choice(VALS)})
        elif k < 0.91 and W["solve"]:
            steps.append({"s": "solve", "how": rng.choice(["ok", "ok", "iter", "math", "alloc"]), "at": rng.randint(0, 2000), "bias": rng.choice([None, 0.2, -0.3, 0.5])})
        elif k < 0.925:
            steps.append({"s": "ext", "on": rng.random() < 0.6})
        elif k < 0.95:
            d, r, P = place("node")
            steps.append({"s": "bad", "dev": d, "where": r, "which": rng.randint(0, 9)})
        else:
            steps.append({"s": "allocread", "at": rng.randint(0, 60), "f": rng.random()})

    for _ in range(rng.randint(4, 12)):
        define()
        if rng.random() < 0.5:
            d, r, P = place("edge")
            steps.append({"s": "ends", "dev": d, "where": r, "kind": "edge", "of": rng.choice(SOL + NODE[:3])})
    for _ in range(rng.randint(10, 45 if tier == "quick" else 120)):
        one()
        if rng.random() < 0.35:
            steps.append({"s": "read", "p": rng.choice([0.2, 0.5, 1.0]), "seed": rng.randint(0, 10 ** 9)})
        if rng.random() < 0.03:
            steps.append({"s": "check", "seed": rng.randint(0, 10 ** 9)})
    steps.append({"s": "read", "p": 1.0, "seed": rng.randint(0, 10 ** 9)})
    steps.append({"s": "check", "seed": rng.randint(0, 10 ** 9)})
    return {"W": W, "steps": steps}


BAD = [
    lambda d, r: ["c", "set_node_values", {"device": d, "region": r, "name": "u", "values": [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0] * 9}],
    lambda d, r: ["c", "set_node_value", {"device": d, "region": r, "name": "u", "index": 9999, "value": 3.0}],
    lambda d, r: ["c", "node_model", {"device": d, "region": r, "name": "m0", "equation": "1+*2"}],
    lambda d, r: ["c", "edge_model", {"device": d, "region": r, "name": "e0", "equation": "log(("}],
    lambda d, r: ["c", "set_node_values", {"device": d, "region": r, "name": "u", "init_from": "nosuchmodel"}],
    lambda d, r: ["c", "set_node_values", {"device": d, "region": r, "name": "nosuchmodel", "values": [1.0]}],
    lambda d, r: ["c", "set_parameter", {"device": d, "region": "nosuchregion", "name": "p0", "value": 77.0}],
    lambda d, r: ["c", "set_circuit_node_value", {"node": "nosuchnode", "value": 1.0}],
    lambda d, r: ["c", "delete_node_model", {"device": d, "region": r, "name": "nosuchmodel"}],
    lambda d, r: ["c", "edge_average_model", {"device": d, "region": r, "node_model": "u", "edge_model": "v0", "average_type": "nosuch"}],
]


class Run:
    def __init__(self, W, ctx):
        self.W, self.ctx = W, ctx
        self.extended = False
        self.world = gen.World()
        self.s = ctx.session("a")
        self.build(self.s)
        for d, _, P in W["devs"]:
            g = self.s.op(["geometry", d])
            if g[0] != "ok":
                raise core.Violation("geometry", "%r" % (g,))
            self.world.geo[d] = ungroup(g[1])
            for r in worlds.toy_regions(P):
                n = self.world.geo[d]["regions"][r]["n"]
                for u in SOL + (["v"] if P.get("nvar") == 2 and W["solve"] else []):
                    self.world.table("node", d, r)[u] = {"t": "sol", "v": [0.0] * n}
        self.sync()
        for d, _, P in W["devs"]:
            for r in worlds.toy_regions(P):
                for nm in ("p0", "p1", "p2"):
                    pass
        for k, v in self.s.call(parameters).items():
            self.world.params[k] = v
        if W.get("alias"):
            self.world.alias["alt"] = "vm"

    def build(self, s):
        W = self.W
        ops = [["c", "set_parameter", {"name": p, "value": 0.3 + i}] for i, p in enumerate(PARAMS[:3])] + [["c", "set_parameter", {"name": "pq", "value": 3.0}]]
        for n in W["nodes"]:
            ops.append(["c", "add_circuit_node", {"name": n}])
        for e in W["net"]:
            ops.append(["c", "circuit_element", e])
        if W.get("alias"):
            ops.append(["c", "circuit_node_alias", {"node": "vm", "alias": "alt"}])
        if W.get("extended"):
            self.extended = self.world.blur = True
            ops += [["c", "set_parameter", {"name": x, "value": True}] for x in ("extended_solver", "extended_model", "extended_equation")]
        for d, _, P in W["devs"]:
            if W["solve"]:
                ops.append(["toy", d, P])
            else:
                ops.append(["toy_mesh", d, P])
                ops.append(["toy_params", d, P])
                for r in worlds.toy_regions(P):
                    ops.append(["c", "node_solution", {"device": d, "region": r, "name": "u"}])
            for r in worlds.toy_regions(P):
                ops.append(["c", "node_solution", {"device": d, "region": r, "name": "w"}])
        if W["net"]:
            ops.append(["dc", {"absolute_error": 1e12}])
        for o in ops:
            r = s.op(o)
            if r[0] != "ok":
                raise core.Violation("setup", "%r: %r" % (o, r))

    def sync(self):
        """Solutions that a solve computed and circuit values are taken as they are."""
        v = self.s.call(solutions, [list(x) for x in self.sols()])
        for (k, d, r, n), y in zip(self.sols(), v["sol"]):
            if y[0] == "ok":
                self.world.table(k, d, r)[n]["v"] = list(y[1])
        self.world.circuit = dict(v["circuit"])

    def sols(self):
        return [k for k in self.world.keys() if self.world.table(*k[:3])[k[3]]["t"] == "sol"]

    # ------------------------------------------------------------ one step
    def put(self, kind, d, r, name, definition):
        """Enters a definition unless it would make a cycle."""
        t = self.world.table(kind, d, r)
        old = t.get(name)
        t[name] = definition
        key = (kind, d, r, name)
        if any(self.world.reaches(x, key) for x in self.world.deps(*key)):
            if old is None:
                del t[name]
            else:
                t[name] = old
            return False
        return True

    def ok(self, o):
        r = self.s.op(o)
        if r[0] != "ok":
            raise core.Violation("rejected", "%.300r was rejected: %r" % (o, r[1:]))
        return r[1]

    def step(self, st):
        w, k = self.world, st["s"]
        d, r = st.get("dev"), st.get("where")
        if d and d not in w.geo:
            return
        base = {"device": d, "region": r}
        if k == "def":
            de = {"t": "expr", "e": st["e"], "free": w.free(st["kind"], d, r, st["e"])}
            if st.get("contact"):
                de["contact"] = st["contact"]
            # the kind of a model with that name may be another one
            if not self.put(st["kind"], d, r, st["name"], de):
                return
            kw = {"device": d, "name": st["name"], "equation": gen.text(st["e"])}
            if st["kind"] == "interface":
                kw["interface"] = r
            elif st.get("contact"):
                kw["contact"] = st["contact"]
            else:
                kw["region"] = r
            self.ok(["c", "contact_node_model" if st.get("contact") else st["kind"] + "_model", kw])
        elif k == "ends":
            if st["of"] not in w.table("node", d, r):
                return
            what, n = ("edge", 2) if st["kind"] == "edge" else ("element", len(w.geo[d]["regions"][r]["element"]))
            for i in range(n):
                if not self.put(what, d, r, "%s@%s%d" % (st["of"], "n" if what == "edge" else "en", i), {"t": "end", "of": st["of"], "i": i, "group": "%s@%d" % (st["of"], n)}):
                    raise core.Harness("cycle")
            self.ok(["c", "edge_from_node_model" if what == "edge" else "element_from_node_model", dict(base, node_model=st["of"])])
        elif k == "avg":
            if st["of"] not in w.table("node", d, r):
                return
            self.put("edge", d, r, st["name"], {"t": "avg", "of": st["of"], "how": st["how"]})
            self.ok(["c", "edge_average_model", dict(base, node_model=st["of"], edge_model=st["name"], average_type=st["how"])])
        elif k == "avgd":
            of = st["of"]
            t = w.table("node", d, r)
            if of not in t or of != "u" and of + ":u" not in t or "u" not in t or st["how"] == "geometric":
                return
            nm = ["%s:u@n%d" % (st["name"], i) for i in (0, 1)]
            if any(w.reaches(("node", d, r, x), ("edge", d, r, n)) for x in [of] + [of + ":u"] * (of != "u") for n in nm):
                return
            for i, n in enumerate(nm):
                self.put("edge", d, r, n, {"t": "avgd", "of": of, "i": i, "how": st["how"], "group": "avgd %s" % st["name"], "name": st["name"]})
            self.ok(["c", "edge_average_model", dict(base, node_model=of, edge_model=st["name"], derivative="u", average_type=st["how"])])
        elif k in ("elem_edge", "elem_pair", "elem_edge_d", "elem_pair_d", "vecelem", "grad"):
            self.opaque(k, st, base)
        elif k == "par":
            if st["region"] and st["region"] not in w.geo[st["dev"]]["regions"]:
                return
            kw = {"name": st["name"], "value": st["v"]}
            if st["dev"]:
                kw["device"] = st["dev"]
            if st["region"]:
                kw["region"] = st["region"]
            self.ok(["c", "set_parameter", kw])
            w.params[(st["dev"], st["region"], st["name"])] = st["v"]
        elif k in ("set", "one", "uni", "from", "sol"):
            self.setsol(k, st, base)
        elif k == "del":
            t = w.table(st["kind"], d, r)
            if st["name"] not in t or self.W["solve"] and st["name"].split("@")[0] in ("u", "v"):
                # (the device itself needs those)
                return
            old = t.pop(st["name"])
            if old["t"] in ("end", "opaque", "avgd"):
                # the others of the group were calculated by it
                for x in t.values():
                    if x["t"] == old["t"] and x.get("group") == old["group"]:
                        x["t"] = "orphan"
            kw = dict(base, name=st["name"])
            if st["kind"] == "interface":
                kw = {"device": d, "interface": r, "name": st["name"]}
            self.ok(["c", "delete_%s_model" % st["kind"], kw])
        elif k == "ckt":
            self.ok(["c", "set_circuit_node_value", {"solution": "dcop", "node": st["node"], "value": st["v"]}])
            w.circuit[st["node"]] = st["v"]
        elif k == "solve":
            self.solve(st)
        elif k == "bad":
            o = BAD[st["which"]](d, r)
            x = self.s.op(o)
            if x[0] == "ok":
                raise core.Violation("accepted", "%r was accepted" % (o,))
            self.ctx.fault("rejected")
        elif k == "ext":
            # later definitions are evaluated in the other precision
            self.ok(["c", "set_parameter", {"name": "extended_model", "value": st["on"]}])
            self.extended = self.world.blur = self.extended or st["on"]
            self.ctx.probe("extended", int(st["on"]))
        elif k == "allocread":
            keys = w.keys()
            if not keys:
                return
            q = keys[int(st["f"] * len(keys))]
            self.s.call(core.alloc_arm, st["at"], 1)
            x = self.s.op(["readm", [list(q)]])
            n, f = self.s.call(core.alloc_disarm)
            if f:
                self.ctx.fault("alloc")
                if x[0] == "ok" and x[1][0][0] == "ok":
                    self.ctx.probe("alloc-absorbed")
        elif k == "read":
            self.read(st)
        elif k == "check":
            self.check(st)

    def opaque(self, k, st, base):
        w, d, r = self.world, st["dev"], st["where"]
        dim, of = st["dim"], st["of"]
        comp = ["x", "y", "z"][:dim]
        if k == "grad":
            if of not in w.table("node", d, r):
                return
            for c in comp:
                self.put("node", d, r, "%s_grad%s" % (of, c), {"t": "opaque", "deps": [["node", of]], "by": st, "group": "%s %s" % (k, of)})
            self.ok(["c", "vector_gradient", dict(base, node_model=of)])
            return
        if k == "vecelem":
            if of not in w.table("element", d, r):
                return
            if not all([self.put("element", d, r, "%s_%s" % (of, c), {"t": "opaque", "deps": [["element", of]], "by": st, "group": "%s %s" % (k, of)}) for c in comp]):
                for c in comp:
                    w.table("element", d, r).pop("%s_%s" % (of, c), None)
                return
            self.ok(["c", "vector_element_model", dict(base, element_model=of)])
            return
        if k[-2:] == "_d":
            dep = ["%s:u@n%d" % (of, i) for i in (0, 1)]
            if any(x not in w.table("edge", d, r) for x in dep):
                return
            mid = [""] if k == "elem_edge_d" else ["_node0", "_node1"]
            nm = ["%s%s_%s:u@en%d" % (of, m, c, i) for m in mid for c in comp for i in range(dim + 1)]
            for n in nm:
                self.put("element", d, r, n, {"t": "opaque", "deps": [["edge", x] for x in dep], "by": st, "group": "%s %s" % (k, of)})
            self.ok(["c", "element_from_edge_model" if k == "elem_edge_d" else "element_pair_from_edge_model", dict(base, edge_model=of, derivative="u")])
            return
        if of not in w.table("edge", d, r):
            return
        nm = ["%s_%s" % (of, c) for c in comp] if k == "elem_edge" else ["%s_node%d_%s" % (of, i, c) for i in (0, 1) for c in comp]
        if k == "elem_pair" and dim == 3:
            pass
        for n in nm:
            self.put("element", d, r, n, {"t": "opaque", "deps": [["edge", of]], "by": st, "group": "%s %s" % (k, of)})
        self.ok(["c", "element_from_edge_model" if k == "elem_edge" else "element_pair_from_edge_model", dict(base, edge_model=of)])

    def setsol(self, k, st, base):
        w, d, r, name, kind = self.world, st["dev"], st["where"], st["name"], st["kind"]
        t = w.table(kind, d, r)
        n = w.size(kind, d, r)
        if k == "sol" or name not in t or t[name]["t"] != "sol":
            if k != "sol" and kind != "node":
                k = "sol"
            elif k != "sol":
                return
            t[name] = {"t": "sol", "v": [0.0] * n}
            self.ok(["c", {"edge": "edge_solution", "element": "element_solution"}[kind], dict(base, name=name)])
            return
        if k == "set":
            v = [st["v"][i % len(st["v"])] for i in range(n)]
            self.ok(["c", "set_%s_values" % kind, dict(base, name=name, values=v)])
            t[name]["v"] = v
        elif k == "one":
            i = int(st["i"] * n)
            self.ok(["c", "set_node_value", dict(base, name=name, index=i, value=st["v"][0])])
            t[name]["v"] = list(t[name]["v"])
            t[name]["v"][i] = st["v"][0]
        elif k == "uni":
            self.ok(["c", "set_node_value", dict(base, name=name, value=st["v"][0])])
            t[name]["v"] = [st["v"][0]] * n
        elif k == "from":
            src = st["src"]
            if src not in t:
                return
            x = self.values([(kind, d, r, src)])[0]
            if isinstance(x, gen.Missing):
                return
            self.ok(["c", "set_%s_values" % kind, dict(base, name=name, init_from=src)])
            # the source may be computed to the last bit in another way here
            y = self.s.op(["readm", [[kind, d, r, name]]])[1][0]
            self.compare((kind, d, r, name), x, y, "after init_from %s" % src)
            t[name]["v"] = list(y[1])

    def solve(self, st):
        if st.get("bias") is not None:
            d = self.W["devs"][0][0]
            self.ok(["bias", d, "bot", st["bias"]])
            self.world.params[(d, None, "bot_bias")] = st["bias"]
        a = {"absolute_error": 1e12, "maximum_iterations": 40}
        if st["how"] == "iter":
            a["maximum_iterations"] = 1
            a["relative_error"] = 1e-15
        f = []
        if st["how"] == "math":
            f = [{"seam": "math", "which": 1, "kind": 1, "at": st["at"] % 3}]
        elif st["how"] == "alloc":
            f = [{"seam": "alloc", "at": st["at"], "n": 1}]
        if f:
            self.s.op(["arm", f])
        r = self.s.op(["dc", a])
        if f:
            for k, n in self.s.op(["disarm"])[1]["fired"].items():
                self.ctx.fault(k, n)
        if r[0] != "ok":
            self.ctx.fault("failed-solve")
            if r[0] == "py" and r[1] != "MemoryError":
                raise core.Violation("exception", "%r" % (r,))
        else:
            self.ctx.probe("solve")
        self.sync()

    # ------------------------------------------------------------- checks
    def values(self, keys, got=None):
        """Expected values (or Missing)."""
        w = self.world
        need = set()

        def opq(k, seen):
            if k in seen:
                return
            seen.add(k)
            de = w.table(*k[:3]).get(k[3])
            if de is not None and de["t"] == "opaque":
                need.add(k)
            for x in w.deps(*k):
                opq(x, seen)
        seen = set()
        for k in keys:
            opq(k, seen)
        need = sorted(need)
        read = dict(got or {})
        todo = [k for k in need if k not in read]
        if todo:
            for k, v in zip(todo, self.s.op(["readm", [list(x) for x in todo]])[1]):
                read[k] = v
        cache, out = {}, []
        for k in keys:
            try:
                out.append(w.evaluate(k[0], k[1], k[2], k[3], cache, read))
            except gen.Missing as e:
                out.append(e)
        return out

    def compare(self, key, want, got, when=""):
        if isinstance(want, gen.Missing):
            if str(want) != "arithmetic":
                self.ctx.probe("no-value")
                return
            self.ctx.probe("arithmetic-" + got[0])
            if got[0] == "ok":
                de = self.world.table(*key[:3]).get(key[3])
                raise core.Violation("phantom", "%s model %s of %s/%s%s reads %.300r, but its definition has no value: %s" %
                                     (key[0], key[3], key[1], key[2], when and " " + when, got[1], gen.text(de["e"])[:400] if de and de["t"] == "expr" else de))
            return
        self.ctx.probe("compared")
        de = self.world.table(*key[:3]).get(key[3])
        what = "%s model %s of %s/%s" % (key[0], key[3], key[1], key[2])
        if de is not None and de["t"] == "expr":
            what += " = " + gen.text(de["e"])[:400]
        elif de is not None:
            what += " (%s)" % de["t"]
        if got[0] != "ok":
            raise core.Violation("no-value", "%s cannot be read%s: %r" % (what, when and " " + when, got[1:]))
        g = got[1]
        if len(g) != len(want):
            raise core.Violation("length", "%s has %d values, not %d" % (what, len(g), len(want)))
        sc = max([1.0] + [abs(x) for x in want])
        for i, (x, y) in enumerate(zip(want, g)):
            if not (abs(x - y) <= 1e-9 * sc):
                raise core.Violation("stale", "%s reads %r at %d%s, its definition gives %r" % (what, y, i, when and " " + when, x))

    def read(self, st):
        rng = random.Random(st["seed"])
        keys = [k for k in self.world.keys() if rng.random() < st["p"]]
        rng.shuffle(keys)
        if not keys:
            return
        got = self.s.op(["readm", [list(k) for k in keys]])[1]
        want = self.values(keys, dict(zip(keys, got)))
        for k, x, y in zip(keys, want, got):
            self.compare(k, x, y)
        self.ctx.state(repr([k[3] for k in keys]))

    def check(self, st):
        """Against a process that only ever saw the final definitions and values."""
        rng = random.Random(st["seed"])
        w = self.world
        keys = w.keys()
        want = dict(zip(keys, self.values(keys)))
        tainted = {}

        def taint(k):
            # a name that was no model when the definition was entered, and is one now
            if k not in tainted:
                tainted[k] = False
                de = w.table(*k[:3]).get(k[3])
                tainted[k] = (de is not None and de["t"] == "expr" and any(w.is_model(k[0], k[1], k[2], n) for n in de["free"])) or any([taint(x) for x in w.deps(*k)])
            return tainted[k]
        good = [k for k in keys if not isinstance(want[k], gen.Missing) and not taint(k)]
        rng.shuffle(good)
        got = dict(zip(good, self.s.op(["readm", [list(k) for k in good]])[1]))
        b = self.ctx.session("fresh")
        self.build(b)
        for d in sorted(w.geo):
            g = b.op(["geometry", d])
            if g[0] != "ok":
                raise core.Violation("geometry", "%r" % (g,))
        done, ops = set(), []

        def define(k):
            if k in done or k not in want:
                return
            done.add(k)
            for x in w.deps(*k):
                define(x)
            kind, d, r, name = k
            de = w.table(*k[:3])[name]
            base = {"device": d, "region": r}
            if de["t"] == "sol":
                if kind != "node":
                    ops.append(["c", {"edge": "edge_solution", "element": "element_solution"}[kind], dict(base, name=name)])
                ops.append(["c", "set_%s_values" % kind, dict(base, name=name, values=list(de["v"]))])
            elif de["t"] == "expr":
                kw = {"device": d, "name": name, "equation": gen.text(de["e"])}
                if kind == "interface":
                    kw["interface"] = r
                elif de.get("contact"):
                    kw["contact"] = de["contact"]
                else:
                    kw["region"] = r
                ops.append(["c", "contact_node_model" if de.get("contact") else kind + "_model", kw])
            elif de["t"] == "end":
                ops.append(["c", "edge_from_node_model" if kind == "edge" else "element_from_node_model", dict(base, node_model=de["of"])])
            elif de["t"] == "avg":
                ops.append(["c", "edge_average_model", dict(base, node_model=de["of"], edge_model=name, average_type=de["how"])])
            elif de["t"] == "avgd":
                ops.append(["c", "edge_average_model", dict(base, node_model=de["of"], edge_model=de["name"], derivative="u", average_type=de["how"])])
            elif de["t"] == "opaque":
                c = de["by"]["s"]
                of = de["by"]["of"]
                if c[-2:] == "_d":
                    ops.append(["c", "element_from_edge_model" if c == "elem_edge_d" else "element_pair_from_edge_model", dict(base, edge_model=of, derivative="u")])
                    return
                ops.append(["c", {"grad": "vector_gradient", "vecelem": "vector_element_model", "elem_edge": "element_from_edge_model",
                                  "elem_pair": "element_pair_from_edge_model"}[c],
                            dict(base, **{{"grad": "node_model", "vecelem": "element_model"}.get(c, "edge_model"): of})])
        for p in sorted(w.params, key=repr):
            kw = {"name": p[2], "value": w.params[p]}
            if p[0]:
                kw["device"] = p[0]
            if p[1]:
                kw["region"] = p[1]
            ops.append(["c", "set_parameter", kw])
        for n in sorted(w.circuit):
            ops.append(["c", "set_circuit_node_value", {"solution": "dcop", "node": n, "value": w.circuit[n]}])
        order = list(good)
        rng.shuffle(order)
        # a definition that overwrites part of another one comes first
        order.sort(key=lambda k: w.table(*k[:3])[k[3]]["t"] not in ("end", "opaque", "avgd"))
        for k in order:
            define(k)
        for o, r in zip(ops, b.ops(ops)):
            if r[0] != "ok":
                raise core.Violation("rejected", "%.300r was rejected by a fresh process: %r" % (o, r[1:]))
        fresh = b.op(["readm", [list(k) for k in good]])[1]
        for k, y in zip(good, fresh):
            x = got[k]
            if x[0] != "ok" or y[0] != "ok":
                raise core.Violation("no-value", "%r: %r, in a fresh process %r" % (k, x, y))
            df = worlds.diff({"v": x[1]}, {"v": y[1]}, tol=1e-12)
            if df and getattr(self, "n", 0) and len(x[1]) == len(y[1]) and all(abs(v - u) <= 1e-13 + 1e-12 * abs(u) for u, v in zip(x[1], y[1])):
                # coordinates out of a file differ in the last place, and so do differences
                df = None
            if self.extended and df:
                # the other process evaluates everything in double precision
                sc = 1e-9 * max([1.0] + [abs(v) for v in y[1]])
                if len(x[1]) == len(y[1]) and all(abs(v - u) <= sc for u, v in zip(x[1], y[1])):
                    df = None
            if df:
                de = w.table(*k[:3])[k[3]]
                raise core.Violation("history", "%s model %s of %s/%s (%s) reads %s in a fresh process with the same definitions" %
                                     (k[0], k[3], k[1], k[2], gen.text(de["e"])[:300] if de["t"] == "expr" else de["t"], "; ".join(df)))
        self.ctx.probe("fresh-compared", len(good))
        # models that the device itself came with
        if self.W["solve"]:
            a, c = self.s.snap(), b.snap()
            for d, _, P in self.W["devs"]:
                for r in worlds.toy_regions(P):
                    for kind in ("node", "edge", "element"):
                        x, y = a["devices"][d]["regions"][r][kind], c["devices"][d]["regions"][r][kind]
                        for n in ("S", "S:u", "F", "F:u@n0", "F:u@n1", "F:u@en0", "F:u@en1", "Q", "Sv", "G", "top_u", "bot_u"):
                            if n in x:
                                df = worlds.diff({n: x[n]}, {n: y.get(n)}, tol=1e-12)
                                if df and self.W.get("extended") and n in y and x[n][0] == y[n][0] == "ok" and \
                                        all(abs(v - u) <= 1e-9 * max(1.0, abs(u)) for u, v in zip(x[n][1], y[n][1])):
                                    # computed in double precision there
                                    df = None
                                if df:
                                    raise core.Violation("history", "%s model of %s/%s in a fresh process: %s" % (kind, d, r, "; ".join(df)))
        b.kill()


def ungroup(g):
    """Tuples back into the lists and dictionaries that geometry() built."""
    if isinstance(g, dict):
        return {k: ungroup(v) for k, v in g.items()}
    if isinstance(g, tuple):
        return [ungroup(x) for x in g]
    return g


def parameters():
    import devsim
    out = {}
    for n in devsim.get_parameter_list():
        v = devsim.get_parameter(name=n)
        if isinstance(v, float):
            out[(None, None, n)] = v
    for d in devsim.get_device_list():
        for n in devsim.get_parameter_list(device=d):
            out[(d, None, n)] = devsim.get_parameter(device=d, name=n)
        for r in devsim.get_region_list(device=d):
            for n in devsim.get_parameter_list(device=d, region=r):
                out[(d, r, n)] = devsim.get_parameter(device=d, region=r, name=n)
    return {k: v for k, v in out.items() if isinstance(v, float)}


def solutions(keys):
    import devsim
    c = {}
    if "dcop" in devsim.get_circuit_solution_list():
        for n in devsim.get_circuit_node_list():
            c[n] = devsim.get_circuit_node_value(solution="dcop", node=n)
    return {"sol": gen.readm([list(k) for k in keys]), "circuit": c}


def execute(plan, ctx):
    run = Run(plan["W"], ctx)
    for st in plan["steps"]:
        run.step(st)
