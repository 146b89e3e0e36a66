"""Generated models: definitions, edits, and their values computed in Python.

World is the logical state that a history has led to.  Names of models are
resolved in the way the documentation gives: models of the region, then
parameters of region, device and session, then circuit nodes.
"""
import math

import worlds
from worlds import op

import devsim


# ---------------------------------------------------------------- expressions
FUN1 = {
    "exp": math.exp, "log": math.log, "abs": abs, "sqrt": None, "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh,
    "erf": math.erf, "erfc": math.erfc, "step": lambda x: 1.0 if x >= 0 else 0.0, "asinh": math.asinh,
    "B": lambda x: x / math.expm1(x) if x != 0 else 1.0,
}
REDUCE = {"vec_sum": math.fsum, "vec_max": max, "vec_min": min}


def text(e):
    k = e[0]
    if k == "c":
        return repr(e[1]) if e[1] >= 0 else "(%r)" % e[1]
    if k == "n":
        return e[1]
    if k in ("+", "-", "*", "/", "^"):
        return "(%s %s %s)" % (text(e[1]), k, text(e[2]))
    if k == "neg":
        return "(-%s)" % text(e[1])
    if k == "cmp":
        return "(%s %s %s)" % (text(e[2]), e[1], text(e[3]))
    return "%s(%s)" % (e[1], ",".join(text(x) for x in e[2:]))


def names(e, out=None):
    out = [] if out is None else out
    if e[0] == "n":
        out.append(e[1])
    for x in e[1:]:
        if isinstance(x, list):
            names(x, out)
    return out


def value(e, env, n):
    """A list of n floats, or a float when nothing in it varies."""
    k = e[0]
    if k == "c":
        return e[1]
    if k == "n":
        return env(e[1])
    if k == "f" and e[1] in REDUCE:
        v = value(e[2], env, n)
        if not isinstance(v, list):
            v = [v] * n
        return REDUCE[e[1]](v)
    a = [value(x, env, n) for x in e[1:] if isinstance(x, list)]
    if k == "+":
        f = lambda x, y: x + y
    elif k == "-":
        f = lambda x, y: x - y
    elif k == "*":
        f = lambda x, y: x * y
    elif k == "/":
        f = lambda x, y: x / y
    elif k == "^":
        f = lambda x, y: x ** y
    elif k == "neg":
        f = lambda x: -x
    elif k == "cmp":
        f = {"<": lambda x, y: float(x < y), ">": lambda x, y: float(x > y), "<=": lambda x, y: float(x <= y), ">=": lambda x, y: float(x >= y)}[e[1]]
    elif e[1] in ("min", "max"):
        f = min if e[1] == "min" else max
    elif e[1] == "pow":
        f = lambda x, y: x ** y
    elif e[1] == "if":
        f = lambda c, x: x if c != 0 else 0.0
    elif e[1] == "ifelse":
        f = lambda c, x, y: x if c != 0 else y
    else:
        f = FUN1[e[1]]
    if not any(isinstance(x, list) for x in a):
        return float(f(*a))
    a = [x if isinstance(x, list) else [x] * n for x in a]
    return [float(f(*t)) for t in zip(*a)]


CONST = [0.5, 2.0, -1.5, 0.25, 3.0, 1.0, 0.0]


def expr(rng, leaf, base, depth=3, pool=None):
    """leaf() gives a name, base() the name of a quantity that is known exactly."""
    k = rng.random()
    if pool and k < 0.2:
        return rng.choice(pool)
    if depth == 0 or k < 0.15:
        return ["n", leaf()] if rng.random() < 0.8 else ["c", rng.choice(CONST)]
    if k < 0.55:
        e = [rng.choice("++--**"), expr(rng, leaf, base, depth - 1, pool), expr(rng, leaf, base, depth - 1, pool)]
    elif k < 0.62:
        x = expr(rng, leaf, base, depth - 1, pool)
        e = ["/", expr(rng, leaf, base, depth - 1, pool), ["+", ["c", 1.0], ["*", x, x]]]
    elif k < 0.84:
        x = expr(rng, leaf, base, depth - 1, pool)
        f = rng.choice(["exp", "log", "tanh", "abs", "erf", "erfc", "B", "asinh", "pow", "sinh", "neg", "^"])
        if f == "exp":
            e = ["f", "exp", ["neg", ["*", x, x]]]
        elif f == "log":
            e = ["f", "log", ["+", ["c", 1.0], ["*", x, x]]]
        elif f in ("B", "sinh"):
            e = ["f", f, ["f", "tanh", x]]
        elif f == "pow":
            e = ["f", "pow", ["+", ["c", 1.0], ["f", "abs", ["f", "tanh", x]]], ["c", rng.choice([0.5, 1.5, 2.0])]]
        elif f == "neg":
            e = ["neg", x]
        elif f == "^":
            e = ["^", ["f", "tanh", x], ["c", 2.0]]
        else:
            e = ["f", f, x]
    elif k < 0.9:
        e = ["f", rng.choice(["min", "max"]), expr(rng, leaf, base, depth - 1, pool), expr(rng, leaf, base, depth - 1, pool)]
    elif k < 0.96:
        c = ["cmp", rng.choice(["<", ">", "<=", ">="]), ["n", base()], ["c", rng.choice([0.0, 0.3, 0.5])]]
        if pool is not None:
            # conditions are shared as well
            cs = [x for x in pool if x[0] == "cmp"]
            if cs and rng.random() < 0.5:
                c = rng.choice(cs)
            else:
                pool.append(c)
        if rng.random() < 0.5:
            e = ["f", "if", c, expr(rng, leaf, base, depth - 1, pool)]
        else:
            e = ["f", "ifelse", c, expr(rng, leaf, base, depth - 1, pool), expr(rng, leaf, base, depth - 1, pool)]
    else:
        e = ["f", rng.choice(["vec_max", "vec_min", "vec_sum"]), ["+", ["n", base()], expr(rng, leaf, base, depth - 1, pool)]]
    if pool is not None and rng.random() < 0.4:
        pool.append(e)
    return e


# ------------------------------------------------------------------- session
READ = {"node": "get_node_model_values", "edge": "get_edge_model_values", "element": "get_element_model_values"}


@op
def readm(items):
    out = []
    for kind, dev, where, name in items:
        if kind == "interface":
            out.append(worlds.guard(lambda: devsim.get_interface_model_values(device=dev, interface=where, name=name)))
        else:
            out.append(worlds.guard(lambda: getattr(devsim, READ[kind])(device=dev, region=where, name=name)))
    return out


@op
def geometry(dev):
    """Which nodes each edge, element edge and interface node refers to, found through the models themselves."""
    g = {}
    for r in sorted(devsim.get_region_list(device=dev)):
        x = list(devsim.get_node_model_values(device=dev, region=r, name="x"))
        n = len(x)
        devsim.node_solution(device=dev, region=r, name="zz_idx")
        devsim.set_node_values(device=dev, region=r, name="zz_idx", values=[float(i) for i in range(n)])
        devsim.edge_from_node_model(device=dev, region=r, node_model="zz_idx")
        d = {"n": n, "edge": [[int(v) for v in devsim.get_edge_model_values(device=dev, region=r, name="zz_idx@n%d" % i)] for i in (0, 1)]}
        d["given"] = {"node": {k: list(devsim.get_node_model_values(device=dev, region=r, name=k)) for k in ("x", "y", "z", "NodeVolume")},
                      "edge": {k: list(devsim.get_edge_model_values(device=dev, region=r, name=k)) for k in ("EdgeLength", "EdgeInverseLength", "unitx", "EdgeCouple")},
                      "element": {}}
        dim = devsim.get_dimension(device=dev)
        if dim > 1:
            devsim.element_from_node_model(device=dev, region=r, node_model="zz_idx")
            d["element"] = [[int(v) for v in devsim.get_element_model_values(device=dev, region=r, name="zz_idx@en%d" % i)] for i in range(dim + 1)]
            d["given"]["element"] = {"ElementEdgeCouple": list(devsim.get_element_model_values(device=dev, region=r, name="ElementEdgeCouple"))}
        g[r] = d
    gi = {}
    for i in sorted(devsim.get_interface_list(device=dev)):
        pr = []
        for k in (0, 1):
            devsim.interface_model(device=dev, interface=i, name="zz_i%d" % k, equation="zz_idx@r%d" % k)
            pr.append([int(v) for v in devsim.get_interface_model_values(device=dev, interface=i, name="zz_i%d" % k)])
        gi[i] = {"regions": list(devsim.get_region_list(device=dev, interface=i)), "nodes": pr}
    gc = {}
    for c in sorted(devsim.get_contact_list(device=dev)):
        r = devsim.get_region_list(device=dev, contact=c)[0]
        devsim.contact_node_model(device=dev, contact=c, name="zz_c", equation="1.0")
        v = devsim.get_node_model_values(device=dev, region=r, name="zz_c")
        gc[c] = {"region": r, "nodes": [j for j, y in enumerate(v) if y != 0]}
        devsim.delete_node_model(device=dev, region=r, name="zz_c")
    return {"regions": g, "interfaces": gi, "contacts": gc}


# --------------------------------------------------------------------- world
class Missing(Exception):
    pass


class World:
    """Definitions: (kind, device, region or interface) -> {name: definition}."""

    def __init__(self):
        self.blur = False   # another precision than that of these values may be used
        self.geo = {}
        self.params = {}    # (dev or None, region or None, name) -> value
        self.defs = {}      # (kind, dev, where) -> {name: def}
        self.circuit = {}   # node -> value
        self.alias = {}

    def table(self, kind, dev, where):
        return self.defs.setdefault((kind, dev, where), {})

    def size(self, kind, dev, where):
        if kind == "interface":
            return len(self.geo[dev]["interfaces"][where]["nodes"][0])
        g = self.geo[dev]["regions"][where]
        if kind == "node":
            return g["n"]
        return len(g[kind][0]) if g.get(kind) else 0

    def evaluate(self, kind, dev, where, name, cache, read):
        """The value of a model; Missing when it refers to something that does not exist."""
        key = (kind, dev, where, name)
        if key in cache:
            if isinstance(cache[key], Missing):
                raise cache[key]
            return cache[key]
        cache[key] = Missing("cycle")
        try:
            v = self._evaluate(kind, dev, where, name, cache, read)
        except Missing as e:
            d = self.table(kind, dev, where).get(name)
            if str(e) == "arithmetic" and (d is None or d["t"] not in ("end", "avg")):
                # which may be multiplied by zero
                e = Missing("part without value")
            cache[key] = e
            raise e
        except (ArithmeticError, ValueError):
            d = self.table(kind, dev, where).get(name)
            cache[key] = Missing("arithmetic" if d is None or d["t"] != "expr" else "part without value")
            if d is not None and d["t"] == "expr" and not d.get("contact") and d["e"][0] == "+" and d["e"][2][:2] == ["f", "log"]:
                try:
                    value(d["e"][2], lambda nm: self.lookup(kind, dev, where, nm, cache, read, d), self.size(kind, dev, where))
                except Missing:
                    pass
                except (ArithmeticError, ValueError):
                    x = 0.0
                    if self.blur:
                        # zero in one precision may be a small number in another
                        try:
                            x = value(d["e"][2][2], lambda nm: self.lookup(kind, dev, where, nm, cache, read, d), self.size(kind, dev, where))
                            x = min(x) if isinstance(x, list) else x
                        except (Missing, ArithmeticError, ValueError):
                            pass
                    if not self.blur or x < -1e-9:
                        cache[key] = Missing("arithmetic")
            raise cache[key]
        n = self.size(kind, dev, where)
        if not isinstance(v, list):
            v = [v] * n
        cache[key] = v
        return v

    def _evaluate(self, kind, dev, where, name, cache, read):
        d = self.table(kind, dev, where).get(name)
        n = self.size(kind, dev, where)
        if d is None:
            if kind != "interface":
                g = self.geo[dev]["regions"][where]["given"][kind]
                if name in g:
                    return g[name]
            raise Missing(name)
        t = d["t"]
        if t == "sol":
            return d["v"]
        if t == "expr":
            if kind == "element" and any(f in text(d["e"]) for f in REDUCE) and any(
                    nm not in d["free"] and nm not in self.table(kind, dev, where) for nm in names(d["e"])):
                raise Missing("a sum over edges or over the edges of elements")
            v = value(d["e"], lambda nm: self.lookup(kind, dev, where, nm, cache, read, d), n)
            if d.get("contact"):
                at = set(self.geo[dev]["contacts"][d["contact"]]["nodes"])
                v = v if isinstance(v, list) else [v] * n
                v = [x if i in at else 0.0 for i, x in enumerate(v)]
            return v
        if t == "end":       # node model at one end of an edge, of an element edge
            s = self.evaluate("node", dev, where, d["of"], cache, read)
            return [s[i] for i in self.geo[dev]["regions"][where][kind][d["i"]]]
        if t == "avg":
            s = self.evaluate("node", dev, where, d["of"], cache, read)
            a, b = self.geo[dev]["regions"][where]["edge"]
            m = d["how"]
            if m == "arithmetic":
                return [0.5 * (s[i] + s[j]) for i, j in zip(a, b)]
            if m == "geometric":
                return [math.sqrt(s[i] * s[j]) for i, j in zip(a, b)]
            L = self.geo[dev]["regions"][where]["given"]["edge"]["EdgeInverseLength"]
            sg = 1.0 if m == "gradient" else -1.0
            return [sg * (s[j] - s[i]) * l for i, j, l in zip(a, b, L)]
        if t == "avgd":      # derivative of an average with respect to u at one end
            self.evaluate("node", dev, where, d["of"], cache, read)
            dv = self.evaluate("node", dev, where, d["of"] + ":u", cache, read) if d["of"] != "u" else [1.0] * self.size("node", dev, where)
            at = self.geo[dev]["regions"][where]["edge"][d["i"]]
            if d["how"] == "arithmetic":
                return [0.5 * dv[i] for i in at]
            L = self.geo[dev]["regions"][where]["given"]["edge"]["EdgeInverseLength"]
            sg = (1.0 if d["how"] == "gradient" else -1.0) * (2 * d["i"] - 1)
            return [sg * dv[i] * l for i, l in zip(at, L)]
        if t == "orphan":
            raise Missing(name)
        if t == "opaque":    # computed by the session; what it depends on has to exist
            for k, nm in d["deps"]:
                self.evaluate(k, dev, where, nm, cache, read)
            v = self.exact(kind, dev, where, name, d, cache, read)
            if v is not None:
                return v
            v = read.get((kind, dev, where, name))
            if v is None or v[0] != "ok":
                raise Missing("opaque %s" % name)
            return list(v[1])
        raise AssertionError(t)

    def gradients(self, dev, region, s):
        """The gradient of linear interpolation on each element (edge in 1D) and the nodes of each."""
        g = self.geo[dev]["regions"][region]
        xyz = [g["given"]["node"][c] for c in "xyz"]
        if not g.get("element"):
            el = [list(p) for p in zip(*g["edge"])]
            dim = 1
        else:
            dim = len(g["element"]) - 1
            el = [list(p) for p in zip(*g["element"])][::{2: 3, 3: 6}[dim]]
        out = []
        for e in el:
            m = [[xyz[c][i] - xyz[c][e[0]] for c in range(dim)] + [s[i] - s[e[0]]] for i in e[1:]]
            for i in range(dim):
                p = max(range(i, dim), key=lambda k: abs(m[k][i]))
                m[i], m[p] = m[p], m[i]
                for k in range(dim):
                    if k != i:
                        f = m[k][i] / m[i][i]
                        m[k] = [a - f * b for a, b in zip(m[k], m[i])]
            out.append([m[i][dim] / m[i][i] for i in range(dim)])
        return el, out

    def exact(self, kind, dev, where, name, d, cache, read):
        """Values of generated models that can be told from the geometry alone."""
        by = d["by"]["s"]
        if by[-2:] == "_d":
            return None
        c = "xyz".index(name[-1])
        if by == "grad":
            s = self.evaluate("node", dev, where, d["by"]["of"], cache, read)
            el, gr = self.gradients(dev, where, s)
            n = self.size("node", dev, where)
            at = [[] for _ in range(n)]
            for e, g in zip(el, gr):
                for i in e:
                    at[i].append(g[c])
            return [sum(a) / len(a) for a in at]
        if by == "elem_edge" and ":" not in name:
            a = self.table("edge", dev, where).get(d["by"]["of"])
            if a and a["t"] == "avg" and a["how"] in ("gradient", "negative_gradient"):
                s = self.evaluate("node", dev, where, a["of"], cache, read)
                el, gr = self.gradients(dev, where, s)
                sg = 1.0 if a["how"] == "gradient" else -1.0
                return [sg * g[c] for g in gr for _ in range({2: 3, 3: 6}[len(el[0]) - 1])]
        return None

    def spread(self, dev, region, v):
        """Values on edges to the edges of elements."""
        if not isinstance(v, list):
            return v
        g = self.geo[dev]["regions"][region]
        at = {frozenset(p): i for i, p in enumerate(zip(*g["edge"]))}
        return [v[at[frozenset(p)]] for p in zip(g["element"][0], g["element"][1])]

    def parameter(self, dev, region, name):
        for k in ((dev, region, name), (dev, None, name), (None, None, name)):
            if k in self.params:
                return self.params[k]
        return None

    def is_model(self, kind, dev, where, name):
        """Whether an expression that is entered now refers to a model by that name."""
        if kind == "interface":
            if name in self.table(kind, dev, where):
                return True
            return "@r" in name and self.is_model("node", dev, self.geo[dev]["interfaces"][where]["regions"][int(name[-1])], name[:-3])
        given = self.geo[dev]["regions"][where]["given"]
        if any(name in self.table(k, dev, where) or name in given[k] for k in ("node", "edge", "element")):
            return True
        return name[-4:] in ("@en0", "@en1") and name[:-4] + "@n" + name[-1] in self.table("edge", dev, where)

    def free(self, kind, dev, where, e):
        """Names that an expression entered now takes for parameters or circuit nodes."""
        return sorted(set(n for n in names(e) if not self.is_model(kind, dev, where, n)))

    def lookup(self, kind, dev, where, name, cache, read, d):
        if name in d["free"]:
            pass
        elif kind == "interface":
            if "@r" in name:
                b, i = name[:-3], int(name[-1])
                gi = self.geo[dev]["interfaces"][where]
                r = gi["regions"][i]
                s = self.evaluate("node", dev, r, b, cache, read)
                return [s[j] for j in gi["nodes"][i]]
            if name in self.table(kind, dev, where):
                return self.evaluate(kind, dev, where, name, cache, read)
            raise Missing("%s was deleted" % name)
        else:
            for k in ("node", "edge", "element"):
                if name in self.table(k, dev, where) or name in self.geo[dev]["regions"][where]["given"][k]:
                    if k == "edge" and kind == "element":
                        return self.spread(dev, where, self.evaluate(k, dev, where, name, cache, read))
                    if k != kind:
                        raise Missing("%s is of another kind" % name)
                    return self.evaluate(kind, dev, where, name, cache, read)
            if kind == "element" and name[-4:] in ("@en0", "@en1"):
                nm = name[:-4] + "@n" + name[-1]
                if nm in self.table("edge", dev, where):
                    return self.spread(dev, where, self.evaluate("edge", dev, where, nm, cache, read))
            raise Missing("%s was deleted" % name)
        v = [self.parameter(dev, r, name) for r in (self.geo[dev]["interfaces"][where]["regions"] if kind == "interface" else [where])]
        if None not in v:
            if v[0] != v[-1]:
                raise Missing("%s differs between the regions" % name)
            return v[0]
        c = self.alias.get(name, name)
        if c in self.circuit:
            return self.circuit[c]
        raise Missing(name)

    def deps(self, kind, dev, where, name):
        """Direct dependencies of a model, as keys."""
        d = self.table(kind, dev, where).get(name)
        if d is None:
            return []
        out = []
        if d["t"] == "expr":
            for nm in names(d["e"]):
                if nm in d["free"]:
                    continue
                if kind == "interface" and "@r" in nm:
                    out.append(("node", dev, self.geo[dev]["interfaces"][where]["regions"][int(nm[-1])], nm[:-3]))
                else:
                    for k in ((kind,) if kind == "interface" else ("node", "edge", "element")):
                        if nm in self.table(k, dev, where):
                            out.append((k, dev, where, nm))
                    if kind == "element" and nm[-4:] in ("@en0", "@en1") and nm not in self.table(kind, dev, where):
                        nm = nm[:-4] + "@n" + nm[-1]
                        if nm in self.table("edge", dev, where):
                            out.append(("edge", dev, where, nm))
        elif d["t"] in ("end", "avg", "avgd"):
            out.append(("node", dev, where, d["of"]))
            if d["t"] == "avgd" and d["of"] != "u":
                out.append(("node", dev, where, d["of"] + ":u"))
        elif d["t"] == "opaque":
            out += [(k, dev, where, nm) for k, nm in d["deps"]]
        return out

    def reaches(self, src, dst, seen=None):
        """Whether src depends on dst."""
        seen = set() if seen is None else seen
        if src == dst:
            return True
        if src in seen:
            return False
        seen.add(src)
        return any(self.reaches(x, dst, seen) for x in self.deps(*src))

    def keys(self):
        return [(k[0], k[1], k[2], n) for k in sorted(self.defs) for n in sorted(self.defs[k])]
