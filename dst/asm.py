"""An independent assembly of the equations of a session.

dump() runs inside a session: it reads the values of the models that the
equations name and puts them together as the manual describes, without using
the simulator's own assembly, numbering or circuit elements.  The functions
below it run in the universe: they measure how far a state is from solving
the equations and follow the integration formulas.
"""
import devsim

import gen
import worlds

op = worlds.op
GEO = {}
NET = {}
ALIAS = {}


@op
def asm_geometry(dev):
    GEO[dev] = gen.geometry(dev)


@op
def asm_forget(dev):
    GEO.pop(dev, None)


@op
def element(kw):
    """circuit_element, remembered for the assembly."""
    devsim.circuit_element(**kw)
    NET[kw["name"]] = dict(kw)


@op
def alter(kw):
    devsim.circuit_alter(**kw)
    p = kw.get("param", "value")
    NET[kw["name"]][p if p.startswith("ac") else "value"] = kw["value"]


@op
def net_alias(node, alias):
    devsim.circuit_node_alias(node=node, alias=alias)
    ALIAS[alias] = node


@op
def net_delete():
    devsim.delete_circuit()
    NET.clear()
    ALIAS.clear()


@op
def net_state():
    """Everything that can be read of the circuit: lists, values by name and by alias, equation numbers."""
    nodes = list(devsim.get_circuit_node_list())
    out = {"nodes": tuple(nodes), "alias": dict(ALIAS), "eq": {}, "val": {}}
    sols = list(devsim.get_circuit_solution_list())
    for n in nodes + sorted(ALIAS) + ["0", "GND"]:
        out["eq"][n] = devsim.get_circuit_equation_number(node=n)
        for s in sols:
            out["val"].setdefault(s, {})[n] = devsim.get_circuit_node_value(solution=s, node=n)
    return out


def _vals(dev, reg, kind, names, have):
    f = {"node": devsim.get_node_model_values, "edge": devsim.get_edge_model_values, "element": devsim.get_element_model_values}[kind]
    return {n: list(f(device=dev, region=reg, name=n)) for n in names if n in have[kind]}


@op
def dump(tran=False):
    """Unknowns x, residual I of the static part, Q of the time dependent part, and their derivatives G and C."""
    names, x = [], []
    index = {}
    I, Q, G, C = {}, {}, [], []
    bulk = []          # contributions of the regions, before contacts and interfaces move them

    def unk(key, v):
        index[key] = len(names)
        names.append("/".join(str(k) for k in key))
        x.append(v)

    info = {}
    positive = []
    for dev in sorted(devsim.get_device_list()):
        if dev not in GEO:
            asm_geometry(dev)
        for r in sorted(devsim.get_region_list(device=dev)):
            eqs = {e: devsim.get_equation_command(device=dev, region=r, name=e) for e in sorted(devsim.get_equation_list(device=dev, region=r))}
            have = {"node": set(devsim.get_node_model_list(device=dev, region=r)), "edge": set(devsim.get_edge_model_list(device=dev, region=r)),
                    "element": set(devsim.get_element_model_list(device=dev, region=r)) if devsim.get_dimension(device=dev) > 1 else set()}
            info[dev, r] = (eqs, have)
            for e, c in eqs.items():
                v = c["variable_name"]
                if c["variable_update"] == "positive":
                    positive.append("%s/%s/%s/" % (dev, r, v))
                for i, y in enumerate(devsim.get_node_model_values(device=dev, region=r, name=v)):
                    unk((dev, r, v, i), y)
    cnodes = {}

    def cnode(n):
        n = str(n)
        n = ALIAS.get(n, n)
        if n in ("0", "GND"):
            return None
        if ("ckt", n) not in index:
            unk(("ckt", n), devsim.get_circuit_node_value(solution="dcop", node=n))
        return index["ckt", n]

    for e in NET.values():
        cnodes[e["name"]] = (cnode(e["n1"]), cnode(e["n2"]))
        if e["name"][0].upper() in "VL":
            cnode(e["name"] + ".I")
    for dev in sorted(devsim.get_device_list()):
        for c in sorted(devsim.get_contact_list(device=dev)):
            for q in sorted(devsim.get_contact_equation_list(device=dev, contact=c)):
                n = devsim.get_contact_equation_command(device=dev, contact=c, name=q).get("circuit_node")
                if n:
                    cnode(n)

    def add(where, row, v):
        where[row] = where.get(row, 0.0) + v

    moved = {}         # row -> (target or None, keep)

    def owned(dev, c, q):
        """The nodes of a contact which are not those of another one, earlier by name, with the same equation."""
        g = GEO[dev]["contacts"]
        other = [z for z in g if z < c and g[z]["region"] == g[c]["region"] and q in devsim.get_contact_equation_list(device=dev, contact=z)]
        return [i for i in g[c]["nodes"] if not any(i in g[z]["nodes"] for z in other)]

    # ---- what contacts and interfaces do to the rows of the regions
    for dev in sorted(devsim.get_device_list()):
        g = GEO[dev]
        for c in sorted(devsim.get_contact_list(device=dev)):
            reg = g["contacts"][c]["region"]
            eqs, have = info[dev, reg]
            for q in sorted(devsim.get_contact_equation_list(device=dev, contact=c)):
                nodes = owned(dev, c, q)
                cmd = devsim.get_contact_equation_command(device=dev, contact=c, name=q)
                if q not in eqs or not cmd.get("node_model"):
                    continue
                for i in nodes:
                    moved[index[dev, reg, eqs[q]["variable_name"], i]] = (None, False)
        for f in sorted(devsim.get_interface_list(device=dev)):
            gi = g["interfaces"][f]
            for q in sorted(devsim.get_interface_equation_list(device=dev, interface=f)):
                cmd = devsim.get_interface_equation_command(device=dev, interface=f, name=q)
                if cmd["type"] not in ("continuous", "hybrid"):
                    continue
                v0 = info[dev, gi["regions"][0]][0][cmd["name0"]]["variable_name"]
                v1 = info[dev, gi["regions"][1]][0][cmd["name1"]]["variable_name"]
                for a, b in zip(*gi["nodes"]):
                    r0, r1 = index[dev, gi["regions"][0], v0, a], index[dev, gi["regions"][1], v1, b]
                    if moved.get(r0, (0, 0))[0] is None or moved.get(r1, (0, 0))[0] is None:
                        continue
                    moved[r1] = (r0, cmd["type"] == "hybrid")

    def targets(row):
        if row not in moved:
            return (row,)
        t, keep = moved[row]
        return tuple(k for k in ((row if keep else None), t) if k is not None)

    # ---- the regions
    for (dev, r), (eqs, have) in info.items():
        geo = GEO[dev]["regions"][r]
        vars_ = [c["variable_name"] for c in eqs.values()]
        n0, n1 = geo["edge"]
        vol = devsim.get_node_model_values(device=dev, region=r, name="NodeVolume")
        couple = devsim.get_edge_model_values(device=dev, region=r, name="EdgeCouple")
        enode = [i for i in ("EdgeNodeVolume",) if i in have["edge"]]
        evol = devsim.get_edge_model_values(device=dev, region=r, name=enode[0]) if enode else None
        dim = devsim.get_dimension(device=dev)
        if geo.get("element"):
            el = geo["element"]
            ecouple = devsim.get_element_model_values(device=dev, region=r, name="ElementEdgeCouple")

        def node(model, eqv, out, der, vols=None):
            v = _vals(dev, r, "node", [model] + ["%s:%s" % (model, w) for w in vars_], have)
            for i in range(geo["n"]):
                for row in targets(index[dev, r, eqv, i]):
                    add(out, row, v[model][i] * vol[i])
                    for w in vars_:
                        d = v.get("%s:%s" % (model, w))
                        if d:
                            der.append((row, index[dev, r, w, i], d[i] * vol[i]))

        def edge(model, eqv, out, der, weight, s0, s1):
            v = _vals(dev, r, "edge", [model] + ["%s:%s@n%d" % (model, w, k) for w in vars_ for k in (0, 1)], have)
            for j in range(len(n0)):
                for nd, s in ((n0[j], s0), (n1[j], s1)):
                    for row in targets(index[dev, r, eqv, nd]):
                        add(out, row, s * v[model][j] * weight[j])
                        for w in vars_:
                            for k, m in ((0, n0[j]), (1, n1[j])):
                                d = v.get("%s:%s@n%d" % (model, w, k))
                                if d:
                                    der.append((row, index[dev, r, w, m], s * d[j] * weight[j]))

        def elem(model, eqv, out, der, weight, s0, s1):
            v = _vals(dev, r, "element", [model] + ["%s:%s@en%d" % (model, w, k) for w in vars_ for k in range(dim + 1)], have)
            for j in range(len(el[0])):
                for nd, s in ((el[0][j], s0), (el[1][j], s1)):
                    if not s:
                        continue
                    for row in targets(index[dev, r, eqv, nd]):
                        add(out, row, s * v[model][j] * weight[j])
                        for w in vars_:
                            for k in range(dim + 1):
                                d = v.get("%s:%s@en%d" % (model, w, k))
                                if d:
                                    der.append((row, index[dev, r, w, el[k][j]], s * d[j] * weight[j]))

        for e, c in eqs.items():
            w = c["variable_name"]
            if c["node_model"]:
                node(c["node_model"], w, I, G)
            if c["edge_model"]:
                edge(c["edge_model"], w, I, G, couple, 1.0, -1.0)
            if c["edge_volume_model"]:
                edge(c["edge_volume_model"], w, I, G, evol, 1.0, 1.0)
            if c["element_model"]:
                elem(c["element_model"], w, I, G, ecouple, 1.0, -1.0)
            ev = None
            if c["volume_node0_model"] or c["volume_node1_model"]:
                ev = devsim.get_element_model_values(device=dev, region=r, name="ElementNodeVolume")
            if c["volume_node0_model"]:
                elem(c["volume_node0_model"], w, I, G, ev, 1.0, 0.0)
            if c["volume_node1_model"]:
                elem(c["volume_node1_model"], w, I, G, ev, 0.0, 1.0)
            if c["time_node_model"]:
                node(c["time_node_model"], w, Q, C)

    # ---- contacts
    currents = {}
    for dev in sorted(devsim.get_device_list()):
        g = GEO[dev]
        dim = devsim.get_dimension(device=dev)
        for c in sorted(devsim.get_contact_list(device=dev)):
            reg = g["contacts"][c]["region"]
            eqs, have = info[dev, reg]
            geo = g["regions"][reg]
            n0, n1 = geo["edge"]
            vars_ = [z["variable_name"] for z in eqs.values()]
            vol = devsim.get_node_model_values(device=dev, region=reg, name="NodeVolume")
            couple = devsim.get_edge_model_values(device=dev, region=reg, name="EdgeCouple")
            for q in sorted(devsim.get_contact_equation_list(device=dev, contact=c)):
                nodes = owned(dev, c, q)
                here = set(nodes)
                if q not in eqs:
                    continue
                cmd = devsim.get_contact_equation_command(device=dev, contact=c, name=q)
                ck = cmd.get("circuit_node") or None
                crow = cnode(ck) if ck else None
                m = cmd.get("node_model")
                if m:
                    v = _vals(dev, reg, "node", [m] + ["%s:%s" % (m, w) for w in vars_] + (["%s:%s" % (m, ck)] if ck else []), have)
                    for i in nodes:
                        row = index[dev, reg, eqs[q]["variable_name"], i]
                        add(I, row, v[m][i])
                        for w in vars_:
                            d = v.get("%s:%s" % (m, w))
                            if d:
                                G.append((row, index[dev, reg, w, i], d[i]))
                        if crow is not None and "%s:%s" % (m, ck) in v:
                            G.append((row, crow, v["%s:%s" % (m, ck)][i]))
                tot = {"I": 0.0, "Q": 0.0}

                def onckt(row, col, v, der):
                    if crow is not None:
                        der.append((crow, col, v))

                for what, out, der in (("current", I, G), ("charge", Q, C)):
                    t = 0.0
                    m = cmd.get("node_%s_model" % what)
                    if m:
                        v = _vals(dev, reg, "node", [m] + ["%s:%s" % (m, w) for w in vars_], have)
                        for i in nodes:
                            t += v[m][i] * vol[i]
                            for w in vars_:
                                d = v.get("%s:%s" % (m, w))
                                if d:
                                    onckt(crow, index[dev, reg, w, i], d[i] * vol[i], der)
                    m = cmd.get("edge_%s_model" % what)
                    if m:
                        v = _vals(dev, reg, "edge", [m] + ["%s:%s@n%d" % (m, w, k) for w in vars_ for k in (0, 1)], have)
                        for j in range(len(n0)):
                            a, b = n0[j] in here, n1[j] in here
                            if a == b:
                                continue
                            s = 1.0 if a else -1.0
                            t += s * v[m][j] * couple[j]
                            for w in vars_:
                                for k, y in ((0, n0[j]), (1, n1[j])):
                                    d = v.get("%s:%s@n%d" % (m, w, k))
                                    if d:
                                        onckt(crow, index[dev, reg, w, y], s * d[j] * couple[j], der)
                    m = cmd.get("element_%s_model" % what)
                    if m:
                        el = geo["element"]
                        ecouple = devsim.get_element_model_values(device=dev, region=reg, name="ElementEdgeCouple")
                        v = _vals(dev, reg, "element", [m] + ["%s:%s@en%d" % (m, w, k) for w in vars_ for k in range(dim + 1)], have)
                        for j in range(len(el[0])):
                            a, b = el[0][j] in here, el[1][j] in here
                            if a == b:
                                continue
                            s = 1.0 if a else -1.0
                            t += s * v[m][j] * ecouple[j]
                            for w in vars_:
                                for k in range(dim + 1):
                                    d = v.get("%s:%s@en%d" % (m, w, k))
                                    if d:
                                        onckt(crow, index[dev, reg, w, el[k][j]], s * d[j] * ecouple[j], der)
                    if crow is not None:
                        add(out, crow, t)
                    tot["I" if what == "current" else "Q"] = t
                currents["%s/%s/%s" % (dev, c, q)] = (tot["I"], tot["Q"])

    # ---- interfaces
    for dev in sorted(devsim.get_device_list()):
        g = GEO[dev]
        for f in sorted(devsim.get_interface_list(device=dev)):
            gi = g["interfaces"][f]
            ra, rb = gi["regions"]
            models = set(devsim.get_interface_model_list(device=dev, interface=f))
            for q in sorted(devsim.get_interface_equation_list(device=dev, interface=f)):
                cmd = devsim.get_interface_equation_command(device=dev, interface=f, name=q)
                m = cmd["interface_model"]
                v = list(devsim.get_interface_model_values(device=dev, interface=f, name=m))
                ders = []
                for k, r in ((0, ra), (1, rb)):
                    for c in info[dev, r][0].values():
                        n = "%s:%s@r%d" % (m, c["variable_name"], k)
                        if n in models:
                            ders.append((k, r, c["variable_name"], list(devsim.get_interface_model_values(device=dev, interface=f, name=n))))
                v0 = info[dev, ra][0][cmd["name0"]]["variable_name"]
                v1 = info[dev, rb][0][cmd["name1"]]["variable_name"]
                sa = [devsim.get_node_model_values(device=dev, region=r, name="SurfaceArea") for r in (ra, rb)]
                for j, (a, b) in enumerate(zip(*gi["nodes"])):
                    r0, r1 = index[dev, ra, v0, a], index[dev, rb, v1, b]
                    if moved.get(r0, (0, 0))[0] is None or moved.get(r1, (0, 0))[0] is None:
                        continue
                    rows = {"continuous": [(r1, 1.0)], "fluxterm": [(r0, sa[0][a]), (r1, -sa[1][b])], "hybrid": [(r1, -sa[1][b])]}[cmd["type"]]
                    for row, s in rows:
                        add(I, row, s * v[j])
                        for k, r, w, d in ders:
                            G.append((row, index[dev, r, w, (a, b)[k]], s * d[j]))

    # ---- the circuit
    for e in NET.values():
        a, b = cnodes[e["name"]]
        t = e["name"][0].upper()
        va = x[a] if a is not None else 0.0
        vb = x[b] if b is not None else 0.0
        val = e["value"]

        def flow(out, der, i, ders):
            for row, s in ((a, 1.0), (b, -1.0)):
                if row is not None:
                    add(out, row, s * i)
                    for col, d in ders:
                        if col is not None:
                            der.append((row, col, s * d))
        if t == "R":
            flow(I, G, (va - vb) / val, [(a, 1.0 / val), (b, -1.0 / val)])
        elif t == "C":
            flow(Q, C, (va - vb) * val, [(a, val), (b, -val)])
        elif t == "I":
            # drives its current into the first node
            flow(I, G, -val, [])
        else:
            k = cnode(e["name"] + ".I")
            flow(I, G, x[k], [(k, 1.0)])
            if t == "V":
                add(I, k, va - vb - val)
                s = 1.0
            else:
                add(I, k, vb - va)
                add(Q, k, val * x[k])
                C.append((k, k, val))
                s = -1.0
            for col, d in ((a, s), (b, -s)):
                if col is not None:
                    G.append((k, col, d))
    ac = [(index["ckt", e["name"] + ".I"], e.get("acreal", 0.0), e.get("acimag", 0.0)) for e in NET.values() if e["name"][0].upper() == "V"]
    n = len(names)
    moves = tuple((r, t) for r, (t, k) in moved.items())
    kept = [r for r, (t, k) in moved.items() if k]
    return {"ac": tuple(ac), "moved": moves, "kept": tuple(kept), "names": tuple(names), "x": tuple(x), "I": tuple(I.get(i, 0.0) for i in range(n)), "Q": tuple(Q.get(i, 0.0) for i in range(n)),
            "G": tuple(G), "C": tuple(C), "currents": currents,
            "positive": tuple(positive)}


# --------------------------------------------------------------------------
# in the universe
# --------------------------------------------------------------------------
class Singular(Exception):
    pass


class Bound(Exception):
    """An unknown that is kept positive has come down to zero, and the solution is on the other side."""


def correction(J, R):
    """Solves J dx = -R for a sparse J given as (row, column, value)."""
    n = len(R)
    A = [{} for _ in range(n)]
    for i, j, v in J:
        A[i][j] = A[i].get(j, 0.0) + v
    b = [-r for r in R]
    for i in range(n):
        s = max((abs(v) for v in A[i].values()), default=0.0)
        if not s or s != s or s == float("inf"):
            raise Singular("row %d" % i)
        A[i] = {j: v / s for j, v in A[i].items() if v}
        b[i] /= s
    # the largest value each entry had: what is left of it after cancellation may be rounding only
    top = [{j: abs(v) for j, v in r.items()} for r in A]
    where = [None] * n
    cols = [set() for _ in range(n)]
    for i in range(n):
        for j in A[i]:
            cols[j].add(i)
    left = set(range(n))
    order = []
    for j in range(n):
        best = max(((abs(A[i].get(j, 0.0)), -len(A[i]), -i) for i in cols[j] if i in left), default=(0.0, 0, 0))
        if best[0] <= 1e-11 * max((top[i].get(j, 0.0) for i in cols[j] if i in left), default=0.0):
            raise Singular("column %d" % j)
        # of the large enough ones, the shortest
        p = min((len(A[i]), i) for i in cols[j] if i in left and abs(A[i].get(j, 0.0)) >= 0.1 * best[0])[1]
        left.discard(p)
        where[j] = p
        order.append(j)
        pr = A[p]
        d = pr[j]
        for i in list(cols[j]):
            if i in left:
                f = A[i].pop(j) / d
                if f:
                    for k, v in pr.items():
                        if k != j:
                            A[i][k] = A[i].get(k, 0.0) - f * v
                            top[i][k] = max(top[i].get(k, 0.0), abs(f) * top[p][k])
                            cols[k].add(i)
                    b[i] -= f * b[p]
    x = [0.0] * n
    for j in reversed(order):
        p = where[j]
        x[j] = (b[p] - sum(v * x[k] for k, v in A[p].items() if k != j)) / A[p][j]
    return x


def scaled(D, a0, b0, extra):
    R = [b0 * i + a0 * q + e for i, q, e in zip(D["I"], D["Q"], extra)]
    J = [(i, j, b0 * v) for i, j, v in D["G"]]
    if a0:
        J += [(i, j, a0 * v) for i, j, v in D["C"]]
    return J, R


def formula(op, D, hist):
    """(Jacobian, residual) of what a solve had to bring to zero; hist: accepted (I, Q), latest first."""
    n = len(D["x"])
    if op[0] == "dc" or op[1] == "transient_dc":
        return scaled(D, 0.0, 1.0, [0.0] * n)
    t, g = op[2]["tdelta"], op[2].get("gamma", 1.0)
    I0, Q0 = hist[0]
    if op[1] == "transient_bdf1":
        a = 1.0 / (g * t)
        return scaled(D, a, 1.0, [-a * q for q in Q0])
    if op[1] == "transient_tr":
        a = 2.0 / (g * t)
        return scaled(D, a, 1.0, [-a * q + i for i, q in zip(I0, Q0)])
    h = (1.0 - g) * t
    Q1 = hist[1][1]
    return scaled(D, (2.0 - g) / h, 1.0, [-q / (g * h) + (1.0 - g) / (g * t) * p for q, p in zip(Q0, Q1)])


def excess(D, op, hist, rel, slack=50.0, floor=1e-8):
    """The unknown that is furthest from where one exact Newton step would put it, relative to the error that was asked for.

    Returns (ratio, name, value, correction); a ratio above one is not a solution.
    """
    J, R = formula(op, D, hist)
    if any(r != r for r in R):
        return (float("inf"), "residual", float("nan"), float("nan"))
    dx = correction(J, R)
    # what rounding of the charges makes of it at short time steps
    noise = [0.0] * len(dx)
    if op[0] != "dc" and op[1] != "transient_dc":
        q = [4e-15 * max([abs(v)] + [abs(h[1][i]) for h in hist]) / op[2]["tdelta"] for i, v in enumerate(D["Q"])]
        if any(q):
            for sign in (1, -1):
                noise = [max(a, abs(b)) for a, b in zip(noise, correction(J, [v if i % 2 else sign * v for i, v in enumerate(q)]))]
    scale = max([abs(v) for v in D["x"]] + [1e-10])
    worst = (0.0, "", 0.0, 0.0)
    for nme, v, d, z in zip(D["names"], D["x"], dx, noise):
        lim = slack * rel * (abs(v) + 1e-10) + z + floor * local(D, nme) + 1e-14 * scale
        q = abs(d) / lim
        if q > 1.0 and 0.0 < v < 1e-8 and d < 0.0 and nme.startswith(D["positive"]):
            raise Bound()
        if not q <= worst[0]:
            worst = (q, nme, v, d)
    return worst


def local(D, name):
    """The largest value of the unknowns of the same kind."""
    c = D.setdefault("_local", {})
    k = name.rsplit("/", 1)[0]
    if not c:
        for n, v in zip(D["names"], D["x"]):
            kk = n.rsplit("/", 1)[0]
            c[kk] = max(c.get(kk, 0.0), abs(v))
    return c[k]
