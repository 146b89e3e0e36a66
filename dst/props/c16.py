"""C16: running out of memory is reported and survived."""
import core
import reject
import scen
import worlds
from props import c01, c12, c13  # noqa: F401

LEVEL = "fault_enumeration"
RUNS = {"quick": 1500, "thorough": 40000}
SHRINK = ["steps", "W.devs", "W.net"]
RULE = ("Each run builds a seeded session (devices in 1D to 3D, circuits, custom solver, user functions, custom equation, extended precision) and a "
        "twin, and gives both the same seeded commands: model definitions and value reads of node, edge, element and interface models, "
        "dc, transient, small signal and noise solves, matrix assembly, files in all formats, loads of device and mesh files.  The twin counts the "
        "allocations of each command; in the first session the command is first tried with one of these allocations failing, at several "
        "seeded positions, or with no more than a seeded number of bytes available.  Each such attempt has to fail with an error and change "
        "nothing, or end as in the twin; the final attempt with memory has to give what the twin has, bit for bit.")
REAL = ["all of devsim (plain build)"]
STUB = ["operator new (scheduled failures)", "BLAS/LAPACK", "symbolic engine", "sparse direct solver"]
ASSUME = ["allocations of the Python interpreter and of the C library do not fail", "contact currents and charges are results, not state"]
TIME_UNIT = "seconds of simulated transient time"


def plan(rng, tier, index):
    W = scen.world(rng)
    W.pop("threads", None)
    toys = [d for d in W["devs"] if d[1] == "toy"]
    ext = rng.choice([[], [], [], ["extended_solver", "extended_model", "extended_equation"], ["extended_model"], ["extended_solver"]])
    if W.get("eq") or W.get("solver"):
        ext = []
    steps = []
    tran = 0
    loads = 0
    if rng.random() < 0.6:
        steps.append({"pre": [], "op": ["dc", scen.solve_args(rng, W)], "at": []})
    for _ in range(rng.randint(3, 8)):
        k = rng.random()
        pre = [scen.move(rng, W)] if rng.random() < 0.7 else []
        if k < 0.2:
            op = ["dc", scen.solve_args(rng, W)]
        elif k < 0.33:
            typ = "transient_dc" if not tran else rng.choice(scen.TRAN if tran > 1 else scen.TRAN[:2])
            tran = 1 if typ == "transient_dc" else 2
            op = ["tran", typ, scen.solve_args(rng, W) if tran == 1 else scen.tran_args(rng, W, typ)]
        elif k < 0.4 and W["net"]:
            op = ["small", {"type": "ac", "frequency": rng.choice([0.0, 1.0])}] if rng.random() < 0.6 else \
                 ["small", {"type": "noise", "frequency": 1.0, "output_node": "vdd"}]
        elif k < 0.44:
            op = ["c", "get_matrix_and_rhs", {"format": "csc"}]
        elif k < 0.72 and toys:
            d = rng.choice(toys)
            op = read(rng, d)
            pre = pre + [["models", d[0], rng.randrange(4), "element" in op[1]]]
        elif k < 0.84 and W["devs"]:
            typ = rng.choice(["vtk", "tecplot", "devsim", "devsim_data"])
            op = ["fwrite", "o%d" % len(steps), typ, rng.choice([None, rng.choice(W["devs"])[0]]), rng.choice([None, "even", "x"]) if typ in ("vtk", "tecplot") else None]
        else:
            loads += 1
            op = ["fload", "gone%d" % loads, rng.choice(["toy", "toy", "gmsh"])]
        steps.append({"pre": pre, "op": op, "at": [[rng.choice([rng.random(), rng.random() ** 3]), rng.random() < 0.15] for _ in range(rng.choice([1, 2, 3, 5]))]})
    L = scen.toy_P(rng)
    return {"W": W, "steps": steps, "ext": ext, "other": L, "debug": rng.random() < 0.15}


def read(rng, d):
    name, _, P = d
    kind = rng.choice(["node", "node", "edge", "edge", "element" if P.get("dim", 1) > 1 else "edge", "interface" if P.get("nreg", 1) > 1 else "node"])
    if kind == "node":
        n = rng.choice(["NodeVolume", "m_n", "m_avg", "S", "der2", "m_vec", "m_grad"])
    elif kind == "edge":
        n = rng.choice(["EdgeLength", "m_e", "F", "m_ea", "EdgeCouple", "m_en@n0"])
    elif kind == "element":
        n = rng.choice(["ElementEdgeCouple", "m_el", "m_ev_x", "m_ed"])
    else:
        return ["c", "get_interface_model_values", {"device": name, "interface": "i1", "name": "m_i"}]
    return ["c", "get_%s_model_values" % kind, {"device": name, "region": "r0", "name": n}]


@worlds.op
def models(dev, n, elem):
    """(Re)defines models of all kinds."""
    import devsim
    a = dict(device=dev, region="r0")
    c = ["2", "3", "k", "a"][n]
    devsim.node_model(name="m_n", equation="%s*exp(-u)+log(1+NodeVolume)" % c, **a)
    devsim.node_model(name="m_vec", equation="vec_sum(m_n)+vec_max(u)*%s" % c, **a)
    devsim.edge_model(name="m_e", equation="%s*EdgeLength*(u@n0-u@n1)" % c, **a)
    devsim.edge_average_model(node_model="m_n", edge_model="m_ea", average_type=["arithmetic", "geometric", "gradient", "negative_gradient"][n], **a)
    devsim.edge_from_node_model(node_model="m_n", **a)
    devsim.edge_model(name="m_en@n0", equation="m_n@n0*m_n@n1", **a)
    devsim.node_model(name="m_avg", equation="m_vec*m_n+%s" % c, **a)
    devsim.vector_gradient(node_model="m_n", calc_type="default", **a)
    devsim.node_model(name="m_grad", equation="m_n_gradx*%s" % c, **a)
    for i in devsim.get_interface_list(device=dev):
        devsim.interface_model(device=dev, interface=i, name="m_i", equation="%s*u@r0-u@r1" % ("2" if n < 2 else "3"))
    if elem:
        devsim.element_from_edge_model(edge_model="m_e", **a)
        devsim.element_from_node_model(node_model="m_n", **a)
        devsim.element_model(name="m_el", equation="%s*m_e_x+m_n@en0*ElementEdgeCouple" % c, **a)
        devsim.element_model(name="m_ev_x", equation="m_el*m_e_y", **a)
        devsim.element_model(name="m_ed", equation="m_ev_x+m_n@en2*m_n@en1", **a)


@worlds.op
def fload(name, kind):
    import devsim
    if kind == "gmsh":
        devsim.create_gmsh_mesh(mesh=name, file="io/mesh.msh")
        return name
    return devsim.load_devices(file="io/" + kind)


@worlds.op
def gmsh_file(P):
    """A mesh file, version 2.2, of the box of a toy device."""
    import os
    pts, elements, names = worlds.box3(P.get("nreg", 1), 1)
    os.makedirs("io", exist_ok=True)
    es = []
    i = 0
    while i < len(elements):
        d, n = elements[i], elements[i + 1]
        es.append((d, n + 1, elements[i + 2:i + 3 + d]))
        i += 3 + d
    with open("io/mesh.msh", "w") as f:
        f.write("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$PhysicalNames\n%d\n" % len(names))
        for j, n in enumerate(names):
            f.write('%d %d "%s"\n' % (3 if n[0] == "b" else 2, j + 1, n))
        f.write("$EndPhysicalNames\n$Nodes\n%d\n" % (len(pts) // 3))
        for j in range(len(pts) // 3):
            f.write("%d %r %r %r\n" % (j + 1, *pts[3 * j:3 * j + 3]))
        f.write("$EndNodes\n$Elements\n%d\n" % len(es))
        for j, (d, p, v) in enumerate(es):
            f.write("%d %d 2 %d %d %s\n" % (j + 1, {0: 15, 1: 1, 2: 2, 3: 4}[d], p, p, " ".join(str(x + 1) for x in v)))
        f.write("$EndElements\n")


def both(A, B, o, what):
    a, b = A.op(o), B.op(o)
    if repr(a) != repr(b):
        raise core.Violation("later", "%r %s: %.600r, %.600r in a session which never ran out of memory" % (o, what, a, b))
    return a


def tag(op):
    return op[1] if op[0] == "c" else op[0] + ("-" + op[2] if op[0] in ("fload", "fwrite") else "")


def execute(plan, ctx):
    W = plan["W"]
    w = ctx.session("writer")
    P = plan["other"]
    for o in (["toy", "zother", P], ["extras", "zother", P], ["dc", {}], ["gmsh_file", P], ["fwrite", "io/toy", "devsim", None, None]):
        r = w.op(o)
        if r[0] != "ok":
            raise core.Harness("writer: %r: %r" % (o, r))
    w.kill()
    A, B = ctx.session("a"), ctx.session("b")
    for x in plan["ext"]:
        both(A, B, ["c", "set_parameter", {"name": x, "value": True}], "")
    for o in scen.build(W):
        if both(A, B, o, "while building")[0] != "ok":
            ctx.probe("unbuilt")
            return
    if plan["debug"]:
        both(A, B, ["c", "set_parameter", {"name": "debug_level", "value": "verbose"}], "")
    tran = 0
    loaded = False
    for st in plan["steps"]:
        for o in st["pre"]:
            both(A, B, o, "before")
        op = st["op"]
        if op[0] == "tran" and op[1] != "transient_dc" and not tran or op[0] == "tran" and op[1] == "transient_bdf2" and tran < 2:
            continue
        if op[0] == "fload" and op[2] == "toy":
            if loaded:
                continue
            loaded = True
        was = None
        if op[0] in ("dc", "tran", "fload", "fwrite"):
            was = A.snap()
            B.snap()
        B.op(["arm", [{"seam": "alloc", "at": 10 ** 9, "n": 1}]])
        rb = B.op(op)
        n = B.op(["disarm"])[1]["nalloc"]
        if op[0] == "tran" and not scen.failed(op, rb):
            tran = 1 if op[1] == "transient_dc" else 2
            ctx.simtime += op[2].get("tdelta", 0.0)
        done = False
        for f, lim in st["at"]:
            if not n:
                break
            # the number of bytes which remain, or the allocation which fails
            x = {"limit": int(10 ** (1 + 4.5 * f))} if lim else {"at": min(n - 1, int(f * n)), "n": 1}
            A.op(["arm", [dict(x, seam="alloc")]])
            r = A.op(op)
            fired = A.op(["disarm"])[1]["fired"]
            for k, m in fired.items():
                ctx.fault("%s-%s" % (tag(op), "limit" if lim else "single"), m)
            if r[0] == "py":
                raise core.Violation("wrong-exception", "%r with %r raised %s: %s" % (op, x, r[1], r[2]))
            if not scen.failed(op, r) or not fired:
                # where an algorithm can do without the memory
                if fired:
                    ctx.probe("absorbed")
                if repr(r) != repr(rb):
                    raise core.Violation("wrong-result", "%r with %r: %.500r, %.500r with memory" % (op, x, r, rb), key="wrong-result-" + tag(op))
                done = True
                break
            if was is not None:
                d = c01.same(worlds.strip_currents(was), worlds.strip_currents(A.snap()))
                if d:
                    raise core.Violation("changed", "%r failed (%r, %.200r) and left changes: %s" % (op, x, r[1], "; ".join(d)), key="changed-" + tag(op))
        if not done:
            ra = A.op(op)
            if repr(ra) != repr(rb):
                raise core.Violation("later", "%r after it ran out of memory: %.600r, %.600r in a session which did not" % (op, ra, rb), key="later-" + tag(op))
        ctx.probe("%s-%s" % (tag(op), rb[0]))
        a, b = A.snap(), B.snap()
        d = worlds.diff(b, a)
        if d:
            raise core.Violation("later", "after %r the state differs from that of a session which never ran out of memory: %s" % (op, "; ".join(d)), key="state-" + tag(op))
