"""What a session can do: the operation interpreter, small devices, snapshots.

Runs inside sessions.  An operation is a JSON list; its result is
("ok", value), ("err", message of devsim.error) or ("py", type, message) for
any other Python exception that a command let through.
"""
import math
import os
import sys

import devsim

OUT = None  # the Out object that stands in for sys.stdout


def norm(v):
    """Makes a command's answer comparable and picklable."""
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, dict):
        return {str(k): norm(v[k]) for k in sorted(v)}
    if isinstance(v, (list, tuple)):
        return tuple(norm(x) for x in v)
    if hasattr(v, "tolist"):
        return tuple(v.tolist())
    return repr(type(v))


def guard(f, *a):
    if os.environ.get("DST_DEBUG"):
        return _guard_debug(f, a)
    try:
        return ("ok", norm(f(*a)))
    except devsim.error as e:
        return ("err", str(e))
    except Exception as e:
        return ("py", type(e).__name__, str(e))


def _guard_debug(f, a):
    import traceback
    try:
        return ("ok", norm(f(*a)))
    except Exception as e:
        traceback.print_exc()
        return ("err", str(e)) if isinstance(e, devsim.error) else ("py", type(e).__name__, str(e))


def cmd(name, kw):
    return getattr(devsim, name)(**kw)


OPS = {}


def op(f):
    OPS[f.__name__.rstrip("_")] = f
    return f


def apply(o):
    if o[0] == "c":
        return guard(cmd, o[1], o[2])
    return guard(OPS[o[0]], *o[1:])


def apply_all(ops):
    return [apply(o) for o in ops]


# --------------------------------------------------------------------------
# meshes
# --------------------------------------------------------------------------
def mesh_1d(mesh, nreg, nx, grade=0.0):
    devsim.create_1d_mesh(mesh=mesh)
    h = 1.0 / nx
    for r in range(nreg + 1):
        devsim.add_1d_mesh_line(mesh=mesh, pos=float(r), ps=h * (1.0 + grade * r), tag="t%d" % r)
    devsim.add_1d_contact(mesh=mesh, name="top", tag="t0", material="metal")
    devsim.add_1d_contact(mesh=mesh, name="bot", tag="t%d" % nreg, material="metal")
    for r in range(nreg):
        devsim.add_1d_region(mesh=mesh, material="M%d" % r, region="r%d" % r, tag1="t%d" % r, tag2="t%d" % (r + 1))
    for r in range(1, nreg):
        devsim.add_1d_interface(mesh=mesh, name="i%d" % r, tag="t%d" % r)
    devsim.finalize_mesh(mesh=mesh)


def mesh_2d(mesh, nreg, nx, ny, pt=False, grade=0.0, side=()):
    devsim.create_2d_mesh(mesh=mesh)
    for r in range(nreg + 1):
        devsim.add_2d_mesh_line(mesh=mesh, dir="x", pos=float(r), ps=1.0 / nx)
    devsim.add_2d_mesh_line(mesh=mesh, dir="x", pos=-0.5, ps=1.0)
    devsim.add_2d_mesh_line(mesh=mesh, dir="x", pos=nreg + 0.5, ps=1.0)
    devsim.add_2d_mesh_line(mesh=mesh, dir="y", pos=0.0, ps=1.0 / ny)
    devsim.add_2d_mesh_line(mesh=mesh, dir="y", pos=1.0, ps=1.0 / ny * (1.0 + grade))
    for r in range(nreg):
        devsim.add_2d_region(mesh=mesh, material="M%d" % r, region="r%d" % r, xl=float(r), xh=float(r + 1), yl=0.0, yh=1.0)
    devsim.add_2d_region(mesh=mesh, material="gas", region="g0", xl=-0.5, xh=0.0)
    devsim.add_2d_region(mesh=mesh, material="gas", region="g1", xl=float(nreg), xh=nreg + 0.5)
    devsim.add_2d_contact(mesh=mesh, name="top", material="metal", region="r0", xl=0.0, xh=0.0, bloat=1e-10)
    devsim.add_2d_contact(mesh=mesh, name="bot", material="metal", region="r%d" % (nreg - 1), xl=float(nreg), xh=float(nreg), bloat=1e-10)
    if pt:
        x = 0.5 if nx > 1 else float(nreg)
        devsim.add_2d_contact(mesh=mesh, name="pt", material="metal", region="r0" if nx > 1 else "r%d" % (nreg - 1), xl=x, xh=x, yl=0.0, yh=0.0, bloat=1e-10)
    for n in side:
        # (shares nodes with the others)
        devsim.add_2d_contact(mesh=mesh, name=n, material="metal", region="r0", xl=0.0, xh=1.0, yl=0.0, yh=0.0, bloat=1e-10)
    for r in range(1, nreg):
        devsim.add_2d_interface(mesh=mesh, name="i%d" % r, region0="r%d" % (r - 1), region1="r%d" % r,
                                xl=float(r), xh=float(r), yl=0.0, yh=1.0, bloat=1e-10)
    devsim.finalize_mesh(mesh=mesh)


def box3(nreg, ny, grade=0.0, side=()):
    """Coordinates, elements and names of nreg boxes side by side, in tetrahedra.

    Bricks of any size: with six tetrahedra around the diagonal of each, all
    of them have their circumcentre in the middle of the brick."""
    ny = max(1, ny)
    P, idx = [], {}

    def node(x, y, z):
        k = (x, y, z)
        if k not in idx:
            idx[k] = len(P)
            P.append((x * (1.0 + grade * x / 8), (y / ny) ** (1.0 + grade / 2), (z / ny) ** (1.0 + grade) * (1.0 + grade / 4)))
        return idx[k]

    names = ["b%d" % r for r in range(nreg)] + ["ctop", "cbot"] + ["if%d" % r for r in range(1, nreg)] + ["c" + n for n in side]
    E = []
    for r in range(nreg):
        for j in range(ny):
            for k in range(ny):
                v = [node(r + a, j + b, k + c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
                # six tetrahedra around the diagonal v[0]-v[7]
                for a, b in ((1, 3), (3, 2), (2, 6), (6, 4), (4, 5), (5, 1)):
                    E += [3, r, v[0], v[a], v[b], v[7]]

    def face(x, name):
        n = names.index(name)
        for j in range(ny):
            for k in range(ny):
                a, b = node(x, j, k), node(x, j, k + 1)
                c, d = node(x, j + 1, k), node(x, j + 1, k + 1)
                # the diagonals of the boxes' x faces run from (0,0) to (1,1)
                E.extend([2, n, a, b, d])
                E.extend([2, n, a, d, c])
    face(0, "ctop")
    face(nreg, "cbot")
    for r in range(1, nreg):
        face(r, "if%d" % r)
    for n in side:
        for k in range(ny):
            v = [node(a, 0, k + c) for a in (0, 1) for c in (0, 1)]
            E.extend([2, names.index("c" + n), v[0], v[2], v[3]])
            E.extend([2, names.index("c" + n), v[0], v[3], v[1]])
    C = [x for p in P for x in p]
    return C, E, names


def mesh_3d(mesh, nreg, ny, pt=False, grade=0.0, side=()):
    C, E, names = box3(nreg, ny, grade, side)
    if pt:
        names = names + ["cpt"]
        E = E + [0, len(names) - 1, 0]
    devsim.create_gmsh_mesh(mesh=mesh, coordinates=C, elements=E, physical_names=names)
    for r in range(nreg):
        devsim.add_gmsh_region(mesh=mesh, gmsh_name="b%d" % r, region="r%d" % r, material="M%d" % r)
    devsim.add_gmsh_contact(mesh=mesh, gmsh_name="ctop", region="r0", name="top", material="metal")
    devsim.add_gmsh_contact(mesh=mesh, gmsh_name="cbot", region="r%d" % (nreg - 1), name="bot", material="metal")
    if pt:
        devsim.add_gmsh_contact(mesh=mesh, gmsh_name="cpt", region="r0", name="pt", material="metal")
    for n in side:
        devsim.add_gmsh_contact(mesh=mesh, gmsh_name="c" + n, region="r0", name=n, material="metal")
    for r in range(1, nreg):
        devsim.add_gmsh_interface(mesh=mesh, gmsh_name="if%d" % r, region0="r%d" % (r - 1), region1="r%d" % r, name="i%d" % r)
    devsim.finalize_mesh(mesh=mesh)


@op
def mesh(name, P):
    d = P.get("dim", 1)
    if d == 1:
        mesh_1d(name, P.get("nreg", 1), P.get("nx", 4), P.get("grade", 0.0))
    elif d == 2:
        mesh_2d(name, P.get("nreg", 1), P.get("nx", 2), P.get("ny", 2), P.get("pt"), P.get("grade", 0.0), P.get("side", ()))
    else:
        mesh_3d(name, P.get("nreg", 1), P.get("ny", 1), P.get("pt"), P.get("grade", 0.0), P.get("side", ()))


# --------------------------------------------------------------------------
# the toy device: coupled nonlinear diffusion whose equations a few lines of
# Python state as well (see ref.py)
# --------------------------------------------------------------------------
def toy_regions(P):
    return ["r%d" % r for r in range(P.get("nreg", 1))]


@op
def toy_mesh(dev, P):
    m = P.get("mesh", "m_" + dev)
    mesh(m, P)
    devsim.create_device(mesh=m, device=dev)


@op
def toy_params(dev, P):
    for i, r in enumerate(toy_regions(P)):
        for n in ("k", "a", "g", "beta", "c", "kv", "b"):
            v = P.get(n, {"k": 1.0, "a": 0.5, "g": 0.3, "beta": 0.1, "c": 1.0, "kv": 0.7, "b": 0.4}[n])
            devsim.set_parameter(device=dev, region=r, name=n, value=v * (1.0 + 0.25 * i))
    devsim.set_parameter(device=dev, name="top_bias", value=P.get("top", 0.0))
    devsim.set_parameter(device=dev, name="bot_bias", value=P.get("bot", 0.0))
    devsim.set_parameter(device=dev, name="h", value=P.get("h", 2.0))


@op
def toy_models(dev, P):
    two = P.get("nvar", 1) == 2
    for r in toy_regions(P):
        for u in ("u", "v")[:P.get("nvar", 1)]:
            devsim.node_solution(device=dev, region=r, name=u)
            devsim.edge_from_node_model(device=dev, region=r, node_model=u)
            if P.get("init"):
                n = len(devsim.get_node_model_values(device=dev, region=r, name=u))
                devsim.set_node_values(device=dev, region=r, name=u, values=[P["init"]] * n)
        if P.get("f32"):
            pass
        S = P.get("S", "a*(exp(u)-exp(-u)) - g")
        if P.get("gck"):
            # part of the equations, and of nothing but the circuit
            devsim.node_model(device=dev, region=r, name="gck", equation="0.3*%s" % P["gck"])
            S += " + gck"
        if two:
            S = "(%s) + b*v" % S
        devsim.node_model(device=dev, region=r, name="S", equation=S)
        devsim.node_model(device=dev, region=r, name="S:u", equation="diff(%s,u)" % S)
        F = P.get("F", "k*(u@n0-u@n1)*(1+beta*(u@n0^2+u@n1^2))*EdgeInverseLength")
        if P.get("elem"):
            F = F.replace("@n", "@en")
            devsim.element_from_node_model(device=dev, region=r, node_model="u")
            devsim.element_model(device=dev, region=r, name="F", equation=F)
            for n in ("@en0", "@en1"):
                devsim.element_model(device=dev, region=r, name="F:u" + n, equation="diff(%s,u%s)" % (F, n))
            devsim.element_model(device=dev, region=r, name="F:u@en2", equation="0")
            if P.get("dim") == 3:
                devsim.element_model(device=dev, region=r, name="F:u@en3", equation="0")
        else:
            devsim.edge_model(device=dev, region=r, name="F", equation=F)
            for n in ("@n0", "@n1"):
                devsim.edge_model(device=dev, region=r, name="F:u" + n, equation="diff(%s,u%s)" % (F, n))
        Q = P.get("Q", "c*u")
        devsim.node_model(device=dev, region=r, name="Q", equation=Q)
        devsim.node_model(device=dev, region=r, name="Q:u", equation="diff(%s,u)" % Q)
        if two:
            devsim.node_model(device=dev, region=r, name="S:v", equation="b")
            devsim.node_model(device=dev, region=r, name="Sv", equation="b*(v-u*u)")
            devsim.node_model(device=dev, region=r, name="Sv:u", equation="-2*b*u")
            devsim.node_model(device=dev, region=r, name="Sv:v", equation="b")
            G = "kv*(v@n0-v@n1)*EdgeInverseLength"
            devsim.edge_model(device=dev, region=r, name="G", equation=G)
            for n in ("@n0", "@n1"):
                devsim.edge_model(device=dev, region=r, name="G:v" + n, equation="diff(%s,v%s)" % (G, n))


@op
def toy_equations(dev, P):
    upd = P.get("update", "default")
    two = P.get("nvar", 1) == 2
    for r in toy_regions(P):
        kw = {"element_model": "F"} if P.get("elem") else {"edge_model": "F"}
        if P.get("time", True):
            kw["time_node_model"] = "Q"
        devsim.equation(device=dev, region=r, name="UEq", variable_name="u", node_model="S", variable_update=upd, **kw)
        if two:
            devsim.equation(device=dev, region=r, name="VEq", variable_name="v", node_model="Sv", edge_model="G",
                            variable_update="default")


def toy_contact(dev, P, c, ckt=None, only="uv"):
    bias = ckt or c + "_bias"
    devsim.contact_node_model(device=dev, contact=c, name=c + "_u", equation="u - %s" % bias)
    devsim.contact_node_model(device=dev, contact=c, name=c + "_u:u", equation="1")
    kw = {"element_current_model": "F"} if P.get("elem") else {"edge_current_model": "F"}
    if ckt:
        devsim.contact_node_model(device=dev, contact=c, name="%s_u:%s" % (c, bias), equation="-1")
        kw["circuit_node"] = ckt
    if P.get("time", True):
        kw["node_charge_model"] = "Q"
    if "u" in only:
        devsim.contact_equation(device=dev, contact=c, name="UEq", node_model=c + "_u", **kw)
    if P.get("nvar", 1) == 2 and "v" in only:
        devsim.contact_node_model(device=dev, contact=c, name=c + "_v", equation="v")
        devsim.contact_node_model(device=dev, contact=c, name=c + "_v:v", equation="1")
        devsim.contact_equation(device=dev, contact=c, name="VEq", node_model=c + "_v", edge_current_model="G")


@op
def toy_contacts(dev, P):
    toy_contact(dev, P, "top", P.get("ckt"))
    toy_contact(dev, P, "bot", P.get("ckt_bot"))
    if P.get("pt") and P.get("dim") == 2 and P.get("nx", 2) > 1:
        devsim.set_parameter(device=dev, name="pt_bias", value=0.05)
        toy_contact(dev, P, "pt")
    if P.get("dim", 1) > 1:
        for i, n in enumerate(P.get("side", ())):
            devsim.set_parameter(device=dev, name=n + "_bias", value=0.07 + 0.02 * i)
            toy_contact(dev, P, n, only=P.get("sideeq", "uv") if not i else "uv")


@op
def toy_interfaces(dev, P):
    two = P.get("nvar", 1) == 2
    it = P.get("itype", "continuous")
    for r in range(1, P.get("nreg", 1)):
        i = "i%d" % r
        for u, e in (("u", "UEq"), ("v", "VEq"))[:2 if two else 1]:
            if it == "continuous":
                f = "%s@r0-%s@r1" % (u, u)
            else:
                f = "h*(%s@r0-%s@r1)" % (u, u)
            m = "I" + u
            devsim.interface_model(device=dev, interface=i, name=m, equation=f)
            devsim.interface_model(device=dev, interface=i, name="%s:%s@r0" % (m, u), equation="diff(%s,%s@r0)" % (f, u))
            devsim.interface_model(device=dev, interface=i, name="%s:%s@r1" % (m, u), equation="diff(%s,%s@r1)" % (f, u))
            devsim.interface_equation(device=dev, interface=i, name=e, interface_model=m, type=it)


@op
def toy(dev, P):
    toy_mesh(dev, P)
    toy_params(dev, P)
    toy_models(dev, P)
    toy_equations(dev, P)
    toy_contacts(dev, P)
    toy_interfaces(dev, P)


# --------------------------------------------------------------------------
# the shipped diode physics
# --------------------------------------------------------------------------
@op
def diode(dev, P):
    from devsim.python_packages import simple_physics as sp
    from devsim.python_packages.model_create import CreateNodeModel, CreateSolution
    m, r = "m_" + dev, "bulk"
    n = P.get("nx", 6)
    L = 1e-5
    devsim.create_1d_mesh(mesh=m)
    devsim.add_1d_mesh_line(mesh=m, pos=0, ps=L / n, tag="top")
    devsim.add_1d_mesh_line(mesh=m, pos=L / 2, ps=L / n / P.get("fine", 4), tag="mid")
    devsim.add_1d_mesh_line(mesh=m, pos=L, ps=L / n, tag="bot")
    devsim.add_1d_contact(mesh=m, name="top", tag="top", material="metal")
    devsim.add_1d_contact(mesh=m, name="bot", tag="bot", material="metal")
    devsim.add_1d_region(mesh=m, material="Si", region=r, tag1="top", tag2="bot")
    devsim.finalize_mesh(mesh=m)
    devsim.create_device(mesh=m, device=dev)
    sp.SetSiliconParameters(dev, r, 300)
    devsim.set_parameter(device=dev, region=r, name="taun", value=1e-8)
    devsim.set_parameter(device=dev, region=r, name="taup", value=1e-8)
    nd = P.get("dop", 1e17)
    CreateNodeModel(dev, r, "Acceptors", "%r*step(%r-x)" % (nd, L / 2))
    CreateNodeModel(dev, r, "Donors", "%r*step(x-%r)" % (nd, L / 2))
    CreateNodeModel(dev, r, "NetDoping", "Donors-Acceptors")
    CreateSolution(dev, r, "Potential")
    ck = P.get("ckt", [])
    sp.CreateSiliconPotentialOnly(dev, r)
    for c in ("top", "bot"):
        if c in ck:
            devsim.add_circuit_node(name=sp.GetContactBiasName(c), variable_update="default")
        else:
            devsim.set_parameter(device=dev, name=sp.GetContactBiasName(c), value=0.0)
        sp.CreateSiliconPotentialOnlyContact(dev, r, c, c in ck)


@op
def diode_dd(dev, P):
    from devsim.python_packages import simple_physics as sp
    from devsim.python_packages.model_create import CreateSolution
    r = "bulk"
    ck = P.get("ckt", [])
    CreateSolution(dev, r, "Electrons")
    CreateSolution(dev, r, "Holes")
    devsim.set_node_values(device=dev, region=r, name="Electrons", init_from="IntrinsicElectrons")
    devsim.set_node_values(device=dev, region=r, name="Holes", init_from="IntrinsicHoles")
    sp.CreateSiliconDriftDiffusion(dev, r)
    for c in ("top", "bot"):
        sp.CreateSiliconDriftDiffusionAtContact(dev, r, c, c in ck)


# --------------------------------------------------------------------------
# misc operations
# --------------------------------------------------------------------------
@op
def solve(kind="dc", **kw):
    a = dict(type=kind, absolute_error=1e10, relative_error=1e-9, maximum_iterations=40)
    a.update(kw)
    return devsim.solve(**a)


@op
def dc(P=None):
    return solve("dc", **(P or {}))


@op
def tran(kind, P):
    return solve(kind, **P)


@op
def bias(dev, contact, v):
    devsim.set_parameter(device=dev, name=contact + "_bias", value=v)


@op
def current(dev, contact, eq="UEq"):
    return devsim.get_contact_current(device=dev, contact=contact, equation=eq)


@op
def netlist(elements, nodes=()):
    for n in nodes:
        devsim.add_circuit_node(name=n)
    for e in elements:
        devsim.circuit_element(**e)


@op
def setnodes(dev, region, name, values):
    n = len(devsim.get_node_model_values(device=dev, region=region, name=name))
    devsim.set_node_values(device=dev, region=region, name=name, values=[values[i % len(values)] for i in range(n)])


def _even(name):
    return len(name) % 2 == 0


FILTERS = {"even": _even, "none": lambda n: n == "", "x": lambda n: n in ("", "x", "u", "F")}


@op
def write(file, typ=None, dev=None, filt=None):
    kw = {"file": file}
    if typ:
        kw["type"] = typ
    if dev:
        kw["device"] = dev
    if filt:
        f = FILTERS[filt]
        kw["include_test"] = lambda n: n == "" or bool(f(n))
    return devsim.write_devices(**kw)


@op
def load(file):
    return devsim.load_devices(file=file)


@op
def toy_reset(dev):
    for r in devsim.get_region_list(device=dev):
        for u in ("u", "v"):
            if u in devsim.get_node_model_list(device=dev, region=r):
                devsim.set_node_value(device=dev, region=r, name=u, value=0.0)


@op
def file_bytes(name):
    with open(name, "rb") as f:
        return f.read().hex()


@op
def noop():
    return None


@op
def text():
    return OUT.take()


# --------------------------------------------------------------------------
# snapshots
# --------------------------------------------------------------------------
HIDDEN = ("_prev",)


def listed(f, **kw):
    """Sorted names; things with an empty name cannot be asked about."""
    if "" in kw.values():
        return []
    return sorted(f(**kw))


def params(**kw):
    out = {}
    for n in listed(devsim.get_parameter_list, **kw):
        out[n] = guard(lambda: devsim.get_parameter(name=n, **kw))
    return out


def region_state(dev, reg, values=True):
    d = {"material": guard(lambda: devsim.get_material(device=dev, region=reg)),
         "params": params(device=dev, region=reg)}
    for k, lst, val in (("node", devsim.get_node_model_list, devsim.get_node_model_values),
                        ("edge", devsim.get_edge_model_list, devsim.get_edge_model_values),
                        ("element", devsim.get_element_model_list, devsim.get_element_model_values)):
        try:
            names = sorted(lst(device=dev, region=reg))
        except devsim.error as e:
            d[k] = ("err", str(e))
            continue
        m = {}
        for n in names:
            if n.endswith(HIDDEN):
                continue
            m[n] = guard(lambda: val(device=dev, region=reg, name=n)) if values else None
        d[k] = m
    d["elements"] = guard(lambda: devsim.get_element_node_list(device=dev, region=reg))
    d["equations"] = {n: guard(lambda: devsim.get_equation_command(device=dev, region=reg, name=n))
                      for n in listed(devsim.get_equation_list, device=dev, region=reg)}
    return d


def device_state(dev, values=True):
    d = {"dim": devsim.get_dimension(device=dev), "params": params(device=dev), "regions": {}, "contacts": {}, "interfaces": {}}
    for r in sorted(devsim.get_region_list(device=dev)):
        d["regions"][r] = region_state(dev, r, values)
    for c in sorted(devsim.get_contact_list(device=dev)):
        reg = norm(devsim.get_region_list(device=dev, contact=c)) if c else ('',)
        e = {"region": reg, "material": guard(lambda: devsim.get_material(device=dev, contact=c)),
             "nodes": guard(lambda: devsim.get_element_node_list(device=dev, region=reg[0], contact=c)), "equations": {}}
        for q in listed(devsim.get_contact_equation_list, device=dev, contact=c):
            e["equations"][q] = (guard(lambda: devsim.get_contact_equation_command(device=dev, contact=c, name=q)),
                                 guard(lambda: devsim.get_contact_current(device=dev, contact=c, equation=q)) if values else None,
                                 guard(lambda: devsim.get_contact_charge(device=dev, contact=c, equation=q)) if values else None)
        d["contacts"][c] = e
    for i in sorted(devsim.get_interface_list(device=dev)):
        reg = norm(devsim.get_region_list(device=dev, interface=i)) if i else ()
        d["interfaces"][i] = {
            "regions": reg,
            "models": {n: (guard(lambda: devsim.get_interface_model_values(device=dev, interface=i, name=n)) if values else None)
                       for n in listed(devsim.get_interface_model_list, device=dev, interface=i) if not n.endswith(HIDDEN)},
            "nodes": tuple(guard(lambda: devsim.get_element_node_list(device=dev, region=r, interface=i)) for r in reg),
            "equations": {n: guard(lambda: devsim.get_interface_equation_command(device=dev, interface=i, name=n))
                          for n in listed(devsim.get_interface_equation_list, device=dev, interface=i)}}
    return d


def circuit_state():
    sols = sorted(devsim.get_circuit_solution_list())
    d = {"nodes": norm(devsim.get_circuit_node_list()), "values": {}}
    for s in sols:
        if s.endswith(HIDDEN):
            continue
        d["values"][s] = {n: guard(lambda: devsim.get_circuit_node_value(solution=s, node=n)) for n in d["nodes"]}
    return d


def snapshot(what="all"):
    """what: all | values-less structure ("names") | one device ("dev:NAME")."""
    if what.startswith("dev:"):
        return device_state(what[4:])
    v = what != "names"
    d = {"devices": {x: device_state(x, v) for x in sorted(devsim.get_device_list())},
         "order": norm(devsim.get_device_list()),
         "params": params(), "meshes": tuple(sorted(devsim.get_mesh_list())), "circuit": circuit_state()}
    d["params"].pop("info", None)
    return d


def solution_state(dev=None):
    """Only the solution variables and circuit values."""
    d = {}
    for x in sorted(devsim.get_device_list()):
        if dev and x != dev:
            continue
        for r in sorted(devsim.get_region_list(device=x)):
            names = {devsim.get_equation_command(device=x, region=r, name=e)["variable_name"]
                     for e in devsim.get_equation_list(device=x, region=r)}
            for n in sorted(names):
                d["%s/%s/%s" % (x, r, n)] = norm(devsim.get_node_model_values(device=x, region=r, name=n))
    if not dev:
        c = circuit_state()
        d["circuit"] = c["values"]
    return d


# --------------------------------------------------------------------------
# comparison (used in the universe)
# --------------------------------------------------------------------------
def diff(a, b, path="", tol=None, out=None, limit=12):
    """Differences between two snapshots, as text."""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                out.append("%s/%s only in second" % (path, k))
            elif k not in b:
                out.append("%s/%s only in first" % (path, k))
            else:
                diff(a[k], b[k], "%s/%s" % (path, k), tol, out, limit)
        return out
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        if tol is not None and a and all(isinstance(x, float) for x in a) and all(isinstance(x, float) for x in b):
            sc = max([abs(x) for x in a if math.isfinite(x)] + [0.0])
            for i, (x, y) in enumerate(zip(a, b)):
                if repr(x) != repr(y) and not close(x, y, tol, sc):
                    out.append("%s[%d]: %r != %r" % (path, i, x, y))
                    break
            return out
        for i, (x, y) in enumerate(zip(a, b)):
            n = len(out)
            diff(x, y, "%s[%d]" % (path, i), tol, out, limit)
            if len(out) > n and isinstance(x, float):
                break
        return out
    if isinstance(a, float) and isinstance(b, float):
        if repr(a) != repr(b) and not (tol is not None and close(a, b, tol, abs(a))):
            out.append("%s: %r != %r" % (path, a, b))
        return out
    if a != b:
        out.append("%s: %.300r != %.300r" % (path, a, b))
    return out


def strip_currents(st):
    """A copy without contact currents and charges (they are those of the last solve)."""
    devices = st["devices"]
    st = dict(st, devices={})
    for d, x in devices.items():
        x = dict(x)
        x["contacts"] = {c: dict(y, equations={q: z[0] for q, z in y["equations"].items()}) for c, y in x["contacts"].items()}
        st["devices"][d] = x
    return st


def close(x, y, tol, scale):
    if math.isnan(x) and math.isnan(y):
        return True
    if not (math.isfinite(x) and math.isfinite(y)):
        return x == y
    return abs(x - y) <= tol * max(abs(x), abs(y), scale) + 1e-60
