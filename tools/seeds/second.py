import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mkseed import mkseed

mkseed("c02-last-device", "C02",
       [("src/math/Newton.cc", "        converged = converged && (devrerr < relLimit) && (devaerr < absLimit);", "        converged = (devrerr < relLimit) && (devaerr < absLimit);")],
       "two devices in the session, of which the first by name needs more iterations than the last",
       "only the errors of the last device decide whether the solve is converged: the solve returns normally while the first device is far from its solution",
       """
import sys, devsim, worlds
worlds.toy("a", dict(dim=1, nx=4, top=2.0, a=5.0))
worlds.toy("b", dict(dim=1, nx=4, g=0.0))
worlds.dc()
def values():
    return devsim.get_node_model_values(device="a", region="r0", name="u")
one = values()
worlds.dc()
two = values()
e = max(abs(x - y) for x, y in zip(one, two))
if e > 1e-8:
    sys.exit("a solve that returned normally was %g away from its solution" % e)
""")

mkseed("c03-volume-model", "C03",
       [("src/AutoEquation/ExprEquation.cc", '    << "\\" -volume_node1_model \\"" << volume_node1_model_\n    << "\\" -time', '    << "\\" -volume_node1_model \\"" << volume_node0_model_\n    << "\\" -time')],
       "an equation with element models for both nodes (volume_node0_model and volume_node1_model different), saved and loaded in a new process",
       "the restart file names the model of the first node for both nodes of an edge",
       """
import subprocess, sys, devsim, worlds
worlds.toy("d", dict(dim=2, nx=2, top=0.3))
B = dict(device="d", region="r0")
devsim.element_from_node_model(node_model="u", **B)
for i, c in ((0, 0.3), (1, 0.9)):
    devsim.element_model(name="V%d" % i, equation="%g*(1+u@en%d)" % (c, i), **B)
    for j in (0, 1, 2):
        devsim.element_model(name="V%d:u@en%d" % (i, j), equation="%g" % (c if i == j else 0), **B)
devsim.equation(name="UEq", variable_name="u", node_model="S", edge_model="F", volume_node0_model="V0", volume_node1_model="V1", **B)
devsim.write_devices(file="f", type="devsim")
code = '''
import devsim, worlds, sys
if len(sys.argv) > 1:
    devsim.load_devices(file="f")
    worlds.toy_params("d", dict(dim=2, nx=2, top=0.3))
    worlds.dc()
    print(list(devsim.get_node_model_values(device="d", region="r0", name="u")))
'''
worlds.dc()
want = devsim.get_node_model_values(device="d", region="r0", name="u")
r = subprocess.run([sys.executable, "-c", code, "x"], stdout=subprocess.PIPE, text=True)
got = eval(r.stdout.strip().split("\\n")[-1])
if max(abs(x - y) for x, y in zip(want, got)) > 1e-10:
    sys.exit("%r %r" % (want, got))
""")

mkseed("c07-join", "C07",
       [("src/models/ParallelOpEqual.cc", "  fpeFlag_        = FPECheck::combineFPEFlags(fpeFlag_, omp.fpeFlag_);", "  fpeFlag_        = omp.fpeFlag_;")],
       "several threads, and a floating point exception in a worker which is not the last one",
       "only the floating point exceptions of the last worker are seen, an overflow or invalid operation in another one goes unreported",
       """
import sys, devsim, worlds
def outcome(threads):
    worlds.toy("d", dict(dim=1, nx=8))
    B = dict(device="d", region="r0")
    devsim.set_parameter(name="threads_available", value=threads)
    devsim.set_parameter(name="threads_task_size", value=1)
    devsim.node_solution(name="p", **B)
    n = len(devsim.get_node_model_values(name="p", **B))
    devsim.set_node_values(name="p", values=[1e200 if i == 1 else 1.0 for i in range(n)], **B)
    res = []
    for i, e in enumerate(("p*p", "p*p*p", "p+p*p", "p*3*p")):
        devsim.node_model(name="q%d" % i, equation=e, **B)
        try:
            res.append(list(devsim.get_node_model_values(name="q%d" % i, **B)))
        except devsim.error as x:
            res.append("error")
    devsim.reset_devsim()
    return res
want = outcome(1)
assert "error" in want, want
for t in (2, 3, 4):
    got = outcome(t)
    if got != want:
        sys.exit("%d threads: %r instead of %r" % (t, got, want))
""")

mkseed("c08-init-from", "C08",
       [("src/commands/ModelCommands.cc", "    else if ((!initializer.empty()) && (!initializer_exists))\n    {", "    else if ((!initializer.empty()) && (!initializer_exists) && values.size() != values_expected)\n    {"),
        ("src/commands/ModelCommands.cc", "      setter(values);\n    }\n", "      setter(values);\n      if ((!initializer.empty()) && (!initializer_exists))\n      {\n        errorString += \"-init_from \" + initializer + \" does not exist\\n\";\n      }\n    }\n")],
       "set_node_values (or the edge or element command) with values of the right length together with an init_from that does not exist",
       "the command raises its error after it has set the values",
       """
import sys, devsim, worlds
worlds.toy("d", dict(dim=1, nx=4))
B = dict(device="d", region="r0")
was = devsim.get_node_model_values(name="u", **B)
try:
    devsim.set_node_values(name="u", values=[0.7] * len(was), init_from="nosuch", **B)
    sys.exit("accepted")
except devsim.error as e:
    print(e)
now = devsim.get_node_model_values(name="u", **B)
if list(now) != list(was):
    sys.exit("the rejected command changed the values: %r" % (now,))
""")

mkseed("c09-time-data", "C09",
       [("src/main/ResetAllData.cc", "    TimeData<double>::DestroyInstance();\n", "")],
       "a transient run, a reset, and a transient step without transient_dc in a device with as many equations",
       "charges and currents of the transient run before the reset are the history of the first step after it",
       """
import sys, devsim, worlds
def step():
    worlds.toy("d", dict(dim=1, nx=4, top=0.4))
    try:
        devsim.solve(type="transient_bdf1", tdelta=1.0, charge_error=1e10, absolute_error=1e-10, relative_error=1e-10, maximum_iterations=30)
    except devsim.error as e:
        return str(e)
    return worlds.solution_state()
want = step()
devsim.reset_devsim()
worlds.toy("d", dict(dim=1, nx=4, top=0.9))
devsim.solve(type="transient_dc", absolute_error=1e-10, relative_error=1e-10, maximum_iterations=30)
devsim.solve(type="transient_bdf1", tdelta=1.0, charge_error=1e10, absolute_error=1e-10, relative_error=1e-10, maximum_iterations=30)
devsim.reset_devsim()
got = step()
if got != want:
    sys.exit("after a reset: %r" % (got,))
""")

mkseed("c10-tetrahedra", "C10",
       [("src/Geometry/Tetrahedron.hh", "return x->GetIndex() < y->GetIndex();", "return x < y;")],
       "a 3d mesh in recycled memory, after another device was deleted",
       "the tetrahedra of an edge are ordered by their addresses instead of their index, sums over them round differently",
       """
import sys, devsim, worlds
P = dict(dim=3, nreg=1, ny=3)
def values(d):
    B = dict(device=d, region="r0")
    res = []
    devsim.edge_from_node_model(node_model="u", **B)
    for n in "xy":
        devsim.edge_from_node_model(node_model=n, **B)
    devsim.edge_model(name="E", equation="exp(x@n0*y@n1*3.7)*(x@n0+0.3*y@n1)", **B)
    devsim.element_from_edge_model(edge_model="E", **B)
    devsim.node_model(name="w", equation="exp(x*0.7+y*z)", **B)
    devsim.vector_gradient(node_model="w", calc_type="default", **B)
    for n in ("NodeVolume", "SurfaceArea", "w_gradx", "w_grady", "w_gradz"):
        res.append(list(devsim.get_node_model_values(name=n, **B)))
    for n in ("EdgeCouple", "EdgeNodeVolume"):
        res.append(list(devsim.get_edge_model_values(name=n, **B)))
    for n in ("E_x", "E_y", "E_z"):
        res.append(list(devsim.get_element_model_values(name=n, **B)))
    return res
worlds.toy("d0", P)
want = values("d0")
for i in range(1, 7):
    for j in range(i):
        worlds.toy("t%d" % j, dict(dim=3, nreg=1 + j % 2, ny=2 + (i + j) % 3))
    for j in range(i):
        devsim.delete_device(device="t%d" % j)
        devsim.delete_mesh(mesh="m_t%d" % j)
    worlds.toy("d%d" % i, P)
    got = values("d%d" % i)
    if got != want:
        sys.exit("the same device gives other values after others were deleted")
""")

mkseed("c11-projection", "C11",
       [("src/math/Newton.cc", "      converged = converged && CheckTransientProjection(timeinfo, newQ, ohm);", "      converged = CheckTransientProjection(timeinfo, newQ, ohm);")],
       "a transient step that reaches the iteration limit before it is converged, while the projection error is within its limit",
       "the step is accepted and becomes history although it is no solution of the integration formula",
       """
import sys, devsim, worlds
worlds.toy("d", dict(dim=1, nx=4, top=0.4, a=4.0))
devsim.solve(type="transient_dc", absolute_error=1e-10, relative_error=1e-10, maximum_iterations=40)
worlds.bias("d", "top", 1.9)
kw = dict(type="transient_bdf1", tdelta=1.0, charge_error=1e10, absolute_error=1e-10, relative_error=1e-10)
was = worlds.solution_state()
try:
    devsim.solve(maximum_iterations=2, **kw)
except devsim.error as e:
    print(e)
    if worlds.solution_state() != was:
        sys.exit("the rejected step left a trace")
    sys.exit(0)
sys.exit("a step that did not converge was accepted")
""")

mkseed("c12-floating-capacitor", "C12",
       [("src/Circuit/models/ideal/IdealCapacitor.cc", "      if (!is_gnd_node_vtop)\n         mat->push_back(dsMath::RealRowColVal<double>(node_num_vbot,node_num_vtop, evbot_vtop));\n", "")],
       "a small signal analysis (or transient step) with a capacitor of which no terminal is the ground node",
       "one of the four matrix entries of a floating capacitor is missing, the small signal solution violates the current law",
       """
import sys, devsim, math
devsim.circuit_element(name="V1", n1="s", n2="0", value=0.0, acreal=1.0)
devsim.circuit_element(name="R1", n1="s", n2="a", value=2.0)
devsim.circuit_element(name="C1", n1="a", n2="b", value=0.5)
devsim.circuit_element(name="R2", n1="b", n2="0", value=3.0)
devsim.solve(type="dc", absolute_error=1e-10, relative_error=1e-10, maximum_iterations=20)
f = 0.2
devsim.solve(type="ac", frequency=f)
v = {n: complex(devsim.get_circuit_node_value(node=n, solution="ssac_real"), devsim.get_circuit_node_value(node=n, solution="ssac_imag")) for n in "sab"}
ic = (v["a"] - v["b"]) * 2j * math.pi * f * 0.5
if abs(ic - v["b"] / 3.0) > 1e-9 or abs(ic - (v["s"] - v["a"]) / 2.0) > 1e-9:
    sys.exit("the currents do not add up: %r" % v)
""")

mkseed("c13-factor-status", "C13",
       [("src/math/ExternalPreconditioner.cc", "      error_string += message;\n      dsAssert(status, error_string);", "      error_string += message;\n      if (!status)\n      {\n        OutputStream::WriteOut(OutputStream::OutputType::INFO, error_string.c_str());\n      }", 0)],
       "a user supplied solver which reports a failure (status False) when it factors the matrix, and goes on with its last factors",
       "the failure is only printed, the solve goes on with the solution for another matrix and is reported as a success",
       """
import sys, devsim, worlds, cbs
worlds.toy("d", dict(dim=1, nx=4, top=0.3))
cbs.use_solver()
n = [0]
def solver(**kw):
    if kw["action"] == "factor":
        n[0] += 1
        if n[0] > 2:
            return {"status": False, "message": "no more factors"}
    return cbs.solver(**kw)
devsim.set_parameter(name="solver_callback", value=solver)
try:
    worlds.dc()
except devsim.error as e:
    print(e)
    sys.exit(0)
sys.exit("the failure of the solver was not reported")
""")

mkseed("c14-overshoot", "C14",
       [("python_packages/ramp.py", "        if next_step_sign != step_sign:", "        if next_step_sign != step_sign and abs(next_bias - end_bias) > min_step:")],
       "a last step which passes the target by less than the minimum step",
       "the ramp goes past its target and ends there",
       """
import sys, devsim, worlds
from devsim.python_packages.ramp import rampbias
worlds.toy("d", dict(dim=1, nx=4))
worlds.dc()
seen = []
def cb(device):
    seen.append(devsim.get_parameter(device="d", name="top_bias"))
rampbias("d", "top", 1.0, 0.35, 0.1, 30, 1e-8, 1e10, cb)
if not seen or max(seen) > 1.0:
    sys.exit("biases %r for a ramp to 1.0" % seen)
""")

mkseed("c15-params", "C15",
       [("src/Data/GlobalData.cc", "    if (auto it = regionData.find(nm); it != regionData.end())\n    {\n      regionData.erase(it);\n    }\n", "    if (auto it = regionData.find(nm); it != regionData.end() && deviceData.count(nm))\n    {\n      regionData.erase(it);\n    }\n")],
       "a device with parameters on its regions is deleted and its name is used again",
       "the parameters of the regions of a deleted device are those of the new device of that name, as the entry of the device is looked up after it was erased",
       """
import sys, devsim, worlds
worlds.toy("d", dict(dim=1, nx=4))
devsim.delete_device(device="d")
devsim.delete_mesh(mesh="m_d")
worlds.toy_mesh("d", dict(dim=1, nx=4))
if "kv" in devsim.get_parameter_list(device="d", region="r0"):
    sys.exit("parameters of the deleted device: %r" % (devsim.get_parameter_list(device="d", region="r0"),))
""")

mkseed("c16-fe-nodes", "C16",
       [("src/Geometry/Triangle.cc", "  fe_nodes.resize(3);\n  for (size_t i = 0; i < 3; ++i)\n  {\n    fe_nodes[i] = nodes[i];\n  }", "  for (size_t i = 0; i < 3; ++i)\n  {\n    fe_nodes.push_back(nodes[i]);\n  }")],
       "memory runs out (once) while the node order of a triangle is computed for a tecplot file in 2d; the command is then repeated",
       "the list of nodes stays filled in part, is taken as complete from then on, and the triangle is written with too few nodes",
       """
import ctypes, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
so = os.path.abspath("failnew.so")
if "LD_PRELOAD" not in os.environ:
    open("failnew.cc", "w").write('''
#include <cstdlib>
#include <new>
extern "C" { long fail_at = -1; long seen = 0; size_t fail_lo = 0, fail_hi = 0; }
void *operator new(size_t n)
{
  if (fail_at >= 0 && n >= fail_lo && n <= fail_hi) { if (seen++ == fail_at) throw std::bad_alloc(); }
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
''')
    subprocess.check_call(["g++", "-shared", "-fPIC", "-O1", "-o", so, "failnew.cc"])
    r = subprocess.run([sys.executable, "-B", os.path.abspath(__file__)], env=dict(os.environ, LD_PRELOAD=so))
    sys.exit(0 if r.returncode == 0 else "failed: %d" % r.returncode)
import devsim, worlds
lib = ctypes.CDLL(so)
at, seen = ctypes.c_long.in_dll(lib, "fail_at"), ctypes.c_long.in_dll(lib, "seen")
lo, hi = ctypes.c_size_t.in_dll(lib, "fail_lo"), ctypes.c_size_t.in_dll(lib, "fail_hi")
def build(d):
    worlds.toy(d, dict(dim=2, nx=1, ny=1))
    B = dict(device=d, region="r0")
    for n in "xy":
        devsim.edge_from_node_model(node_model=n, **B)
    devsim.edge_model(name="E", equation="x@n0+2*y@n1", **B)
def read(d):
    B = dict(device=d, region="r0")
    devsim.write_devices(file="out.tec", type="tecplot", device=d)
    return [l for l in open("out.tec").read().replace(d, "").split("\\n") if l]
build("w")
want = read("w")
lo.value, hi.value = 8, 32
k = 0
while True:
    d = "d%d" % k
    build(d)
    seen.value, at.value = 0, k
    try:
        read(d)
    except (devsim.error, MemoryError) as e:
        pass
    fired = seen.value > k
    at.value = -1
    got = read(d)
    if got != want:
        sys.exit("after running out of memory at %d other values are read" % k)
    devsim.delete_device(device=d)
    devsim.delete_mesh(mesh="m_" + d)
    k += 1 if k < 40 else 7
    if not fired or k > 3000:
        break
print(k)
""")
