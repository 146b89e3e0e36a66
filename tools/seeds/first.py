import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mkseed import mkseed

mkseed("c01-divergence", "C01",
       [("src/math/Newton.cc", "  if (!converged)\n  {\n    RestoreSolutions();", "  if (!converged && (divergence_count < maxDivergenceCount))\n  {\n    RestoreSolutions();")],
       "a solve that is given up because the error grew for maximum_divergence iterations in a row",
       "the solution is not brought back when the solve ends through the divergence limit, since the branch of the iteration limit is taken only when the loop was not left for divergence",
       """
import sys, devsim, worlds
P = dict(dim=1, nx=4, top=0.2)
worlds.toy("d", P)
worlds.dc()
worlds.bias("d", "top", 0.8)
devsim.set_parameter(device="d", region="r0", name="a", value=40.0)
devsim.set_parameter(device="d", region="r0", name="g", value=90.0)
was = worlds.solution_state()
try:
    r = worlds.dc(dict(maximum_divergence=1, relative_error=1e-25, absolute_error=1e-25, maximum_iterations=30))
    sys.exit("the solve did not fail: %r" % (r,))
except devsim.error as e:
    print(e)
now = worlds.solution_state()
if now != was:
    sys.exit("the solution changed: %r %r" % (was, now))
""")

mkseed("c04-vtk-all", "C04",
       [("src/meshing/VTKWriter.cc", "            ret = VTK::WriteSingleDevice(dname, filename, include_test, errorString);", "            VTK::WriteSingleDevice(dname, filename, include_test, errorString);")],
       "a write error (full disk) while all devices are written in the vtk format, without naming a device",
       "the status of the writer of the only device is dropped, the command returns normally with an incomplete file",
       """
import os, sys, devsim, worlds
worlds.toy("d", dict(dim=2, nx=2, ny=2))
worlds.dc()
devsim.write_devices(file="good", type="vtk")
os.symlink("/dev/full", "bad_0.vtu")
for kw in ({"device": "d"}, {}):
    try:
        devsim.write_devices(file="bad", type="vtk", **kw)
    except devsim.error as e:
        print("reported:", str(e)[:80])
        continue
    sys.exit("a full disk was not reported for %r" % kw)
""")

mkseed("c05-contact-bound", "C05",
       [("src/meshing/DevsimLoader.cc", "        if (index < nl.size())\n        {\n          cnl.push_back(nl[index]);", "        if (index <= nl.size())\n        {\n          cnl.push_back(nl[index]);")],
       "a damaged file whose contact refers to the node one past the last node of its region",
       "the bounds check of contact nodes is off by one: the load succeeds with a contact node read from beyond the list",
       """
import subprocess, sys, devsim, worlds
worlds.toy("d", dict(dim=1, nx=4))
devsim.write_devices(file="good.devsim", device="d")
L = open("good.devsim").read().split("\\n")
n = len(devsim.get_node_model_values(device="d", region="r0", name="x"))
out, inc, hit = [], False, 0
for l in L:
    if l.startswith("begin_contact"):
        inc = True
    if l.startswith("end_contact"):
        inc = False
    if inc and l.strip().isdigit() and not hit:
        l, hit = str(n), 1
    out.append(l)
assert hit
open("bad.devsim", "w").write("\\n".join(out))
code = '''
import sys, devsim
try:
    devsim.load_devices(file="bad.devsim")
except devsim.error as e:
    print("reported", str(e)[:100])
    sys.exit(0)
for c in devsim.get_contact_list(device="d"):
    print(c, devsim.get_element_node_list(device="d", region="r0", contact=c))
sys.exit(7)
'''
r = subprocess.run([sys.executable, "-c", code])
if r.returncode:
    sys.exit("a contact node that does not exist was loaded: %d" % r.returncode)
""")

mkseed("c06-gradient-derivative", "C06",
       [("src/models/TriangleEdgeFromEdgeModelDerivative.cc", "  RegisterCallback(edgeModelName1);\n", "")],
       "derivatives of an element edge model in 2D, read before and after a change that only the derivative at the second node depends on",
       "the element edge derivative models do not depend on the derivative of the edge model at the second node",
       """
import sys, devsim, worlds
worlds.toy("d", dict(dim=2, nx=2, ny=2))
B = dict(device="d", region="r0")
devsim.set_parameter(name="w0", value=1.0, **B)
devsim.set_parameter(name="w1", value=1.0, **B)
devsim.edge_model(name="H", equation="w0*u@n0 - w1*u@n1", **B)
devsim.edge_model(name="H:u@n0", equation="w0", **B)
devsim.edge_model(name="H:u@n1", equation="-w1", **B)
devsim.element_from_edge_model(edge_model="H", derivative="u", **B)
N = ["H_%s:u@en%d" % (c, i) for c in "xy" for i in range(3)]
def read():
    return [list(devsim.get_element_model_values(name=n, **B)) for n in N]
for p, v in (("w0", 2.0), ("w1", 5.0), ("w0", 3.0)):
    read()
    devsim.set_parameter(name=p, value=v, **B)
    got = read()
    devsim.edge_model(name="H:u@n0", equation="w0", **B)
    devsim.edge_model(name="H:u@n1", equation="-w1", **B)
    devsim.element_from_edge_model(edge_model="H", derivative="u", **B)
    want = read()
    if got != want:
        sys.exit("stale after %s" % p)
""")
