"""Links the module from the objects and archives that build.sh made in the current
directory's _build, compiling what build.sh leaves out: mk.py OUT"""
import os, re, shlex, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
repo, here, out = os.getcwd(), os.path.dirname(os.path.abspath(__file__)), os.path.abspath(sys.argv[1])
B = os.path.join(repo, "_build/devsim")
obj = os.path.join(out, "obj")
os.makedirs(obj)
pkg = os.path.join(out, "pkg/devsim")
os.makedirs(pkg)
env = dict(os.environ, LC_ALL="C")


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(" ".join(cmd)[:600] + "\n" + r.stdout.decode(errors="replace")[-4000:])
        sys.exit(99)
    return r.stdout.decode()


lines = sh(["ninja", "-C", B, "-t", "commands", "devsim_py3"]).splitlines()
comp, arch, link = {}, {}, None
for l in lines:
    m = re.search(r" -o (\S+\.o) -c (\S+)", l)
    if m:
        a = shlex.split(l)
        comp[m.group(1)] = (a, m.group(2))
    elif "/ar qc " in l:
        m = re.search(r"ar qc (\S+\.a)((?: +\S+\.o)+)", l)
        arch[m.group(1)] = m.group(2).split()
    elif "-o src/main/devsim_py3.so" in l:
        link = shlex.split(l.split("&&")[1])
S = os.path.join(here, "standins")
jobs, new = [], {}


def need(o):
    if o in new or os.path.exists(os.path.join(B, o)):
        return new.get(o, o)
    a, src = comp[o]
    n = os.path.join(obj, o.replace("/", "_"))
    new[o] = n
    inc = [x for x in a if x.startswith(("-D", "-I", "-std", "-f"))]
    jobs.append(["g++"] + inc + ["-I" + os.path.join(S, "symdiff"), "-O1", "-DNDEBUG", "-w", "-c", src, "-o", n])
    return n


final = []
for x in link:
    if x.endswith(".o"):
        x = need(x)
    elif x.endswith(".a") and not os.path.exists(os.path.join(B, x)):
        final += [need(o) for o in arch[x]]
        continue
    elif x == "src/main/devsim_py3.so":
        x = os.path.join(pkg, "devsim_py3.so")
    final.append(x)
sd = os.path.join(obj, "symdiff.o")
jobs.append(["g++", "-std=c++17", "-O1", "-fPIC", "-w", "-c", os.path.join(S, "symdiff/symdiff.cc"), "-o", sd])
jobs.append(["g++", "-std=c++17", "-O2", "-fvisibility=hidden", "-fPIC", "-shared", "-w", "-o", os.path.join(out, "libsimmath.so"),
             os.path.join(S, "math/mathlib.cc"), "-ldl", "-lpthread"])
with ThreadPoolExecutor(8) as ex:
    list(ex.map(lambda c: sh(c, B), jobs))
# the archives refer to one another
i = min(k for k, x in enumerate(final) if x.endswith(".a"))
final = final[:i] + ["-Wl,--start-group"] + final[i:] + [sd, "-Wl,--end-group"]
sh(final, B)
shutil.copy(os.path.join(repo, "dist/__init__.py"), pkg)
for d in ("python_packages", "umfpack"):
    if os.path.isdir(os.path.join(repo, d)):
        shutil.copytree(os.path.join(repo, d), os.path.join(pkg, d))
