#!/usr/bin/env python3
"""Builds the simulated devsim from /repo's working tree.

/repo is mirrored by content (not by time) into /verif/.build/<variant>/src and
built there with the repository's own CMake files, so that a change of any
source is seen and /repo is left as it is.  What is missing from this checkout
(symdiff, BLAS/LAPACK, PARDISO) comes from /verif/standins.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
BUILD = os.environ.get("DST_BUILD", os.path.join(VERIF, ".build"))
STAND = os.path.join(VERIF, "standins")
ENV = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           CC="gcc", CXX="g++", FC="gfortran", LC_ALL="C")
for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD", "MAKEFLAGS"):
    ENV.pop(k, None)
JOBS = str(os.cpu_count() or 4)

MIRROR = ["CMakeLists.txt", "cmake", "src", "testing", "external/getrf", "python_packages", "umfpack", "dist/__init__.py"]

VARIANTS = {
    # the shipped code, compiled with less optimisation for the sake of build time
    "plain": "-O1 -g1",
    # every memory access of the code is a scheduling point of the simulator
    "sched": "-O1 -g1 -fsanitize=thread",
}


class BuildError(Exception):
    pass


def run(cmd, log, cwd=None, stdin=None):
    with open(log, "ab") as f:
        f.write(("\n$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=f, stderr=subprocess.STDOUT, stdin=stdin)
    if r.returncode != 0:
        tail = open(log, "rb").read()[-6000:].decode("utf-8", "replace")
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), tail))


def digest(path):
    return hashlib.sha256(open(path, "rb").read()).hexdigest()


def sync(src, dst):
    """Makes dst equal to src by content; files that do not differ keep their times."""
    want = set()
    for top in MIRROR:
        p = os.path.join(src, top)
        if os.path.isfile(p):
            want.add(top)
            continue
        for d, dirs, files in os.walk(p):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "__pycache__"))
            for f in files:
                full = os.path.join(d, f)
                if os.path.isfile(full):
                    want.add(os.path.relpath(full, src))
    changed = 0
    for rel in sorted(want):
        s, d = os.path.join(src, rel), os.path.join(dst, rel)
        data = open(s, "rb").read()
        try:
            if open(d, "rb").read() == data:
                continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(d), exist_ok=True)
        with open(d, "wb") as f:
            f.write(data)
        changed += 1
    for d, dirs, files in os.walk(dst):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), dst)
            if rel not in want:
                os.unlink(os.path.join(d, f))
                changed += 1
    return changed


def ideal_models(src, cm, log):
    """The three circuit models are generated by the repository's model compiler
    and also committed.  Where the compiler or a model description changed what
    is generated, take that; otherwise take the committed files as they are."""
    run(["ninja", "-j", JOBS, "-C", cm, "modelcomp"], log)
    d = os.path.join(src, "src/Circuit/models/ideal")
    gen = cm + "/gen"
    shutil.rmtree(gen, ignore_errors=True)
    os.makedirs(gen)
    base = {}
    for line in open(os.path.join(STAND, "ideal_models.sha256")):
        h, n = line.split()
        base[n] = h
    out = {}
    for m in ("IdealCapacitor", "IdealInductor", "IdealResistor"):
        if not os.path.exists(os.path.join(d, m + ".mc")):
            continue
        with open(os.path.join(d, m + ".mc"), "rb") as f:
            try:
                run([os.path.join(cm, "src/adiff/modelcomp")], log, cwd=gen, stdin=f)
            except BuildError:
                continue
        for e in (".cc", ".hh"):
            p = os.path.join(gen, m + e)
            if os.path.exists(p) and digest(p) != base.get(m + e):
                out[os.path.join(d, m + e)] = open(p, "rb").read()
    for p, data in out.items():
        if open(p, "rb").read() != data:
            open(p, "wb").write(data)


def standin(out, srcs, flags, log):
    """Compiles a library of ours when the content it depends on changed."""
    h = hashlib.sha256(repr(flags).encode())
    for s in srcs:
        dd = os.path.dirname(s)
        for f in sorted(os.listdir(dd)):
            if f.endswith((".cc", ".c", ".hh", ".h")):
                h.update(open(os.path.join(dd, f), "rb").read())
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    if out.endswith(".a"):
        objs = []
        for s in srcs:
            o = out + "." + os.path.basename(s) + ".o"
            run(["g++"] + flags + ["-fPIC", "-c", s, "-o", o], log)
            objs.append(o)
        if os.path.exists(out):
            os.unlink(out)
        run(["ar", "rcs", out] + objs, log)
    else:
        run(["g++"] + flags + ["-fPIC", "-shared", "-o", out] + srcs + ["-ldl", "-lpthread"], log)
    open(stamp, "w").write(h.hexdigest())


def build(variant="plain"):
    """Returns the directory that holds devsim_py3.so, libsimmath.so, ..."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock." + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variant)


def _build(variant):
    B = os.path.join(BUILD, variant)
    src, cm, gf, out = (os.path.join(B, x) for x in ("src", "cm", "getrf", "out"))
    os.makedirs(out, exist_ok=True)
    log = os.path.join(B, "build.log")
    open(log, "w").close()
    sync(REPO, src)
    cxx = "-Wall -fvisibility=hidden " + VARIANTS[variant]

    symdiff = os.path.join(B, "libsymdiff_dynamic.a")
    standin(symdiff, [os.path.join(STAND, "symdiff/symdiff.cc")], ["-std=c++17"] + VARIANTS[variant].split(), log)
    standin(os.path.join(out, "libsimmath.so"), [os.path.join(STAND, "math/mathlib.cc")],
            ["-std=c++17", "-O2", "-fvisibility=hidden"], log)
    if os.path.isdir(os.path.join(VERIF, "dst/sim")):
        standin(os.path.join(out, "libsim.so"), [os.path.join(VERIF, "dst/sim/sim.cc")],
                ["-std=c++17", "-O2", "-fvisibility=hidden", "-Wall"], log)

    if not os.path.exists(os.path.join(gf, "build.ninja")):
        run(["cmake", "-S", os.path.join(src, "external/getrf"), "-B", gf, "-G", "Ninja",
             "-DCMAKE_BUILD_TYPE=RELEASE",
             "-DCMAKE_Fortran_FLAGS=-freal-8-real-16 -ffixed-line-length-0 -fPIC"], log)
    run(["ninja", "-j", JOBS, "-C", gf, "getrf"], log)

    link = "-Wl,--no-undefined-version"
    if variant == "sched":
        # no libtsan: the __tsan_* entry points come from libsim.so at run time
        link = "-fno-sanitize=thread -Wl,--unresolved-symbols=ignore-all"
    conf = ["cmake", "-S", src, "-B", cm, "-G", "Ninja",
            "-DCMAKE_BUILD_TYPE=release", "-DCMAKE_CXX_FLAGS=" + cxx,
            "-DCMAKE_CXX_FLAGS_RELEASE=-DNDEBUG",
            # makes CMake take the circuit models as they are in the tree
            "-DCMAKE_SYSTEM_NAME=Linux",
            "-DCMAKE_SHARED_LINKER_FLAGS=" + link,
            "-DCMAKE_POSITION_INDEPENDENT_CODE=ON",
            "-DDEVSIM_EXTENDED_PRECISION=ON", "-DMKL_PARDISO=ON", "-DPYTHON3=ON",
            "-DPYTHON3_INCLUDE=/usr/include/python3.12",
            "-DFLEX=/usr/bin/flex", "-DBISON=/usr/bin/bison",
            "-DBOOST_INCLUDE=/usr/include", "-DQUADMATH_ARCHIVE=-lquadmath",
            "-DEXTENDED_BLAS_ARCHIVE=" + os.path.join(gf, "libgetrf.a"),
            "-DSYMDIFF_INCLUDE=" + os.path.join(STAND, "symdiff"),
            "-DSYMDIFF_ARCHIVE=" + symdiff]
    key = hashlib.sha256(repr(conf).encode()).hexdigest()
    stamp = os.path.join(B, "conf.stamp")
    if not (os.path.exists(os.path.join(cm, "build.ninja")) and os.path.exists(stamp) and open(stamp).read() == key):
        shutil.rmtree(cm, ignore_errors=True)
        run(conf, log)
        open(stamp, "w").write(key)
    ideal_models(src, cm, log)
    run(["ninja", "-j", JOBS, "-C", cm, "devsim_py3"], log)
    so = None
    for d, _, files in os.walk(os.path.join(cm, "src/main")):
        if "devsim_py3.so" in files:
            so = os.path.join(d, "devsim_py3.so")
    if so is None:
        raise BuildError("devsim_py3.so was not built")
    # the package directory that the distribution scripts put together
    pkg = os.path.join(out, "pkg/devsim")
    os.makedirs(pkg, exist_ok=True)
    shutil.copy(os.path.join(src, "dist/__init__.py"), pkg)
    for d in ("python_packages", "umfpack"):
        if os.path.isdir(os.path.join(src, d)):
            shutil.rmtree(os.path.join(pkg, d), ignore_errors=True)
            shutil.copytree(os.path.join(src, d), os.path.join(pkg, d))
    dst = os.path.join(pkg, "devsim_py3.so")
    if not os.path.exists(dst) or digest(dst) != digest(so):
        tmp = dst + ".new"
        shutil.copy(so, tmp)
        os.rename(tmp, dst)
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        try:
            print(build(v))
        except BuildError as e:
            print(e)
            sys.exit(2)
