"""The simulator core: universes, sessions, faults, logs, violations.

A *zygote* (one per worker) is a Python process with libsim.so preloaded that
has imported devsim once and done nothing else.  A run forks a *universe* from
it; the universe forks *sessions*, each of which is one node: a process with a
pristine devsim in it.  The universe decides, from the plan of the run only,
which session does what and which fault is injected where.  All of them work
in a scratch directory of the run, with relative file names under io/.
"""
import ctypes
import hashlib
import json
import os
import re
import pickle
import random
import resource
import signal
import struct
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))

OPS = {"openw": 0, "openr": 1, "write": 2, "close": 3, "read": 4}
KINDS = {"err": 1, "errfrom": 2, "short": 3, "full": 4, "crash": 5}
EXIT_CRASH = 77


class Violation(Exception):
    def __init__(self, kind, msg, key=None):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.key = key or kind


class SessionDied(Exception):
    """The process of a session ended although nobody asked it to."""

    def __init__(self, name, how, detail):
        Exception.__init__(self, "session %s died: %s %s" % (name, how, detail))
        self.name, self.how, self.detail = name, how, detail


class SimCrash(Exception):
    """A scheduled crash happened."""


class Harness(Exception):
    pass


# --------------------------------------------------------------------------
# seams (inside sessions)
# --------------------------------------------------------------------------
ADDRESS = re.compile(r" at 0x[0-9a-f]+")  # of a python object
_sim = None
_math = None


def sim():
    global _sim
    if _sim is None:
        lib = ctypes.CDLL(os.path.join(os.environ["DST_OUT"], "libsim.so"))
        lib.sim_layout.argtypes = [ctypes.c_uint64]
        lib.sim_clock.argtypes = [ctypes.c_uint64]
        lib.sim_stack_junk.argtypes = [ctypes.c_int, ctypes.c_long]
        lib.sim_alloc_limit.argtypes = [ctypes.c_uint64]
        lib.sim_alloc_peak.restype = ctypes.c_uint64
        lib.sim_alloc_arm.argtypes = [ctypes.c_long, ctypes.c_long]
        lib.sim_alloc_disarm.restype = ctypes.c_long
        lib.sim_alloc_disarm.argtypes = [ctypes.POINTER(ctypes.c_long)]
        lib.sim_heap_live.restype = ctypes.c_long
        lib.sim_io_root.argtypes = [ctypes.c_char_p]
        lib.sim_io_fault.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_int]
        lib.sim_io_fired.restype = ctypes.c_long
        lib.sim_io_counts.argtypes = [ctypes.POINTER(ctypes.c_long)] * 2
        lib.sim_thread_on.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_long]
        lib.sim_thread_fail.argtypes = [ctypes.c_long, ctypes.c_long]
        lib.sim_thread_replay.argtypes = [ctypes.POINTER(ctypes.c_long), ctypes.POINTER(ctypes.c_int), ctypes.c_int]
        lib.sim_thread_decisions.argtypes = [ctypes.POINTER(ctypes.c_long), ctypes.POINTER(ctypes.c_int), ctypes.c_int]
        lib.sim_thread_stats.argtypes = [ctypes.POINTER(ctypes.c_long)]
        lib.sim_race.argtypes = [ctypes.c_int, ctypes.POINTER(ctypes.c_uint64), ctypes.POINTER(ctypes.c_uint64), ctypes.POINTER(ctypes.c_int)]
        _sim = lib
    return _sim


def mathlib():
    global _math
    if _math is None:
        _math = ctypes.CDLL(os.path.join(os.environ["DST_OUT"], "libsimmath.so"))
        _math.sim_math_counts.argtypes = [ctypes.POINTER(ctypes.c_long)]
        _math.sim_math_set_fault.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_long]
    return _math


def io_arm(faults):
    """faults: list of {op, kind, at, arg, err}."""
    s = sim()
    s.sim_io_clear()
    for f in faults:
        s.sim_io_fault(OPS[f["op"]], KINDS[f["kind"]], f.get("at", 0), f.get("arg", 0), f.get("err", 28))


def io_disarm():
    """Returns (fired per fault index, calls, bytes)."""
    s = sim()
    c = (ctypes.c_long * 5)()
    b = (ctypes.c_long * 5)()
    s.sim_io_counts(c, b)
    fired = [s.sim_io_fired(i) for i in range(16)]
    s.sim_io_clear()
    return fired, list(c), list(b)


def io_counts():
    s = sim()
    c = (ctypes.c_long * 5)()
    b = (ctypes.c_long * 5)()
    s.sim_io_counts(c, b)
    return list(c), list(b)


def alloc_arm(at, n):
    sim().sim_alloc_arm(at, n)


def alloc_limit(nbytes):
    """No more than that on top of what is in use now."""
    sim().sim_alloc_limit(nbytes)


def alloc_disarm():
    f = ctypes.c_long(0)
    n = sim().sim_alloc_disarm(ctypes.byref(f))
    return n, f.value


def math_fault(which, kind, countdown):
    mathlib().sim_math_set_fault(which, kind, countdown)


def math_reset():
    mathlib().sim_math_reset()


def math_counts():
    c = (ctypes.c_long * 4)()
    mathlib().sim_math_counts(c)
    return list(c)


def thread_stats():
    o = (ctypes.c_long * 10)()
    sim().sim_thread_stats(o)
    return dict(zip(("created", "yields", "switches", "maxlive", "nraces", "create_failed", "alive",
                     "trace", "naccess", "create_calls"), list(o)))


# --------------------------------------------------------------------------
# sessions
# --------------------------------------------------------------------------
def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    v = memoryview(data)
    while v:
        n = os.write(fd, v)
        v = v[n:]


def _recv(fd):
    buf = b""
    while len(buf) < 8:
        d = os.read(fd, 8 - len(buf))
        if not d:
            return None
        buf += d
    n = struct.unpack("<Q", buf)[0]
    out = bytearray()
    while len(out) < n:
        d = os.read(fd, min(1 << 20, n - len(out)))
        if not d:
            return None
        out += d
    return bytes(out)


class Out:
    """Stands in for sys.stdout inside a session."""

    def __init__(self):
        self.parts = []
        self.fault = None

    def write(self, s):
        if self.fault is not None:
            self.fault(s)
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def take(self):
        s = "".join(self.parts)
        self.parts = []
        return s


def _session_main(rfd, wfd, ffd, layout, cpu):
    s = sim()
    s.sim_fatal_fd(ffd)
    s.sim_io_root(b"io/")
    s.sim_layout(layout)
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    dn = os.open("/dev/null", os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    if not os.environ.get("DST_DEBUG"):
        os.dup2(dn, 2)
    else:
        s.sim_debug()
    out = Out()
    sys.stdout = out
    import worlds
    worlds.OUT = out
    while True:
        m = _recv(rfd)
        if m is None:
            os._exit(0)
        mod, fn, args = pickle.loads(m)
        try:
            f = getattr(sys.modules[mod], fn)
            r = ("ok", f(*args))
        except BaseException as e:  # noqa
            r = ("exc", type(e).__module__ + "." + type(e).__name__, str(e), traceback.format_exc())
        try:
            d = pickle.dumps(r)
        except Exception as e:
            d = pickle.dumps(("exc", "harness.pickle", str(e), ""))
        _send(wfd, d)


class Session:
    def __init__(self, ctx, name, layout=0, cpu=150):
        self.ctx, self.name = ctx, name
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        r3, w3 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                os.close(r3)
                for o in ctx.sessions:
                    o._close_fds()
                _session_main(r1, w2, w3, layout, cpu)
            finally:
                os._exit(91)
        os.close(r1)
        os.close(w2)
        os.close(w3)
        self.pid, self.w, self.r, self.f = pid, w1, r2, r3
        self.alive = True
        ctx.sessions.append(self)
        ctx.log("session", name, layout)

    def _close_fds(self):
        if self.alive:
            for fd in (self.w, self.r, self.f):
                try:
                    os.close(fd)
                except OSError:
                    pass

    def call(self, fn, *args):
        """Calls a module level function inside the session."""
        if not self.alive:
            raise Harness("session %s is gone" % self.name)
        self.ctx.steps += 1
        try:
            _send(self.w, pickle.dumps((fn.__module__, fn.__name__, args)))
            d = _recv(self.r)
        except BrokenPipeError:
            d = None
        if d is None:
            self._reap()
        r = pickle.loads(d)
        if r[0] == "exc" and r[1].endswith("devsim_py3.error"):
            # only what can always be read is read this way
            raise Violation("unreadable", "in session %s: %s\n%s" % (self.name, r[2], r[3]))
        if r[0] == "exc":
            raise Harness("in session %s: %s %s\n%s" % (self.name, r[1], r[2], r[3]))
        return r[1]

    def _reap(self):
        why = b""
        while True:
            d = os.read(self.f, 65536)
            if not d:
                break
            why += d
        _, st = os.waitpid(self.pid, 0)
        self._close_fds()
        self.alive = False
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == EXIT_CRASH:
            self.ctx.log("crash", self.name)
            raise SimCrash(self.name)
        if os.WIFEXITED(st):
            how = "exit %d" % os.WEXITSTATUS(st)
        else:
            how = "signal %s" % signal.Signals(os.WTERMSIG(st)).name
            if os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
                how = "hang"
        detail = why.decode("utf-8", "replace")
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) in (90, 91):
            raise Harness("session %s: %s %s" % (self.name, how, detail))
        try:
            how = json.loads(detail)["kind"]
            detail = json.loads(detail)["msg"]
        except (ValueError, KeyError):
            pass
        self.ctx.log("died", self.name, how, detail)
        raise SessionDied(self.name, how, detail)

    def kill(self):
        if self.alive:
            self._close_fds()
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(self.pid, 0)
            self.alive = False
            if self in self.ctx.sessions:
                self.ctx.sessions.remove(self)

    # the operation interpreter of worlds.py
    def op(self, op):
        import worlds
        r = self.call(worlds.apply, op)
        self.ctx.log(self.name, op, r)
        self.ctx.ops += 1
        return r

    def ops(self, ops):
        return [self.op(o) for o in ops]

    def snap(self, what="all"):
        import worlds
        r = self.call(worlds.snapshot, what)
        h = digest(r)
        self.ctx.log(self.name, "snap", h)
        self.ctx.states.add(h)
        return r


def digest(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


class Ctx:
    """What one run knows about itself."""

    def __init__(self, tier):
        self.tier = tier
        self.h = hashlib.sha256()
        self.sessions = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.steps = 0
        self.ops = 0
        self.simtime = 0.0
        self.keep = os.environ.get("DST_TRACE")
        self.lines = []
        self.sample = None

    def log(self, *a):
        line = repr(a)
        self.h.update(ADDRESS.sub(" at", line).encode())
        self.h.update(b"\n")
        if self.keep:
            self.lines.append(line)

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, x):
        self.states.add(digest(x))

    def session(self, name, layout=0, cpu=150):
        return Session(self, name, layout, cpu)

    def close(self):
        for s in list(self.sessions):
            s.kill()


def run_plan(prop, plan, tier):
    """Executes one plan in this process (a universe).  Returns a result dict."""
    ctx = Ctx(tier)
    # as it comes back from a replay file: the order of keys is part of an execution
    text = json.dumps(plan, sort_keys=True)
    plan = json.loads(text)
    ctx.log("plan", text)
    res = {"violation": None, "error": None}
    os.makedirs("io", exist_ok=True)
    try:
        try:
            prop.execute(plan, ctx)
        except SessionDied as e:
            raise Violation("died-" + e.how.replace(" ", "-"), str(e))
    except Violation as v:
        ctx.log("violation", v.kind)
        res["violation"] = {"kind": v.kind, "msg": v.msg[:4000], "key": v.key}
    except Exception:
        res["error"] = traceback.format_exc()[-4000:]
    finally:
        ctx.close()
    res.update(hash=ctx.h.hexdigest(), faults=ctx.faults, probes=ctx.probes, states=sorted(ctx.states)[:2000],
               steps=ctx.steps, ops=ctx.ops, simtime=ctx.simtime, sample=ctx.sample)
    if ctx.keep:
        res["lines"] = ctx.lines
    return res


# --------------------------------------------------------------------------
# plans
# --------------------------------------------------------------------------
def run_seed(prop_id, seed, index):
    h = hashlib.sha256(("%s/%s/%d" % (prop_id, seed, index)).encode()).digest()
    return int.from_bytes(h[:8], "little")


def make_plan(prop, prop_id, seed, index, tier):
    rs = run_seed(prop_id, seed, index)
    rng = random.Random(rs)
    plan = prop.plan(rng, tier, index)
    plan["seed"] = rs
    return plan
