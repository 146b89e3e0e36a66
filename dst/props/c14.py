"""C14: a bias ramp ends at its target or raises, at a converged bias."""
import math

import core
import scen
import worlds
from props import c02

LEVEL = "fault_enumeration"
RUNS = {"quick": 900, "thorough": 30000}
SHRINK = ["ramps", "ramps.*.faults", "W.devs"]
RULE = ("Each run builds a seeded session (toy devices in 1D to 3D, diodes with and without currents, several devices) and ramps contacts with "
        "seeded targets, step sizes (also zero, negative and larger than the distance), minimum steps and iteration limits.  At seeded solves "
        "of a ramp the linear solver fails or gives values which are not finite, a user function or linear solver raises, memory or threads "
        "run out, and the user callback of the ramp or the output stream raises at a seeded call.  The sequence of solves, biases and "
        "callbacks is checked, at each callback an independent assembly confirms the solution, and after a failed ramp the bias and the "
        "solution have to be those of the last converged bias; a ramp without faults then has to reach the target.")
REAL = ["all of devsim (plain build)", "python_packages/ramp.py"]
STUB = ["sparse direct solver (scheduled failures and non finite results)", "BLAS/LAPACK", "symbolic engine", "user supplied callbacks"]
ASSUME = ["bias, step and minimum step are finite numbers"]
TIME_UNIT = "none"


def plan(rng, tier, index):
    W = scen.world(rng, kinds=("toy", "toy", "toy", "diode"))
    W["net"], W["nodes"] = [], []
    devs = []
    for n, k, P in W["devs"]:
        if k == "toy":
            P = c02.terms(rng, P)
            P.pop("ckt", None)
            P.pop("watch", None)
            if rng.random() < 0.3:
                P["S"] = rng.choice(["a*exp(30*u)-g", "a*u^3+0.2*u-g", "a*(exp(10*u)-exp(-10*u))-g"])
        else:
            P["ckt"] = []
        devs.append([n, k, P])
    W["devs"] = devs
    W.pop("eq", None)
    ramps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n, k, P = rng.choice(devs)
        r = {"dev": n, "contact": rng.choice(["top", "bot"]), "callback": rng.random() < 0.9,
             "end": rng.choice([0.0, 0.1, 0.3, 0.5, 1.0, -0.4, 3.0, 20.0]) if k == "toy" else rng.choice([0.0, 0.1, 0.3, 0.5, -0.2, 1.0, 5.0]),
             "iter": rng.choice([1, 2, 3, 4, 6, 10, 30, 30]), "rel": rng.choice([1e-6, 1e-8, 1e-10]), "abs": rng.choice([1e10, 1e10, 1e-3]), "faults": []}
        if k == "toy" and P.get("update") == "positive":
            r["end"] = rng.choice([0.1, 0.3, 0.6])
        if k == "diode" and W.get("threads"):
            # which takes long
            r["end"] = rng.choice([0.0, 0.1, -0.2])
        d = max(0.05, abs(r["end"]))
        r["step"] = d * rng.choice([0.1, 0.2, 0.34, 0.5, 1.0, 3.0]) * rng.choice([1, 1, 1, -1])
        r["min"] = abs(r["step"]) * rng.choice([0.5, 0.1, 0.05, 0.2, 2.0, 0.3])
        if rng.random() < 0.06:
            r["step"] = 0.0
        if rng.random() < 0.06:
            r["min"] = rng.choice([0.0, 0.0, 1e-30])
            # there is no useful limit on the number of steps
            r["faults"] += [{"at": 12, "user": "ValueError"}, {"at": rng.choice([0, 1, 3]), "last": True, "f": [{"seam": "cb", "kind": "factor", "how": "raise", "at": 0}
                            if W.get("solver") else {"seam": "math", "which": 0, "kind": 1, "at": 0}]}]
        for _ in range(rng.choice([0, 1, 1, 2, 4, 8])):
            r["faults"].append(fault(rng, W))
        ramps.append(r)
    return {"W": W, "ramps": ramps}


def fault(rng, W):
    at = rng.choice([0, 0, 1, 1, 2, 3, 4, 6])
    k = rng.random()
    if k < 0.15:
        return {"at": at, "user": rng.choice(["ValueError", "error", "KeyboardInterrupt", "convergence"])}
    if k < 0.22:
        return {"at": 3 * at + rng.choice([0, 1, 2]), "print": 1}
    if k < 0.34:
        return {"at": at, "f": [{"seam": "alloc", "at": rng.choice([0, 3, 20, 100, 500, 2000]), "n": 1}]}
    if k < 0.4 and W.get("threads"):
        return {"at": at, "f": [{"seam": "thread", "at": rng.choice([0, 1, 5]), "n": 1}]}
    if k < 0.5 and W.get("math"):
        return {"at": at, "f": [{"seam": "cb", "kind": "math", "how": rng.choice(["raise", "raisedev", "raisebase"]), "at": rng.choice([0, 2, 9])}]}
    f = [x for x in c02.faults(rng, W) if x.get("kind") != 4]
    for x in f:
        x["at"] = rng.choice([0, 0, 1])
    return {"at": at, "f": f}


class Stuck(BaseException):
    pass


@worlds.op
def ramp(r):
    """Runs rampbias; everything it does is recorded."""
    import devsim
    from devsim.python_packages import ramp as R
    from devsim.python_packages.simple_physics import GetContactBiasName
    name = GetContactBiasName(r["contact"])
    log = []
    fired = {}

    def now():
        return devsim.get_parameter(device=r["dev"], name=name)

    def solution():
        out = {}
        for d in devsim.get_device_list():
            for g in devsim.get_region_list(device=d):
                for e in devsim.get_equation_list(device=d, region=g):
                    v = devsim.get_equation_command(device=d, region=g, name=e)["variable_name"]
                    out["%s/%s/%s" % (d, g, v)] = tuple(devsim.get_node_model_values(device=d, region=g, name=v))
        return out

    real = devsim.solve
    n = [0]
    start = now()
    distance = abs(r["end"] - start)
    step = abs(r["step"])
    # every step is at least the minimum step; what fails takes halvings
    limit = int(distance / min(r["min"], step) + 2 * abs(math.log2(step / r["min"]))) + 20 if r["min"] > 1e-6 and step else 1500

    def solve(**kw):
        i = n[0]
        n[0] += 1
        if i > limit:
            raise Stuck(i)
        f = [y for x in r["faults"] if (x["at"] == i or x.get("last") and i > x["at"]) and "f" in x for y in x["f"]]
        b = now()
        if f:
            worlds.OPS["arm"](f)
        try:
            x = real(**kw)
            log.append(("solve", b, "ok"))
            return x
        except devsim.error as e:
            log.append(("solve", b, "conv" if str(e).startswith("Convergence failure") else "err", str(e)))
            raise
        except MemoryError:
            log.append(("solve", b, "err", "memory"))
            raise
        except BaseException as e:
            log.append(("solve", b, "py", type(e).__name__, str(e)))
            raise
        finally:
            if f:
                for k, v in worlds.OPS["disarm"]()["fired"].items():
                    fired[k] = fired.get(k, 0) + v

    seen = [0]

    def callback(dev):
        k = seen[0]
        seen[0] += 1
        D = worlds.OPS["dump"]() if k % 4 == r["iter"] % 4 else None
        log.append(("call", dev, now(), D, solution()))
        for x in r["faults"]:
            if x.get("user") and x["at"] == k:
                fired["callback"] = fired.get("callback", 0) + 1
                if x["user"] == "convergence":
                    raise devsim.error("Convergence failure! says the user")
                raise {"ValueError": ValueError, "error": devsim.error, "KeyboardInterrupt": KeyboardInterrupt}[x["user"]]("user %d" % k)
    before = solution()
    prints = sorted(x["at"] for x in r["faults"] if x.get("print"))
    count = [0]

    def pr(*a, **k):
        i = count[0]
        count[0] += 1
        if i in prints:
            fired["print"] = fired.get("print", 0) + 1
            raise OSError(28, "print %d" % i)
    R.print = pr
    devsim.solve = solve
    try:
        try:
            R.rampbias(r["dev"], r["contact"], r["end"], r["step"], r["min"], r["iter"], r["rel"], r["abs"], callback)
            end = ("ok",)
        except Stuck as e:
            end = ("stuck", str(e))
        except BaseException as e:
            end = ("raise", "error" if isinstance(e, devsim.error) else type(e).__name__, str(e))
    finally:
        devsim.solve = real
        del R.print
    return {"start": start, "before": before, "log": log, "end": end, "bias": now(), "after": solution(), "fired": fired, "limit": limit}


def judge(s, r, o, ctx):
    a, b = o["start"], r["end"]
    lo, hi = min(a, b), max(a, b)
    last, sol = a, o["before"]
    if o["end"][0] == "stuck":
        raise core.Violation("unbounded", "the ramp %s from %r does not finish within %d solves: %r" % (show(r), a, o["limit"], brief(o["log"])[-6:]))
    pending = None
    lastfail = None
    for i, e in enumerate(o["log"]):
        if e[0] == "solve":
            if pending is not None:
                raise core.Violation("no-callback", "the ramp %s did not call the callback for the converged bias %r: %r" % (show(r), pending, brief(o["log"])))
            x = e[1]
            if not (lo - 1e-12 * (1 + abs(lo)) <= x <= hi + 1e-12 * (1 + abs(hi))):
                raise core.Violation("outside", "the ramp %s from %r solves at %r" % (show(r), a, x))
            if not (x > last if b > a else x < last):
                raise core.Violation("not-monotonic", "the ramp %s from %r solves at %r after %r: %r" % (show(r), a, x, last, brief(o["log"])))
            if abs(x - last) > abs(r["step"]) * (1 + 1e-9) + 1e-12:
                raise core.Violation("step", "the ramp %s goes from %r to %r" % (show(r), last, x))
            if lastfail is not None and abs(x - last) > abs(lastfail - last) * (1 + 1e-9):
                raise core.Violation("step", "the ramp %s tries %r after it failed to go from %r to %r" % (show(r), x, last, lastfail))
            if e[2] == "ok":
                pending = x
                lastfail = None
            else:
                lastfail = x
                if e[2] != "conv" and i + 1 < len(o["log"]):
                    raise core.Violation("goes-on", "the ramp %s goes on after %r: %r" % (show(r), e[3:], brief(o["log"])))
        else:
            if pending is None:
                raise core.Violation("callback", "the ramp %s calls the callback without a converged bias: %r" % (show(r), brief(o["log"])))
            if e[2] != pending or e[1] != r["dev"]:
                raise core.Violation("callback", "the callback of the ramp %s is called for %r at %r instead of %r" % (show(r), e[1], e[2], pending))
            if e[3]:
                D = dict(e[3])
                D["G"] = list(D["G"])
                confirm(D, ["dc", {"relative_error": r["rel"]}], ctx, "ramp %s at %r" % (show(r), pending))
            last, sol = pending, e[4]
            pending = None
    if pending is not None:
        if o["fired"].get("print"):
            # the print between the solve and the callback
            last, sol = pending, None
        else:
            raise core.Violation("no-callback", "the ramp %s did not call the callback for the converged bias %r" % (show(r), pending))
    if o["bias"] != last:
        raise core.Violation("bias", "the ramp %s ended (%r) with bias %r, the last converged bias is %r: %r" % (show(r), o["end"], o["bias"], last, brief(o["log"])))
    if sol is not None and repr(sol) != repr(o["after"]):
        bad = [k for k in sol if repr(sol[k]) != repr(o["after"].get(k))]
        raise core.Violation("solution", "the ramp %s ended (%r) with another solution than that of the last converged bias %r: %r" % (show(r), o["end"], last, bad))
    tail = next((e for e in reversed(o["log"]) if e[0] == "solve"), None)
    if o["end"][0] == "ok":
        if not abs(last - b) <= r["min"]:
            raise core.Violation("target", "the ramp %s from %r returned at %r" % (show(r), a, last))
        if tail and tail[2] != "ok":
            raise core.Violation("target", "the ramp %s returned after %r" % (show(r), tail))
        ctx.probe("reached")
        return True
    t, msg = o["end"][1:]
    if o["log"] and o["log"][-1][0] == "solve" and tail[2] in ("err", "py") and not (tail[2] == "err" and tail[3] == "memory"):
        want = ("error", tail[3]) if tail[2] == "err" else (tail[3], tail[4])
        if (t, msg) != want:
            raise core.Violation("changed", "the ramp %s raised %r, the solve %r" % (show(r), o["end"], want))
        ctx.probe("passed-on")
        return False
    if msg.startswith("user ") or msg.endswith("says the user") or "print" in msg:
        ctx.probe("callback-raised")
        return False
    if o["log"] and o["log"][-1][0] == "solve" and tail[2] == "conv" and t == "RuntimeError":
        if abs(tail[1] - last) >= 2 * r["min"] * (1 + 1e-9) and abs(tail[1] - last) > 1e-12 * (abs(last) + abs(r["end"])):
            raise core.Violation("gave-up", "the ramp %s gave up between %r and %r: %r" % (show(r), last, tail[1], o["end"]))
        ctx.probe("gave-up")
        return False
    if t == "RuntimeError" and last + math.copysign(r["step"], b - a) == last:
        ctx.probe("no-step")
        return False
    if t == "MemoryError" or tail and tail[2] == "err" and tail[3] == "memory":
        ctx.probe("memory")
        return False
    raise core.Violation("raised", "the ramp %s raised %r: %r" % (show(r), o["end"], brief(o["log"])))


def confirm(D, op, ctx, what):
    import asm
    try:
        e = asm.excess(D, op, [], op[1]["relative_error"])
    except asm.Singular:
        ctx.probe("singular")
        return
    except asm.Bound:
        ctx.probe("at-bound")
        return
    ctx.probe("checked")
    if not e[0] <= 1.0:
        raise core.Violation("not-converged", "%s: an exact step would move %s = %r by %r" % (what, e[1], e[2], e[3]))


def show(r):
    return "%s of %s to %r by %r (min %r)" % (r["contact"], r["dev"], r["end"], r["step"], r["min"])


def brief(log):
    return [e[:3] if e[0] == "solve" else (e[0], e[2]) for e in log]


def execute(plan, ctx):
    W = plan["W"]
    s = ctx.session("a")
    if not c02.begin(W, ctx, s):
        return
    r = s.op(["dc", {"absolute_error": 1e12, "relative_error": 1e-9, "maximum_iterations": 60}])
    if r[0] != "ok":
        ctx.probe("unsolved")
        return
    for x in plan["ramps"]:
        r = s.op(["ramp", x])
        if r[0] != "ok":
            raise core.Violation("unreadable", "ramp %s: %r" % (show(x), r))
        o = r[1]
        for k, n in o["fired"].items():
            ctx.fault(k, n)
        if judge(s, x, o, ctx) or not x["faults"] or x["min"] < 1e-6:
            continue
        # once the faults are gone
        y = dict(x, faults=[])
        r = s.op(["ramp", y])
        if r[0] != "ok":
            raise core.Violation("unreadable", "ramp %s: %r" % (show(x), r))
        judge(s, y, r[1], ctx)
