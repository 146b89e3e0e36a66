#!/usr/bin/env python3
"""Runs the simulations of one property.

    check.py run ID [--tier quick|thorough] [--runs N] [--workers N]
    check.py replay FILE
    check.py determinism ID [N]

run: exit 0 when the property held in every run; exit 1 with
"VIOLATION property=ID replay=FILE" when it did not; exit 2 for an error.
"""
import ctypes
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B  # noqa: E402

EVID = os.environ.get("DST_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def no_aslr():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


class Worker:
    """One zygote process."""

    def __init__(self, prop, out, scratch, tier, hashseed="0"):
        self.dir = tempfile.mkdtemp(prefix="w", dir=scratch)
        env = {"PATH": B.ENV["PATH"], "HOME": self.dir, "LC_ALL": "C.UTF-8", "LD_PRELOAD": os.path.join(out, "libsim.so"),
               "DST_OUT": out, "PYTHONPATH": os.path.join(out, "pkg") + ":" + out,
               "DEVSIM_MATH_LIBS": os.path.join(out, "libsimmath.so"), "PYTHONHASHSEED": hashseed,
               "PYTHONDONTWRITEBYTECODE": "1"}
        for k in ("DST_TRACE", "DST_DEBUG"):
            if k in os.environ:
                env[k] = os.environ[k]
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "zygote.py"), prop, self.dir, tier],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=self.dir,
                                  preexec_fn=no_aslr,
                                  stderr=None if os.environ.get("DST_DEBUG") else subprocess.PIPE)
        self.lock = threading.Lock()

    def ask(self, req):
        self.p.stdin.write((json.dumps(req) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            err = self.p.stderr.read().decode("utf-8", "replace")[-3000:] if self.p.stderr else ""
            return {"violation": None, "error": "worker ended: " + err, "dead": True}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


class Pool:
    def __init__(self, prop, out, tier, n, hashseed="0"):
        self.scratch = tempfile.mkdtemp(prefix="dst.")
        self.args = (prop, out, self.scratch, tier, hashseed)
        self.workers = [Worker(*self.args) for _ in range(n)]

    def map(self, reqs, on_result, stop):
        """Runs requests on all workers; on_result(req, res) under a lock."""
        q = queue.Queue()
        for r in reqs:
            q.put(r)
        lock = threading.Lock()

        def loop(i):
            while not stop():
                try:
                    r = q.get_nowait()
                except queue.Empty:
                    return
                res = self.workers[i].ask(r)
                if res.get("dead"):
                    self.workers[i].close()
                    self.workers[i] = Worker(*self.args)
                with lock:
                    on_result(r, res)
        ts = [threading.Thread(target=loop, args=(i,)) for i in range(len(self.workers))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def fresh(self, req):
        w = Worker(*self.args)
        try:
            return w.ask(req)
        finally:
            w.close()

    def close(self):
        for w in self.workers:
            w.close()
        shutil.rmtree(self.scratch, ignore_errors=True)


def meta(prop):
    """The constants of a property module, without importing it (it needs devsim)."""
    import ast
    tree = ast.parse(open(os.path.join(HERE, "props", prop.lower() + ".py")).read())
    m = {"VARIANT": "plain", "SHRINK": ["ops"], "REAL": [], "STUB": [], "ASSUME": []}
    for n in tree.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                m[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return m


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            f = line[7:].split(None, 2)
            if f[0] == "property=" + prop and f[1].startswith("key="):
                out[f[1][4:]] = f[2] if len(f) > 2 else ""
    return out


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------
def get_path(plan, path):
    x = plan
    for k in path:
        x = x[k]
    return x


def with_path(plan, path, val):
    p = json.loads(json.dumps(plan))
    x = p
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = val
    return p


def shrink_paths(plan, keys):
    out = []
    for k in keys:
        path = k.split(".")
        if path[-1] == "*":      # every list in a list of lists / dict of lists
            try:
                base = get_path(plan, path[:-1])
            except (KeyError, IndexError, TypeError):
                continue
            it = range(len(base)) if isinstance(base, list) else sorted(base)
            for i in it:
                if isinstance(base[i], list):
                    out.append(path[:-1] + [i])
            continue
        try:
            if isinstance(get_path(plan, path), list):
                out.append(path)
        except (KeyError, IndexError, TypeError):
            pass
    return out


def minimise(plan, keys, fails, budget_s, max_tries):
    end = time.monotonic() + budget_s
    tries = [0]

    def test(p):
        if time.monotonic() > end or tries[0] >= max_tries:
            return False
        tries[0] += 1
        return fails(p)

    changed = True
    while changed and time.monotonic() < end and tries[0] < max_tries:
        changed = False
        for path in shrink_paths(plan, keys):
            lst = get_path(plan, path)
            n = 2
            while len(lst) >= 1:
                size = max(1, len(lst) // n)
                hit = False
                i = 0
                while i < len(lst):
                    cand = lst[:i] + lst[i + size:]
                    p = with_path(plan, path, cand)
                    if test(p):
                        plan, lst, hit, changed = p, cand, True, True
                    else:
                        i += size
                if not hit:
                    if size == 1:
                        break
                    n = min(len(lst), n * 2)
    return plan, tries[0]


# --------------------------------------------------------------------------
def run(prop, tier, runs=None, workers=None):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print("property %s tier %s seed %d" % (prop, tier, seed))
    m = meta(prop)
    try:
        out = B.build(m["VARIANT"])
    except B.BuildError as e:
        print("the tree does not build:\n%s" % e)
        return 2
    t_build = time.monotonic() - t0
    n = runs or m["RUNS"][tier]
    cap = {"quick": 300, "thorough": 3 * 3600}[tier]
    nw = workers or os.cpu_count() or 4
    pool = Pool(prop, out, tier, nw)
    kn = known(prop)
    agg = {"faults": {}, "probes": {}, "states": set(), "hash": {}, "steps": 0, "ops": 0, "simtime": 0.0,
           "runs": 0, "nontrivial": set(), "samples": []}
    bad, errors, seen_known = [], [], {}
    t1 = time.monotonic()
    timed = [False]

    def stop():
        if time.monotonic() - t1 > cap:
            timed[0] = True
            return True
        return bool(bad) or len(errors) > 3

    def got(req, res):
        if res.get("error"):
            errors.append((req, res["error"]))
            return
        agg["runs"] += 1
        agg["hash"][req["index"]] = res["hash"]
        for k in ("faults", "probes"):
            for a, b in res[k].items():
                agg[k][a] = agg[k].get(a, 0) + b
        agg["states"].update(res["states"])
        agg["steps"] += res["steps"]
        agg["ops"] += res["ops"]
        agg["simtime"] += res["simtime"]
        if res["steps"] >= 3:
            agg["nontrivial"].add(res["hash"])
        if len(agg["samples"]) < 3 and req["index"] % 7 == 0:
            agg["samples"].append({"index": req["index"], "plan": res["plan"], "faults": res["faults"], "hash": res["hash"]})
        if res["violation"]:
            k = res["violation"]["key"]
            if k in kn:
                seen_known.setdefault(k, res["violation"]["msg"])
            else:
                bad.append((req["index"], res))

    rc = 0
    nondet = 0
    replay = None
    try:
        pool.map([{"seed": seed, "index": i} for i in range(n)], got, stop)
        t_run = time.monotonic() - t1
        if bad:
            bad.sort(key=lambda x: x[0])
            rc, replay = report(prop, m, pool, bad, tier)
        elif errors and [x for x in errors if not late(pool, x)]:
            rc = 2
            for req, e in errors[:3]:
                print("ERROR in run %s:\n%s" % (req, e))
        else:
            # the same runs again, elsewhere: the event logs have to agree
            again = sorted(agg["hash"])[:: max(1, len(agg["hash"]) // max(4, n // 40))]
            mism = []

            def cmp(req, res):
                if res.get("hash") != agg["hash"][req["index"]]:
                    mism.append(req["index"])
            pool.map([{"seed": seed, "index": i} for i in reversed(again)], cmp, lambda: False)
            nondet = len(mism)
            agg["again"] = len(again)
            if mism:
                print("warning: runs whose second execution differed: %s" % mism[:10])
    finally:
        pool.close()
    for k, v in sorted(kn.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, v))
    os.makedirs(EVID, exist_ok=True)
    wall = time.monotonic() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": m["LEVEL"], "wall_s": round(wall, 2),
          "violations": len(bad),
          "coverage": {
              "evaluations": agg["runs"], "distinct_nontrivial": len(agg["nontrivial"]),
              "rule": m["RULE"] + "  A run counts when it took at least three steps and its event log differs from those of all other runs.",
              "samples": agg["samples"],
              "runs_per_hour": round(3600 * agg["runs"] / max(t_run, 1e-3)), "seeds_per_hour": round(3600 * agg["runs"] / max(t_run, 1e-3)),
              "session_steps": agg["steps"], "operations": agg["ops"], "simulated_time": agg["simtime"],
              "simulated_time_unit": m.get("TIME_UNIT", "seconds of simulated transient time"),
              "faults_fired": agg["faults"], "probes": agg["probes"],
              "distinct_states": len(agg["states"]), "distinct_states_measure": m.get("STATES", "hash of the complete observable state of a session at a snapshot"),
              "distinct_event_logs": len(set(agg["hash"].values())),
              "repeated_runs": agg.get("again", 0), "repeated_runs_that_differed": nondet,
              "stopped_by_time_limit": timed[0], "planned_runs": n, "workers": nw, "build_s": round(t_build, 1),
              "components_real": m["REAL"], "components_stub": m["STUB"]},
          "assumptions": m["ASSUME"]}
    if seen_known:
        ev["coverage"]["known_findings_seen"] = seen_known
    if replay:
        ev["coverage"]["replay"] = replay
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%d runs, %d distinct, faults %s, probes %s, %d states, build %.0f s, total %.0f s" % (
        agg["runs"], len(agg["nontrivial"]), agg["faults"], agg["probes"], len(agg["states"]), t_build, wall))
    return rc


def late(pool, x):
    """Whether a run only took too long because the machine was busy."""
    req, e = x
    if "wall clock" not in e:
        return False
    r = pool.fresh(req)
    print("run %s took too long, again: %s" % (req, r.get("error") or r.get("violation") or "fine"))
    return not r.get("error") and not r.get("violation")


def report(prop, m, pool, bad, tier):
    slow = 0
    for index, res in bad[:12]:
        v = res["violation"]
        plan = res["plan"]
        print("run %d: %s: %s" % (index, v["kind"], v["msg"][:1500]))
        # the same plan twice more, in fresh processes: it has to end the same way
        a = pool.fresh({"plan": plan})
        b = pool.fresh({"plan": plan})
        kinds = [(x.get("violation") or {}).get("kind") for x in (a, b)]
        if kinds == [v["kind"]] * 2:
            break
        print("the violation does not repeat: %s then %s" % (v["kind"], kinds))
        slow += v["kind"] == "died-hang"
    else:
        if slow == len(bad):
            # the machine was too slow for these runs
            return 0, None
        print("ERROR: no violation repeats")
        return 2, None
    exact = a["hash"] == b["hash"] == res["hash"]
    w = pool.workers[0]

    def fails(p):
        r = w.ask({"plan": p, "limit": 60})
        if r.get("dead"):
            return False
        return bool(r.get("violation")) and r["violation"]["kind"] == v["kind"] and r["violation"]["key"] == v["key"]
    small, tries = minimise(plan, m["SHRINK"], fails, 90, 250)
    final = pool.fresh({"plan": small})
    if (final.get("violation") or {}).get("kind") != v["kind"]:
        small, final = plan, a
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    path = os.path.join(EVID, "replay", "%s-%d.json" % (prop, index))
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "index": index, "kind": v["kind"], "message": final["violation"]["msg"],
                   "hash": final["hash"], "hash_repeats": exact, "plan": small, "original_plan": plan, "minimiser_tries": tries},
                  f, indent=1, sort_keys=True)
    print("minimised with %d executions: %s" % (tries, final["violation"]["msg"][:1500]))
    print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
    return 1, os.path.relpath(path, VERIF)


def replay(path):
    r = json.load(open(path))
    m = meta(r["property"])
    out = B.build(m["VARIANT"])
    pool = Pool(r["property"], out, r["tier"], 1)
    try:
        res = pool.workers[0].ask({"plan": r["plan"]})
    finally:
        pool.close()
    if res.get("error"):
        print(res["error"])
        return 2
    if res.get("lines"):
        print("\n".join(res["lines"]))
    if res["violation"]:
        print("%s: %s" % (res["violation"]["kind"], res["violation"]["msg"]))
        print("event log %s" % ("identical" if res["hash"] == r["hash"] else "differs from the recorded one"))
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("no violation")
    return 0


def one(prop, index, tier):
    """Debugging: one run, with its event log."""
    os.environ["DST_TRACE"] = "1"
    m = meta(prop)
    out = B.build(m["VARIANT"])
    pool = Pool(prop, out, tier, 1, os.environ.get("DST_HASHSEED", "0"))
    res = pool.workers[0].ask({"seed": int(os.environ.get("VERIF_SEED", "1")), "index": index})
    pool.close()
    for x in res.pop("lines", []):
        print(x[:int(os.environ.get("DST_WIDTH", "400"))])
    res.pop("states", None)
    print(json.dumps(res, indent=1)[:6000].replace("\\n", "\n"))
    return 0


def survey(prop, n, tier, first=0):
    """Debugging: all runs, one example of every kind of violation."""
    m = meta(prop)
    out = B.build(m["VARIANT"])
    pool = Pool(prop, out, tier, os.cpu_count())
    seen, probes, faults, slow, t0 = {}, {}, {}, [], time.monotonic()

    def got(q, r):
        slow.append((r.get("t", 999), q["index"]))
        for d, k in ((probes, "probes"), (faults, "faults")):
            for x, y in (r.get(k) or {}).items():
                d[x] = d.get(x, 0) + y
        v = r.get("violation")
        k = v["key"] if v else "ERROR" if r.get("error") else None
        if k:
            seen.setdefault(k, []).append((q["index"], v["msg"] if v else r["error"]))
    pool.map([{"seed": int(os.environ.get("VERIF_SEED", "1")), "index": i} for i in range(first, first + n)], got, lambda: False)
    pool.close()
    for k, v in sorted(seen.items()):
        v.sort()
        print("== %s: %d runs: %s" % (k, len(v), [x[0] for x in v[:8]]))
        for i, t in v[:2]:
            print("   %d: %s" % (i, t[:int(os.environ.get("DST_WIDTH", "500"))]))
    print(probes, faults, "slowest: %s" % sorted(slow)[-5:], "%.0f s" % (time.monotonic() - t0))
    return 0


def determinism(prop, n, tier):
    m = meta(prop)
    out = B.build(m["VARIANT"])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    logs = []
    for workers, hs in ((8, "0"), (3, "0"), (8, "77")):
        pool = Pool(prop, out, tier, workers, hs)
        h = {}
        try:
            pool.map([{"seed": seed, "index": i} for i in range(n)], lambda q, r: h.__setitem__(q["index"], r.get("hash") or r.get("error")), lambda: False)
        finally:
            pool.close()
        logs.append(h)
    diff = [i for i in range(n) if len({x[i] for x in logs}) != 1]
    print("%s: %d runs in three configurations (8 workers, 3 workers, other PYTHONHASHSEED): %d differ %s" % (prop, n, len(diff), diff[:10]))
    return 0 if not diff else 1


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2

    def opt(name, default=None):
        if name in a:
            i = a.index(name)
            v = a[i + 1]
            del a[i:i + 2]
            return v
        return default
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    runs = opt("--runs")
    workers = opt("--workers")
    if a[0] == "run":
        return run(a[1], tier, int(runs) if runs else None, int(workers) if workers else None)
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "survey":
        return survey(a[1], int(a[2]), tier, int(a[3]) if len(a) > 3 else 0)
    if a[0] == "one":
        return one(a[1], int(a[2]), tier)
    if a[0] == "determinism":
        return determinism(a[1], int(a[2]) if len(a) > 2 else 60, tier)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
