"""One worker: forks a universe per request (see core.py)."""
import importlib
import json
import os
import select
import shutil
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "props"))
import core  # noqa: E402


def main():
    prop_id, scratch, tier = sys.argv[1:4]
    rfd, wfd = os.dup(0), os.dup(1)
    dn = os.open("/dev/null", os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    import devsim  # noqa: F401
    import worlds  # noqa: F401
    prop = importlib.import_module(prop_id.lower())
    core.sim()
    core.mathlib()
    os.dup2(dn, 1)
    inp = os.fdopen(rfd, "r")
    out = os.fdopen(wfd, "w")
    n = 0
    while True:
        line = inp.readline()
        if not line:
            return
        req = json.loads(line)
        n += 1
        d = os.path.join(scratch, "u%d" % n)
        os.makedirs(d)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            os.close(r)
            os.chdir(d)
            try:
                plan = req.get("plan")
                if plan is None:
                    plan = core.make_plan(prop, prop_id, req["seed"], req["index"], tier)
                t0 = time.monotonic()
                res = core.run_plan(prop, plan, tier)
                res["t"] = round(time.monotonic() - t0, 1)
                res["plan"] = plan
            except BaseException:
                import traceback
                res = {"error": traceback.format_exc()[-4000:], "violation": None}
            data = json.dumps(res).encode()
            while data:
                k = os.write(w, data)
                data = data[k:]
            os._exit(0)
        os.close(w)
        buf = b""
        end = time.monotonic() + req.get("limit", 240)
        dead = False
        while True:
            left = end - time.monotonic()
            if left <= 0:
                dead = True
                break
            rr, _, _ = select.select([r], [], [], left)
            if rr:
                x = os.read(r, 1 << 16)
                if not x:
                    break
                buf += x
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        os.waitpid(pid, 0)
        os.close(r)
        shutil.rmtree(d, ignore_errors=True)
        if dead or not buf:
            buf = json.dumps({"error": "run exceeded its wall clock limit" if dead else "universe ended without an answer",
                              "violation": None}).encode()
        out.write(buf.decode() + "\n")
        out.flush()


main()
