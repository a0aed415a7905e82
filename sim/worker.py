"""A worker: imports the tree under test once, then runs every case in a forked child of its own, so that no case sees
what another left behind and a case that dies of a signal is an observation, not the end of the harness."""
import importlib
import json
import os
import select
import signal
import struct
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def load(prop):
    mods = {}
    base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props")
    for f in sorted(os.listdir(base)):
        if f.endswith(".py") and f[0].isalpha() and f[0] != "_":
            mods[f[:-3]] = None
    for name in mods:
        if name.split("_")[0].upper() == prop:
            return importlib.import_module("props." + name)
    raise SystemExit(f"no module for {prop}")


def silence():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")


def execute(mod, job):
    import random

    import numpy as np

    from sim import heap
    from sim.core import Ctx, Violation, exception_violation
    from sim.rng import Stream, h64

    ctx = Ctx()
    case = job.get("case")
    gen_only = job.get("gen_only")
    if case is None:
        rng = Stream(mod.PROP, job["base"], job["seed"], job["config"])
        case = mod.generate(rng, job["config"])
        case["prop"], case["seed"], case["config"] = mod.PROP, job["seed"], job["config"]
    if gen_only:
        return {"verdict": "ok", "case": case}
    env = case.setdefault("env", {})
    random.seed(h64("global-random", env.get("coins", 0)))
    np.random.seed(h64("global-numpy", env.get("coins", 0)) % (2**32))
    np.seterr(all="ignore")
    import warnings

    warnings.simplefilter("ignore")
    ballast = [bytearray(n) for n in env.get("ballast", [])]  # shifts the addresses of everything allocated later
    out = {}
    try:
        heap.begin(env.get("residue", 0), Stream("residue", env.get("residue_seed", 0)), env.get("residue_seed", 0))
        try:
            mod.execute(case, ctx)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            raise exception_violation(e) from e
        finally:
            heap.end()
            bad, owner, size, dfree = heap.audit()
        if bad:
            raise Violation(f"heap-damage:{owner}", f"{bad} damaged block(s), first of {size} bytes asked for by {owner}")
        if dfree:
            raise Violation("heap-double-free", f"{dfree} block(s) freed twice")
        out["verdict"] = "ok"
    except Violation as v:
        out.update(verdict="violation", sig=v.sig, message=v.message[:3000])
    for k, v in heap.stats().items():
        if v:
            ctx.count("heap." + k, v)
    out.update(
        digest=ctx.digest(), counts=ctx.counts, steps=ctx.steps, checks=ctx.checks, states=list(ctx.states)
    )
    if job.get("want_case") or out["verdict"] != "ok":
        out["case"] = case
        out["trace"] = ctx.trace[-60:]
    return out


def child(mod, job, fd):
    try:
        silence()
        try:
            out = execute(mod, job)
        except BaseException:  # noqa: BLE001
            out = {"verdict": "harness", "message": traceback.format_exc()[-3000:]}
        data = json.dumps(out).encode()
        data = struct.pack("<I", len(data)) + data
        while data:
            n = os.write(fd, data)
            data = data[n:]
    finally:
        os._exit(0)


def run_job(mod, job):
    r, w = os.pipe()
    start = time.monotonic()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(mod, job, w)
    os.close(w)
    buf = b""
    deadline = start + job.get("timeout", 60)
    res = None
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            res = {"verdict": "timeout", "message": f"no end within {job.get('timeout', 60)} s"}
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        part = os.read(r, 1 << 20)
        if not part:
            break
        buf += part
        if len(buf) >= 4 and len(buf) >= 4 + struct.unpack("<I", buf[:4])[0]:
            break
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if res is None:
        if len(buf) >= 4 and len(buf) >= 4 + struct.unpack("<I", buf[:4])[0]:
            res = json.loads(buf[4:].decode())
        elif os.WIFSIGNALED(status):
            res = {"verdict": "crash", "sig": f"crash:{signal.Signals(os.WTERMSIG(status)).name}",
                   "message": f"the process died of signal {os.WTERMSIG(status)}"}
        else:
            res = {"verdict": "crash", "sig": f"crash:exit{os.WEXITSTATUS(status)}", "message": "the process ended early"}
    res["wall"] = time.monotonic() - start
    return res


def main():
    prop = sys.argv[1]
    proto = os.fdopen(os.dup(1), "w", buffering=1)
    silence_import = os.environ.get("VERIF_SIM_NOISY") is None
    if silence_import:
        silence()
    from sim import heap, sched

    import numpy  # noqa: F401

    heap.patch_empty()
    import scipy.optimize  # noqa: F401
    import scipy.spatial  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.integrate  # noqa: F401

    sched.patch_locks()
    try:
        mod = load(prop)
        if hasattr(mod, "setup"):
            mod.setup()
        import mmcore

        root = os.environ.get("VERIF_REPO", "/repo")
        if not os.path.realpath(mmcore.__file__).startswith(os.path.realpath(root) + "/"):
            raise RuntimeError(f"mmcore comes from {mmcore.__file__}, not from {root}")
    except BaseException:  # noqa: BLE001
        proto.write(json.dumps({"ready": False, "message": traceback.format_exc()[-3000:]}) + "\n")
        proto.flush()
        os._exit(3)
    heap.scan()
    import gc

    gc.collect()
    gc.freeze()
    proto.write(json.dumps({"ready": True}) + "\n")
    proto.flush()
    for line in sys.stdin:
        job = json.loads(line)
        res = run_job(mod, job)
        proto.write(json.dumps(res) + "\n")
        proto.flush()


if __name__ == "__main__":
    main()
