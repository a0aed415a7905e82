"""The search: derives cases from seeds, hands them to workers, minimises and records what breaks the property."""
import copy
import fcntl
import hashlib
import json
import os
import subprocess
import sys
import threading
import time
from queue import Empty, Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
HASH_SEEDS = ["0", "1", "20", "333"]
sys.path.insert(0, VERIF)

from sim.rng import Stream, h64  # noqa: E402


def fail(message):
    print(message, flush=True)
    sys.exit(2)


def build():
    """Rebuilds the compiled modules from the tree's current sources (no work when nothing changed) and the shim."""
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    with open(os.path.join(VERIF, ".build", "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.environ.get("VERIF_NO_BUILD") is None:
            p = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                fail("BUILD FAILED\n" + p.stdout[-3000:])
        src = os.path.join(VERIF, "sim", "heap_shim.c")
        out = os.path.join(VERIF, ".build", "heap_shim.so")
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-fno-builtin", "-o", out + ".tmp", src], check=True)
            os.replace(out + ".tmp", out)
    return out


def code_hash():
    h = hashlib.sha256()
    for d, dirs, names in sorted(os.walk(os.path.join(REPO, "mmcore"))):
        dirs.sort()
        for n in sorted(names):
            if n.endswith((".py", ".pyx", ".pxd", ".h")):
                h.update(n.encode())
                h.update(open(os.path.join(d, n), "rb").read())
    return h.hexdigest()[:16]


class Worker:
    def __init__(self, prop, hashseed, shim=True):
        env = dict(os.environ)
        env.update(
            PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
            MKL_NUM_THREADS="1", HOME="/root", LANG="C.UTF-8", MPLBACKEND="Agg", VERIF_REPO=REPO,
        )
        env.pop("PYTHONPATH", None)
        if os.path.realpath(REPO) != "/repo":
            env["PYTHONPATH"] = REPO
        if shim:
            env["LD_PRELOAD"] = os.path.join(VERIF, ".build", "heap_shim.so")
        self.args = (prop, hashseed)
        cmd = [PY, "-X", "faulthandler=0", os.path.join(VERIF, "sim", "worker.py"), prop]
        if _can_fix_addresses():
            cmd = ["setarch", "-R"] + cmd
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, cwd=VERIF)
        line = self.p.stdout.readline()
        msg = json.loads(line) if line else {"ready": False, "message": "worker died at start"}
        if not msg.get("ready"):
            raise RuntimeError(msg.get("message"))

    def run(self, job):
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("worker died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


_fix = None


def _can_fix_addresses():
    global _fix
    if _fix is None:
        try:
            _fix = subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0
        except OSError:
            _fix = False
    return _fix


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    return json.load(open(path)) if os.path.exists(path) else {"findings": [], "fixed": []}


# -- minimisation ---------------------------------------------------------------------------------------------------
def _lists(node, path=()):
    """Paths of the lists that may be shortened: operations, schedules and faults, wherever they are nested."""
    if isinstance(node, dict):
        for k, v in node.items():
            if k in ("ops", "preempt", "faults", "tasks", "items", "ballast") and isinstance(v, list) and v:
                yield path + (k,)
            yield from _lists(v, path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            if isinstance(v, (dict, list)):
                yield from _lists(v, path + (i,))


def _get(node, path):
    for k in path:
        node = node[k]
    return node


def minimise(case, fails, budget):
    """Delta debugging over every operation list, schedule and fault list of a case. `fails(case)` re-executes it."""
    end = time.monotonic() + budget
    changed, tries = True, 0
    while changed and time.monotonic() < end:
        changed = False
        for path in sorted(set(_lists(case)), key=lambda p: (len(p), str(p))):
            try:
                size = len(_get(case, path))
            except (KeyError, IndexError, TypeError):
                continue
            chunk = max(1, size)
            while chunk >= 1 and time.monotonic() < end:
                i = 0
                while i < len(_get(case, path)) and time.monotonic() < end:
                    cand = copy.deepcopy(case)
                    del _get(cand, path)[i : i + chunk]
                    tries += 1
                    if fails(cand):
                        case, changed = cand, True
                    else:
                        i += chunk
                chunk //= 2
    return case, tries


class Check:
    def __init__(self, prop, tier, base, jobs=None, seeds=None, budget=None):
        self.prop, self.tier, self.base = prop, tier, base
        self.jobs = jobs or (8 if (os.cpu_count() or 1) >= 6 else 4)
        self.t0 = time.monotonic()
        build()
        sys.path.insert(0, VERIF)
        self.meta = load_meta(prop)
        plan = self.meta["PLAN"][tier]
        self.seeds = seeds or plan["seeds"]
        self.budget = budget or plan["seconds"]
        self.timeout = plan.get("timeout", 60)
        self.configs = self.meta["CONFIGS"]

    def worker(self, i):
        return Worker(self.prop, HASH_SEEDS[i % len(HASH_SEEDS)])

    def hashseed_for(self, seed):
        return HASH_SEEDS[seed % len(HASH_SEEDS)]

    def replay_once(self, case, timeout=None):
        w = Worker(self.prop, case["env"].get("hashseed", "0"))
        try:
            return w.run({"case": case, "timeout": timeout or 2 * self.timeout})
        finally:
            w.close()

    def go(self):
        known = [k for k in known_findings()["findings"] if k["property"] == self.prop]
        known_sigs = {k["sig"]: k for k in known}
        agg = dict(runs=0, counts={}, states=set(), digests=set(), steps=0, checks=0, nontrivial=set(), by_config={}, samples=[])
        found, suppressed = [], {}
        lock = threading.Lock()
        stop = threading.Event()
        start = time.monotonic()
        problems = []

        # known findings first: each listed input is run; it is announced only while it still fails
        for k in known:
            path = os.path.join(VERIF, k["replay"])
            case = json.load(open(path))["case"]
            r = self.replay_once(case)
            if r["verdict"] in ("violation", "crash") and r.get("sig") == k["sig"]:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}", flush=True)
            elif r["verdict"] in ("violation", "crash"):
                found.append((case, r))

        # regressions: the minimised cases of repaired defects and of seeded bugs run in every check
        reg = os.path.join(VERIF, "regress", self.prop)
        regress = []
        if os.path.isdir(reg):
            regress = [json.load(open(os.path.join(reg, f)))["case"] for f in sorted(os.listdir(reg)) if f.endswith(".json")]

        def absorb(job, r):
            with lock:
                agg["runs"] += 1
                cfg = job.get("config") or job.get("case", {}).get("config", "?")
                agg["by_config"][cfg] = agg["by_config"].get(cfg, 0) + 1
                for k2, v in r.get("counts", {}).items():
                    agg["counts"][k2] = agg["counts"].get(k2, 0) + v
                agg["states"].update(r.get("states", ()))
                agg["steps"] += r.get("steps", 0)
                agg["checks"] += r.get("checks", 0)
                if r.get("digest"):
                    agg["digests"].add(r["digest"])
                    if r.get("checks", 0) > 0:
                        agg["nontrivial"].add(r["digest"])

        def confirm(job, r, w):
            """A death or a hang is reported only when a second execution shows it too."""
            r2 = w.run(dict(job, timeout=self.timeout * 3))
            return r2

        def loop(i):
            try:
                w = self.worker(i)
            except RuntimeError as e:
                with lock:
                    problems.append(str(e))
                stop.set()
                return
            hs = HASH_SEEDS[i % len(HASH_SEEDS)]
            try:
                queue = [("case", c) for j, c in enumerate(regress) if j % self.jobs == i]
                seeds = range(i, self.seeds, self.jobs)
                for kind, item in queue + [("seed", s) for s in seeds]:
                    if stop.is_set() or (kind == "seed" and time.monotonic() - start > self.budget):
                        break
                    if kind == "seed":
                        config = self.configs[(item // 8) % len(self.configs)]
                        job = {"base": self.base, "seed": item, "config": config, "timeout": self.timeout}
                        if item in (0, 8, 17):
                            job["want_case"] = True
                    else:
                        job = {"case": item, "timeout": self.timeout}
                    r = w.run(job)
                    if r["verdict"] in ("crash", "timeout"):
                        if found:
                            break
                        r2 = confirm(job, r, w)
                        if r2["verdict"] == "timeout":
                            r = dict(r2, verdict="violation", sig="hang")
                        else:
                            r = r2
                    absorb(job, r)
                    if job.get("want_case") and r.get("case"):
                        text = json.dumps(r["case"])
                        with lock:
                            agg["samples"].append({"seed": item, "verdict": r["verdict"], "digest": r.get("digest"),
                                                   "case": r["case"] if len(text) < 6000 else text[:6000] + "...",
                                                   "history_tail": r.get("trace", [])[-12:]})
                    if r["verdict"] == "harness":
                        with lock:
                            problems.append(r["message"])
                        stop.set()
                        break
                    if r["verdict"] in ("violation", "crash"):
                        if r["sig"] in known_sigs:
                            with lock:
                                suppressed[r["sig"]] = suppressed.get(r["sig"], 0) + 1
                            continue
                        case = r.get("case")
                        if case is None:
                            case = job.get("case") or self._generate(w, job)
                        case = copy.deepcopy(case)
                        case["env"].setdefault("hashseed", hs)
                        with lock:
                            found.append((case, r))
                            if len(found) >= 1:
                                stop.set()
            except Exception as e:  # noqa: BLE001
                import traceback

                with lock:
                    problems.append(traceback.format_exc())
                stop.set()
            finally:
                w.close()

        threads = [threading.Thread(target=loop, args=(i,)) for i in range(self.jobs)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        wall = time.monotonic() - start
        if problems and not found:
            self.evidence(agg, wall, [], suppressed)
            fail("HARNESS PROBLEM\n" + problems[0])
        violations = []
        for case, r in found[:1]:
            violations.append(self.report(case, r))
        self.evidence(agg, wall, violations, suppressed)
        rate = agg["runs"] / max(wall, 1e-9) * 3600
        print(
            f"{self.prop} {self.tier}: {agg['runs']} runs, {agg['checks']} checks, {agg['steps']} scheduling points, "
            f"{len(agg['nontrivial'])} distinct histories, {rate:.0f} runs/h, {wall:.1f} s",
            flush=True,
        )
        for v in violations:
            print(f"  {v['sig']}: {v['message'][:600]}")
            print(f"VIOLATION property={self.prop} replay={v['replay']}", flush=True)
        return 1 if violations else 0

    def _generate(self, w, job):
        r = w.run(dict(job, gen_only=True))
        return r["case"]

    def report(self, case, r):
        sig = r["sig"]
        w = Worker(self.prop, case["env"].get("hashseed", "0"))
        runs = [0]
        patience = [self.timeout]

        def fails(c):
            runs[0] += 1
            t = time.monotonic()
            x = w.run({"case": c, "timeout": patience[0]})
            if runs[0] == 1:  # smaller cases take no longer
                patience[0] = min(self.timeout, 10 + 5 * (time.monotonic() - t))
            return x["verdict"] in ("violation", "crash") and x.get("sig") == sig

        small = case
        reproduced = sig == "hang"
        if sig != "hang":
            sched = case.get("sched")
            if isinstance(sched, dict) and "recorded" in sched:
                cand = copy.deepcopy(case)
                cand["sched"] = {"preempt": sched["recorded"]}
                if fails(cand):
                    case = cand
                else:
                    case["sched"].pop("recorded", None)
            reproduced = fails(case)
            small = case
            if reproduced:
                small, _ = minimise(case, fails, 60 if self.tier == "quick" else 180)
        w.close()
        final = self.replay_once(small) if sig != "hang" else r
        os.makedirs(os.path.join(VERIF, ".replays"), exist_ok=True)
        name = hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, ".replays", f"{self.prop}-{name}.json")
        doc = {
            "property": self.prop, "sig": sig, "message": r.get("message", ""), "seed": case.get("seed"),
            "base": self.base, "config": case.get("config"), "digest": final.get("digest"), "case": small,
            "reproduced": reproduced, "trace": final.get("trace", []), "tree": code_hash(),
            "how": f"{PY} {VERIF}/run.py replay {path}",
        }
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        return {"sig": sig, "message": final.get("message") or r.get("message", ""), "replay": path,
                "seed": case.get("seed"), "reproduced": reproduced}

    def evidence(self, agg, wall, violations, suppressed):
        m = self.meta
        faults = {k[6:]: v for k, v in sorted(agg["counts"].items()) if k.startswith("fault.")}
        other = {k: v for k, v in sorted(agg["counts"].items()) if not k.startswith("fault.")}
        doc = {
            "property": self.prop, "tier": self.tier, "seed": int(self.base), "level": m["LEVEL"],
            "coverage": {
                "evaluations": agg["runs"],
                "distinct_nontrivial": len(agg["nontrivial"]),
                "rule": "distinct digests of the full event history of a run, counted only for runs in which at least "
                        "one oracle comparison was made",
                "oracle_comparisons": agg["checks"],
                "runs_per_hour_one_seed_each": round(agg["runs"] / max(wall, 1e-9) * 3600),
                "simulated_time_scheduling_points": agg["steps"],
                "distinct_states_or_interleavings": len(agg["states"]),
                "states_measure": m["STATES"],
                "faults_injected": faults,
                "events": other,
                "runs_by_configuration": agg["by_config"],
                "known_findings_met": suppressed,
                "real_components": m["REAL"], "stubbed_components": m["STUB"],
                "samples": agg["samples"],
            },
            "wall_s": round(wall, 2),
            "assumptions": m["ASSUMPTIONS"],
            "violations": len(violations),
            "violation_details": violations,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1)


def load_meta(prop):
    """PLAN, CONFIGS, LEVEL and the texts of a property module, without importing the tree under test."""
    import ast

    base = os.path.join(VERIF, "props")
    for f in sorted(os.listdir(base)):
        if f.endswith(".py") and f.split("_")[0].upper() == prop:
            out = {}
            tree = ast.parse(open(os.path.join(base, f)).read())
            for node in tree.body:
                if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                    if node.targets[0].id in (
                        "PLAN", "CONFIGS", "LEVEL", "STATES", "REAL", "STUB", "ASSUMPTIONS", "PROP"):
                        out[node.targets[0].id] = ast.literal_eval(node.value)
            return out
    raise FileNotFoundError(f"no module for {prop}")


def replay(path):
    doc = json.load(open(path))
    build()
    w = Worker(doc["property"], doc["case"].get("env", {}).get("hashseed", "0"))
    r = w.run({"case": doc["case"], "timeout": 120})
    w.close()
    same = r.get("sig") == doc["sig"]
    print(json.dumps({k: r.get(k) for k in ("verdict", "sig", "message", "digest")}, indent=1))
    for line in r.get("trace", [])[-40:]:
        print("   ", line)
    if r["verdict"] in ("violation", "crash"):
        print("same violation" if same else "another violation",
              "same history" if r.get("digest") == doc.get("digest") else "different history")
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    return 0 if r["verdict"] == "ok" else 2


def selftest(prop, count=40, base=7):
    """Determinism: every seed twice, in processes of their own; digests must agree."""
    build()
    meta = load_meta(prop)
    bad = 0
    ws = [Worker(prop, "0"), Worker(prop, "0")]
    results = [[], []]

    def go(j):
        for s in range(count):
            config = meta["CONFIGS"][s % len(meta["CONFIGS"])]
            results[j].append(ws[j].run({"base": base, "seed": s, "config": config, "timeout": 120}))

    ts = [threading.Thread(target=go, args=(j,)) for j in range(2)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for s in range(count):
        a, b = results[0][s], results[1][s]
        if (a.get("digest"), a["verdict"], a.get("sig")) != (b.get("digest"), b["verdict"], b.get("sig")):
            bad += 1
            print("NOT DETERMINISTIC", prop, s, a.get("digest"), b.get("digest"), a.get("sig"), b.get("sig"))
    for w in ws:
        w.close()
    print(f"{prop}: {count} seeds twice, {bad} differed")
    return 1 if bad else 0
