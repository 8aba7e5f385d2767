"""Runs one check: distributes its tasks over worker processes, decides, writes evidence and replay files."""
import hashlib
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import api
from .env import CACHE, PY, ROOT, child_env, source_hash


def load_known():
    res = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                res.append(json.loads(line))
    return res


def known_match(known, prop, v):
    """A failing case matches a known finding only if property, case and every listed parameter agree exactly."""
    for k in known:
        if k["property"] != prop or k["case"] != v.get("case"):
            continue
        ps = v.get("params", {})
        if all(kk in ps and json.loads(json.dumps(ps[kk], default=str)) == vv for kk, vv in k["params"].items()):
            return k
    return None


class Worker:
    def __init__(self, prop, env, idx, logf):
        self.p = subprocess.Popen([PY, "-W", "ignore", os.path.join(ROOT, "vlib", "worker.py"), prop],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=logf, env=env, text=True,
                                  cwd=env["HOME"])
        self.q = queue.Queue()
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()

    def _read(self):
        for line in self.p.stdout:
            try:
                self.q.put(json.loads(line))
            except ValueError:
                pass
        self.q.put(None)

    def ask(self, req, timeout):
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return "dead"
        try:
            r = self.q.get(timeout=timeout)
        except queue.Empty:
            self.kill()
            return "timeout"
        return "dead" if r is None else r

    def wait_ready(self, timeout=300):
        try:
            r = self.q.get(timeout=timeout)
            return r is not None
        except queue.Empty:
            self.kill()
            return False

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:
            pass


def main(argv):
    prop = argv[0]
    opt = dict(zip(argv[1::2], argv[2::2]))
    if "--tier" in opt:
        os.environ["VERIF_TIER"] = opt["--tier"]
    tier = api.tier()
    seed = api.seed()
    t0 = time.time()
    mod = importlib.import_module("checks." + prop.lower())
    os.makedirs(CACHE, exist_ok=True)
    sh = source_hash()
    numba_dir = os.path.join(CACHE, "numba-" + sh)
    # keep at most two cache generations
    old = sorted((d for d in os.listdir(CACHE) if d.startswith("numba-") and d != "numba-" + sh),
                 key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
    for d in old[:-1]:
        shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
    env = child_env(numba_dir)
    env["VERIF_TIER"], env["VERIF_SEED"] = tier, str(seed)
    logp = os.path.join(CACHE, f"{prop}.log")
    logf = open(logp, "w")

    if "--replay" in opt:
        rp = json.load(open(opt["--replay"]))
        w = Worker(prop, env, 0, logf)
        w.wait_ready()
        if not rp.get("concrete", True):
            print(json.dumps(rp, indent=1))
            return 1
        r = w.ask(dict(replay=[rp["case"], rp["params"]]), 800)
        print(json.dumps(r, indent=1) if isinstance(r, dict) else r)
        w.kill()
        return 0 if isinstance(r, dict) and r.get("held") else 1

    tasks = [(n, t) for n, t in api.TASKS.items() if tier in t["tiers"]]
    if "--only" in opt:
        tasks = [(n, t) for n, t in tasks if any(n.startswith(o) for o in opt["--only"].split(","))]
    tasks.sort(key=lambda nt: (-nt[1]["weight"], nt[1]["order"]))
    pending = queue.Queue()
    for n, t in tasks:
        pending.put((n, t))
    results = []
    lock = threading.Lock()
    total = float(os.environ.get("VERIF_BUDGET", "840" if tier == "quick" else "3300"))
    nw = int(opt.get("--workers", os.environ.get("VERIF_WORKERS", "8")))
    nw = max(1, min(nw, len(tasks), os.cpu_count() or 1))

    def loop(i):
        w = None
        while True:
            try:
                n, t = pending.get_nowait()
            except queue.Empty:
                break
            left = total - (time.time() - t0)
            if left < 20:
                with lock:
                    results.append(dict(task=n, status="skipped"))
                continue
            if w is None or w.p.poll() is not None:
                w = Worker(prop, env, i, logf)
                if not w.wait_ready(min(300, left)):
                    with lock:
                        results.append(dict(task=n, status="dead", error="worker did not start"))
                    w = None
                    continue
            r = w.ask(dict(task=n), min(t["timeout"], max(10, total - (time.time() - t0))))
            if isinstance(r, str):
                w.kill()
                w = None
                r = dict(task=n, status=r)
            with lock:
                results.append(r)
        if w is not None:
            try:
                w.p.stdin.close()
                w.p.wait(20)
            except Exception:
                w.kill()

    ths = [threading.Thread(target=loop, args=(i,)) for i in range(nw)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    logf.close()
    return conclude(mod, prop, tier, seed, results, t0, sh, logp)


def conclude(mod, prop, tier, seed, results, t0, sh, logp):
    known = load_known()
    viol, errors, notes, undecided, assumptions, functions, bounds, samples, obls = [], [], [], [], [], [], [], [], []
    evals = distinct = 0
    seen_known = {}
    for r in sorted(results, key=lambda r: r["task"]):
        st = r.get("status")
        if st in ("error", "dead", "timeout", "skipped"):
            errors.append(f"task {r['task']}: {st} {r.get('error', '')}")
        for v in r.get("violations", []):
            v["task"] = r["task"]
            k = known_match(known, prop, v)
            if k is not None:
                seen_known.setdefault(k["what"], v)
            else:
                viol.append(v)
        evals += r.get("evaluations", 0)
        distinct += r.get("distinct", 0)
        samples += r.get("samples", [])[:1]
        obls += [dict(o, task=r["task"]) for o in r.get("obligations", [])]
        for src, dst in (("notes", notes), ("undecided", undecided), ("assumptions", assumptions),
                         ("functions", functions), ("bounds", bounds)):
            for x in r.get(src, []):
                if x not in dst:
                    dst.append(x)
    # replay files
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    lines = []
    concrete = [v for v in viol if v.get("concrete")]
    use = concrete if concrete else viol
    for v in use[:5]:
        h = hashlib.sha256(json.dumps([v.get("case"), v.get("params")], sort_keys=True, default=str).encode()).hexdigest()[:12]
        path = os.path.join(ROOT, "replays", f"{prop}-{h}.json")
        rec = dict(property=prop, tree=sh, how=f"python3 run.py {prop} --replay {path}", **v)
        if not v.get("concrete"):
            rec["failed_obligations"] = [x.get("params") for x in viol if not x.get("concrete")][:20]
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        lines.append(f"VIOLATION property={prop} replay={path}" + ("" if v.get("concrete") else " no-failing-input-found"))
    n_dis = sum(o["status"] == "proved" for o in obls)
    by_backend = {}
    for o in obls:
        b = by_backend.setdefault(o["backend"], dict(obligations=0, proved=0, undecided=0, refuted=0, solver_time_s=0.0))
        b["obligations"] += 1
        b[{"proved": "proved", "refuted": "refuted"}.get(o["status"], "undecided")] += 1
        b["solver_time_s"] = round(b["solver_time_s"] + o["time"], 3)
    cov = dict(
        evaluations=evals, distinct_nontrivial=distinct,
        rule=getattr(mod, "RULE", "every evaluation runs the real code on one input inside the property's domain and compares with the oracle; distinct = distinct (case, input)"),
        samples=samples[:12],
        obligations=len(obls), discharged=n_dis,
        undecided_obligations=[f"{o['task']}: {o['name']} ({o['status']})" for o in obls if o["status"] not in ("proved", "refuted")][:50],
        by_backend=by_backend,
        checker_cmd=f"python3 run.py {prop}",
        trusted_base=getattr(mod, "TRUSTED", ["CPython", "z3", "vc (obligation generator)", "numpy"]),
        functions_under_contract=functions, bounds=bounds, fallback_to_bounded=undecided,
        tasks={r["task"]: dict(status=r.get("status"), wall=round(r.get("wall", 0), 1), evaluations=r.get("evaluations", 0),
                               obligations=len(r.get("obligations", []))) for r in results},
        explanation=getattr(mod, "EXPLANATION", getattr(mod, "__doc__", "") or ""),
        notes=notes[:40], errors=errors[:20],
        known_findings=list(seen_known),
        source_tree=sh,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=assumptions + list(getattr(mod, "ASSUMPTIONS", [])), violations=len(viol))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for what, v in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {what}")
    print(f"{prop}: {evals} contract evaluations ({distinct} distinct), {n_dis}/{len(obls)} obligations discharged, "
          f"{len(undecided)} fallbacks, {time.time() - t0:.1f}s")
    if lines:
        for v in use[:5]:
            print("  ", v.get("case"), json.dumps(v.get("params"), default=str)[:300], "->", str(v.get("message"))[:400])
        for l in lines:
            print(l)
        return 1
    min_obl = getattr(mod, "MIN_OBLIGATIONS", 0)
    if errors:
        for e in errors:
            print("ERROR", e)
        print("log:", logp)
        return 2
    if evals == 0 and not obls:
        print("ERROR: nothing was checked")
        return 2
    if len(obls) < min_obl and not undecided:
        print(f"ERROR: only {len(obls)} obligations generated, expected at least {min_obl}")
        return 2
    return 0


def setup():
    """nothing to build: check that the package and the solvers can be loaded, warm the caches"""
    import subprocess
    code = ("import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import qrisp, z3; "
            "from qrisp import QuantumFloat; a = QuantumFloat(3); a[:] = 5; print(dict(a.get_measurement()), z3.get_version_string())")
    numba = os.path.join(CACHE, "numba-" + source_hash())
    return subprocess.run([PY, "-c", code], env=child_env(numba), cwd=ROOT).returncode
