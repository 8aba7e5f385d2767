"""Interface between check modules and the runner.

A check module defines
  ID, LEVEL, TECHNIQUE, ... (meta data)
  @case(name)          functions: run ONE concrete input (JSON-able params) of the real code against its contract.
                       They raise Fail(msg) if the contract is broken; any exception coming out of the code under
                       test also counts as a broken contract (the inputs are in the domain of the property).
  @task(name, ...)     functions: generate inputs for cases, or generate + discharge proof obligations.
"""
import hashlib
import json
import os
import random
import time
import traceback

CASES = {}
TASKS = {}


class Fail(Exception):
    """The contract is violated on this concrete input."""


class Undecided(Exception):
    """The harness cannot evaluate this (missing internal name, unsupported construct): never a violation."""


def case(name):
    def deco(f):
        CASES[name] = f
        f.case_name = name
        return f
    return deco


def task(name, timeout=600, tiers=("quick", "thorough"), weight=1):
    def deco(f):
        TASKS[name] = dict(fn=f, timeout=timeout, tiers=tiers, weight=weight, order=len(TASKS))
        return f
    return deco


def seed():
    return int(os.environ.get("VERIF_SEED", "1"))


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def thorough():
    return tier() == "thorough"


def rng(tag=""):
    return random.Random(f"{seed()}:{tag}")


def nprng(tag=""):
    import numpy as np
    return np.random.default_rng(int(hashlib.sha256(f"{seed()}:{tag}".encode()).hexdigest()[:12], 16))


def need(modname, attr=None):
    """Look up an internal name of the package; its absence is not a violation."""
    import importlib
    try:
        m = importlib.import_module(modname)
        return m if attr is None else getattr(m, attr)
    except (ImportError, AttributeError) as e:
        raise Undecided(f"{modname}.{attr}: {e}")


def check(cond, msg):
    if not cond:
        raise Fail(msg() if callable(msg) else msg)


class Ctx:
    """Collects the results of one task."""

    MAX_VIOL = 3

    def __init__(self, prop, taskname):
        self.prop = prop
        self.task = taskname
        self.res = dict(task=taskname, evaluations=0, distinct=0, samples=[], violations=[], notes=[],
                        obligations=[], assumptions=[], functions=[], bounds=[], undecided=[])
        self._seen = set()
        self.rng = rng(taskname)
        self.t0 = time.time()

    # ---- bounded contract evaluation on the real code
    def run(self, fn, **params):
        """Run one case; returns True if it held."""
        name = fn.case_name
        key = json.dumps([name, params], sort_keys=True, default=str)
        self.res["evaluations"] += 1
        if key not in self._seen:
            self._seen.add(key)
            self.res["distinct"] += 1
            if len(self.res["samples"]) < 3:
                self.res["samples"].append([name, params])
        try:
            fn(**params)
            return True
        except Undecided as e:
            m = f"{name}: {e}"
            if m not in self.res["undecided"]:
                self.res["undecided"].append(m)
            return True
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            if type(e).__name__ in ("XlaRuntimeError", "JaxRuntimeError") and ("INTERNAL" in str(e) or "RESOURCE" in str(e)):
                # exhausted JIT memory maps etc.: a limit of this process, says nothing about the code
                self.undecided(f"{name}: runtime resource limit: {str(e)[:80]}")
                self.gc()
                return True
            if isinstance(e, Fail):
                msg = str(e)
            else:
                msg = "unexpected exception %s: %s" % (type(e).__name__, str(e)[:400])
            v = dict(case=name, params=params, message=msg[:3000], concrete=True,
                     traceback=traceback.format_exc()[-3000:])
            self.res["violations"].append(v)
            return False

    def gc(self):
        """drop compiled programs (each keeps memory maps alive)"""
        import sys
        if "jax" in sys.modules:
            sys.modules["jax"].clear_caches()
        import gc
        gc.collect()

    def full(self):
        return len(self.res["violations"]) >= self.MAX_VIOL

    def each(self, fn, paramlist, deadline=None):
        """Run a case on a list/generator of parameter dicts, stop after MAX_VIOL failures or at the deadline."""
        for p in paramlist:
            if self.full():
                return
            if deadline and time.time() - self.t0 > deadline:
                self.note(f"{fn.case_name}: stopped at time budget {deadline}s after {self.res['evaluations']} inputs")
                return
            self.run(fn, **p)

    def bound(self, text):
        if text not in self.res["bounds"]:
            self.res["bounds"].append(text)

    def note(self, text):
        self.res["notes"].append(text)

    def assume(self, text):
        if text not in self.res["assumptions"]:
            self.res["assumptions"].append(text)

    # ---- deductive part
    def obligation(self, name, status, backend="z3", time_s=0.0, detail=None):
        self.res["obligations"].append(dict(name=name, status=status, backend=backend, time=round(time_s, 4)))
        if status == "refuted":
            self.res["violations"].append(dict(case="obligation", params=dict(obligation=name, detail=detail),
                                               message=f"proof obligation refuted: {name}", concrete=False))

    def prove(self, name, fn, concrete=None, backend="exact trigonometric normal form"):
        """fn() -> None (holds for all symbol values) or (description, parameters for `concrete`).
        A refuted obligation is replayed on the real code through the concrete case when it gives a witness."""
        t = time.time()
        try:
            r = fn()
        except Undecided as e:
            self.undecided(f"{name}: {e}")
            return
        except Exception as e:
            if type(e).__name__ in ("NotExact", "Unsupported"):
                self.undecided(f"{name}: {e}")
                return
            raise
        dt = time.time() - t
        if r is None:
            self.obligation(name, "proved", backend, dt)
            return
        desc, params = r
        if concrete is not None and params is not None and not self.run(concrete, **params):
            self.res["obligations"].append(dict(name=name, status="refuted (replayed)", backend=backend, time=round(dt, 4)))
            return
        self.obligation(name, "refuted", backend, dt, desc)

    def function(self, qualname):
        if qualname not in self.res["functions"]:
            self.res["functions"].append(qualname)

    def undecided(self, text):
        if text not in self.res["undecided"]:
            self.res["undecided"].append(text)
