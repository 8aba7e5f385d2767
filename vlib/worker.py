"""Worker process: executes tasks handed over on stdin, answers on the original stdout (one JSON line per task)."""
import importlib
import json
import os
import sys
import time
import traceback


def main():
    prop = sys.argv[1]
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, root)
    from vlib.env import TOOLS
    sys.path.append(TOOLS)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = os.fdopen(1, "w")
    import warnings
    warnings.filterwarnings("ignore")
    from vlib import api
    sys.setrecursionlimit(10000)
    importlib.import_module("checks." + prop.lower())
    out.write(json.dumps(dict(ready=True)) + "\n")
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        if "replay" in req:
            name, params = req["replay"]
            try:
                api.CASES[name](**params)
                ans = dict(held=True)
            except Exception as e:
                ans = dict(held=False, message=f"{type(e).__name__}: {e}", traceback=traceback.format_exc())
            out.write(json.dumps(ans, default=str) + "\n")
            out.flush()
            continue
        name = req["task"]
        t0 = time.time()
        ctx = api.Ctx(prop, name)
        try:
            api.TASKS[name]["fn"](ctx)
            ctx.res["status"] = "ok"
        except api.Undecided as e:
            ctx.res["status"] = "undecided"
            ctx.undecided(f"{name}: {e}")
        except Exception as e:
            ctx.res["status"] = "error"
            ctx.res["error"] = traceback.format_exc()[-4000:]
        ctx.res["wall"] = time.time() - t0
        out.write(json.dumps(ctx.res, default=str) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
