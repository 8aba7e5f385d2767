#!/usr/bin/env python3
"""Entry point of all checks:  run.py <PROPERTY-ID> [--tier quick|thorough] [--replay FILE] [--only TASK] [--workers N]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

if __name__ == "__main__":
    from vlib import env
    if os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(env.PY))) and os.path.exists(env.PY):
        os.execv(env.PY, [env.PY, os.path.abspath(__file__)] + sys.argv[1:])
    if sys.argv[1:] == ["--setup"]:
        from vlib.runner import setup
        sys.exit(setup())
    from vlib.runner import main
    sys.exit(main(sys.argv[1:]))
