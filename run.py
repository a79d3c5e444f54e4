#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]: decide one property."""
import argparse, importlib, os, sys

PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])

ap = argparse.ArgumentParser()
ap.add_argument("id", nargs="?")
ap.add_argument("--setup", action="store_true", help="check that everything needed is importable")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
ap.add_argument("--replay")
ap.add_argument("--budget", type=float)
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fmon import core
if a.setup:
    import scipy, pandas, pyvista, matplotlib  # noqa: F401
    print("fibermat from", core.env.load().__file__)
    sys.exit(0)
mod = importlib.import_module("fmon.checks." + a.id.lower())
sys.stdout.flush()
rc = core.main(mod, a.tier, a.seed, a.replay, a.budget, a.v)
sys.stdout.flush()
sys.exit(rc)
