#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] : decide one property.
   check.py --replay FILE : re-run a recorded counterexample on the real package."""
import argparse
import os
import sys

ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "Agg", "LC_ALL": "C.UTF-8"}
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)
os.environ.update(ENV)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
# z3 lives in the verification tools' environment; everything else comes from
# the interpreter the repository is built with.
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--nproc", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from symex import run
    if a.replay:
        import json
        with open(a.replay) as f:
            r = json.load(f)
        res = run.run_real(r["property"], r["harness"], r["params"], r["values"], r.get("opts"))
        print("REPLAY-RESULT " + json.dumps(res))
        return 1 if res["status"] == "violation" else 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run.main(a.pid, a.tier, seed, nproc=a.nproc, only=a.only, budget=a.budget, verbose=a.v)


if __name__ == "__main__":
    sys.exit(main())
