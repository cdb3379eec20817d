"""Writes MANIFEST.json from the list of claimed checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Every assertion is decided by z3 for all values of the symbolic inputs within the bounds recorded in the "
        "evidence file; the package's own functions are executed symbolically from /repo's source, re-read on each run. "
        "Counterexamples are replayed on the unmodified package before they are reported. Trusted: the symbolic "
        "executor in symex/ (path models are replayed on the real code as validation), z3, exact-arithmetic oracles.")
EXTRA = json.load(open(os.path.join(HERE, "tools", "notes.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = json.load(open(os.path.join(HERE, "tools", "na.json")))
checks = []
for i in ids:
    if not os.path.isfile(os.path.join(HERE, "props", i.lower() + ".py")):
        if i not in NA:
            NA[i] = "not built yet"
        continue
    checks.append(dict(property=i, quick_cmd="./run.sh %s quick" % i, thorough_cmd="./run.sh %s thorough" % i,
                       technique="symbolic execution of the package's source with z3 (SMT), counterexample replay",
                       level="model_checking", level_note=NOTE + " " + EXTRA.get(i, "")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
         not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA],
         notes="check.py decides one property; symex/ is the symbolic executor; props/ holds one module per property.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
