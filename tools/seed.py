"""Development helper: seed.py ID... : in a scratch copy of /repo, apply seeded/ID/patch.diff, run the stable tests,
the demonstration with and without the patch, and the property's quick check.  (No registered command uses it.)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(sid, tests=True, check=True):
    d = os.path.join(V, "seeded", sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    c = "/tmp/seed_" + sid
    shutil.rmtree(c, ignore_errors=True)
    shutil.copytree("/repo", c, symlinks=True)
    res = [sid, prop]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    res.append("demo0=%d" % sh("bash %s/demo.sh" % d, cwd=c, env=env).returncode)
    r = sh("git apply %s/patch.diff" % d, cwd=c)
    if r.returncode:
        return res + ["DOES NOT APPLY " + r.stdout]
    r = sh("bash %s/demo.sh" % d, cwd=c, env=env)
    res.append("demo1=%d" % r.returncode)
    if tests:
        sh(". /opt/vp/env.sh; export PYTHONPATH=/opt/vp/plugins:%s; python -m pytest tests -q --tb=short -p no:cacheprovider -p phenum_cwd "
           "--timeout=180 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s.xml; "
           "/usr/bin/python3 /opt/vp/results.py %s.json junit:%s.xml" % (c, c, c, c), cwd=c, env=env, executable="/bin/bash")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        o = set(json.load(open(c + ".json"))["passed"])
        res.append("missing=%d %s" % (len(base - o), sorted(base - o)[:3]))
    if check:
        r = sh("./run.sh %s quick" % prop, cwd=V, env=dict(env, VERIF_REPO=c))
        res.append("check=%d" % r.returncode)
        res += [l for l in r.stdout.splitlines() if "VIOLATION" in l][:2] or r.stdout.splitlines()[-2:]
    shutil.rmtree(c, ignore_errors=True)
    for e in (".xml", ".json"):
        if os.path.exists(c + e):
            os.remove(c + e)
    return res


if __name__ == "__main__":
    args = sys.argv[1:]
    t = "--notests" not in args
    k = "--nocheck" not in args
    for a in args:
        if not a.startswith("--"):
            print(*one(a, t, k), flush=True)
