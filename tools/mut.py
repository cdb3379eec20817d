"""Development helper: mut.py PROP FILE < specs: lines 'old ==> new' (one occurrence, or N@old); runs the quick check on a scratch copy."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, f = sys.argv[1:3]
only = sys.argv[3:4]
for n, line in enumerate(sys.stdin.read().splitlines()):
    if " ==> " not in line:
        continue
    old, new = line.split(" ==> ")
    k = 0
    if old[:2].rstrip("@").isdigit() and "@" in old[:3]:
        k, old = old.split("@", 1)
        k = int(k)
    old, new = old.replace("\\n", "\n"), new.replace("\\n", "\n")
    c = "/tmp/mut_%s_%d" % (prop, n)
    shutil.rmtree(c, ignore_errors=True)
    shutil.copytree("/repo", c, symlinks=True)
    p = os.path.join(c, f)
    s = open(p).read()
    parts = s.split(old)
    if len(parts) < k + 2:
        print("NOT FOUND", old)
        continue
    s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
    open(p, "w").write(s)
    r = subprocess.run([os.path.join(V, "run.sh"), prop, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, VERIF_REPO=c))
    v = [l for l in r.stdout.splitlines() if "counterexample" in l][:1] or r.stdout.splitlines()[-1:]
    open("/tmp/mut_last.txt", "w").write(r.stdout)
    print("%d  %-60s => %-40s %s" % (r.returncode, old[:60].replace("\n", " "), new[:40].replace("\n", " "), v), flush=True)
    shutil.rmtree(c, ignore_errors=True)
