"""Running a property: cases in parallel, replay of counterexamples, evidence."""
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random as _random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "out")


class Case(object):
    def __init__(self, name, harness, params=None, weight=1.0, **opts):
        self.name = name
        self.harness = harness        # name of a function of the property module
        self.params = params or {}
        self.weight = weight
        self.opts = opts


class Infeasible(Exception):
    pass


class ReplayViolation(Exception):
    pass


class ReplayCtx(object):
    """The harness interface on concrete values: used with the unmodified package."""
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.nrnd = 0
        self.streams = None
        self.nchecks = 0

    def _get(self, name, d):
        v = self.values.get(name, d)
        if isinstance(v, list):
            return v[0] / v[1]
        return v

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        if not lo <= v <= hi:
            raise Infeasible()
        return int(v)

    def real(self, name, lo, hi):
        return float(self._get(name, lo if lo is not None else 0))

    def grid(self, name, lo, hi, den):
        return self.int(name, lo, hi) / den

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def choose(self, name, n):
        return self.int(name, 0, n - 1)

    def approx(self, x):
        return float(x)

    def pick(self, f):
        return f()

    def perm(self, name, n):
        return [int(self._get("%s%d" % (name, i), i)) for i in range(n)]

    def once(self, name, f):
        return f()

    def assume(self, b, label=None):
        if not b:
            raise Infeasible()

    def check(self, b, label):
        self.nchecks += 1
        if not b:
            raise ReplayViolation(label)


class RealPackage(object):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return importlib.import_module("phenum." + name)


class RandomPatch(object):
    """random.* answering with recorded values."""
    NAMES = ("random", "randint", "randrange", "shuffle", "uniform", "choice", "choices", "sample", "seed", "getrandbits", "Random")

    def __init__(self, ctx):
        self.ctx = ctx
        self.fallback = _random.Random(1)

    def nm(self):
        self.ctx.nrnd += 1
        return "rnd%d" % self.ctx.nrnd

    def funcs(self, own=None):
        c = self.ctx

        def val(n, d):
            v = c.values.get(n, d)
            return v[0] / v[1] if isinstance(v, list) else v

        def draw(kind, f):
            st = c.streams if own is None else own
            return f(self.nm()) if st is None else st.draw(kind, lambda: f(self.nm()))

        def rnd():
            den = getattr(c, "random_den", 0)

            def f(n):
                v = val(n, None)
                if v is None:
                    return self.fallback.random()
                return v / den if den else float(v)
            return draw("random", f)

        def uniform(a, b):
            den = getattr(c, "random_den", 0)
            r = draw("uniform", lambda n: 0 if a == b else val(n, 0) / den if den else float(val(n, 0)))
            return a if a == b else a + (b - a) * r

        def randint(a, b):
            if a > b:
                raise ValueError("empty range for randrange()")

            def f(n):
                v = val(n, None)
                # beyond the recorded draws: any value, so that rejection loops end
                return self.fallback.randint(a, b) if v is None else v if a <= v <= b else a
            return draw(("int", int(a), int(b)), f)

        def randrange(a, b=None, step=1):
            if b is None:
                a, b = 0, a
            if b <= a:
                raise ValueError("empty range for randrange()")
            return randint(a, b - 1)

        def shuffle(x):
            if len(x) < 2:
                return
            p = draw(("perm", len(x)), lambda n: [int(val("%s%d" % (n, i), i)) for i in range(len(x))])
            if sorted(p) == list(range(len(x))):
                x[:] = [x[i] for i in p]

        def choice(s):
            return s[randint(0, len(s) - 1)]

        def choices(pop, weights=None, cum_weights=None, k=1):
            return [choice(pop) for _ in range(k)]

        def sample(pop, k):
            pop = list(pop)
            shuffle(pop)
            return pop[:k]

        def getrandbits(k):
            return randint(0, 2 ** k - 1)

        def seed(a=None, *r, **k):
            st = c.streams if own is None else own
            if st is not None:
                st.seed(a)

        def Random(*a):
            import types
            st = None
            if c.streams is not None:
                from .load import Streams
                st = Streams()
                st.memo, st.seeds = c.streams.memo, c.streams.seeds
                c.streams.fresh += 1
                st.restart(("own", c.streams.fresh))
                if a and a[0] is not None:
                    st.seed(*a)
            return types.SimpleNamespace(**self.funcs(st))
        return dict(random=rnd, randint=randint, randrange=randrange, shuffle=shuffle, uniform=uniform, choice=choice,
                    choices=choices, sample=sample, seed=seed, getrandbits=getrandbits, Random=Random)

    def __enter__(self):
        import random
        self.saved = {k: getattr(random, k) for k in self.NAMES}
        for k, f in self.funcs().items():
            setattr(random, k, f)

    def __exit__(self, *a):
        import random
        for k, f in self.saved.items():
            setattr(random, k, f)
        return False


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="phv_")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def load_prop(pid):
    return importlib.import_module("props." + pid.lower())


def in_repo(e):
    """did the exception come out of the package under test (and not out of the harness)?"""
    tb = e.__traceback__
    root = os.path.join(os.path.realpath(REPO), "phenum") + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def shape_error(e):
    """the property's code could not read what the package returned (a missing key, a short
    list, None for a list); a call that does not fit a signature is something else"""
    if not isinstance(e, (KeyError, IndexError, TypeError, ValueError)) or "argument" in str(e):
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(
        os.path.join(os.path.realpath(VERIF), "props") + os.sep)


def run_real(pid, harness, params, values, opts=None):
    """Run one concrete instance on the unmodified package."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    mod = load_prop(pid)
    ctx = ReplayCtx(values)
    ctx.random_den = (opts or {}).get("random_den", 0)
    f = getattr(mod, harness)
    with scratch(), RandomPatch(ctx), contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        try:
            f(ctx, RealPackage(), **params)
        except Infeasible:
            return dict(status="infeasible")
        except ReplayViolation as e:
            return dict(status="violation", label=str(e))
        except SystemExit:
            return dict(status="violation", label="the call exits the interpreter",
                        detail=traceback.format_exc()[-800:])
        except Exception as e:
            if not in_repo(e):
                return dict(status="violation" if shape_error(e) else "error",
                            label="the result has the expected form" if shape_error(e) else "harness error",
                            detail=traceback.format_exc()[-1500:])
            return dict(status="violation", label="exception", detail=traceback.format_exc()[-1500:])
    return dict(status="ok", checks=ctx.nchecks)


def explore_case(pid, case, deadline, eager=False):
    """Symbolic exploration of one case (in a worker process)."""
    from . import core, load
    mod = load_prop(pid)
    f = getattr(mod, case.harness)
    o = case.opts
    ctx = core.Context(name=case.name, timeout_ms=o.get("timeout_ms", 60000),
                       mul=o.get("mul", "ite"), ite_limit=o.get("ite_limit", 16),
                       max_values=o.get("max_values", 4096), deadline=deadline)
    ctx.merge = o.get("merge", True)
    ctx.random_den = o.get("random_den", 0)
    ctx.strings = bool(o.get("strings", False))
    ctx.whole = bool(o.get("whole", False))
    ctx.max_draws = o.get("max_draws")
    ctx.eager = eager
    t0 = time.time()
    err = {}

    def one(c):
        try:
            ph = load.Package(REPO, c, strings=o.get("strings", False), memo=o.get("memo", True))
            f(c, ph, **case.params)
        except core.SymexError:
            raise
        except SystemExit:
            err["tb"] = traceback.format_exc()[-1500:]
            c.counterexample = dict(label="the call exits the interpreter",
                                    values=c.values(c.cur_model()))
            raise core.CheckFailed("exit")
        except Exception as e:
            err["tb"] = traceback.format_exc()[-2500:]
            if not in_repo(e):
                if shape_error(e):
                    try:
                        err["shape"] = c.values(c.cur_model())
                    except core.SymexError:
                        pass
                raise core.Inconclusive("harness error")
            c.counterexample = dict(label="exception", values=c.values(c.cur_model()))
            raise core.CheckFailed("exception")
    res = dict(case=case.name, harness=case.harness, params=case.params, opts=o)
    try:
        with scratch(), contextlib.redirect_stdout(io.StringIO()):
            cex = ctx.explore(one, path_timeout=o.get("path_timeout", 60.0),
                              max_paths=o.get("max_paths"))
        res["cex"] = cex
        if cex:
            res["tb"] = err.get("tb")
    except core.Inconclusive as e:
        res["inconclusive"] = "%s: %s" % (type(e).__name__, e)
        res["tb"] = err.get("tb") or traceback.format_exc()[-1500:]
        if err.get("shape") is not None:
            # what the code returned could not be read: does the unmodified package return
            # something that cannot be read either?
            r = run_real(pid, case.harness, case.params, err["shape"], o)
            if r["status"] == "violation":
                res["cex"] = dict(label=r["label"], values=err["shape"], real=True)
                res["tb"] = r.get("detail")
                del res["inconclusive"]
    except core.PathInfeasible:
        res["cex"] = None
    except Exception:
        res["inconclusive"] = "engine error"
        res["tb"] = traceback.format_exc()[-2500:]
    res["stats"] = ctx.stats
    res["labels"] = ctx.labels
    res["functions"] = sorted(ctx.functions)
    res["samples"] = ctx.samples
    res["wall"] = time.time() - t0
    # translator validation: the models of sampled paths on the unmodified package
    res["validated"] = 0
    if not res.get("cex") and not res.get("inconclusive"):
        for s in ctx.samples[:o.get("validate", 2)]:
            r = run_real(pid, case.harness, case.params, s, o)
            if r["status"] == "ok":
                res["validated"] += 1
            elif r["status"] == "violation":
                # the encoding says the path is fine, the real code disagrees
                res["cex"] = dict(label=r["label"], values=s, real=True)
                res["tb"] = r.get("detail")
                break
            else:
                res["inconclusive"] = "sampled path does not replay: %r" % (s,)
                break
    return res


_JOB = {}


def _worker(i):
    pid, cases, deadline = _JOB["pid"], _JOB["cases"], _JOB["deadline"]
    try:
        r = explore_case(pid, cases[i], deadline)
        if r.get("inconclusive") and not r["inconclusive"].startswith("Inconclusive: time budget"):
            # the code left what the engine encodes: decide the case with the inputs
            # forked over all their feasible values instead (same bounds)
            r2 = explore_case(pid, cases[i], deadline, eager=True)
            if not r2.get("inconclusive"):
                r2["eager"] = r["inconclusive"]
                return i, r2
        return i, r
    except BaseException:
        return i, dict(case=cases[i].name, inconclusive="worker error",
                       tb=traceback.format_exc()[-2500:], stats={}, labels={}, functions=[],
                       samples=[], wall=0, validated=0)


def _worker_eager(i):
    try:
        return i, explore_case(_JOB["pid"], _JOB["cases"][i], _JOB["deadline"], eager=True)
    except BaseException:
        return i, dict(case=_JOB["cases"][i].name, inconclusive="worker error",
                       tb=traceback.format_exc()[-2500:], stats={}, labels={}, functions=[],
                       samples=[], wall=0, validated=0)


def replay_subprocess(path, timeout=180):
    env = dict(os.environ)
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay", path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=env)
    except subprocess.TimeoutExpired:
        return dict(status="hang")
    out = p.stdout.decode("utf-8", "replace")
    for line in out.splitlines():
        if line.startswith("REPLAY-RESULT "):
            return json.loads(line[len("REPLAY-RESULT "):])
    return dict(status="error", detail=out[-1500:])


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.isfile(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"]
                if e.get("property") == pid and e.get("status") == "known"]


def is_known(r, known):
    """the listed finding this counterexample is: same case (its input is fixed) and same assertion"""
    for e in known:
        if e["case"] == r["case"] and e["label"] == r["cex"]["label"] and r["confirmed"].get("label") == e["label"]:
            return e
    return None


def main(pid, tier, seed, nproc=None, only=None, budget=None, verbose=False):
    t0 = time.time()
    mod = load_prop(pid)
    cases = mod.cases(tier)
    if only:
        cases = [c for c in cases if only in c.name]
    cases.sort(key=lambda c: -c.weight)
    budget = budget or (780 if tier == "quick" else 6 * 3600)
    nproc = nproc or min(8, os.cpu_count() or 1)
    known = known_findings(pid)
    _JOB.update(pid=pid, cases=cases, deadline=t0 + budget)
    results = []
    cexs = []
    retry = []
    ctxm = mp.get_context("fork")
    pool = ctxm.Pool(min(nproc, max(1, len(cases))))
    try:
        for i, r in pool.imap_unordered(_worker, range(len(cases)), chunksize=1):
            results.append(r)
            if verbose:
                print("%-50s %6.1fs paths=%s q=%s checks=%s %s" % (
                    r["case"], r["wall"], r["stats"].get("paths"), r["stats"].get("queries"),
                    r["stats"].get("checks"),
                    r.get("inconclusive") or ("CEX %s" % r["cex"]["label"] if r.get("cex") else "ok")))
                if r.get("tb") and (r.get("inconclusive") or r.get("cex")):
                    print(r["tb"])
                sys.stdout.flush()
            if r.get("cex"):
                cexs.append(r)
                if len(cexs) >= 1:
                    # replay straight away; stop at the first confirmed one
                    if confirm(pid, tier, r, len(cexs)):
                        if is_known(r, known):
                            r["known"] = True
                            continue
                        break
                    retry.append(i)
        if retry and not any(r.get("confirmed") and not r.get("known") for r in cexs):
            # exact arithmetic and the machine's disagree: decide these cases with the
            # inputs forked over their values, so that the code computes natively
            for i, r2 in pool.imap_unordered(_worker_eager, retry, chunksize=1):
                r2["eager"] = "counterexample did not reproduce"
                if r2.get("cex"):
                    cexs.append(r2)
                    confirm(pid, tier, r2, len(cexs))
                if not r2.get("inconclusive"):
                    old = [k for k, r in enumerate(results) if r["case"] == r2["case"]]
                    if old[0:1] and results[old[0]] in cexs:
                        cexs.remove(results[old[0]])
                    results[old[0]] = r2
    finally:
        pool.terminate()
        pool.join()
    for r in cexs:
        if r.get("known"):
            print("KNOWN-FINDING: property=%s %s" % (pid, is_known(r, known)["what"]))
    confirmed = [r for r in cexs if r.get("confirmed") and not r.get("known")]
    bad = [r for r in results if r.get("inconclusive")]
    unconf = [r for r in cexs if not r.get("confirmed")]
    vac = []
    if not confirmed and not bad and not unconf and not only:
        vac = vacuity(mod, results, cases)
    write_evidence(pid, tier, seed, mod, cases, results, confirmed, time.time() - t0)
    tot = summarize(results)
    print("%s %s: %d cases, %d paths, %d checks, %d solver queries (%.1fs solver), %d real-code "
          "replays, %.1fs" % (pid, tier, len(results), tot["paths"], tot["checks"], tot["queries"],
                              tot["solver_s"], tot["validated"], time.time() - t0))
    if confirmed:
        r = confirmed[0]
        print("counterexample in case %s: %s" % (r["case"], r["cex"]["label"]))
        print("  values: %s" % json.dumps(r["cex"]["values"], sort_keys=True))
        print("  real code: %s" % json.dumps(r["confirmed"]))
        print("VIOLATION property=%s replay=%s" % (pid, r["replay"]))
        return 1
    for r in unconf:
        print("ERROR: counterexample of case %s (%s) does not reproduce on the real code: %s\n%s\n%s"
              % (r["case"], r["cex"]["label"], json.dumps(r["cex"]["values"]), r.get("replayed"),
                 r.get("tb")))
    for r in bad:
        print("ERROR: case %s is inconclusive: %s\n%s" % (r["case"], r["inconclusive"], r.get("tb")))
    for v in vac:
        print("ERROR: vacuous: %s" % v)
    if unconf or bad or vac:
        return 3
    return 0


def confirm(pid, tier, r, n):
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    path = os.path.join(OUT, "replay", "%s_%s_%d.json" % (pid, tier, n))
    with open(path, "w") as f:
        json.dump(dict(property=pid, case=r["case"], harness=r["harness"], params=r["params"],
                       opts=r["opts"], label=r["cex"]["label"], values=r["cex"]["values"],
                       repo=REPO), f, indent=1, sort_keys=True)
    r["replay"] = path
    res = replay_subprocess(path)
    r["replayed"] = res
    if res["status"] == "violation" or res["status"] == "hang":
        r["confirmed"] = res
        return True
    return False


def summarize(results):
    tot = dict(paths=0, checks=0, queries=0, solver_s=0.0, validated=0, branches=0,
               concretised=0, sat=0, unsat=0)
    for r in results:
        for k in tot:
            if k == "validated":
                tot[k] += r.get("validated", 0)
            else:
                tot[k] += r["stats"].get(k, 0)
    return tot


def vacuity(mod, results, cases):
    """Every case must have reached an assertion, and every label named in
    EXPECT_LABELS must have been reached by some case."""
    bad = []
    for r in results:
        if r["stats"].get("paths", 0) == 0 or r["stats"].get("checks", 0) == 0:
            bad.append("case %s reached no assertion" % r["case"])
    seen = set()
    for r in results:
        seen.update(r["labels"])
    for l in getattr(mod, "EXPECT_LABELS", ()):
        if l not in seen:
            bad.append("assertion never reached: %s" % l)
    fns = set()
    for r in results:
        fns.update(r["functions"])
    exp = getattr(mod, "EXPECT_FUNCTIONS", ())
    # (a refactoring may rename or inline some of them: only all of them gone is vacuous)
    if exp and not any(fn in fns for fn in exp):
        bad.append("none of the functions was executed: %s" % ", ".join(exp))
    return bad


def write_evidence(pid, tier, seed, mod, cases, results, confirmed, wall):
    fns = set()
    labels = {}
    for r in results:
        fns.update(r["functions"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    tot = summarize(results)
    samples = []
    for r in results:
        for s in r.get("samples", [])[:1]:
            if len(samples) < 5:
                samples.append(dict(case=r["case"], params=r.get("params"), path_model=s))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(
                  states=tot["paths"],
                  transitions=tot["branches"] + tot["concretised"],
                  traces_validated_against_impl=tot["validated"],
                  samples=samples,
                  explanation="states = feasible symbolic paths explored; transitions = solver-decided "
                              "branch and value decisions; traces_validated = path models re-run on the "
                              "unmodified package",
                  bounds=getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {}).get("quick", "")),
                  cases=[dict(case=r["case"], paths=r["stats"].get("paths", 0),
                              checks=r["stats"].get("checks", 0),
                              queries=r["stats"].get("queries", 0),
                              solver_s=round(r["stats"].get("solver_s", 0), 3),
                              wall_s=round(r["wall"], 2),
                              result=("inconclusive" if r.get("inconclusive") else
                                      "counterexample" if r.get("cex") else "holds"))
                         for r in results][:400],
                  assertions_reached=labels,
                  functions_encoded=sorted(fns),
                  queries_discharged=tot["queries"], sat=tot["sat"], unsat=tot["unsat"],
                  assertions_checked=tot["checks"],
                  solver_time_s=round(tot["solver_s"], 3)),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(wall, 3), violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    os.replace(p + ".tmp", p)
