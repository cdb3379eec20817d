"""C18 the enumeration's files say what was enumerated and are read back as written."""
import contextlib
import itertools
import os
from fractions import Fraction as F
from symex.core import Sym, zand
from symex.load import sx_int, sx_float
from symex.run import Case
from . import lat as lt

EXPECT_FUNCTIONS = ["io_utils.read_group", "io_utils.read_lattice", "io_utils.read_enum", "io_utils.write_enum", "io_utils.write_struct_enum",
                    "io_utils.create_labeling", "io_utils.read_enum_out", "enumeration._enum_out", "phenumStr.run"]
EXPECT_LABELS = ["the parent crystal is read as written", "every structure asked for is read as written", "only the structures asked for are read",
                 "every arrangement is listed once, with its supercell", "the structures are numbered in the order of their size",
                 "every line of the requests is enumerated as asked", "lattice.in is read with the values it contains",
                 "enum.in is read with the values it contains", "the group is read with the permutations it contains",
                 "struct_enum.in contains the crystal", "the labelling names the species and the direction of every site",
                 "the structures named on the command line are made"]
BOUNDS = {"quick": "crystals of 1-3 atoms with any real vectors and positions between -20 and 20 (7 decimals are kept), up to 9 species, supercell "
                   "numbers up to 3 digits and transforms up to 6 digits, labellings of up to 6 sites with every species and direction, lists of "
                   "up to 6 structures with every choice of up to 3 of them in any order; lattice files with every real vector and whole numbers "
                   "up to 999, comments and blank lines; requests with numbers up to 10**6; groups of up to 3 permutations of up to 12 sites",
          "thorough": "longer lists and labellings"}
ASSUMPTIONS = ["fewer than 1000 parent cells in a supercell, fewer than 10 species",
               "writing a number adds a rounding error of at most half a unit of the last digit (a free variable)"]
R7 = F(6, 10 ** 8)


@contextlib.contextmanager
def patched(mod, name, f):
    old = getattr(mod, name)
    setattr(mod, name, f)
    try:
        yield
    finally:
        setattr(mod, name, old)


def near(a, b, t):
    d = a - b
    return zand(d <= t, d >= -t)


def _same(ctx, a, b, label):
    """numbers or nested lists that must agree exactly"""
    if isinstance(a, (list, tuple)) or getattr(a, "ndim", 0):
        a = list(a)
        b = list(b)
        ctx.check(len(a) == len(b), label)
        if len(a) == len(b):
            for x, y in zip(a, b):
                _same(ctx, x, y, label)
        return
    ctx.check(a == b, label)


def crystal(ctx, lo=-20, hi=20, nb=1):
    vecs = [[ctx.real("v%d%d" % (i, j), lo, hi) for j in range(3)] for i in range(3)]
    base = [[ctx.real("b%d%d" % (i, j), lo, hi) for j in range(3)] for i in range(nb)]
    return vecs, base


def preamble(ctx, ph, nb, sizes, crestricted):
    """write_enum, then read_enum_out"""
    vecs, base = crystal(ctx, nb=nb)
    k = ctx.int("k", 1, 9)
    bulk = bool(ctx.bool("bulk"))
    params = dict(lat_vecs=vecs, basis_vecs=base, bulk=bulk, sizes=list(sizes), nspecies=k, is_crestricted=crestricted, arrows=False, concs=[])
    ph.io_utils.write_enum(params, outfile="list.out")
    lab = "".join(str(i % 3) for i in range(2 * nb))
    lines = ["         1  1  1  1  1  1  2  1    1  1  2    1  0  1  0  1  2   1 0 0 0 1 0 0 -1 1   %s   %s\n" % (lab, "0" * (2 * nb)),
             "         2  1  1  1  1  1  3  1    1  1  3    1  0  1  0  1  3   1 0 0 0 1 0 0 -1 1   %s   %s\n" % (lab + lab[:nb], "1" * (3 * nb))]
    with open("list.out", "a") as f:
        for l in lines:
            f.write(l)
    sysd, st = ph.io_utils.read_enum_out(dict(structures=None, input="list.out"))
    L = "the parent crystal is read as written"
    ctx.check(int(sysd["nD"]) == nb and len(sysd["dvecs"]) == nb, L)
    p = sysd["plattice"]
    for i in range(3):
        for j in range(3):
            ctx.check(near(p[j][i], vecs[i][j], R7), L)
    for i in range(nb):
        for j in range(3):
            ctx.check(near(sysd["dvecs"][i][j], base[i][j], R7), L)
    ctx.check(sysd["k"] == k, L)
    ctx.check(str(sysd["bulksurf"]).strip() == ("bulk" if bulk else "surface"), L)
    ctx.check(abs(float(sysd["eps"]) - 1e-7) < 1e-12, L)
    ctx.check([s["n"] for s in st] == [2, 3] and [s["labeling"] for s in st] == [lab, lab + lab[:nb]], "only the structures asked for are read")


def _int9(rows):
    return [x for r in rows for x in r]


def listing(ctx, ph, nb, reqs, arrows, wide, sel, supers):
    """_enum_out with the enumeration itself (and the Smith forms when wide) answered by the harness, then read_enum_out.
    reqs: [(hnf, conc, wanted, [labelling or number of free sites])]"""
    k = len(reqs[0][1])
    with open("lattice.in", "w") as f:
        f.write("1 9\nbulk\n1 0 0\n0 1 0\n0 0 1\n%d\n%d\n" % (k, nb))
        for i in range(nb):
            f.write("%s 0 0\n" % (i * 0.25))
        f.write("F\n" if not arrows else "T\nT\n" + "".join("0 1 1 %s\n" % (0.5 if i else 0) for i in range(k)))
    rows = []
    for i, (h, c, w, cf) in enumerate(reqs):
        h = [ctx.int("h%d_%d" % (i, j), 0, 998) if x == "off" else ctx.int("h%d_%d" % (i, j), 1, 999) if x == "diag" else x
             for j, x in enumerate(h)]
        rows.append((h, c, w, cf))
    with open("requests", "w") as f:
        f.write("# HNF   conc   number\n")
        for h, c, w, cf in rows:
            f.write(" %s   %s    %d\n" % (" ".join("{}".format(x) for x in h), " ".join(map(str, c)), w))
    calls = []
    snfs = []
    configs = []
    for i, (h, c, w, cf) in enumerate(rows):
        out = []
        for m, (free, lab, drs) in enumerate(cf):
            lab = [ctx.int("l%d_%d_%d" % (i, m, j), 1, k) if j in free else x for j, x in enumerate(lab)]
            if arrows:
                drs = [ctx.int("d%d_%d_%d" % (i, m, j), -1, 5) if j in free else x for j, x in enumerate(drs)]
                out.append([[d, l] for d, l in zip(drs, lab)])
            else:
                out.append(list(lab))
        configs.append(out)

    def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers=None, accept=None, *a, **kw):
        i = len(calls)
        calls.append((list(concs), list(a_concs), num_wanted, list(HNF), supers, accept))
        return [[list(x) if arrows else x for x in c] for c in configs[i]] if i < len(configs) else []
    real = ph.grouptheory.SmithNormalForm

    def smith(HNF):
        i = len(snfs)
        if not wide:
            r = real([[int(x) for x in q] for q in HNF])
        else:
            S = [ctx.int("s%d_0" % i, 1, 999) if i == 0 and 0 in wide else 1, 1, ctx.int("s%d_2" % i, 1, 999) if i == 0 and 0 in wide else 4]
            n = 10 ** 6 - 1
            L = [[ctx.int("t%d_%d" % (i, 3 * a + b), -n, n) if i == 0 and 3 * a + b in wide else (-1) ** b * a for b in range(3)] for a in range(3)]
            r = ([[S[0], 0, 0], [0, S[1], 0], [0, 0, S[2]]], L, [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
        snfs.append(([r[0][0][0], r[0][1][1], r[0][2][2]], _int9(r[1])))
        return r
    args = dict(seed=None, super=supers, lattice="lattice.in", input="requests", outfile="list.out", distribution=None, acceptrate=0.75,
                savedist=False, sizes=None, filter=None)
    with patched(ph.phonons, "enum_sys", enum_sys), patched(ph.grouptheory, "SmithNormalForm", smith):
        ph.enumeration._enum_out(args)
    if len(calls) == 0 or len(snfs) != len(reqs):
        return          # the enumeration is reached another way: nothing to judge here
    L = "every line of the requests is enumerated as asked"
    ctx.check(len(calls) == len(reqs), L)
    for (c, ac, w, h, su, acc), (h0, c0, w0, cf) in zip(calls, rows):
        _same(ctx, c, c0, L)
        _same(ctx, h, h0, L)
        ctx.check(w == w0 and bool(su) == bool(supers) and acc == 0.75, L)
        ctx.check([float(x) for x in ac] == [0.5 if i and arrows else 0 for i in range(k)], L)
    # what is read back
    total = sum(len(c) for c in configs)
    if sel is None:
        want = list(range(1, total + 1))
        st = ph.io_utils.read_enum_out(dict(structures=None, input="list.out"))[1]
    else:
        pick = [ctx.int("sel%d" % i, 1, total + 1) for i in range(sel)]
        for i in range(sel):
            for j in range(i):
                ctx.assume(pick[i] != pick[j])
        st = ph.io_utils.read_enum_out(dict(structures=list(pick), input="list.out"))[1]
        want = sorted(int(x) for x in pick)
        want = [x for x in want if x <= total]
    ctx.check(len(st) == len(want), "only the structures asked for are read")
    if len(st) != len(want):
        return
    allst = st if sel is None else ph.io_utils.read_enum_out(dict(structures=None, input="list.out"))[1]
    ctx.check(len(allst) == total, "every arrangement is listed once, with its supercell")
    if len(allst) != total:
        return
    for s, w in zip(st, want):
        ctx.check(s["strN"] == w, "only the structures asked for are read")
    # the expected list
    exp = []
    for i, (h, c, w, cf) in enumerate(rows):
        for cfg in configs[i]:
            if arrows:
                lab, drs = [x[1] for x in cfg], [x[0] for x in cfg]
            else:
                lab, drs = list(cfg), [-1] * len(cfg)
            exp.append((h[0] * h[2] * h[5], h, snfs[i], [int(x) - 1 for x in lab], [int(x) + 1 for x in drs]))
    used = set()
    last, cnt = None, 0
    N = "the structures are numbered in the order of their size"
    M = "every arrangement is listed once, with its supercell"
    for pos, s in enumerate(allst):
        lab = [int(sx_int(x)) for x in s["labeling"]]
        drs = [int(sx_int(x)) for x in s["directions"]]
        H = [s["HNF"][0][0], s["HNF"][1][0], s["HNF"][1][1]] + list(s["HNF"][2])
        hit = None
        for e, (sz, h, (S, L9), l, d) in enumerate(exp):
            if e not in used and l == lab and d == drs and bool(zand(*[x == y for x, y in zip(h, H)])):
                hit = e
                break
        ctx.check(hit is not None, M)
        if hit is None:
            return
        used.add(hit)
        sz, h, (S, L9), l, d = exp[hit]
        ctx.check(zand(*[x == y for x, y in zip(list(s["diag"]) + _int9(s["L"]), list(S) + list(L9))]), M)
        ctx.check(zand(s["n"] == sz, s["strN"] == pos + 1), M)
        if last is not None:
            ctx.check(last <= sz, N)
        cnt = cnt + 1 if last is not None and bool(last == sz) else 1
        last = sz
        ctx.check(s["sizeN"] == cnt, N)
    by = {pos + 1: s for pos, s in enumerate(allst)}
    for s, w in zip(st, want):
        o = by[w]
        for key in ("strN", "hnfN", "hnf_degen", "lab_degen", "tot_degen", "sizeN", "n", "pgOps"):
            ctx.check(s[key] == o[key], "every structure asked for is read as written")
        _same(ctx, _int9(s["HNF"]) + _int9(s["L"]) + list(s["diag"]), _int9(o["HNF"]) + _int9(o["L"]) + list(o["diag"]),
              "every structure asked for is read as written")
        for key in ("labeling", "directions"):
            _same(ctx, [sx_int(x) for x in s[key]], [sx_int(x) for x in o[key]], "every structure asked for is read as written")


def fields(ctx, ph, which, digits):
    """read_enum_out on a line whose numbers are symbolic"""
    names = ["strN", "hnfN", "hnf_degen", "lab_degen", "tot_degen", "sizeN", "n", "pgOps"] + ["S%d" % i for i in range(3)] + \
        ["H%d" % i for i in range(6)] + ["L%d" % i for i in range(9)]
    vals = [i + 3 for i in range(26)]
    for w in which:
        lo = -(10 ** digits) + 1 if w >= 17 else 0
        vals[w] = ctx.int("f%d" % w, lo, 10 ** digits - 1)
    with open("list.out", "w") as f:
        f.write("title\nbulk\n 1.0 0.0 0.0\n 0.0 1.0 0.0\n 0.0 0.0 1.0\n  2\n 0.0 0.0 0.0\n 0.5 0.0 0.25\n 3-nary case\n  1  4\n 1e-7\n"
                "Concentration check:\n  F\nfull\nEquivalency list\nstart  #tot\n")
        f.write("1 " * 26 + " 0101 0000\n")
        f.write("  ".join("{}".format(v) for v in vals) + "   0120   3040\n")
        f.write("2 " * 26 + " 0110 0600\n")
    sysd, st = ph.io_utils.read_enum_out(dict(structures=[2], input="list.out"))
    L = "every structure asked for is read as written"
    ctx.check(len(st) == 1, "only the structures asked for are read")
    if len(st) != 1:
        return
    s = st[0]
    ctx.check(s["labeling"] == "0120" and s["directions"] == "3040", L)
    got = [s[n] for n in names[:8]] + list(s["diag"]) + [s["HNF"][0][0], s["HNF"][1][0], s["HNF"][1][1]] + list(s["HNF"][2]) + _int9(s["L"])
    _same(ctx, got, vals, L)
    ctx.check([s["HNF"][0][1], s["HNF"][0][2], s["HNF"][1][2]] == [0, 0, 0], L)


def _w(x):
    return "{}".format(x)


def lattice(ctx, ph, nb, k, mode, clutter):
    """read_lattice; mode: None (no restrictions), 'conc', 'arrows'"""
    vecs, base = crystal(ctx, nb=nb)
    s0, s1 = ctx.int("s0", 1, 99), ctx.int("s1", 1, 999)
    bulk = bool(ctx.bool("bulk"))
    sep = "   " if clutter else " "
    body = [sep.join([_w(s0), _w(s1)]), "bulk" if bulk else "surf"]
    body += [sep.join(_w(x) for x in v) for v in vecs] + [_w(k), _w(nb)]
    body += [sep.join(_w(x) for x in v) for v in base]
    concs = []
    if mode is None:
        body.append("F")
    else:
        body += ["T", "F" if mode == "conc" else "T"]
        for i in range(k):
            a, b, d = ctx.int("lo%d" % i, 0, 9), ctx.int("hi%d" % i, 0, 99 if i == 0 else 9), ctx.int("den%d" % i, 1, 99 if i == 0 else 9)
            c = [a, b, d] + ([ctx.real("fr%d" % i, 0, 1)] if mode == "arrows" else [])
            concs.append(c)
            body.append(sep.join(_w(x) for x in c))
    text = []
    for i, l in enumerate(body):
        if clutter:
            text.append("# comment %d\n" % i)
            if i % 3 == 0:
                text.append("   # another\n")
            if i % 4 == 1:
                text.append("\n")
            l = "  " + l + "  "
        text.append(l + "\n")
    with open("my.in", "w") as f:
        for l in text:
            f.write(l)
    r = ph.io_utils.read_lattice("my.in")
    L = "lattice.in is read with the values it contains"
    _same(ctx, r["lat_vecs"], vecs, L)
    _same(ctx, r["basis_vecs"], base, L)
    _same(ctx, r["sizes"], [s0, s1], L)
    ctx.check(r["nspecies"] == k and bool(r["bulk"]) == bulk, L)
    ctx.check(bool(r["is_crestricted"]) == (mode is not None) and bool(r["arrows"]) == (mode == "arrows"), L)
    _same(ctx, r["concs"], concs, L)
    # the file for enum.x
    ph.io_utils.write_struct_enum(r)
    with open("struct_enum.in") as f:
        t = [l.split() for l in f.read().split("\n") if l.strip()]
    L = "struct_enum.in contains the crystal"
    ctx.check(len(t) == 10 + nb and t[1] == ["bulk" if bulk else "surface"], L)
    if len(t) != 10 + nb:
        return
    _same(ctx, [[sx_float(x) for x in w] for w in t[2:5]], vecs, L)
    ctx.check(int(t[5][0]) == k and int(t[6][0]) == nb, L)
    _same(ctx, [[sx_float(x) for x in w[:3]] for w in t[7:7 + nb]], base, L)
    ctx.check(all(w[3:] == ["/".join(str(i) for i in range(k))] for w in t[7:7 + nb]), L)
    _same(ctx, [sx_int(x) for x in t[7 + nb]], [s0, s1], L)
    ctx.check(t[9 + nb] == ["full"], L)


def requests(ctx, ph, rows, k, free):
    """read_enum"""
    m = [[ctx.int("r%d_%d" % (i, j), 0, 10 ** 6 if j == 6 + k else 99) if j in free else (i + 2) * (j + 1) for j in range(7 + k)] for i in range(rows)]
    with open("requests", "w") as f:
        f.write("# HNF     conc   number\n")
        for i, r in enumerate(m):
            f.write("   " * (i % 2) + "   ".join(_w(x) for x in r) + "\n")
            if i == 0:
                f.write("# a comment\n")
    out = ph.io_utils.read_enum("requests")
    L = "enum.in is read with the values it contains"
    ctx.check(len(out) == rows, L)
    for (h, c, n), r in zip(out, m):
        _same(ctx, list(h) + list(c) + [n], r, L)
        ctx.check(len(h) == 6 and len(c) == k, L)


def permutations(ctx, ph, n, m, wrap, free):
    """read_group"""
    g = []
    for i in range(m):
        p = ctx.perm("p", n) if i == free else [(x * (i + 1) + i) % n for x in range(n)]
        g.append([x if isinstance(x, Sym) else int(x) for x in p])
    with open("rot_perms.2", "w") as f:
        f.write("The integer vectors in the final columns of each\npermutation listing describe how a list 1, 2, ...\ngets permuted. So \"2 1\" implies "
                "that element 2 is\nmapped to position 1, and the first one ends up in \nsecond position.\nNumber of permutations:    %d\n" % m)
        for i, p in enumerate(g):
            w = [_w(x + 1) for x in p]
            f.write("Perm #: %5d Perm: %s\n" % (i + 1, "  ".join(w[:wrap])))
            for j in range(wrap, n, wrap):
                f.write("        " + "  ".join(w[j:j + wrap]) + "\n")
    out = ph.io_utils.read_group("rot_perms.2")
    _same(ctx, out, g, "the group is read with the permutations it contains")


def label(ctx, ph, n, arrows, tuples):
    sp = [ctx.int("l%d" % i, 1, 9) for i in range(n)]
    dr = [ctx.int("d%d" % i, -1, 5) for i in range(n)]
    cfg = [[d, s] for d, s in zip(dr, sp)] if arrows else list(sp)
    lab, arr = ph.io_utils.create_labeling(cfg)
    L = "the labelling names the species and the direction of every site"
    ctx.check(len(lab) == n and len(arr) == n, L)
    if len(lab) == n and len(arr) == n:
        _same(ctx, [sx_int(x) + 1 for x in lab], sp, L)
        _same(ctx, [sx_int(x) - 1 for x in arr], dr if arrows else [-1] * n, L)


def command(ctx, ph, kind, total):
    """phenumStr.run with the structures as given on the command line"""
    with open("my.out", "w") as f:
        f.write("title\nbulk\n 1.0 0.0 0.0\n 0.0 1.0 0.0\n 0.0 0.0 1.0\n  1\n 0.0 0.0 0.0\n 2-nary case\n  1  4\n 1e-7\n"
                "Concentration check:\n  F\nfull\nEquivalency list\nstart  #tot\n")
        for i in range(total):
            n = i % 3 + 1
            f.write("%d 1 1 1 1 %d %d 1   1 1 %d  1 0 1 0 0 %d  1 0 0 0 1 0 0 0 1  %s  %s\n" % (i + 1, i + 1, n, n, n, "010"[:n], "000"[:n]))
    L = "the structures named on the command line are made"
    if kind == "all":
        st = ["all"]
        want = range(1, total + 1)
    elif kind == "one":
        a = ctx.int("a", 1, total)
        st = [_w(a)]
        want = [int(a)]
    elif kind == "two":
        a, b = ctx.int("a", 1, total), ctx.int("b", 1, total)
        ctx.assume(a <= b)
        st = [_w(a), _w(b)]
        want = range(int(a), int(b) + 1)
    else:
        st = {"none": None, "three": ["1", "2", "3"], "word": ["some"]}[kind]
        want = None
    args = dict(structures=st, displace=0.0, input="my.out", mink="t", species=None, species_mapping=None, outfile="vasp.{}", rattle=0.0,
                config="f", remove_zeros="f", verbose=None)
    try:
        ph.phenumStr.run(args)
    except ValueError:
        ctx.check(want is None, L)
        return
    ctx.check(want is not None, L)
    got = sorted(int(x.split(".")[1]) for x in os.listdir(".") if x.startswith("vasp."))
    for x in got:
        os.remove("vasp.%d" % x)
    if want is not None:
        ctx.check(got == list(want), L)


def cases(tier):
    out = []
    q = tier == "quick"
    O = dict(strings=True, whole=True)

    def add(name, harness, params, w=10):
        out.append(Case(name, harness, params, weight=w, **O))
    for nb in (1, 2, 3):
        for cr in (False, True):
            add("pre_%d_%s" % (nb, cr), "preamble", dict(nb=nb, sizes=[1, 4] if nb < 3 else [3, 12], crestricted=cr))
    h1, h2, h2b, h3, h4 = [1, 0, 1, 0, 0, 1], [1, 0, 1, 0, 0, 2], [1, 0, 1, 0, 1, 2], [1, 0, 1, 1, 2, 3], [1, 0, 2, 0, 1, 2]
    c2 = lambda free, lab, drs=None: (free, lab, drs or [-1] * len(lab))
    Ls = [("plain", 1, [(h3, [2, 1], 3, [c2([0, 1], [1, 1, 2]), c2([2], [2, 1, 1])]), (h2, [1, 1], 1, [c2([0], [1, 2])]),
                        (h2b, [1, 1], 2, [c2([1], [1, 2]), c2([], [2, 1])])], False, (), None, False),
          ("sel2", 1, [(h3, [2, 1], 3, [c2([0], [1, 1, 2]), c2([2], [2, 1, 1])]), (h2, [1, 1], 5, [c2([0], [1, 2])]),
                       (h1, [1, 0], 2, [c2([], [1])])], False, (), 2, True),
          ("sel3", 2, [(h2, [3, 1], 3, [c2([0], [1, 1, 2, 1]), c2([], [2, 1, 1, 1])]), (h1, [1, 1], 5, [c2([0], [1, 2]), c2([], [2, 2])])],
           False, (), 3, False),
          ("arrows", 1, [(h3, [1, 2], 3, [c2([0], [1, 1, 2], [-1, 0, 3]), c2([2], [2, 1, 1], [5, -1, 4])]),
                          (h2, [1, 1], 1, [c2([1] if not q else [], [1, 2])])],
           True, (), None, True),
          ("arrows2", 2, [(h2, [2, 2], 3, [c2([1, 3] if not q else [3], [1, 1, 2, 2], [-1, 0, 3, 1])]), (h1, [1, 1], 1, [c2([1], [1, 2], [2, 2])])],
           True, (), 1, False),
          ("nary", 1, [(h4, [1, 1, 1, 1], 100000, [c2([0, 3], [1, 3, 2, 4]), c2([], [4, 4, 1, 2])])], False, (), None, False),
          ("many", 1, [(h2, [1, 1], 12, [c2([], [1 + i % 2, 1 + i // 2 % 2]) for i in range(4)]), (h3, [2, 1], 9,
                       [c2([], [1 + i % 2, 1 + i // 2 % 2, 1 + i // 4]) for i in range(8)])], False, (), 1, False),
          ("wideH", 1, [([1, "off", 1, 0, 0, "diag"], [1, 1], 3, [c2([], [1, 1, 2]), c2([], [2, 1, 1])])], False, (9,), None, False),
          ("wideH2", 1, [([1, 0, "diag", "off", "off", 1], [1, 1], 3, [c2([], [1, 1, 2])])], False, (9,), None, False),
          ("wideS", 1, [(h3, [1, 1], 3, [c2([], [1, 1, 2]), c2([], [2, 1, 1])]), (h2, [1, 1], 3, [c2([], [1, 2])])], False, (0, 1), None, False),
          ("wideL1", 1, [(h3, [1, 1], 3, [c2([], [1, 1, 2])])], False, (2, 3), None, False),
          ("wideL2", 1, [(h3, [1, 1], 3, [c2([], [1, 1, 2])])], False, (4, 5), None, False),
          ("wideL3", 1, [(h3, [1, 1], 3, [c2([], [1, 1, 2])])], False, (6, 7, 8), None, False)]
    for name, nb, reqs, arr, wide, sel, sup in Ls:
        add("list_" + name, "listing", dict(nb=nb, reqs=reqs, arrows=arr, wide=list(wide), sel=sel, supers=sup), 1000)
    for w in ([0, 1], [2, 3], [4, 5], [6, 7], [8, 9, 10], [11, 12, 13], [14, 15, 16], [17, 18, 19], [20, 21, 22], [23, 24, 25]):
        add("field_%d" % w[0], "fields", dict(which=w, digits=3), 50)
    for nb, k in ((1, 2), (2, 3), (3, 1)):
        for mode in (None, "conc", "arrows"):
            for cl in (False, True):
                if mode and k > 2 and not cl:
                    continue
                add("lattice_%d_%d_%s%s" % (nb, k, mode, "c" if cl else ""), "lattice", dict(nb=nb, k=k, mode=mode, clutter=cl), 50)
    for rows, k, fr in ((1, 2, [0, 5, 8]), (3, 2, [6]), (2, 3, [4, 9]), (1, 1, [6, 7]), (2, 1, [2, 3])):
        add("requests_%d_%d" % (rows, k), "requests", dict(rows=rows, k=k, free=fr), 50)
    for n, m, wr, fr in ((3, 3, 4, 1), (4, 2, 2, 0), (5, 2, 3, 1), (12, 3, 5, -1), (11, 1, 11, -1), (2, 1, 1, 0)):
        add("group_%d_%d" % (n, m), "permutations", dict(n=n, m=m, wrap=wr, free=fr), 100)
    for n in (1, 3, 6):
        for a in (False, True):
            add("label_%d_%s" % (n, a), "label", dict(n=n, arrows=a, tuples=False))
    for kind in ("all", "one", "two", "none", "three", "word"):
        add("command_" + kind, "command", dict(kind=kind, total=5))
    add("command_two_12", "command", dict(kind="two", total=11))
    return out
