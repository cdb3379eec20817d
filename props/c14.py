"""C14 distributing a sample takes exactly what was asked, never more than there is."""
import os
from symex.core import zand, zsum
from symex.run import Case

EXPECT_FUNCTIONS = ["structures._distribute", "structures._distribution", "structures._distribution_summary",
                    "structures.make_enum_in", "structures._print_distribution"]
EXPECT_LABELS = ["the distribution adds up to the number asked for", "no entry gives more than it has",
                 "every entry is one of the structures asked for", "without a number every entry gives all",
                 "the file written contains the distribution"]
BOUNDS = {"quick": "polya files of one or two sizes with 1-2 shapes and 2-3 compositions, counts 0-2 (two entries: 0-6) per entry (every value), "
                   "every number asked for (symbolic), every outcome of the random draws (symbolic reals), the four kinds of "
                   "distribution, restrictions to shapes or compositions; counts beyond 2**63 in fixed proportions",
          "thorough": "more entries, counts up to 4"}
ASSUMPTIONS = ["the polya file is consistent (totals are the sums of its entries)"]


def _write(ctx, name, sizes, shapes, concs, vals):
    """vals[size][shape][conc]"""
    for s in sizes:
        with open("%s.%d" % (name, s), "w") as f:
            f.write('{0: <28}'.format("# HNF"))
            for c in concs[s]:
                f.write("{0: <50}".format(':'.join(map(str, c))))
            f.write('{0: <50}\n'.format("Total"))
            for i, h in enumerate(shapes[s]):
                f.write("  {0: <26}".format(' '.join(map(str, h))))
                for v in vals[s][i]:
                    f.write("{0: <49d} ".format(v))
                f.write('{0: <10d}\n'.format(sum(vals[s][i])))
            f.write("# ------------------\n")
            f.write("{0: <28}".format("  0 0 0 0 0 0"))
            tot = [sum(vals[s][i][k] for i in range(len(shapes[s]))) for k in range(len(concs[s]))]
            for t in tot:
                f.write("{0: <49d} ".format(t))
            f.write("{0: <50d}\n".format(sum(tot)))


SHAPES = {1: [(1, 0, 1, 0, 0, 1)], 2: [(1, 0, 1, 0, 0, 2), (1, 0, 1, 0, 1, 2)], 3: [(1, 0, 1, 0, 0, 3), (1, 0, 1, 0, 1, 3), (1, 0, 1, 1, 1, 3)]}
CONCS = {1: [(0, 1), (1, 0)], 2: [(0, 2), (1, 1), (2, 0)], 3: [(1, 2), (2, 1), (0, 3)]}


def _limits(sizes, shapes, concs, vals, ftype, only, restrict):
    """key -> how many there are, of the allowed ones"""
    lim = {}
    for s in sizes:
        for i, h in enumerate(shapes[s]):
            for k, c in enumerate(concs[s]):
                if restrict == "shape" and h not in only or restrict == "conc" and c not in only:
                    continue
                key = {"all": (s, h, c), "shape": (s, h, None), "conc": (s, None, c), "size": (s, None, None)}[ftype]
                lim[key] = lim.get(key, 0) + vals[s][i][k]
    return lim


def _setup(ctx, sizes, nshape, nconc, top, big):
    shapes = {s: SHAPES[s][:nshape] for s in sizes}
    concs = {s: CONCS[s][:nconc] for s in sizes}
    vals = {s: [[int(ctx.int("v%d_%d_%d" % (s, i, k), 0, top)) * big for k in range(nconc)] for i in range(len(shapes[s]))]
            for s in sizes}
    return shapes, concs, vals


def distribute(ctx, ph, sizes, nshape, nconc, top, ftype, number=True, restrict=None, only=None, big=1):
    shapes, concs, vals = _setup(ctx, sizes, nshape, nconc, top, big)
    only = None if only is None else [tuple(x) for x in only]
    lim = _limits(sizes, shapes, concs, vals, ftype, only, restrict)
    total = sum(lim.values())
    ctx.assume(total > 0)
    _write(ctx, "polya.out", sizes, shapes, concs, vals)
    if not number:
        n = None
    elif big == 1:
        n = ctx.int("n", 1, total + 2)
    else:                                            # beyond the machine integers: a few of the numbers one may ask for
        n = int(ctx.int("nk", 0, 3)) * big + int(ctx.int("no", -1, 1))
        ctx.assume(n > 0)
    kw = {}
    if restrict:
        kw = dict(res_type=restrict, res_values=only)
    d = ph.structures._distribute("polya.out", sizes, ftype, n=n, **kw)
    res = {}
    for (s, h, c), v in d.items():
        res[(int(s), None if h is None else tuple(int(x) for x in h), None if c is None else tuple(int(x) for x in c))] = v
    ctx.check(all(k in lim for k in res), "every entry is one of the structures asked for")
    ctx.check(zand(True, *[v >= 0 for v in res.values()]), "no entry gives more than it has")
    ctx.check(zand(True, *[v <= lim[k] for k, v in res.items()]), "no entry gives more than it has")
    got = zsum(list(res.values())) if res else 0
    if n is None:
        ctx.check(got == total, "without a number every entry gives all")
        ctx.check(zand(True, *[v == res.get(k, 0) for k, v in lim.items()]), "without a number every entry gives all")
    else:
        want = n if bool(n <= total) else total
        ctx.check(got == want, "the distribution adds up to the number asked for")


def written(ctx, ph, sizes, nshape, nconc, top, number, restrict=None, only=None, listed=True):
    """make_enum_in: the enum.in file"""
    shapes, concs, vals = _setup(ctx, sizes, nshape, nconc, top, 1)
    only = None if only is None else [tuple(x) for x in only]
    lim = _limits(sizes, shapes, concs, vals, "all", only, restrict)
    total = sum(lim.values())
    ctx.assume(total > 0)
    _write(ctx, "polya.out", sizes, shapes, concs, vals)
    n = int(ctx.int("n", 1, total)) if number else None
    kw = {}
    if restrict:
        with open("filter", "w") as f:
            f.write("# only these\n")
            for o in only:
                f.write("  %s  5\n" % " ".join(map(str, o)) if restrict == "shape" else "  2   %s   5\n" % " ".join(map(str, o)))
        kw["restrict"] = [restrict, "filter"]
    ph.structures.make_enum_in("polya.out", "all", "enum.in", number=n, sizes=sizes if listed else None, **kw)
    sysl = ph.io_utils.read_enum("enum.in")
    res = {}
    for h, c, w in sysl:
        h, c = tuple(int(x) for x in h), tuple(int(x) for x in c)
        key = (h[0] * h[2] * h[5], h, c)
        ctx.check(key in lim and key not in res, "the file written contains the distribution")
        res[key] = int(w)
    ctx.check(all(0 < v <= lim[k] for k, v in res.items()), "the file written contains the distribution")
    ctx.check(sum(res.values()) == (total if n is None else n), "the file written contains the distribution")


def cases(tier):
    out = []
    q = tier == "quick"
    for ftype in ("all", "shape", "conc", "size"):
        for sizes, ns, nc, top in [([1, 2], 1, 2, 1), ([2], 2, 2, 1), ([2], 2, 1, 6), ([2], 1, 3, 2), ([1, 2, 3], 1, 1, 2)] + \
                ([] if q else [([1, 2], 1, 2, 2), ([2], 2, 2, 2), ([3], 3, 2, 1), ([2], 1, 3, 4), ([1, 2, 3], 1, 1, 4)]):
            out.append(Case("dist_%s_%s_%d_%d_%d" % (ftype, "".join(map(str, sizes)), ns, nc, top), "distribute",
                            dict(sizes=sizes, nshape=ns, nconc=nc, top=top, ftype=ftype), weight=(top + 1) ** (len(sizes) * ns * nc)))
        out.append(Case("all_%s" % ftype, "distribute", dict(sizes=[2, 3], nshape=2, nconc=2, top=1, ftype=ftype, number=False), weight=300))
        out.append(Case("all_%s_3" % ftype, "distribute", dict(sizes=[2], nshape=2, nconc=2, top=3, ftype=ftype, number=False), weight=300))
        for restrict, only in [("shape", [(1, 0, 1, 0, 1, 2)]), ("conc", [(1, 1), (1, 2)])]:
            for number in (True, False):
                out.append(Case("only_%s_%s%s" % (ftype, restrict, "" if number else "_all"), "distribute",
                                dict(sizes=[2, 3] if restrict == "conc" else [2], nshape=1 if restrict == "conc" else 2, nconc=2, top=2,
                                     ftype=ftype, number=number, restrict=restrict, only=only), weight=300))
        out.append(Case("big_%s" % ftype, "distribute", dict(sizes=[1, 2], nshape=1, nconc=2, top=2, ftype=ftype, number=False,
                                                             big=3 * 10 ** 18 + 1), weight=300))
        out.append(Case("bign_%s" % ftype, "distribute", dict(sizes=[1, 2], nshape=1, nconc=1, top=2, ftype=ftype, number=True,
                                                             big=10 ** 20 + 7), weight=300))
        out.append(Case("huge_%s" % ftype, "distribute", dict(sizes=[1, 2], nshape=1, nconc=2, top=1, ftype=ftype, number=False,
                                                              big=7 * 10 ** 51 + 3), weight=300))
    for number in (True, False):
        for restrict, only in [(None, None), ("shape", [(1, 0, 1, 0, 1, 2), (1, 0, 1, 0, 0, 3)]), ("conc", [(1, 1)])]:
            big = number and restrict is None
            out.append(Case("file_%s%s" % (restrict, "" if number else "_all"), "written",
                            dict(sizes=[2], nshape=1 if big and q else 2, nconc=3 if big and q else 2, top=1 if number and restrict is None else 2, number=number, restrict=restrict, only=only,
                                 listed=restrict != "conc"), weight=100))
    return out
