"""C09 the enumeration with displacements: one of every class of combined arrangements."""
import math
from symex.core import zand, zor, znot, zsum, zimplies
from symex.run import Case
from . import lat as lt

EXPECT_FUNCTIONS = ["tree.brancher", "tree._perm", "phonons.add_arrows", "phonons._ahash", "phonons._ainvhash",
                    "phonons.arrow_concs", "phonons.how_many_arrows", "phonons._col_sort", "phonons._find_concentrations"]
EXPECT_LABELS = ["every arrangement is equivalent to a listed one or superperiodic", "no two listed ones are equivalent",
                 "no listed one is superperiodic", "a listed one has the composition",
                 "with superperiodic ones: every arrangement is equivalent to a listed one",
                 "the number of displaced atoms of a species is the requested part",
                 "undisplaced colours come first"]
BOUNDS = {"quick": "groups of real supercells of cubic, tetragonal and orthorhombic crystals (up to 6 sites) acting on "
                   "sites and six directions, compositions with 1-3 displaced atoms (one or two displaced species, partly "
                   "displaced species included); every group generated by a symbolic site permutation with a symbolic "
                   "permutation of 2-3 directions; symbolic composition and fractions for the split",
          "thorough": "up to 8 sites, 4 displaced atoms, two generators"}
ASSUMPTIONS = ["the group handed over is a group with its translations first (C06 shows that for the package's groups)"]


def _decor(colors):
    """colors: list of (count, species, displaced)"""
    return [[0 if dis else -1, s] for n, s, dis in colors for _ in range(n)]


def _act(st, g, k, dim):
    """arrangement: per site (colour index, direction or -1)"""
    p, q = g
    return tuple((st[j][0], q[st[j][1]] if st[j][1] >= 0 else -1) for j in p)


def _judge(ctx, surv, group, colors, dim, supers, trans):
    n = sum(c[0] for c in colors)
    S = []
    for s in surv:
        ctx.check(len(s) == n, "a listed one has the composition")
        st = []
        for d, sp in s:
            k = [i for i, c in enumerate(colors) if c[1] == sp and bool(c[2]) == (d >= 0)]
            ctx.check(len(k) == 1 and -1 <= d < dim, "a listed one has the composition")
            st.append((k[0], d))
        ctx.check(all(sum(1 for x in st if x[0] == i) == c[0] for i, c in enumerate(colors)),
                  "a listed one has the composition")
        S.append(tuple(st))
    # one symbolic code per site: colour * (dim+1) + direction + 1
    w = dim + 1
    code = [ctx.int("s%d" % i, 0, len(colors) * w - 1) for i in range(n)]
    for k, c in enumerate(colors):
        lo, hi = (k * w + 1, k * w + dim) if c[2] else (k * w, k * w)
        ctx.assume(zsum([zand(x >= lo, x <= hi) for x in code]) == c[0])

    def enc(x):
        return x[0] * w + x[1] + 1
    hit = []
    for st in S:
        orb = set(_act(st, g, None, dim) for g in group)
        hit.append(zor(*[zand(*[code[i] == enc(o[i]) for i in range(n)]) for o in sorted(orb)]))
    tot = zsum(hit) if hit else 0
    ctx.check(tot <= 1, "no two listed ones are equivalent")
    if supers:
        ctx.check(zor(*hit), "with superperiodic ones: every arrangement is equivalent to a listed one")
    else:
        sp = zor(*[zand(*[code[i] == code[j] for i, j in enumerate(t) if i != j]) for t in trans])
        ctx.check(zor(sp, *hit), "every arrangement is equivalent to a listed one or superperiodic")
        ctx.check(znot(zand(sp, zor(*hit))), "no listed one is superperiodic")


def _run(ph, grp, colors, dim, supers, ncell):
    r = ph.tree.brancher([c[0] for c in colors], [[list(p), list(q)] for p, q in grp], _decor(colors), dim, supers, ncell)
    return [[(int(a), int(b)) for a, b in s] for s in r]


def cell(ctx, ph, lat, basis, H, colors, supers):
    grp = lt.group(lat, basis, H, True)
    n = H[0][0] * H[1][1] * H[2][2]
    surv = ctx.once("enum", lambda: _run(ph, grp, colors, 6, supers, n))
    ident = list(range(len(grp[0][0])))
    _judge(ctx, surv, grp, colors, 6, supers, [g[0] for g in grp[:n] if g[0] != ident])


def _closure(gens, n, dim):
    ident = (tuple(range(n)), tuple(range(dim)))
    out = [ident]
    seen = {ident}
    for g in out:
        for h in gens:
            x = (tuple(g[0][h[0][i]] for i in range(n)), tuple(h[1][g[1][i]] for i in range(dim)))
            if x not in seen:
                seen.add(x)
                out.append(x)
    return out


def anygroup(ctx, ph, n, dim, ngen, colors):
    gens = []
    for k in range(ngen):
        p = [int(x) for x in ctx.perm("p%d_" % k, n)]
        q = [int(x) for x in ctx.perm("q%d_" % k, dim)]
        gens.append((p, q))
    grp = [[list(p), list(q)] for p, q in _closure(gens, n, dim)]
    surv = ctx.once("enum%s" % (sorted(grp),), lambda: _run(ph, grp, colors, dim, True, 1))
    _judge(ctx, surv, grp, colors, dim, True, [])


def only_arrows(ctx, ph, lat, basis, H, n_sites, supers):
    """every atom displaced: add_arrows on its own, as the program calls it"""
    grp = lt.group(lat, basis, H, True)
    n = H[0][0] * H[1][1] * H[2][2]
    colors = [(n_sites, 1, True)]

    def run():
        r = ph.phonons.add_arrows([[1, 1] for _ in range(n_sites)], [[list(p), list(q)] for p, q in grp], 6,
                                  [[list(p), list(q)] for p, q in grp[:n]], supers=supers)
        return [[(int(a), int(b)) for a, b in s] for s in r]
    surv = ctx.once("enum", run)
    ident = list(range(n_sites))
    _judge(ctx, surv, grp, colors, 6, supers, [g[0] for g in grp[:n] if g[0] != ident])


def split(ctx, ph, K, hi, den, fracs):
    """conc symbolic; displaced fractions j/den"""
    conc = [ctx.int("c%d" % i, 0, hi) for i in range(K)]
    fr = []
    j = []
    for i in range(K):
        k = fracs[i] if i < len(fracs) and fracs[i] is not None else ctx.choose("f%d" % i, den + 1)
        j.append(int(k))
        fr.append(int(k) / den)
    dec = ph.phonons.arrow_concs(list(conc), fr)
    conc = [int(c) for c in conc]
    ctx.check(len(dec) == sum(conc), "as many sites as atoms")
    for i in range(K):
        na = conc[i] * j[i] // den
        ctx.check(sum(1 for d in dec if d[1] == i + 1 and d[0] >= 0) == na,
                  "the number of displaced atoms of a species is the requested part")
        ctx.check(sum(1 for d in dec if d[1] == i + 1 and d[0] < 0) == conc[i] - na,
                  "the number of displaced atoms of a species is the requested part")
    flags = [d[0] >= 0 for d in dec]
    ctx.check(flags == sorted(flags), "undisplaced colours come first")
    narr, ntypes, cc = ph.phonons.how_many_arrows([list(d) for d in dec])
    ctx.check(narr == sum(flags), "the displaced atoms are counted")
    ctx.check(ntypes == len(set(d[1] for d in dec if d[0] >= 0)), "the displaced species are counted")
    # the concentrations, in the order the colours first appear
    order = []
    for d in dec:
        if d not in order:
            order.append(d)
    ctx.check(list(cc) == [dec.count(o) for o in order], "the colours are counted in order")
    ctx.check([list(x) for x in ph.tree._color_list([list(d) for d in dec])] == order, "the colours are listed in order")


SH = [("sc", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 1]]), ("sc", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 2]]),
      ("sc", "o", [[1, 0, 0], [0, 1, 0], [0, 1, 3]]), ("fcc", "o", [[1, 0, 0], [0, 1, 0], [0, 1, 2]]),
      ("fcc", "o", [[1, 0, 0], [0, 1, 0], [1, 2, 4]]), ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
      ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [1, 0, 2]]), ("sc", "cscl", [[1, 0, 0], [0, 1, 0], [0, 1, 2]]),
      ("bcc", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 2]]), ("tet", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 4]]),
      ("ort", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 2]]), ("ort", "pair", [[1, 0, 0], [0, 1, 0], [0, 0, 2]]),
      ("sc", "gen2", [[1, 0, 0], [0, 1, 0], [0, 1, 2]]), ("sc", "tri3", [[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
      ("sc", "o", [[1, 0, 0], [0, 1, 0], [2, 3, 5]]), ("fcc", "o", [[1, 0, 0], [0, 1, 0], [1, 2, 6]]),
      ("sc", "face", [[1, 0, 0], [0, 1, 0], [0, 0, 2]])]
BIG = [("sc", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 4]]), ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [1, 1, 4]]),
       ("bcc", "o", [[1, 0, 0], [0, 1, 0], [2, 3, 7]]), ("sc", "tri3", [[1, 0, 0], [0, 1, 0], [0, 1, 2]])]


def _colorings(n, maxarr):
    """lists of (count, species, displaced), undisplaced first"""
    out = []
    for m in range(1, min(n, maxarr) + 1):
        r = n - m
        if r == 0:
            out.append([(m, 1, True)])
            if m >= 2:
                out.append([(1, 2, True), (m - 1, 1, True)])
                if m == 2:
                    out.append([(1, 1, True), (1, 2, True)])
            continue
        out.append([(r, 1, False), (m, 2, True)])
        out.append([(r, 2, False), (m, 1, True)])
        out.append([(r, 1, False), (m, 1, True)])       # one species, partly displaced
        if m >= 2:
            out.append([(r, 1, False), (1, 2, True), (m - 1, 3, True)])
            out.append([(r, 3, False), (1, 3, True), (m - 1, 1, True)])
        if r >= 2:
            out.append([(1, 2, False), (r - 1, 1, False), (m, 3, True)])
            out.append([(1, 3, False), (r - 1, 1, False), (m, 1, True)])
    return out


def _count(colors):
    n = math.factorial(sum(c[0] for c in colors))
    for c in colors:
        n //= math.factorial(c[0])
        if c[2]:
            n *= 6 ** c[0]
    return n


def cases(tier):
    out = []
    q = tier == "quick"
    i = 0
    for l, b, H in SH + ([] if q else BIG):
        n = H[0][0] * H[1][1] * H[2][2] * len(lt.BASES[b])
        for cols in _colorings(n, 3 if q else 4):
            m = _count(cols)
            if m > (1300 if q else 8000):
                continue
            i += 1
            out.append(Case("%s_%s_%s_%s%s" % (l, b, "".join(str(x) for r in H for x in r),
                                               "-".join("%d%d%s" % (c[0], c[1], "d" if c[2] else "") for c in cols),
                                               "s" if i % 4 == 0 else ""), "cell",
                            dict(lat=l, basis=b, H=H, colors=cols, supers=i % 4 == 0), weight=m, path_timeout=400))
        if n <= (3 if q else 4):
            for sup in (False, True):
                out.append(Case("only_%s_%s_%s%s" % (l, b, "".join(str(x) for r in H for x in r), "s" if sup else ""),
                                "only_arrows", dict(lat=l, basis=b, H=H, n_sites=n, supers=sup), weight=6 ** n))
    for n, dim, ngen, cols in [(3, 2, 1, [(1, 1, False), (2, 2, True)]), (3, 2, 1, [(3, 1, True)]),
                               (3, 3, 1, [(2, 1, False), (1, 1, True)]), (4, 2, 1, [(2, 1, False), (2, 2, True)]),
                               (3, 2, 2, [(1, 1, False), (2, 1, True)]), (2, 3, 1, [(2, 1, True)]),
                               (4, 2, 1, [(1, 1, False), (1, 2, False), (2, 1, True)]),
                               (3, 2, 1, [(1, 2, True), (2, 1, True)])]:
        out.append(Case("any_%d_%d_%d_%s" % (n, dim, ngen, "-".join("%d%d%d" % tuple(map(int, c)) for c in cols)), "anygroup",
                        dict(n=n, dim=dim, ngen=ngen, colors=cols), weight=500))
    if not q:
        for n, dim, ngen, cols in [(4, 2, 2, [(2, 1, False), (2, 2, True)]), (4, 3, 1, [(2, 1, False), (2, 1, True)]),
                                   (5, 2, 1, [(2, 1, False), (3, 1, True)]), (4, 3, 1, [(1, 1, False), (3, 2, True)])]:
            out.append(Case("any_%d_%d_%d_%s" % (n, dim, ngen, "-".join("%d%d%d" % tuple(map(int, c)) for c in cols)),
                            "anygroup", dict(n=n, dim=dim, ngen=ngen, colors=cols), weight=50000))
    out.append(Case("split_2_4", "split", dict(K=2, hi=5, den=4, fracs=[])))
    out.append(Case("split_1_100", "split", dict(K=1, hi=100 if not q else 20, den=100, fracs=[]), weight=300))
    out.append(Case("split_1_10", "split", dict(K=1, hi=60, den=10, fracs=[]), weight=300))
    out.append(Case("split_3_2", "split", dict(K=3, hi=3, den=2, fracs=[]), weight=300))
    out.append(Case("split_3_10", "split", dict(K=3, hi=4, den=10, fracs=[None, 0, 10]), weight=300))
    out.append(Case("split_29", "split", dict(K=1, hi=100, den=100, fracs=[29]), weight=300))
    return out
