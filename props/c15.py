"""C15 a listed structure is turned into the right atoms in space."""
import itertools
from fractions import Fraction as F
from symex.core import zand, zor, zsum
from symex.run import Case
from . import lat as lt

EXPECT_FUNCTIONS = ["vector_utils.map_enumStr_to_real_space"]
EXPECT_LABELS = ["the cell spans the supercell's lattice", "every atom is a parent atom moved by a lattice vector",
                 "every site of the supercell has exactly one atom", "the species is the one the labelling gives for the site",
                 "one atom for every site", "the concentrations are those of the labelling"]
BOUNDS = {"quick": "18 parent crystals (1-3 atoms, also off the origin and outside the cell); every supercell matrix of index up to "
                   "3..8 (off-diagonal entries symbolic), reduced or not; every lattice point within 20 cells (symbolic) as the "
                   "site asked for; the labelling symbolic (few sites) or with all labels distinct (so that it determines every labelling)",
          "thorough": "index up to 4..10"}
ASSUMPTIONS = ["the left transform and the Smith form are those computed by grouptheory.SmithNormalForm (C01)",
               "the parent crystal's coordinates are those of the catalogue"]


def space(ctx, ph, lat, basis, diag, mink, k, symlab):
    L = lt.LATS[lat]
    base = lt.cart_basis(L, basis)
    a, c, f = diag
    n = a * c * f
    nd = len(base)
    b = int(ctx.int("b", 0, c - 1))
    d = int(ctx.int("d", 0, f - 1))
    e = int(ctx.int("e", 0, f - 1))
    H = [[a, 0, 0], [b, c, 0], [d, e, f]]
    S, Lt, R = ph.grouptheory.SmithNormalForm([list(r) for r in H])
    S = [int(S[i][i]) for i in range(3)]
    Lt = [[int(x) for x in r] for r in Lt]
    plat = [list(r) for r in zip(*L.vecs)]
    if symlab:
        lab = [ctx.int("l%d" % i, 0, k - 1) for i in range(n * nd)]
    else:
        k = n * nd
        lab = list(range(k))
    system = dict(plattice=plat, dvecs=[list(x) for x in base], nD=nd, k=k, eps=1e-7, title="t", bulksurf="bulk")
    struct = dict(n=n, HNF=[list(r) for r in H], diag=list(S), L=[list(r) for r in Lt], labeling=lab, directions="0" * (n * nd),
                  strN=1)
    out = ph.vector_utils.map_enumStr_to_real_space(system, struct, mink)
    # the cell: rows are integer combinations of the supercell's vectors and the other way round
    inv = lt.inv([[F(x) for x in r] for r in L.vecs])
    slv = [[float(x) for x in r] for r in out["sLV"]]
    cell = []
    for r in slv:
        co = lt.rowmul([F(x) for x in r], inv)            # lattice coordinates of the vector
        cell.append([round(x) for x in co])
        ctx.check(all(abs(x - round(x)) < F(1, 10 ** 6) for x in co), "the cell spans the supercell's lattice")
    ctx.check(abs(lt.det(cell)) == n, "the cell spans the supercell's lattice")
    adjH = lt.adj(H)

    def super_(v):
        w = [sum(adjH[i][j] * v[j] for j in range(3)) for i in range(3)]
        return zand(*[x % n == 0 for x in w])
    ctx.check(all(bool(super_(v)) for v in cell), "the cell spans the supercell's lattice")
    if not mink:
        ctx.check(cell == [list(x) for x in zip(*H)], "the cell spans the supercell's lattice")
    # the atoms: parent atom number and lattice vector, from the position alone
    bl = [lt.rowmul([F(x) for x in v], inv) for v in base]
    ctx.check(len(out["aBas"]) == n * nd and len(out["spin"]) == n * nd and len(out["gIndx"]) == n * nd, "one atom for every site")
    if not (len(out["aBas"]) == n * nd == len(out["spin"]) == len(out["gIndx"])):
        return
    atoms = []
    for i, pos in enumerate(out["aBas"]):
        co = lt.rowmul([F(float(x)) for x in pos], inv)
        hit = []
        for kk in range(nd):
            dlt = [x - y for x, y in zip(co, bl[kk])]
            if all(abs(x - round(x)) < F(1, 10 ** 6) for x in dlt):
                hit.append((kk, [round(x) for x in dlt]))
        ctx.check(len(hit) == 1, "every atom is a parent atom moved by a lattice vector")
        if len(hit) != 1:
            return
        atoms.append(hit[0])
    # a symbolic site: parent atom kk, lattice vector p
    kk = ctx.int("atom", 0, nd - 1)
    p = [ctx.int("p%d" % i, -20, 20) for i in range(3)]
    here = [zand(kk == at, super_([x - y for x, y in zip(p, z)])) for at, z in atoms]
    ctx.check(zsum([ctx_int(h) for h in here]) == 1, "every site of the supercell has exactly one atom")
    g = [sum(Lt[i][j] * p[j] for j in range(3)) % S[i] for i in range(3)]
    idx = kk * n + (g[0] * S[1] + g[1]) * S[2] + g[2]
    oks, okg = [], []
    for i in range(n * nd):
        gi = int(out["gIndx"][i])
        oks.append(zor(znot_(here[i]), idx == gi))
    ctx.check(zand(*oks), "the species is the one the labelling gives for the site")
    half = k // 2
    for i in range(n * nd):
        want = lab[int(out["gIndx"][i])] - half
        if k % 2 == 0:
            okg.append(out["spin"][i] == (want if bool(want < 0) else want + 1))
        else:
            okg.append(out["spin"][i] == want)
    ctx.check(zand(*okg), "the species is the one the labelling gives for the site")
    cnt = [zsum([ctx_int(l == s) for l in lab]) for s in range(k)]
    okc = [abs(out["x"][s] * (n * nd) - cnt[s]) < 1e-6 for s in range(k)]
    ctx.check(len(out["x"]) == k and bool(zand(*okc)), "the concentrations are those of the labelling")


def znot_(x):
    from symex.core import znot
    return znot(x)


def ctx_int(b):
    from symex.core import zite
    return zite(b, 1, 0)


QUICK = [("sc", "o", 6), ("sc", "off", 4), ("sc", "neg", 4), ("fcc", "o", 6), ("fcc", "dia", 3), ("fcc", "diaoff", 2), ("bcc", "o", 4),
         ("bcc", "neg", 3), ("tet", "o", 4), ("orc", "pair", 3), ("mon", "gen2", 3), ("tri", "o", 5), ("hex", "o", 4), ("hex", "hcp", 3),
         ("sc", "gen3", 3), ("fccskew", "o", 4), ("sclh", "off", 4), ("fccbig", "dia", 2)]


def cases(tier):
    out = []
    for l, b, N in QUICK:
        if tier != "quick":
            N = N + 4 if N > 3 else N + 2
        else:
            N = N + 2 if N > 3 else N + 1
        nd = len(lt.BASES[b])
        for n in range(1, N + 1):
            for a in range(1, n + 1):
                if n % a:
                    continue
                for c in range(1, n // a + 1):
                    if (n // a) % c:
                        continue
                    f = n // a // c
                    for mink in (False, True):
                        out.append(Case("%s_%s_%d%d%d%s" % (l, b, a, c, f, "_red" if mink else ""), "space",
                                        dict(lat=l, basis=b, diag=[a, c, f], mink=mink, k=2, symlab=False),
                                        weight=n * c * f * f * nd))
    for l, b, diag, k in [("sc", "o", [1, 1, 2], 2), ("fcc", "o", [1, 1, 3], 2), ("fcc", "dia", [1, 1, 2], 2), ("bcc", "o", [1, 2, 1], 3),
                          ("hex", "hcp", [1, 1, 1], 3), ("tri", "o", [1, 1, 3], 3), ("sc", "gen3", [1, 1, 1], 4)]:
        out.append(Case("lab_%s_%s_%s_%d" % (l, b, "".join(map(str, diag)), k), "space",
                        dict(lat=l, basis=b, diag=diag, mink=False, k=k, symlab=True), weight=100))
    return out
