"""C05 wrapping positions into the cell."""
from fractions import Fraction as F
from symex.core import zand, zsum, Sym
from symex.run import Case
from . import lat as lt

EXPECT_FUNCTIONS = ["symmetry.bring_into_cell", "symmetry._get_transformations", "vector_utils.cartesian2direct"]
EXPECT_LABELS = ["every lattice coordinate is at least 0", "every lattice coordinate is below 1",
                 "the position moved by lattice vectors", "direct: every coordinate is at least 0",
                 "direct: every coordinate is below 1", "direct: the position moved by lattice vectors"]
BOUNDS = {"quick": "real-valued lattice coordinates between -6 and 7 in one and -1 and 2 in the other direction (continuous, not a grid), all "
                   "lattices of the catalogue; tolerances 1e-10, 1e-7 and 1e-3; up to two atoms",
          "thorough": "coordinates between -30 and 31"}
ASSUMPTIONS = ["additions and products of positions are taken as exact real arithmetic (assertions carry a 1e-9 margin)"]
TOL = F(1, 10 ** 9)


def _near(x):
    if not isinstance(x, Sym):
        x = F(x)
        return abs(x - round(x)) < F(1, 10 ** 7)
    d = x - (x + F(1, 2)).floor()
    return zand(d <= F(1, 10 ** 7), d >= F(-1, 10 ** 7))


def _coord(ctx, nm, rng):
    return [ctx.real("%s%d" % (nm, i), lo, hi) if lo != hi else lo for i, (lo, hi) in enumerate(rng)]


def _cart(f, L):
    return [zsum([f[k] * L.vecs[k][j] for k in range(3) if L.vecs[k][j]]) * 1.0 for j in range(3)]


def _judge(ctx, g, f, eps, pre):
    for k in range(3):
        ctx.check(g[k] >= -F(eps) - TOL, pre + "every %scoordinate is at least 0" % ("" if pre else "lattice "))
        ctx.check(g[k] <= 1 - F(eps) + TOL, pre + "every %scoordinate is below 1" % ("" if pre else "lattice "))
        ctx.check(_near(g[k] - f[k]), pre + "the position moved by lattice vectors")


def wrap(ctx, ph, lat, rng, eps):
    L = lt.LATS[lat]
    f = _coord(ctx, "f", rng)
    p2c, c2p = ph.symmetry._get_transformations([list(r) for r in L.vecs])
    r = ph.symmetry.bring_into_cell(_cart(f, L), c2p, p2c, eps)
    Ai = lt.inv([[F(x) for x in v] for v in L.vecs])
    g = [zsum([r[k] * Ai[k][j] for k in range(3) if Ai[k][j]]) for j in range(3)]
    _judge(ctx, g, f, eps, "")


def direct(ctx, ph, lat, rngs, eps):
    import numpy as np
    L = lt.LATS[lat]
    fs = [_coord(ctx, "f%d_" % i, r) for i, r in enumerate(rngs)]
    out = ph.vector_utils.cartesian2direct([list(r) for r in L.vecs], [_cart(f, L) for f in fs], eps)
    ctx.check(len(out) == len(fs), "direct: as many atoms as before")
    for f, r in zip(fs, out):
        _judge(ctx, [r[0], r[1], r[2]], f, eps, "direct: ")


def cases(tier):
    out = []
    w = 6 if tier == "quick" else 30
    lats = sorted(lt.LATS)
    eps = [1e-10, 1e-7, 1e-3]
    for n, l in enumerate(lats):
        for ax in range(3):
            rng = [(-1, 2)] * 3
            rng[ax] = (-w, w + 1)
            rng[(ax + 1) % 3] = (-1, 1)
            out.append(Case("wrap_%s_%d" % (l, ax), "wrap", dict(lat=l, rng=rng, eps=eps[(n + ax) % 3]), weight=20))
        ax = n % 3
        rng = [(-1, 2)] * 3
        rng[ax] = (-w, w + 1)
        rng[(ax + 1) % 3] = (0, 1)
        out.append(Case("dir_%s" % l, "direct", dict(lat=l, rngs=[rng], eps=eps[n % 3]), weight=20))
        out.append(Case("dir2_%s" % l, "direct", dict(lat=l, rngs=[[(-1, 2), (0.25, 0.25), (0, 0)],
                                                                   [(0.5, 0.5), (-0.75, -0.75), (-2, 1)]],
                                                      eps=eps[(n + 1) % 3]), weight=20))
    return out
