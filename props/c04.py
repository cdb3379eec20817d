"""C04 the symmetry operations found are exactly those of the lattice / of the crystal."""
from fractions import Fraction as F
from symex.core import zand, zor, zsum, Sym
from symex.run import Case
from . import lat as lt

EXPECT_FUNCTIONS = ["symmetry.get_lattice_pointGroup", "symmetry.get_spaceGroup", "symmetry.bring_into_cell",
                    "symmetry._does_mapping_exist"]
EXPECT_LABELS = ["every isometry of the lattice is listed", "every listed rotation is an isometry of the lattice",
                 "an operation is listed exactly when it maps the crystal onto itself",
                 "the listed shift belongs to the listed rotation"]
BOUNDS = {"quick": "25 lattices (all Bravais types, skewed and turned bases) with a symbolic integer 3x3 probe "
                   "matrix; crystals of 1-2 atoms with one atom at symbolic coordinates u/12 (1-2 symbolic "
                   "components), two species",
          "thorough": "three symbolic components, 3 atoms"}
ASSUMPTIONS = ["lattice entries are the catalogue's floating point numbers; atom coordinates are exact"]


def _toN(L, M):
    A = [[F(x) for x in r] for r in L.vecs]
    Ai = lt.inv(A)
    R = lt.mul(lt.mul(A, [[F(float(x)) for x in r] for r in M]), Ai)
    N = [[int(round(x)) for x in r] for r in R]
    ok = all(abs(R[i][j] - N[i][j]) < F(1, 10 ** 7) for i in range(3) for j in range(3))
    return N, ok


def point(ctx, ph, lat):
    L = lt.LATS[lat]
    ops = ctx.once("pg", lambda: [[[float(x) for x in r] for r in M]
                                  for M in ph.symmetry.get_lattice_pointGroup([list(r) for r in L.vecs])])
    Ns = []
    for M in ops:
        N, ok = _toN(L, M)
        ctx.check(ok and lt.mul(lt.mul(N, L.gram), lt.tr(N)) == L.gram,
                  "every listed rotation is an isometry of the lattice")
        Ns.append(N)
    ctx.check(len(set(map(str, Ns))) == len(Ns), "no rotation is listed twice")
    b = L.bound()
    P = [[ctx.int("n%d%d" % (i, j), -b[j], b[j]) for j in range(3)] for i in range(3)]
    den = 1
    for r in L.gram:
        for x in r:
            den = den * x.denominator // __import__("math").gcd(den, x.denominator)
    G = [[int(x * den) for x in r] for r in L.gram]
    for i in range(3):
        row = [zsum([P[i][k] * G[k][j] for k in range(3) if G[k][j]]) for j in range(3)]
        for j in range(i + 1):
            ctx.assume(zsum([row[k] * P[j][k] for k in range(3)]) == G[i][j])
    ctx.check(zor(*[zand(*[P[i][j] == N[i][j] for i in range(3) for j in range(3)]) for N in Ns]),
              "every isometry of the lattice is listed")


def space(ctx, ph, lat, atoms, types, den, mode="cart"):
    """atoms: list of coordinate triples, entries a number of 1/den or a string (symbolic name)."""
    L = lt.LATS[lat]
    pos = []
    for a in atoms:
        p = []
        for x in a:
            if isinstance(x, str):
                name, lo, hi = x.split(":")
                p.append(ctx.int(name, int(lo), int(hi)))
            else:
                p.append(x)
        pos.append(p)
    # distinct atoms
    for i in range(len(pos)):
        for j in range(i):
            ctx.assume(zor(*[(pos[i][k] - pos[j][k]) % den != 0 for k in range(3)]))

    def cart(p):
        return [zsum([(p[k] / den) * L.vecs[k][j] for k in range(3) if L.vecs[k][j]]) * 1.0 for j in range(3)]
    if mode == "cart":
        arg = [cart(p) for p in pos]
        ops, fr = ph.symmetry.get_spaceGroup([list(r) for r in L.vecs], list(types), arg)
    else:
        arg = [[x / den for x in p] for p in pos]
        ops, fr = ph.symmetry.get_spaceGroup([list(r) for r in L.vecs], list(types), arg, lattcoords=True)
    ctx.check(len(ops) == len(fr), "one shift per rotation")
    Ai = lt.inv([[F(x) for x in r] for r in L.vecs])
    found = {}
    for M, t in zip(ops, fr):
        N, ok = _toN(L, M)
        ctx.check(ok and N in L.ops(), "every listed rotation is an isometry of the lattice")
        tl = [zsum([t[k] * Ai[k][j] for k in range(3) if Ai[k][j]]) for j in range(3)]
        # which atom does the listed shift send atom 0 to?  t = p_m - p_0 N (mod 1)
        c = []
        for m in range(len(pos)):
            s = [pos[m][j] - zsum([pos[0][k] * N[k][j] for k in range(3)]) for j in range(3)]
            dd = [tl[j] - s[j] / den for j in range(3)]
            # near an integer: 1e-6
            c.append(zand(types[m] == types[0], *[_nearint(x) for x in dd]))
        ctx.check(zor(*c), "the listed shift belongs to the listed rotation")
        found.setdefault(str(N), []).append(c)
    for N in L.ops():
        for m in range(len(pos)):
            if types[m] != types[0]:
                continue
            s = [pos[m][j] - zsum([pos[0][k] * N[k][j] for k in range(3)]) for j in range(3)]
            want = []
            for i in range(len(pos)):
                im = [zsum([pos[i][k] * N[k][j] for k in range(3)]) + s[j] for j in range(3)]
                want.append(zor(*[zand(*[(im[j] - pos[q][j]) % den == 0 for j in range(3)])
                                  for q in range(len(pos)) if types[q] == types[i]]))
            got = zsum([c[m] for c in found.get(str(N), [])])
            w = zand(*want)
            ctx.check(got == (w.num() if hasattr(w, "num") else int(w)) if not isinstance(got, int) or hasattr(w, "num")
                      else got == int(w), "an operation is listed exactly when it maps the crystal onto itself")


def _nearint(x):
    if not isinstance(x, Sym):
        x = F(x)
        return abs(x - round(x)) < F(1, 10 ** 6)
    r = (x + F(1, 2)).floor()
    d = x - r
    return zand(d <= F(1, 10 ** 6), d >= F(-1, 10 ** 6))


def S(n, lo=0, hi=11):
    return "%s:%d:%d" % (n, lo, hi)


def cases(tier):
    out = [Case("pg_" + l, "point", dict(lat=l), weight=50) for l in sorted(lt.LATS)]
    q = [("sc", [[0, 0, 0], [S("u"), S("v"), 0]], [1, 1]),
         ("sc", [[S("u", -6, 17), 3, 0]], [1]),
         ("fcc", [[0, 0, 0], [S("u"), S("u"), S("u")]], [1, 1]),
         ("fcc", [[S("u", -3, 14), S("v"), 2]], [1]),
         ("fcc", [[0, 0, 0], [3, 3, S("w")]], [1, 2]),
         ("bcc", [[1, 2, 0], [S("u"), 5, 6]], [1, 1]),
         ("hex", [[0, 0, 0], [4, S("u"), 6]], [1, 1]),
         ("hex", [[2, 2, S("w")], [6, 6, 9]], [1, 1]),
         ("tet", [[0, 0, 0], [S("u"), 0, S("w")]], [1, 1]),
         ("ort", [[S("u"), 1, 0], [6, S("v"), 3]], [1, 1]),
         ("tri", [[0, 0, 0], [S("u"), 4, S("w")]], [1, 1]),
         ("mon", [[0, 0, 0], [S("u"), 6, 0]], [2, 2]),
         ("rho", [[1, 1, 1], [S("u"), S("u"), 7]], [1, 1]),
         ("scturn", [[0, 0, 0], [S("u"), 6, 6]], [1, 2]),
         ("sc", [[0, 0, 0], [6, 6, 0], [S("u"), 3, 3]], [1, 1, 2]),
         ("sc", [[0, 0, 0], [3, 3, S("w")], [6, 6, 3]], [1, 1, 1]),
         ("fccskew", [[0, 0, 0], [S("u"), 3, 0]], [1, 1])]
    for i, (l, a, t) in enumerate(q):
        out.append(Case("sg%d_%s" % (i, l), "space", dict(lat=l, atoms=a, types=t, den=12,
                                                          mode="latt" if i % 4 == 2 else "cart"), weight=500))
    if tier != "quick":
        for i, l in enumerate(sorted(lt.LATS)):
            out.append(Case("sg3_" + l, "space", dict(lat=l, atoms=[[0, 0, 0], [S("u"), S("v"), S("w")]],
                                                      types=[1, 1], den=12), weight=5000))
            out.append(Case("sg3x_" + l, "space", dict(lat=l, atoms=[[S("u"), S("v"), S("w")]],
                                                       types=[1], den=12), weight=3000))
            out.append(Case("sg2t_" + l, "space", dict(lat=l, atoms=[[0, 0, 0], [S("u"), S("v"), 6], [6, 6, S("w")]],
                                                       types=[1, 2, 2], den=12, mode="latt"), weight=5000))
    return out
