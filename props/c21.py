"""C21 plots of the supercells show the listed shapes and their atoms."""
import itertools
import os
from fractions import Fraction as F
from symex import mplstub
from symex.core import Sym, zand
from symex.load import sx_float
from symex.run import Case
from . import lat as lt
from .c17 import _lin, _ex, _abs_le
from .c22 import hnfs

EXPECT_FUNCTIONS = ["enumeration._script_enum", "enumeration._plot_HNFs", "visualize.HNF_shapes", "visualize.HNF_atoms",
                    "visualize._convert_read_lat_to_system_dat", "io_utils.read_lattice", "vector_utils.map_enumStr_to_real_space"]
EXPECT_LABELS = ["one figure per supercell", "every site of the supercell has its atom", "the atoms are inside the cell",
                 "the edges of the cell are drawn", "every figure is saved under a name of its own"]
BOUNDS = {"quick": "every supercell of up to 4 (one case: 6) parent cells of 11 crystals, with one basis atom at a symbolic position (three "
                   "real numbers) in the cases marked free; both kinds of plot; several supercells and comments in one file",
          "thorough": "up to 8 parent cells"}
ASSUMPTIONS = ["matplotlib is a stand-in that records the calls (interface of the installed version)", "7 decimals"]
TOL = F(1, 10 ** 5)


def _setup(ctx, lat, basis, free):
    L = lt.LATS[lat]
    vecs = [[F(float(x)) for x in r] for r in L.vecs]
    base = [[F(float(x)) for x in r] for r in lt.cart_basis(L, basis)]
    for i, lo, hi in free:
        base[i] = [ctx.real("b%d_%d" % (i, c), lo, hi) for c in range(3)]
    with open("lattice.in", "w", encoding="utf-8") as f:
        f.write("# sizes\n1 4\nbulk\n")
        for v in vecs:
            f.write(" ".join(repr(float(x)) for x in v) + "\n")
        f.write("2\n%d\n" % len(base))
        for v in base:
            f.write(" ".join(str(x) if isinstance(x, Sym) else repr(float(x)) for x in v) + "\n")
        f.write("F\n")
    return vecs, base


def _plot(ph, shapes, cells, style):
    """figures of the supercells"""
    with open("enum.in", "w") as f:
        if style:
            f.write("# HNF    Conc    Number\n")
        for H in cells:
            n = H[0][0] * H[1][1] * H[2][2]
            f.write("  %d %d %d %d %d %d      %d %d     %d\n" % (H[0][0], H[1][0], H[1][1], H[2][0], H[2][1], H[2][2], n - 1, 1, 3))
            if style:
                f.write("# a comment\n")
    mplstub.install()
    mplstub.reset()
    args = dict(polya=False, enum=False, lattice="lattice.in", input="enum.in", outfile=None, distribution=None, savedist=False, sizes=None,
                acceptrate=None, seed=None, super=False, filter=None, visualize=True, shapes=shapes, show=False, profile=None, verbose=None)
    ph.enumeration._script_enum(args)
    return list(mplstub.FIGS)


def _pt(p):
    return [_ex(x) for x in p]


def _atoms(ctx, pts, vecs, base, H):
    A = "every site of the supercell has its atom"
    n = H[0][0] * H[1][1] * H[2][2]
    slv = [[sum(F(H[i][j]) * vecs[i][c] for i in range(3)) for c in range(3)] for j in range(3)]
    inv = lt.inv(slv)
    ctx.check(len(pts) == n * len(base), A)
    if len(pts) != n * len(base):
        return
    need = []
    for kk in range(len(base)):
        for r in itertools.product(range(H[0][0]), range(H[1][1]), range(H[2][2])):
            need.append([sum(r[i] * vecs[i][c] for i in range(3)) + base[kk][c] for c in range(3)])

    def pick():
        ap = [[F(ctx.approx(x)) for x in q] for q in pts]
        left = set(range(len(pts)))
        res = []
        for pos in need:
            best = None
            for a in sorted(left):
                co = lt.rowmul([x - F(ctx.approx(y)) for x, y in zip(ap[a], pos)], inv)
                m = [round(x) for x in co]
                err = sum(abs(x - y) for x, y in zip(co, m))
                if best is None or err < best[0]:
                    best = (err, a, m)
            left.discard(best[1])
            res.append(best[1:])
        return res

    def holds(w):
        c = []
        for pos, (a, m) in zip(need, w):
            c += [_abs_le(x - p - sum(m[i] * slv[i][j] for i in range(3)), TOL) for j, (x, p) in enumerate(zip(pts[a], pos))]
        return zand(*c)
    for t in range(200):
        w = ctx.pick(pick)
        if bool(holds(w)):
            ctx.check(True, A)
            return slv
    ctx.check(holds(w), A)
    return slv


def _span(ctx, rows, slv):
    """rows and slv span the same lattice"""
    inv = lt.inv(slv)
    M = [lt.rowmul([F(float(x)) for x in r], inv) for r in rows]
    ok = all(abs(x - round(x)) < F(1, 10 ** 6) for r in M for x in r)
    return ok and abs(lt.det([[round(x) for x in r] for r in M])) == 1


def plot(ctx, ph, shapes, lat, basis, sizes, free, many):
    vecs, base = _setup(ctx, lat, basis, free)
    allc = [H for n in sizes for H in hnfs(n)]
    if many:
        cells = allc
    else:
        cells = [allc[int(ctx.choose("cell", len(allc)))]]
    figs = _plot(ph, shapes, cells, many)
    ctx.check(len(figs) == len(cells) and all(len(f.axes) == 1 for f in figs), "one figure per supercell")
    if len(figs) != len(cells):
        return
    names = [f.saved for f in figs]
    ctx.check(all(len(x) == 1 for x in names) and len(set(x[0] for x in names if x)) == len(cells), "every figure is saved under a name of its own")
    for H, f in zip(cells, figs):
        a = f.axes[0]
        pts = [_pt(p) for p in a.points]
        slv = _atoms(ctx, pts, vecs, base, H)
        if slv is None:
            return
        cell = slv
        if shapes:
            E = "the edges of the cell are drawn"
            segs = set()
            for q, fmt in a.lines:
                for pq in zip(q, q[1:]):
                    segs.add(tuple(sorted(tuple(round(float(x), 6) + 0.0 for x in p) for p in pq)))
            O = (0.0, 0.0, 0.0)
            V = sorted(set(x for e in segs if O in e for x in e if x != O))
            ctx.check(len(V) == 3 and _span(ctx, V, slv), E)
            if len(V) != 3:
                return
            want = set()
            for i in range(3):
                j, k = (i + 1) % 3, (i + 2) % 3
                for x, y in ((0, 0), (0, 1), (1, 0), (1, 1)):
                    s = [x * V[j][c] + y * V[k][c] for c in range(3)]
                    e = sorted([tuple(round(float(z), 6) + 0.0 for z in p) for p in (s, [u + v for u, v in zip(s, V[i])])])
                    want.add(tuple(e))
            ctx.check(len(segs) == 12 and all(any(all(abs(x - y) < 1e-5 for p, q in zip(e, w) for x, y in zip(p, q)) or
                                                  all(abs(x - y) < 1e-5 for p, q in zip(e, w[::-1]) for x, y in zip(p, q)) for e in segs)
                                              for w in want), E)
            ci = lt.inv([[F(x) for x in r] for r in V])
            for p in pts:
                co = _lin(p, ci)
                ctx.check(zand(*[zand(x >= -TOL, x <= 1 + TOL) for x in co]), "the atoms are inside the cell")


def names(ctx, ph, cells):
    """the names of the files of several supercells"""
    _setup(ctx, "sc", "o", [])
    figs = _plot(ph, True, cells, False)
    got = [f.saved[0] if f.saved else None for f in figs]
    L = "every figure is saved under a name of its own"
    ctx.check(len(got) == len(cells) and None not in got and len(set(got)) == len(got), L)


def cases(tier):
    q = tier == "quick"
    out = []
    O = dict(strings=True, whole=True, memo=True)
    # lattice, basis, sizes, free atoms, all supercells at once
    S = [("fcc", "o", [1, 2, 3, 4], [], False), ("sc", "o", [2, 3], [], True), ("bcc", "o", [5], [], True), ("fcc", "dia", [1, 2], [], False),
         ("hex", "hcp", [2], [], False), ("tri", "o", [3], [], False), ("mon", "gen2", [2], [], False), ("rho", "gen2", [2], [], True),
         ("fccskew", "o", [2, 4], [], False), ("sclh", "off", [2, 3], [], False), ("sc", "tri3", [2], [], False),
         ("sc", "cscl", [2], [[1, 0.2, 1.1]], False), ("tri", "o", [2], [[0, -0.2, 0.9]], False), ("hex", "hcp", [1, 2], [[1, 0.1, 0.8]], False),
         ("scturn", "o", [2, 3], [], False), ("fcc", "o", [6], [], False)]
    if not q:
        S += [("sc", "o", [4, 5, 6], [], False), ("mon", "gen2", [3, 4], [], False), ("tri", "o", [4, 8], [], False),
              ("ort", "pair", [2, 3], [[1, -0.3, 1.2]], False), ("hex", "hcp", [3, 4], [], False)]
    for i, (l, b, sz, fr, mn) in enumerate(S):
        for sh in (True, False):
            out.append(Case("%s_%d_%s_%s" % ("shapes" if sh else "atoms", i, l, b), "plot",
                            dict(shapes=sh, lat=l, basis=b, sizes=sz, free=fr, many=mn), weight=10 + 100 * len(fr), **O))
    out.append(Case("names_8", "names", dict(cells=hnfs(8)), strings=True))
    out.append(Case("names_digits", "names", dict(cells=[[[1, 0, 0], [1, 1, 0], [10, 0, 12]], [[1, 0, 0], [1, 1, 0], [0, 1, 12]]]), strings=True))
    out.append(Case("names_collide", "names", dict(cells=[[[1, 0, 0], [0, 1, 0], [1, 10, 12]], [[1, 0, 0], [0, 1, 0], [11, 0, 12]]]), strings=True))
    out.append(Case("names_7", "names", dict(cells=hnfs(7)), strings=True))
    return out
