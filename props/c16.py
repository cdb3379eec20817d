"""C16 cell reduction keeps the lattice and gives shortest vectors."""
import itertools
import math
from fractions import Fraction as F
from symex.core import Sym, zand, zor
from symex.run import Case
from . import lat as lt

EXPECT_FUNCTIONS = ["vector_utils._minkowski_reduce_basis", "vector_utils._reduce_C_in_ABC", "vector_utils._gaussian_reduce_two_vectors",
                    "vector_utils._minkowski_conditions_check"]
BOUNDS = {"quick": "cells, pairs and third vectors with one to three real-valued symbolic entries (continuous), the others fixed: every "
                   "lattice of the catalogue with one entry of its cell between -3 and 3, planes and boxes of third vectors, ranges up "
                   "to 40, chains of up to 7 reduction steps of a pair",
          "thorough": "more cells, wider ranges"}
ASSUMPTIONS = ["vectors in exact real arithmetic; comparisons of two lengths that differ by the tolerance are left open within a band "
               "around it", "tolerance 1e-7; shortest up to 1e-3 in the squares of the lengths",
               "cells whose vectors are thousands of times longer than the reduced ones are outside (float precision, step limit)"]
EXPECT_LABELS = ["the reduced vectors span the same lattice", "every vector is the shortest completing the others",
                 "pair: the reduced vectors span the same lattice", "pair: the vectors are as short as possible",
                 "third: the third vector is moved by lattice vectors of the plane", "third: the third vector is as short as possible",
                 "the conditions are judged correctly", "the cell is right-handed"]
TOL = F(1, 1000)


def _dot(u, v):
    s = 0
    for a, b in zip(u, v):
        s = s + a * b
    return s


def _ex(x):
    return x if isinstance(x, (Sym, F)) else F(float(x))


def _vec(v):
    return [_ex(v[i]) for i in range(3)]


def _near(x, tol=F(1, 10 ** 6)):
    if isinstance(x, Sym):
        return zand(x <= tol, x >= -tol)
    return abs(x) <= tol


def _coords(ctx, v, basis):
    """integer coordinates of v in the basis, from the current values (a witness, checked by the caller)"""
    def f():
        b = [[F(ctx.approx(x)) for x in r] for r in basis]
        w = [F(ctx.approx(x)) for x in v]
        g = [[_dot(r, q) for q in b] for r in b]
        rhs = [_dot(w, r) for r in b]
        n = len(b)
        if n == 2:
            d = g[0][0] * g[1][1] - g[0][1] * g[1][0]
            if d == 0:
                return [0, 0]
            return [round((rhs[0] * g[1][1] - rhs[1] * g[0][1]) / d), round((g[0][0] * rhs[1] - g[1][0] * rhs[0]) / d)]
        d = lt.det(b)
        return [round(lt.det([w if i == j else b[i] for i in range(3)]) / d) if d else 0 for j in range(3)]
    return ctx.pick(f)


def _comb(k, basis):
    return [sum([k[i] * basis[i][j] for i in range(1, len(basis))], k[0] * basis[0][j]) for j in range(3)]


def _inlat(ctx, out, basis, label):
    """rows of out are a unimodular integer combination of the rows of basis"""
    M = []
    for v in out:
        k = _coords(ctx, v, basis)
        w = _comb(k, basis)
        ctx.check(zand(*[_near(a - b) for a, b in zip(v, w)]), label)
        M.append(k)
    d = lt.det(M) if len(M) == 3 else M[0][0] * M[1][1] - M[0][1] * M[1][0]
    ctx.check(abs(d) == 1, label)


def _moved(ctx, tag, spec):
    """vector with entries fixed (number) or symbolic (pair of bounds)"""
    return [ctx.real("%s%d" % (tag, i), *s) if isinstance(s, (list, tuple)) else s for i, s in enumerate(spec)]


def pair(ctx, ph, u, v, eps):
    U, V = _moved(ctx, "u", u), _moved(ctx, "v", v)
    c = [U[1] * V[2] - U[2] * V[1], U[2] * V[0] - U[0] * V[2], U[0] * V[1] - U[1] * V[0]]
    ctx.assume(_dot(c, c) >= F(1, 16))
    a, b = ph.vector_utils._gaussian_reduce_two_vectors(list(U), list(V), eps)
    a, b = _vec(a), _vec(b)
    _inlat(ctx, [a, b], [U, V], "pair: the reduced vectors span the same lattice")
    aa, bb, ab = _dot(a, a), _dot(b, b), _dot(a, b)
    ctx.check(aa <= bb + TOL, "pair: the vectors are as short as possible")
    ctx.check(zand(2 * ab <= aa + TOL, -2 * ab <= aa + TOL), "pair: the vectors are as short as possible")


def third(ctx, ph, a, b, c, eps):
    C = _moved(ctx, "c", c)
    n = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    h = _dot(C, n)
    ctx.assume(zor(h >= F(1, 10), h <= -F(1, 10)))
    A, B, R = ph.vector_utils._reduce_C_in_ABC(list(a), list(b), list(C), eps)
    A, B, R = _vec(A), _vec(B), _vec(R)
    base = [[F(x) for x in a], [F(x) for x in b]]
    _inlat(ctx, [A, B], base, "pair: the reduced vectors span the same lattice")
    d = [x - y for x, y in zip(R, C)]
    k = _coords(ctx, d, base)
    ctx.check(zand(*[_near(x - y) for x, y in zip(d, _comb(k, base))]), "third: the third vector is moved by lattice vectors of the plane")
    ok = []
    for i in range(-2, 3):
        for j in range(-2, 3):
            w = _comb([i, j], [A, B])
            ok.append(2 * _dot(R, w) + _dot(w, w) >= -TOL)
    ctx.check(zand(*ok), "third: the third vector is as short as possible")


def _short(ctx, b, label):
    """Minkowski: |b1| <= |b2| <= |b3| up to order, each not longer than with the others added"""
    g = [[_dot(x, y) for y in b] for x in b]
    ok = []
    for i in range(3):
        j, k = [x for x in range(3) if x != i]
        # a longest vector is a shortest completion
        longest = zand(g[i][i] >= g[j][j] - TOL, g[i][i] >= g[k][k] - TOL)
        c = []
        for p, q in itertools.product((-1, 0, 1), repeat=2):
            if p or q:
                c.append(2 * p * g[i][j] + 2 * q * g[i][k] + p * p * g[j][j] + q * q * g[k][k] + 2 * p * q * g[j][k] >= -4 * TOL)
        ok.append(zor(_no(longest), zand(*c)))
    for i, j in ((0, 1), (0, 2), (1, 2)):
        m = 2 * g[i][j]
        ok.append(zand(m <= g[i][i] + 4 * TOL, -m <= g[i][i] + 4 * TOL, m <= g[j][j] + 4 * TOL, -m <= g[j][j] + 4 * TOL))
    ctx.check(zand(*ok), label)


def _no(x):
    from symex.core import znot
    return znot(x)


def cell(ctx, ph, rows, eps):
    V = [_moved(ctx, "abc"[i], r) for i, r in enumerate(rows)]
    d = lt.det(V)
    ctx.assume(zor(d >= F(1, 10), d <= -F(1, 10)))
    out = ph.vector_utils._minkowski_reduce_basis([list(r) for r in V], eps)
    out = [_vec(r) for r in out]
    _inlat(ctx, out, V, "the reduced vectors span the same lattice")
    _short(ctx, out, "every vector is the shortest completing the others")
    ctx.check(lt.det(out) > 0, "the cell is right-handed")


def conditions(ctx, ph, rows, eps):
    V = [_moved(ctx, "abc"[i], r) for i, r in enumerate(rows)]
    r = ph.vector_utils._minkowski_conditions_check([list(x) for x in V], eps)
    a, b, c = V
    n = [_dot(x, x) for x in V]
    ok = [n[1] - n[0], n[2] - n[1]]
    for p in (1, -1):
        ok.append(_dot([x + p * y for x, y in zip(b, a)], [x + p * y for x, y in zip(b, a)]) - n[1])
    for p, q in itertools.product((-1, 0, 1), repeat=2):
        if p or q:
            w = [z + p * x + q * y for x, y, z in zip(a, b, c)]
            ok.append(_dot(w, w) - n[2])
    if r:
        ctx.check(zand(*[x >= -TOL for x in ok]), "the conditions are judged correctly")
    else:
        ctx.check(zor(*[x <= 0 for x in ok]), "the conditions are judged correctly")


# cells with one entry symbolic
LINES = [[[-0.5, 0.5, 0.5], [0, (-3, 3), 1], [1, 0, 0]], [[-0.5, 0.5, 0.5], [0.5, -0.5, (-3, 3)], [0.5, 0.5, -0.5]],
    [[(-3, 3), 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, 0.5, -0.5]], [[-0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, (-3, 3), -0.5]],
    [[-0.5, 0.5, (-3, 3)], [0, 0, 1], [1, 0, 0]], [[-0.5, 0.5, 0.5], [0, 0, 1], [(-3, 3), 0, 0]],
    [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, (-3, 3), 0]], [[(-3, 3), 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]],
    [[0, 0.5, 0.5], [0.5, 0, (-3, 3)], [0.5, 0.5, 0]], [[0.5, 0.5, (-3, 3)], [0.5, 0, 0.5], [0, 0.5, 0.5]],
    [[(-3, 3), 2, 2], [2, 0, 2], [2, 2, 0]], [[0.5, 0.5, 0], [0.5, (-3, 3), 0.5], [0, 0.5, 0.5]],
    [[0.5, 0.5, 0], [0.5, 0, 0.5], [(-3, 3), 0.5, 0.5]], [[1, 0, 0], [0.5, 0.866025, 0], [0, (-3, 3), 1.5]],
    [[0.5, 0.5, 1], [0.5, 0, 0.5], [(-3, 3), 1, 0]], [[1, 0, 0], [-0.5, (-3, 3), 0], [0, 0, 1.75]],
    [[1, 0, 0], [-0.5, 0.866025, 0], [(-3, 3), 0, 1.75]], [[(-3, 3), 0, 0], [0.5, 0.866025, 0], [0, 0, 1.5]],
    [[1, 0, 0], [0.5, 0.866025, (-3, 3)], [0, 0, 1.5]], [[1, 0, (-3, 3)], [-0.5, 0.866025, 0], [0, 0, 1.75]],
    [[1, 0, 0], [1.5, 0.866025, 0], [(-3, 3), 0.866025, 1.5]], [[0.5, 0.75, 0], [-0.5, 0.75, 0], [0.25, (-3, 3), 1.25]],
    [[(-3, 3), 0, 0], [0, 1.25, 0], [0.25, 0, 1.5]], [[1, 0, 0], [1.5, (-3, 3), 0], [0.5, 0.866025, 1.5]],
    [[(-3, 3), 0.75, 0], [-0.5, 0.75, 0], [0.25, 0, 1.25]], [[1, 0, 0], [0, 1.25, 0], [0.25, (-3, 3), 1.5]],
    [[0.5, 0.75, 0], [-0.5, 0.75, (-3, 3)], [0.25, 0, 1.25]], [[0.5, 0.75, 0], [-0.5, 0.75, 0], [0, (-3, 3), 1.25]],
    [[1, 0, 0], [0, 1.25, (-3, 3)], [0.25, 0, 1.5]], [[0.5, 0.75, 0], [-0.5, 0.75, (-3, 3)], [0, 0, 1.25]],
    [[(-3, 3), 0.75, 0], [-0.5, 0.75, 0], [0, 0, 1.25]], [[(-3, 3), 0.75, 1], [0.5, 0, 1], [0.5, 0.75, 0]],
    [[(-3, 3), 0.75, 1], [0.5, -0.75, 1], [0.5, 0.75, -1]], [[(-3, 3), 0, 0], [0, 1.25, 0], [0, 0, 1.5]],
    [[1, 0, 0], [0, 1.25, 0], [0, (-3, 3), 1.5]], [[1, 0, 0], [0, 1.25, (-3, 3)], [0, 0, 1.5]],
    [[1, 0, 0], [0, 0.75, 1], [(-3, 3), -1.2, 0.9]], [[1, 0, (-3, 3)], [0, 0.75, 1], [0, -1.2, 0.9]],
    [[(-3, 3), 0.25, 0.25], [0.25, 1, 0.25], [0.25, 0.25, 1]], [[1, (-3, 3), 0], [0, 1, 0], [0, 0, 1]],
    [[1, 0, 0], [(-3, 3), 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, (-3, 3)]], [[0, 1, (-3, 3)], [1, 0, 0], [0, 0, 1]],
    [[0, 1, 0], [1, (-3, 3), 0], [0, 0, 1]], [[0, 1, 0], [1, 0, 0], [(-3, 3), 0, 1]],
    [[1, 0.25, 0.25], [0.25, 1, (-3, 3)], [0.25, 0.25, 1]], [[1, 0.25, 0.25], [0.25, 1, 0.25], [0.25, (-3, 3), 1]],
    [[1, 0, 0], [1, 1, 0], [0, (-3, 3), 1]], [[(-3, 3), 0, 0], [0, 0.6, 0.8], [0, -0.8, 0.6]],
    [[1, 0, 0], [0, 0.6, (-3, 3)], [0, -0.8, 0.6]], [[1, 0, 0], [1, 1, (-3, 3)], [0, 1, 1]],
    [[(-3, 3), 0, 0], [0, 1, 0], [0, 0, 1.5]], [[1, 0, 0], [0, 0.6, 0.8], [0, (-3, 3), 0.6]],
    [[1, 0, 0], [0, 1, 0], [0, (-3, 3), 1.5]], [[1, 0, 0], [0, 1, (-3, 3)], [0, 0, 1.5]],
    [[1, 1, 0], [0, 1, 0], [(-3, 3), -1, 1.5]], [[(-3, 3), 0, 0], [0.25, 1.25, 0], [0.125, 0.375, 1.5]],
    [[1, 0, 0], [0.25, 1.25, 0], [0.125, (-3, 3), 1.5]], [[1, 0, 0], [0.25, 1.25, (-3, 3)], [0.125, 0.375, 1.5]]]
LINES2 = [[[(-3, 3), 0.5, 0.75], [0.5, -0.5, 0.75], [0.5, 0.5, -0.75]],
    [[-0.5, 0.5, 0.75], [0.5, -0.5, (-3, 3)], [0.5, 0.5, -0.75]],
    [[-0.5, 0.5, 0.75], [0.5, -0.5, 0.75], [0.5, (-3, 3), -0.75]], [[0.5, 0.5, (-3, 3)], [0.5, 0, 0.5], [0, 1, 0]],
    [[0.5, 0.5, 1], [0.5, (-3, 3), 0.5], [0, 1, 0]], [[0, 0.75, 1], [0.5, 0, 1], [0.5, (-3, 3), 0]],
    [[0, 0.75, 1], [0.5, 0, (-3, 3)], [0.5, 0.75, 0]], [[-0.5, 0.75, 1], [0.5, -0.75, (-3, 3)], [0.5, 0.75, -1]],
    [[1, 0, 0], [0, (-3, 3), 1], [0, -1.2, 0.9]], [[1, 1, (-3, 3)], [0, 1, 0], [1, -1, 1.5]],
    [[(-3, 3), 0, 0], [1, 1, 0], [0, 1, 1]], [[-0.5, 0.75, 1], [0.5, -0.75, 1], [0.5, (-3, 3), -1]],
    [[0, 2, 2], [2, 0, (-3, 3)], [2, 2, 0]], [[0, 2, 2], [2, 0, 2], [2, (-3, 3), 0]],
    [[1, 0, (-3, 3)], [1.5, 0.866025, 0], [0.5, 0.866025, 1.5]], [[1, 1, 0], [0, (-3, 3), 0], [1, -1, 1.5]]]

# cells with several entries symbolic
PLANES = [[[1, 0, 0], [0.5, 1, 0], [(-3, 3), (-3, 3), 2]], [[1, 0, 0], [0, 1, 0], [(-3, 3), 0.5, 0.75]],
          [[1, 0, 0], [0, 1, 0], [(-40, 40), 0.5, 1]], [[3, 1, 0], [1, 4, 1], [(-5, 5), 2, 6]],
          [[1, 0, 0], [(-3, 3), 1, 0], [2, 5, 3]], [[2, 0, 0], [(-3, 3), 1.5, 0], [0.5, 0.75, 1]],
          [[1, 3, 0], [0, 1, 0], [(-4, 4), 7, 2]], [[1, 0, 0], [7, 1, 0], [3, (-4, 4), 1]], [[1, 0, 0], [0, 1, 0], [(-2, 2), (-2, 2), (2, 3)]],
          [[0, 0, 1], [(-3, 3), 2, (-3, 3)], [1, 0, 0]],
          # four to six rounds of the greedy algorithm
          [[-3, -1, -5], [-2, -4, 1], [3, (2, 4), 3]], [[-6, -5, -5], [-5, -3, -4], [-4, 3, (-3, -1)]],
          [[-11, -3, -6], [(-14.5, -13.5), -3, -10], [4, 5, -9]]]
PLANES2 = [[[1, 0, 0], [(-3, 3), 1, 0], [(-3, 3), 0.5, 1]], [[0.5, 0.5, 0], [0, 0.5, 0.5], [(-2, 2), 2, (-2, 2)]]]
PAIRS = [([1, 0, 0], [(-3, 3), (0.25, 2), 0]), ([(0.25, 3), 0, 0], [0.5, 1, 0]), ([(-20, 20), 1, 0], [0.5, 0, 0.5]),
         ([1, 0, 0], [(-1, 1), (0.05, 0.25), 0]), ([29, 70, 0], [(69.5, 70.5), 169, 0]), ([3, 1, 0.5], [(-2, 2), (-2, 2), 1]),
         ([(-2, 2), (-2, 2), 0], [0, 1, 0]), ([1, 0, 0], [(-20, 20), 0.5, 0]), ([1, 2, 2], [0, 3, (-9, 9)]),
         ([-1, 0.5, 0.25], [(-9, 9), -0.5, -0.25]), ([408, 985, 0], [(984.5, 985.25), 2378, 0])]
PAIRS2 = [([1, 0, 0], [(-60, 60), 0.5, 0]), ([1, 0, 0], [(-1, 1), (0.01, 0.05), 0])]
THIRDS = [([1, 0, 0], [0, 1, 0], [(-3, 3), (-3, 3), (-2, 2)]), ([1, 0, 0.5], [3, 1, 0], [(-2, 2), (-2, 2), 1]),
          ([1, 0, 0], [0.5, 0.75, 0], [(-2, 2), (-2, 2), (1, 2)]), ([0, 0.5, 0.5], [0.5, 0, 0.5], [(-1, 1), 0.25, (-1, 1)]),
          ([2, 0, 0], [5, 1, 0], [(-4, 4), (-1, 1), 1]), ([1, 1, 0], [-1, 1, 0.5], [(-3, 3), 0.5, 1]), ([1, 2, 3], [0, 1, 4], [(-9, 9), 1, 1])]
THIRDS2 = [([1, 0, 0.5], [3, 1, 0], [(-3, 3), (-3, 3), (-2, 2)]), ([1, 0, 0], [0, 1, 0], [(-6, 6), (-6, 6), (-2, 2)])]
CONDS = [[[1, 0, 0], [0.5, 1, 0], [(-3, 3), (-3, 3), 2]], [[1, 0, 0], [(-2, 2), (-2, 2), 0], [0, 0, 2]], [[(-2, 2), 0, 0], [0, 1, 0], [0.5, 0.5, 1]],
         [[1, 0, 0], [0, 1, 0], [(-2, 2), (-2, 2), (-2, 2)]], [[1, 0, 0], [(-1, 1), 1, 0], [(-1, 1), 0.25, 1.5]],
         [[1, 0.5, 0], [-0.5, 1, 0.25], [(-2, 2), 0.5, (-2, 2)]], [[1, 0, 0], [0, (0.5, 2), 0], [0, 0, (0.5, 2)]]]


def cases(tier):
    out = []
    q = tier == "quick"
    P = dict(mul="poly", timeout_ms=30000, path_timeout=120)
    for h, l, w in (("cell", [dict(rows=r) for r in LINES + PLANES + ([] if q else LINES2 + PLANES2)], 30),
                    ("pair", [dict(u=u, v=v) for u, v in PAIRS + ([] if q else PAIRS2)], 50),
                    ("third", [dict(a=a, b=b, c=c) for a, b, c in THIRDS + ([] if q else THIRDS2)], 100),
                    ("conditions", [dict(rows=r) for r in CONDS], 20)):
        for i, d in enumerate(l):
            out.append(Case("%s_%d" % (h, i), h, dict(d, eps=1e-7), weight=w, **P))
    return out
