"""Catalogue of parent lattices with exact metric, and exact lattice arithmetic (the oracle side).

A lattice is given by the float vectors handed to the code and by the exact Gram matrix; operations
are integer matrices N acting on rows (a'_i = sum_j N_ij a_j, fractional rows f -> f N)."""
import itertools
import math
from fractions import Fraction as F

H3 = math.sqrt(3) / 2


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [list(r) for r in zip(*A)]


def det(M):
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1])
            - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
            + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))


def adj(M):
    c = [[0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            r = [k for k in range(3) if k != i]
            s = [k for k in range(3) if k != j]
            m = M[r[0]][s[0]] * M[r[1]][s[1]] - M[r[0]][s[1]] * M[r[1]][s[0]]
            c[j][i] = m if (i + j) % 2 == 0 else -m
    return c


def inv(M):
    d = F(det(M))
    return [[F(x) / d for x in r] for r in adj(M)]


def rowmul(v, M):
    return [sum(v[k] * M[k][j] for k in range(3)) for j in range(3)]


def isqrt_ceil(x):
    """smallest integer r >= 0 with r*r >= x"""
    x = F(x)
    r = math.isqrt(int(x))
    while r * r < x:
        r += 1
    return r


class Lat(object):
    def __init__(self, name, vecs, gram=None, basis_change=None):
        self.name = name
        if gram is None:
            gram = [[sum(F(x).limit_denominator(1000) * F(y).limit_denominator(1000)
                         for x, y in zip(a, b)) for b in vecs] for a in vecs]
        if basis_change is not None:
            U = basis_change
            vecs = [[sum(U[i][k] * vecs[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
            gram = mul(mul(U, gram), tr(U))
        self.vecs = [[float(x) for x in r] for r in vecs]
        self.gram = [[F(x) for x in r] for r in gram]
        self._ops = None

    def bound(self):
        """for each k, a bound on |coefficient k| of a vector no longer than the longest basis vector"""
        gi = inv(self.gram)
        m = max(self.gram[i][i] for i in range(3))
        return [isqrt_ceil(m * gi[k][k]) for k in range(3)]

    def sq(self, v):
        return sum(v[i] * self.gram[i][j] * v[j] for i in range(3) for j in range(3))

    def dot(self, v, w):
        return sum(v[i] * self.gram[i][j] * w[j] for i in range(3) for j in range(3))

    def ops(self):
        """all integer N with N G N^T = G"""
        if self._ops is None:
            b = self.bound()
            vs = list(itertools.product(*[range(-x, x + 1) for x in b]))
            sq = {v: self.sq(v) for v in vs}
            cand = [[v for v in vs if sq[v] == self.gram[i][i]] for i in range(3)]
            out = []
            for u in cand[0]:
                for v in cand[1]:
                    if self.dot(u, v) != self.gram[0][1]:
                        continue
                    for w in cand[2]:
                        if self.dot(u, w) == self.gram[0][2] and self.dot(v, w) == self.gram[1][2]:
                            out.append([list(u), list(v), list(w)])
            self._ops = out
        return self._ops

    def cart(self, f):
        return [float(sum(float(f[k]) * self.vecs[k][j] for k in range(3))) for j in range(3)]

    def space_ops(self, basis):
        """(N, t) with basis . N + t == basis modulo the lattice (all atoms alike)"""
        return space_ops(self.ops(), basis)


def modeq(u, v):
    return all((F(a) - F(b)).denominator == 1 for a, b in zip(u, v))


def space_ops(ops, basis):
    basis = [[F(x) for x in b] for b in basis]
    out = []
    for N in ops:
        for j in range(len(basis)):
            t = [basis[j][i] - rowmul(basis[0], N)[i] for i in range(3)]
            if all(any(modeq([x + y for x, y in zip(rowmul(b, N), t)], c) for c in basis) for b in basis):
                out.append((N, t))
    return out


SC = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
FCC = [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]
FCC2 = [[0.5, 0.5, 0.0], [0.5, 0.0, 0.5], [0.0, 0.5, 0.5]]
BCC = [[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]
TET = [[1, 0, 0], [0, 1, 0], [0, 0, 1.5]]
BCT = [[-.5, .5, .75], [.5, -.5, .75], [.5, .5, -.75]]
ORT = [[1, 0, 0], [0, 1.25, 0], [0, 0, 1.5]]
ORC = [[.5, .75, 0], [-.5, .75, 0], [0, 0, 1.25]]
ORF = [[0, .75, 1], [.5, 0, 1], [.5, .75, 0]]
ORI = [[-.5, .75, 1], [.5, -.75, 1], [.5, .75, -1]]
MON = [[1, 0, 0], [0, 1.25, 0], [.25, 0, 1.5]]
MOC = [[.5, .75, 0], [-.5, .75, 0], [.25, 0, 1.25]]
TRI = [[1, 0, 0], [.25, 1.25, 0], [.125, .375, 1.5]]
RHO = [[1, .25, .25], [.25, 1, .25], [.25, .25, 1]]
HEX = [[1, 0, 0], [.5, H3, 0], [0, 0, 1.5]]
HEXG = [[1, F(1, 2), 0], [F(1, 2), 1, 0], [0, 0, F(9, 4)]]
HEX2 = [[1, 0, 0], [-.5, H3, 0], [0, 0, 1.75]]
HEX2G = [[1, F(-1, 2), 0], [F(-1, 2), 1, 0], [0, 0, F(49, 16)]]
U1 = [[1, 0, 0], [1, 1, 0], [0, 1, 1]]
U2 = [[1, 1, 0], [0, 1, 0], [1, -1, 1]]
ROTX = [[1, 0, 0], [0, .6, .8], [0, -.8, .6]]


def _rot(v):
    return [[sum(F(str(r[k])) * F(str(ROTX[k][j])) for k in range(3)) for j in range(3)] for r in v]


LATS = {}
for _n, _v in [("sc", SC), ("fcc", FCC), ("fcc2", FCC2), ("bcc", BCC), ("tet", TET), ("bct", BCT),
               ("ort", ORT), ("orc", ORC), ("orf", ORF), ("ori", ORI), ("mon", MON), ("moc", MOC),
               ("tri", TRI), ("rho", RHO)]:
    LATS[_n] = Lat(_n, _v)
LATS["hex"] = Lat("hex", HEX, HEXG)
LATS["hex2"] = Lat("hex2", HEX2, HEX2G)
LATS["scskew"] = Lat("scskew", SC, None, U1)
LATS["fccskew"] = Lat("fccskew", FCC, None, U2)
LATS["bccskew"] = Lat("bccskew", BCC, None, U1)
LATS["tetskew"] = Lat("tetskew", TET, None, U2)
LATS["hexskew"] = Lat("hexskew", HEX, HEXG, U1)
LATS["scturn"] = Lat("scturn", _rot(SC))
LATS["ortturn"] = Lat("ortturn", _rot(ORT))
LATS["fccbig"] = Lat("fccbig", [[4 * x for x in r] for r in FCC])
LATS["sclh"] = Lat("sclh", [[0, 1, 0], [1, 0, 0], [0, 0, 1]])

h, t, q, s, e = F(1, 2), F(1, 3), F(1, 4), F(1, 6), F(1, 8)
BASES = {
    "o": [[0, 0, 0]],
    "off": [[F(1, 10), F(1, 5), F(3, 10)]],
    "neg": [[F(-1, 10), F(6, 5), 0]],
    "dia": [[0, 0, 0], [q, q, q]],
    "diaoff": [[e, e, e], [F(3, 8), F(3, 8), F(3, 8)]],
    "cscl": [[0, 0, 0], [h, h, h]],
    "pair": [[0, 0, 0], [F(1, 5), 0, 0]],
    "pairz": [[0, 0, 0], [0, 0, F(1, 5)]],
    "gen2": [[0, 0, 0], [q, q, 3 * q]],
    "hcp": [[0, 0, 0], [t, t, h]],
    "hcpoff": [[s, s, q], [h, h, 3 * q]],
    "hon": [[t, t, 0], [2 * t, 2 * t, 0]],
    "gen3": [[0, 0, 0], [q, q, 3 * q], [h, h, q]],
    "tri3": [[0, 0, 0], [h, 0, 0], [0, h, 0]],
    # without inversion
    "pol": [[0, 0, 0], [F(1, 5), 0, 0], [h, 0, F(1, 10)]],
    "diag3": [[0, 0, 0], [q, q, q], [F(2, 5), F(2, 5), F(2, 5)]],
    "chi4": [[F(1, 10), F(1, 5), 0], [F(4, 5), F(1, 10), 0], [F(9, 10), F(4, 5), F(1, 10)], [F(1, 5), F(9, 10), F(1, 10)]],
    "face": [[h, h, 0], [h, 0, h], [0, h, h]],
}


def cart_basis(lat, name):
    return [lat.cart(f) for f in BASES[name]]


AXES = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]


def reduce_int(x, H):
    """integer vector modulo the columns of the lower triangular H"""
    x = list(x)
    for k in range(3):
        qq = x[k] // H[k][k]
        for i in range(k, 3):
            x[i] -= qq * H[i][k]
    return tuple(x)


def axis_perm(L, N):
    """Direct image of the Cartesian axes under fractional-row operation N, None if not a permutation."""
    A = [[F(x).limit_denominator(10 ** 6) for x in r] for r in L.vecs]
    M = mul(mul(inv(A), N), A)        # cartesian rows: x -> x M
    out = []
    for a in AXES:
        im = rowmul(a, M)
        k = [i for i, b in enumerate(AXES) if all(abs(x - y) < F(1, 10 ** 4) for x, y in zip(im, b))]
        if not k:
            return None
        out.append(k[0])
    return out


_GROUPS = {}


def group(lat, basis, H, arrows=False):
    """The permutation group of a supercell, computed exactly and independently of the package:
    entries [site permutation, direction permutation] (a configuration c becomes c[p[i]]), translations first."""
    key = (lat, basis, str(H), arrows)
    if key in _GROUPS:
        return [[list(p), list(q)] for p, q in _GROUPS[key]]
    L = LATS[lat]
    base = BASES[basis]
    n = H[0][0] * H[1][1] * H[2][2]
    reps = [(i, j, k) for i in range(H[0][0]) for j in range(H[1][1]) for k in range(H[2][2])]
    idx = {r: i for i, r in enumerate(reps)}

    def label(f):
        for k, b in enumerate(base):
            r = [F(x) - F(y) for x, y in zip(f, b)]
            if all(x.denominator == 1 for x in r):
                return k * n + idx[reduce_int([int(x) for x in r], H)]
    pos = [[F(u) + v for u, v in zip(b, r)] for b in base for r in reps]
    out = []
    adjH = adj(H)
    ops = L.space_ops(base)
    ops.sort(key=lambda o: (o[0] != [[1, 0, 0], [0, 1, 0], [0, 0, 1]], any(F(x).denominator != 1 for x in o[1])))
    for N, t in ops:
        W = mul(mul(adjH, tr(N)), H)
        if any(x % n for r in W for x in r):
            continue
        ap = axis_perm(L, N) if arrows else [0]
        if ap is None:
            raise ValueError("the rotations of %s do not permute the axes" % lat)
        for r in reps:
            img = [label([u + v + w for u, v, w in zip(rowmul(p, N), t, r)]) for p in pos]
            iv = [0] * len(img)
            for a, b in enumerate(img):
                iv[b] = a
            if [iv, ap] not in out:
                out.append([iv, ap])
    _GROUPS[key] = out
    return [[list(p), list(q)] for p, q in out]


def is_group(g):
    s = set((tuple(p), tuple(q)) for p, q in g)
    for p, q in s:
        for r, t in s:
            if (tuple(p[i] for i in r), tuple(q[t[i]] for i in range(len(t))) if len(t) > 1 else t) not in s:
                return False
    return True
