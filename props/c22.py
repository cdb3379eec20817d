"""C22 a full enumeration lists every derivative structure of the crystal exactly once, wherever the atoms are given."""
import itertools
import os
from fractions import Fraction as F
from symex.core import zand, zor, znot, zsum
from symex.run import Case
from . import lat as lt
from .c10 import burnside

EXPECT_FUNCTIONS = ["enumeration._script_enum", "enumeration._enum_out", "enumeration._enum_in", "enumeration._polya_out", "io_utils.read_lattice",
                    "HNFs.get_HNFs", "grouptheory.get_sym_group", "phonons.enum_sys", "tree.brancher", "io_utils.write_enum"]
EXPECT_LABELS = ["every structure of the crystal is equivalent to a listed one", "no two listed structures are equivalent",
                 "each structure is a decoration of a supercell of the size and composition asked for", "no listed structure has a smaller cell",
                 "the listed crystal is the one given", "the predicted numbers are those of the inequivalent arrangements",
                 "the supercells counted are one of each kind"]
BOUNDS = {"quick": "the whole program from lattice.in to enum.out for 26 crystals, each with its atoms given in or outside of the unit cell (every "
                   "combination of the given translations), sizes up to 4 parent cells and 8 sites, 2-3 species, with and without concentration "
                   "ranges, superperiodic structures and displacement directions; the structure looked for is symbolic: any supercell of "
                   "the size and any arrangement on it",
          "thorough": "sizes up to 6 cells and 10 sites"}
ASSUMPTIONS = ["atoms in the basis are alike (the package's own convention)"]


def hnfs(n):
    out = []
    for a in range(1, n + 1):
        if n % a:
            continue
        for c in range(1, n // a + 1):
            if (n // a) % c:
                continue
            f = n // a // c
            for b in range(c):
                for d in range(f):
                    for e in range(f):
                        out.append([[a, 0, 0], [b, c, 0], [d, e, f]])
    return out


_MAPS = {}


def _num(H):
    n = H[0][0] * H[1][1] * H[2][2]
    reps = [(i, j, k) for i in range(H[0][0]) for j in range(H[1][1]) for k in range(H[2][2])]
    return n, reps, {r: i for i, r in enumerate(reps)}


def site_map(lat, basis, H1, H2):
    """(site of H1 -> site of H2, permutation of the directions) for a symmetry taking the supercell H1 to H2, None if there is none"""
    key = (lat, basis, str(H1), str(H2))
    if key in _MAPS:
        return _MAPS[key]
    L = lt.LATS[lat]
    base = [[F(x) for x in b] for b in lt.BASES[basis]]
    n, reps1, _ = _num(H1)
    _, reps2, idx2 = _num(H2)
    A2 = lt.adj(H2)
    res = None
    for N, t in L.space_ops(base):
        # columns of H1 are the supercell vectors in lattice coordinates; their images must lie in the lattice of H2
        W = lt.mul(A2, lt.mul(lt.tr(N), H1))
        if any(x % n for r in W for x in r):
            continue
        img = []
        for b in base:
            for r in reps1:
                f = [x + y for x, y in zip(lt.rowmul([F(u) + v for u, v in zip(b, r)], N), t)]
                for k, c in enumerate(base):
                    q = [x - y for x, y in zip(f, c)]
                    if all(x.denominator == 1 for x in q):
                        img.append(k * n + idx2[lt.reduce_int([int(x) for x in q], H2)])
                        break
        res = (img, N)
        break
    _MAPS[key] = res
    return res


def _lattice_in(ctx, lat, basis, shifts, sizes, k, conc, arrows):
    L = lt.LATS[lat]
    base, us = [], []
    for i, b in enumerate(lt.BASES[basis]):
        u = [0, 0, 0]
        for at, ax, lo, hi in shifts:
            if at == i:
                u[ax] = int(ctx.int("t%d_%d" % (at, ax), lo, hi))
        us.append(tuple(u))
        base.append(L.cart([F(x) + y for x, y in zip(b, u)]))
    with open("lattice.in", "w") as f:
        f.write("# sizes\n%d %d\nbulk\n" % tuple(sizes))
        for v in L.vecs:
            f.write(" ".join(repr(float(x)) for x in v) + "\n")
        f.write("%d\n%d\n" % (k, len(base)))
        for v in base:
            f.write(" ".join(repr(float(x)) for x in v) + "\n")
        if conc is None:
            f.write("F\n")
        else:
            f.write("T\n%s\n" % ("T" if arrows else "F"))
            for i, c in enumerate(conc):
                f.write(" ".join(str(x) for x in c) + (" %s" % arrows[i] if arrows else "") + "\n")
    return tuple(us)


def _read(text, lat, basis):
    """the listed structures as decorations in the oracle's numbering: [(size, H, labels, directions)], None if they make no sense"""
    L = lt.LATS[lat]
    A = [[F(x) for x in r] for r in L.vecs]
    Ai = lt.inv(A)
    base = lt.BASES[basis]
    lines = [l.split() for l in text.split("\n")]
    ok = all(abs(float(lines[2 + i][j]) - float(L.vecs[i][j])) < 1e-6 for i in range(3) for j in range(3))
    nd = int(lines[5][0])
    ok = ok and nd == len(base)
    if not ok:
        return None
    off = []
    for i in range(nd):
        f = lt.rowmul([F(x) for x in lines[6 + i]], Ai)
        hit = [(k, [round(x - y) for x, y in zip(f, b)]) for k, b in enumerate(base)
               if all(abs(x - y - round(x - y)) < F(1, 10 ** 5) for x, y in zip(f, b))]
        if len(hit) != 1:
            return None
        off.append(hit[0])
    if sorted(k for k, u in off) != list(range(nd)):
        return None
    out = []
    for w in lines[14 + nd:]:
        if not w:
            continue
        S = [int(x) for x in w[8:11]]
        h = [int(x) for x in w[11:17]]
        H = [[h[0], 0, 0], [h[1], h[2], 0], [h[3], h[4], h[5]]]
        T = [[int(x) for x in w[17:20]], [int(x) for x in w[20:23]], [int(x) for x in w[23:26]]]
        n, reps, idx = _num(H)
        lab, drs = w[26], w[27]
        if len(lab) != n * nd or len(drs) != n * nd or abs(lt.det(T)) != 1:
            return None
        A3, d = lt.adj(T), lt.det(T)
        cfg = [None] * (n * nd)
        for kk in range(nd):
            k, u = off[kk]
            for g in itertools.product(*[range(x) for x in S]):
                p = [sum(A3[i][j] * g[j] for j in range(3)) // d for i in range(3)]
                s = k * n + idx[lt.reduce_int([x + y for x, y in zip(p, u)], H)]
                i = kk * n + (g[0] * S[1] + g[1]) * S[2] + g[2]
                if cfg[s] is not None:
                    return None
                cfg[s] = (int(lab[i]), int(drs[i]) - 1)
        out.append((int(w[6]), H, tuple(cfg)))
    return out


def _allowed(c, n, conc):
    if conc is None:
        return True
    return all(min(r[:2]) * n <= x * r[2] <= max(r[:2]) * n for x, r in zip(c, conc))


def _orbit(grp, s):
    """images of a decoration: (label, direction) per site"""
    out = set()
    for p, q in grp:
        if len(q) > 1:
            out.add(tuple((s[i][0], q[s[i][1]] if s[i][1] >= 0 else -1) for i in p))
        else:
            out.add(tuple(s[i] for i in p))
    return out


class _Ctx:
    """collects concrete verdicts"""
    def __init__(self):
        self.out = {}

    def check(self, ok, label):
        self.out[label] = self.out.get(label, True) and bool(ok)


_JUDGED = {}


def _program(ph, supers, polya, sizes):
    """The files the program writes, by name."""
    args = dict(polya=bool(polya), enum=not polya, lattice="lattice.in", input=None, outfile=None, distribution=None, savedist=False, sizes=None,
                acceptrate=None, seed=None, super=supers, filter=None, visualize=False, shapes=False, show=False, profile=False, verbose=None,
                dataformat="cells.{}")
    ph.enumeration._script_enum(args)
    out = {}
    for f in sorted(os.listdir(".")):
        if f.startswith("polya.out") or f in ("enum.in", "enum.out"):
            with open(f) as h:
                out[f] = h.read()
            os.remove(f)
    return out


def full(ctx, ph, lat, basis, shifts, sizes, k, conc, supers, arrows, probe, polya=False):
    u = _lattice_in(ctx, lat, basis, shifts, sizes, k, conc, arrows)
    nd = len(lt.BASES[basis])
    texts = ctx.once("run%s" % (u,), lambda: _program(ph, supers, polya, sizes))
    key = (lat, basis, tuple(sizes), k, str(conc), supers, str(arrows), polya, tuple(sorted(texts.items())))
    if key not in _JUDGED:
        c = _Ctx()
        if not supers or polya:
            _polya(c, texts, lat, basis, sizes, k, conc, arrows, nd)
        _JUDGED[key] = (c.out, None if polya else _listed(c, texts, lat, basis, sizes, k, conc, supers, arrows, nd))
    verdicts, reps = _JUDGED[key]
    for label in sorted(verdicts):
        ctx.check(verdicts[label], label)
    if reps is None:
        return
    # a structure of the crystal, in any supercell
    n = probe
    cells = hnfs(n)
    H = cells[int(ctx.choose("cell", len(cells)))]
    X = [ctx.int("x%d" % i, 0, k - 1) for i in range(n * nd)]
    cnt = [zsum([_ind(X[i] == j) for i in range(n * nd)]) for j in range(k)]
    if conc is not None:
        for j, r in enumerate(conc):
            ctx.assume(zand(cnt[j] * r[2] >= min(r[:2]) * n * nd, cnt[j] * r[2] <= max(r[:2]) * n * nd))
    D = None
    if arrows:
        D = [ctx.int("y%d" % i, -1, 5) for i in range(n * nd)]
        c = [int(x) for x in cnt]
        for j in range(k):
            ctx.assume(zsum([_ind(zand(X[i] == j, D[i] >= 0)) for i in range(n * nd)]) == int(c[j] * arrows[j] + 1e-7))
    if not supers:
        grp = lt.group(lat, basis, H, bool(arrows))
        ident = list(range(n * nd))
        for p, q in grp[:n]:
            if list(p) != ident:
                ctx.assume(zor(*[zor(X[i] != X[p[i]], False if D is None else D[i] != D[p[i]]) for i in ident if p[i] != i]))
    E = "every structure of the crystal is equivalent to a listed one"
    for H2, orb in reps.get(n, []):
        m = site_map(lat, basis, H, H2)
        if m is None:
            continue
        img, N = m
        Y = [None] * (n * nd)
        for i, j in enumerate(img):
            Y[j] = i
        hit = []
        ap = lt.axis_perm(lt.LATS[lat], N) if arrows else None
        for o in orb:
            c = []
            for j, (l, d) in enumerate(o):
                c.append(X[Y[j]] == l)
                if D is not None:
                    # the direction d at the image comes from the direction whose image is d
                    c.append(D[Y[j]] == (-1 if d < 0 else ap.index(d)))
            hit.append(zand(*c))
        ctx.check(zor(*([False] + hit)), E)
        return
    ctx.check(False, E)


def _listed(ctx, texts, lat, basis, sizes, k, conc, supers, arrows, nd):
    """{size: [(supercell, orbits of the listed structures)]}"""
    got = _read(texts["enum.out"], lat, basis)
    ctx.check(got is not None, "the listed crystal is the one given")
    if got is None:
        return None
    # the structures themselves
    seen = {}
    A = "each structure is a decoration of a supercell of the size and composition asked for"
    kinds = {}
    for n, H, s in got:
        ctx.check(H in hnfs(n) and sizes[0] <= n <= sizes[1], A)
        if H not in hnfs(n):
            return None
        c = [sum(1 for x in s if x[0] == i) for i in range(k)]
        ctx.check(sum(c) == n * nd and _allowed(c, n * nd, conc), A)
        if arrows:
            ctx.check([sum(1 for x in s if x[0] == i and x[1] >= 0) for i in range(k)] == [int(x * a + 1e-7) for x, a in zip(c, arrows)], A)
        else:
            ctx.check(all(x[1] < 0 for x in s), A)
        grp = lt.group(lat, basis, H, bool(arrows))
        ident = list(range(n * nd))
        if not supers:
            trans = [p for p, q in grp[:n] if list(p) != ident]
            ctx.check(not any(all(s[i] == s[p[i]] for i in ident) for p in trans), "no listed structure has a smaller cell")
        orb = kinds.setdefault((n, str(H)), (H, set(), []))
        ctx.check(s not in orb[1], "no two listed structures are equivalent")
        orb[1].update(_orbit(grp, s))
        orb[2].append(s)
    reps = {}
    for (n, _), (H, orb, ss) in kinds.items():
        for H2, o2 in reps.get(n, []):
            ctx.check(site_map(lat, basis, H, H2) is None, "no two listed structures are equivalent")
        reps.setdefault(n, []).append((H, orb))
    return reps


def _ind(b):
    from symex.core import zite
    return zite(b, 1, 0)


def _polya(ctx, texts, lat, basis, sizes, k, conc, arrows, nd):
    P = "the predicted numbers are those of the inequivalent arrangements"
    K = "the supercells counted are one of each kind"
    for n in range(sizes[0], sizes[1] + 1):
        lines = texts.get("polya.out.%d" % n, "").split("\n")
        ctx.check(len(lines) > 1, P)
        if len(lines) < 2:
            return
        concs = [[int(x) for x in c.split(":")] for c in lines[0].split()[2:-1]]
        want = [list(c) for c in itertools.product(range(n * nd + 1), repeat=k) if sum(c) == n * nd and _allowed(c, n * nd, conc)]
        ctx.check(sorted(concs) == sorted(want), P)
        rows = [l.split() for l in lines[1:] if l.strip() and not l.startswith("#")]
        tot, rows = rows[-1], rows[:-1]
        cells = []
        for w in rows:
            h = [int(x) for x in w[:6]]
            H = [[h[0], 0, 0], [h[1], h[2], 0], [h[3], h[4], h[5]]]
            ctx.check(H in hnfs(n), K)
            if H not in hnfs(n):
                return
            ctx.check(not any(site_map(lat, basis, H, G) for G in cells), K)
            cells.append(H)
            grp = lt.group(lat, basis, H, bool(arrows))
            vals = []
            for c in concs:
                col, arr = [], []
                for i, x in enumerate(c):
                    na = int(x * arrows[i] + 1e-7) if arrows else 0
                    if x - na:
                        col.append(x - na)
                        arr.append(False)
                    if na:
                        col.append(na)
                        arr.append(True)
                vals.append(burnside(grp, col, arr))
            ctx.check([int(x) for x in w[6:]] == vals + [sum(vals)], P)
        for H in hnfs(n):
            ctx.check(any(site_map(lat, basis, H, G) for G in cells), K)
        ctx.check([int(x) for x in tot[:6]] == [0] * 6 and [int(x) for x in tot[6:]] ==
                  [sum(int(w[6 + i]) for w in rows) for i in range(len(concs) + 1)], P)


def cases(tier):
    q = tier == "quick"
    out = []
    # lattice, basis, shifts (atom, axis, lo, hi), sizes, species, ranges, superperiodic, displaced fractions, sizes probed
    S = [("fcc", "o", [], [1, 4], 2, None, False, None, [1, 2, 3, 4]),
         ("sc", "o", [(0, 0, -1, 1)], [3, 4], 2, None, False, None, [3, 4]),
         ("bcc", "o", [], [2, 5], 2, [[1, 3, 5], [1, 4, 5]], False, None, [4, 5]),
         ("sc", "cscl", [(1, 1, 0, 1), (1, 2, -1, 0)], [1, 3], 2, None, False, None, [2, 3]),
         ("sc", "cscl", [(1, 1, 0, 1), (0, 0, 0, 1)], [4, 4], 2, [[1, 2, 4], [2, 3, 4]], True, None, [4]),
         ("fcc", "dia", [(1, 0, -1, 1)], [2, 3], 2, None, False, None, [2, 3]),
         ("hex", "hcp", [(1, 0, 0, 1), (1, 2, 0, 1)], [1, 3], 2, None, False, None, [2, 3]),
         ("hex", "hcpoff", [(0, 1, -1, 0)], [2, 2], 3, [[0, 1, 2], [0, 1, 2], [1, 1, 4]], False, None, [2]),
         ("tet", "pairz", [(1, 2, -1, 1)], [2, 4], 2, [[1, 2, 2], [0, 1, 2]], False, None, [3, 4]),
         ("ort", "pair", [(1, 0, -2, 1)], [2, 2], 3, None, True, None, [2]),
         ("tri", "o", [(0, 2, -1, 1)], [3, 3], 3, None, False, None, [3]),
         ("mon", "gen2", [(1, 1, 1, 2)], [2, 3], 2, None, True, None, [2, 3]),
         ("rho", "gen2", [(1, 2, -1, 0)], [2, 3], 2, None, False, None, [3]),
         ("sc", "tri3", [(1, 1, 0, 1), (2, 0, -1, 0)], [1, 2], 2, None, False, None, [1, 2]),
         ("sc", "pol", [(2, 1, -1, 1)], [1, 2], 2, None, False, None, [1, 2]),
         ("fcc", "diag3", [(1, 0, 0, 1)], [1, 2], 2, [[1, 2, 3], [1, 2, 3]], False, None, [1, 2]),
         ("sc", "chi4", [(0, 1, 0, 1), (3, 0, -1, -1)], [1, 1], 3, None, False, None, [1]),
         ("fccskew", "o", [], [3, 4], 2, None, False, None, [3, 4]),
         ("scturn", "cscl", [(1, 0, 0, 1)], [2, 2], 3, [[0, 1, 2], [0, 1, 2], [0, 1, 4]], False, None, [2]),
         ("sclh", "off", [(0, 0, 0, 1)], [4, 4], 2, None, False, None, [4]),
         ("sc", "o", [(0, 1, 0, 1)], [2, 2], 2, [[1, 1, 3], [2, 2, 3]], False, None, [2]),
         ("ort", "o", [(0, 1, 0, 1)], [2, 3], 2, [[1, 1, 3], [2, 2, 3]], False, None, [3]),
         # displacement directions
         ("sc", "o", [(0, 1, -1, 0)], [1, 3], 2, [[0, 3, 3], [0, 3, 3]], False, [0, 0.5], [2, 3]),
         ("fcc", "dia", [(1, 1, 0, 1)], [1, 1], 2, [[0, 2, 2], [0, 2, 2]], False, [1.0, 0.5], [1]),
         ("tet", "o", [], [2, 2], 2, [[0, 1, 1], [0, 1, 1]], True, [1.0, 0], [2]),
         ("ort", "pair", [(1, 0, 0, 1)], [1, 1], 2, [[0, 1, 1], [0, 1, 1]], False, [0.5, 1.0], [1])]
    if not q:
        S += [("fcc", "o", [], [5, 6], 2, None, False, None, [5, 6]),
              ("bcc", "o", [], [6, 6], 2, None, False, None, [6]),
              ("sc", "cscl", [(1, 1, 0, 1), (1, 2, -1, 0)], [4, 4], 2, None, False, None, [4]),
              ("hex", "hcp", [(1, 0, 0, 1)], [4, 4], 2, None, False, None, [4]),
              ("fcc", "dia", [(1, 0, -1, 1)], [4, 4], 2, None, False, None, [4]),
              ("fcc", "o", [], [3, 4], 3, None, False, None, [3, 4]),
              ("sc", "tri3", [(1, 1, 0, 1), (2, 0, -1, 0)], [3, 3], 2, None, False, None, [3]),
              ("sc", "o", [], [4, 4], 2, [[0, 4, 4], [0, 4, 4]], False, [0, 0.25], [4]),
              ("tri", "o", [], [5, 5], 2, None, False, None, [5])]
    for i, (l, b, sh, sz, k, co, su, ar, pr) in enumerate(S):
        for p in pr:
            out.append(Case("full_%d_%s_%s_%d" % (i, l, b, p), "full",
                            dict(lat=l, basis=b, shifts=sh, sizes=sz if p == pr[-1] else [p, p], k=k, conc=co, supers=su, arrows=ar, probe=p),
                            weight=k ** (p * len(lt.BASES[b])) * 10, strings=True))
    return out
