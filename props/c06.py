"""C06 the permutation group of a supercell."""
import itertools
from fractions import Fraction as F
from symex.core import zand, zor, znot
from symex.run import Case
from . import lat as lt

EXPECT_FUNCTIONS = ["grouptheory.get_sym_group", "grouptheory._get_rotation_perms_lists",
                    "grouptheory._get_dvector_permutations", "grouptheory._make_member_list",
                    "grouptheory._find_permutation_of_group", "grouptheory._get_sLV_fixing_operations",
                    "grouptheory.SmithNormalForm", "symmetry.get_spaceGroup"]
EXPECT_LABELS = ["every symmetry of the crystal with every translation is listed", "no entry is listed twice",
                 "the pure translations come first", "every entry is caused by a symmetry operation",
                 "the directions are permuted by the same rotation"]
BOUNDS = {"quick": "parent crystals below (13 lattices, 1-3 atoms, on and off the origin); supercell matrices with "
                   "symbolic off-diagonal entries up to index 2..6; a symbolic operation and a symbolic translation "
                   "of the supercell as probe",
          "thorough": "index up to 4..10"}
ASSUMPTIONS = ["the supercell matrix is forked over its feasible values before numpy inverts it",
               "the parent crystal's coordinates are those of the catalogue"]
AXES = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]


def _wrapf(f):
    out = []
    for x in f:
        x = F(x)
        out.append(x - (x.numerator // x.denominator))
    return out


def _inv_int(M):
    d = lt.det(M)
    a = lt.adj(M)
    return [[a[i][j] * d for j in range(3)] for i in range(3)] if d in (1, -1) else None


def _axis_perm(L, N):
    """Direct image of the Cartesian axes under fractional-row operation N, None if not a permutation."""
    A = [[F(x).limit_denominator(10 ** 6) for x in r] for r in L.vecs]
    M = lt.mul(lt.mul(lt.inv(A), N), A)        # cartesian rows: x -> x M
    out = []
    for a in AXES:
        im = lt.rowmul(a, M)
        k = [i for i, b in enumerate(AXES) if all(abs(x - y) < F(1, 10 ** 4) for x, y in zip(im, b))]
        if not k:
            return None
        out.append(k[0])
    return tuple(out)


def expected(L, basis, H, snf, Lt, arrows):
    """operation -> list over translations z of (site permutation, arrow permutation); exact."""
    d = [snf[i][i] for i in range(3)]
    n = d[0] * d[1] * d[2]
    base = [_wrapf(b) for b in basis]
    g = list(itertools.product(range(d[0]), range(d[1]), range(d[2])))
    gi = {x: i for i, x in enumerate(g)}
    Li = _inv_int(Lt)

    def label(f):
        for k, b in enumerate(base):
            r = [x - y for x, y in zip(f, b)]
            if all(x.denominator == 1 for x in r):
                x = [sum(Lt[i][j] * int(r[j]) for j in range(3)) for i in range(3)]
                return k * n + gi[tuple(v % m for v, m in zip(x, d))]
        return None
    pos = []
    for k in range(len(base)):
        for x in g:
            c = [sum(Li[i][j] * x[j] for j in range(3)) for i in range(3)]
            pos.append([u + v for u, v in zip(c, base[k])])
    out = []
    adjH = lt.adj(H)
    for N, t in L.space_ops(base):
        W = lt.mul(lt.mul(adjH, lt.tr(N)), H)
        if any(x % n for r in W for x in r):
            continue
        ap = _axis_perm(L, N) if arrows else None
        if arrows and ap is None:
            return None, d, g
        tab = {}
        for x in g:
            c = [sum(Li[i][j] * x[j] for j in range(3)) for i in range(3)]
            tt = [u + v for u, v in zip(c, t)]
            img = [label([u + v for u, v in zip(lt.rowmul(p, N), tt)]) for p in pos]
            inv = [0] * len(img)
            for a, b in enumerate(img):
                inv[b] = a
            tab[x] = (tuple(inv), ap)
        out.append((N, t, tab))
    return out, d, g


def group(ctx, ph, lat, basis, diag, arrows):
    L = lt.LATS[lat]
    a, c, f = diag
    b = ctx.int("b", 0, c - 1)
    dd = ctx.int("d", 0, f - 1)
    e = ctx.int("e", 0, f - 1)
    H = [[a, 0, 0], [int(b), c, 0], [int(dd), int(e), f]]
    def run():
        G = ph.grouptheory.get_sym_group([list(r) for r in L.vecs], [list(x) for x in lt.cart_basis(L, basis)],
                                         [list(r) for r in H], 3, arrows=arrows)
        S, Lt, R = ph.grouptheory.SmithNormalForm([list(r) for r in H])
        S = [[int(x) for x in r] for r in S]
        Lt = [[int(x) for x in r] for r in Lt]
        got = [(tuple(int(x) for x in p), tuple(int(x) for x in q) if arrows else None)
               for p, q in zip(G.perm.site_perm, G.perm.arrow_perm)]
        return got, len(G.perm.site_perm) == len(G.perm.arrow_perm), expected(L, lt.BASES[basis], H, S, Lt, arrows)
    got, same, (exp, d, g) = ctx.once("group%s" % (H,), run)
    n = a * c * f
    ctx.check(same, "one permutation of directions per entry")
    ctx.check(len(set(got)) == len(got), "no entry is listed twice")
    have = set(got)
    sites = set(p for p, q in got)
    z = [ctx.int("z%d" % i, 0, d[i] - 1) for i in range(3)]
    k = ctx.choose("operation", len(exp))
    N, t, tab = exp[int(k)]
    ok = [x for x in g if tab[x] in have]
    ctx.check(zor(*[zand(*[z[i] == x[i] for i in range(3)]) for x in ok]),
              "every symmetry of the crystal with every translation is listed")
    if arrows:
        # the directions: same sites listed, but with other directions only
        oka = [x for x in g if tab[x][0] in sites and tab[x] not in have]
        ctx.check(znot(zor(*[zand(*[z[i] == x[i] for i in range(3)]) for x in oka])),
                  "the directions are permuted by the same rotation")
    # the other direction: a symbolic entry is one of the expected ones
    allexp = set(v for _, _, tb in exp for v in tb.values())
    bad = [i for i, v in enumerate(got) if v not in allexp]
    q = ctx.int("entry", 0, len(got) - 1)
    ctx.check(znot(zor(*[q == i for i in bad])), "every entry is caused by a symmetry operation")
    ident = [tb for M, tt, tb in exp if M == [[1, 0, 0], [0, 1, 0], [0, 0, 1]] and
             all(x.denominator == 1 for x in map(F, tt))]
    tr = set(v[0] for v in ident[0].values())
    notr = [i for i in range(n) if got[i][0] not in tr]
    ctx.check(znot(zor(*[q == i for i in notr])), "the pure translations come first")


QUICK = [("sc", "o", 6, 1), ("sc", "off", 4, 1), ("fcc", "o", 6, 1), ("fcc", "off", 4, 1), ("fcc", "dia", 3, 1),
         ("fcc", "diaoff", 3, 1), ("fcc2", "o", 4, 1), ("bcc", "o", 4, 1), ("bcc", "neg", 3, 1), ("tet", "o", 4, 1),
         ("bct", "pairz", 2, 1), ("ort", "off", 4, 1), ("ort", "pair", 4, 1), ("orc", "o", 3, 1), ("mon", "gen2", 3, 0),
         ("tri", "o", 4, 0), ("tri", "pair", 4, 0), ("rho", "o", 4, 0), ("rho", "gen2", 3, 0),
         ("hex", "o", 4, 0), ("hex", "hcp", 3, 0), ("hex", "hcpoff", 3, 0), ("hex2", "hon", 2, 0),
         ("sc", "cscl", 4, 1), ("sc", "gen2", 4, 1), ("sc", "gen3", 3, 1), ("sc", "tri3", 3, 1), ("sc", "face", 3, 1),
         ("scskew", "o", 4, 1), ("scskew", "gen2", 3, 1), ("fccskew", "o", 4, 1), ("tetskew", "pairz", 3, 1),
         ("hexskew", "o", 3, 0), ("sclh", "off", 4, 1), ("fccbig", "dia", 3, 1), ("orf", "o", 3, 1), ("ori", "pair", 2, 1)]


def cases(tier):
    out = []
    for l, b, N, ar in QUICK:
        if tier != "quick":
            N = N + 4 if N > 3 else N + 2
        for n in range(1, N + 1):
            for a in range(1, n + 1):
                if n % a:
                    continue
                for c in range(1, n // a + 1):
                    if (n // a) % c:
                        continue
                    f = n // a // c
                    for arrows in ([False, True] if ar and (n % 2 == 0 or tier != "quick") else [bool(ar)]):
                        out.append(Case("%s_%s_%d%d%d%s" % (l, b, a, c, f, "_arr" if arrows else ""), "group",
                                        dict(lat=l, basis=b, diag=[a, c, f], arrows=arrows),
                                        weight=n * c * f * f * (3 if len(lt.BASES[b]) > 1 else 1), path_timeout=200))
    return out
