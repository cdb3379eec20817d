"""C03 the supercell shapes kept are exactly one per symmetry class."""
from symex.core import zand, zor, znot, zsum
from symex.run import Case
from . import lat as lt

EXPECT_FUNCTIONS = ["HNFs.get_HNFs", "HNFs.remove_duplicate_lattices", "grouptheory._is_equiv_lattice"]
EXPECT_LABELS = ["every shape is equivalent to a kept one", "no two kept shapes are equivalent",
                 "a kept shape stands for as many shapes as its degeneracy says",
                 "two supercells are the same exactly when one basis is an integer combination of the other"]
BOUNDS = {"quick": "parent lattices and bases of the catalogue below (all Bravais types); index n <= 4..6; a "
                   "symbolic matrix in Hermite normal form as probe",
          "thorough": "index n <= 6..10"}
ASSUMPTIONS = ["exact arithmetic for the oracle; the code's floating point runs natively"]


def _diags(n):
    return [(a, c, n // a // c) for a in range(1, n + 1) if n % a == 0
            for c in range(1, n // a + 1) if (n // a) % c == 0]


def _probe(ctx, n):
    D = _diags(n)
    a, c, f = D[ctx.choose("diagonal", len(D))]
    b = ctx.int("b", 0, c - 1)
    d = ctx.int("d", 0, f - 1)
    e = ctx.int("e", 0, f - 1)
    return [[a, 0, 0], [b, c, 0], [d, e, f]]


def _same(U, N, H, n):
    """U^-1 N^T H integer  (U, N concrete; H lower triangular, possibly symbolic)"""
    W = lt.mul(lt.adj(U), lt.tr(N))
    cs = []
    for i in range(3):
        for j in range(3):
            v = zsum([W[i][k] * H[k][j] for k in range(3) if W[i][k] % n])
            cs.append(v % n == 0)
    return zand(*cs)


def shapes(ctx, ph, lat, basis, n):
    L = lt.LATS[lat]
    ops = []
    for N, t in L.space_ops(lt.BASES[basis]):
        if N not in ops:
            ops.append(N)
    U = ctx.once("shapes", lambda: [[[int(x) for x in r] for r in h] for h in
                                    ph.HNFs.get_HNFs(n, [list(r) for r in L.vecs], lt.cart_basis(L, basis), 3)])
    H = _probe(ctx, n)
    # -N gives the same lattice as N
    half = []
    for N in ops:
        if [[-x for x in r] for r in N] not in half:
            half.append(N)
    hit = [zor(*[_same(u, N, H, n) for N in half]) for u in U]
    ctx.check(zor(*hit), "every shape is equivalent to a kept one")
    ctx.check(zsum(hit) <= 1, "no two kept shapes are equivalent")


def degeneracy(ctx, ph, lat, basis, n):
    """The number of shapes each kept one stands for."""
    L = lt.LATS[lat]
    def run():
        B = lt.cart_basis(L, basis)
        perms = ph.grouptheory._get_dvector_permutations([list(r) for r in L.vecs], [list(b) for b in B], 3, 1e-7)
        U, fix, rp, deg = ph.HNFs.remove_duplicate_lattices(
            ph.HNFs.find_all_HNFs(n), [list(r) for r in L.vecs], B, perms, eps_=1e-7)
        return ([[[int(x) for x in r] for r in u] for u in U], [int(x) for x in deg],
                [[[int(round(x)) for x in r] for r in h] for h in ph.HNFs.find_all_HNFs(n)])
    U, deg, allh = ctx.once("deg", run)
    ctx.check(sum(deg) == len(allh), "the degeneracies add up to the number of shapes")
    k = ctx.choose("kept", len(U))
    ops = []
    for N, t in L.space_ops(lt.BASES[basis]):
        if N not in ops:
            ops.append(N)
    # the members of the class, gathered until the solver knows of no other
    H = _probe(ctx, n)
    members = [h for h in allh if any(_same(U[k], N, h, n) for N in ops)]
    known = zor(*[zand(*[H[i][j] == h[i][j] for i in range(3) for j in range(3)]) for h in members])
    ctx.check(zor(znot(zor(*[_same(U[k], N, H, n) for N in ops])), known),
              "a kept shape stands for as many shapes as its degeneracy says")
    ctx.check(len(members) == deg[k], "a kept shape stands for as many shapes as its degeneracy says")


def equiv(ctx, ph, lat, n, m):
    """_is_equiv_lattice on a concrete and a symbolic supercell."""
    L = lt.LATS[lat]
    D = _diags(n)
    a, c, f = D[ctx.choose("first", len(D))]
    H1 = [[a, 0, 0], [c - 1, c, 0], [f - 1, (f - 1) // 2, f]]
    H2 = _probe(ctx, m)
    At = lt.tr(L.vecs)

    def cols(H):
        return [[zsum([At[i][k] * H[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]
    N = L.ops()[ctx.choose("op", min(4, len(L.ops())))]
    # the supercell H1 in a turned, differently spanned basis
    S1 = lt.mul(lt.tr(N), H1)
    r = ph.grouptheory._is_equiv_lattice(cols(S1), cols(H2), 1e-7)
    W = lt.mul(lt.adj(H1), lt.tr(lt.adj(N)))      # +- n * (N^T H1)^-1
    want = zand(*[zsum([W[i][k] * H2[k][j] for k in range(3)]) % n == 0 for i in range(3) for j in range(3)]) \
        if n == m else False
    if bool(r):
        ctx.check(want, "two supercells are the same exactly when one basis is an integer combination of the other")
    else:
        ctx.check(want == False if not hasattr(want, "_not") else want._not(),  # noqa: E712
                  "two supercells are the same exactly when one basis is an integer combination of the other")


QUICK = {("sc", "o"): 6, ("fcc", "o"): 6, ("fcc2", "off"): 4, ("bcc", "o"): 5, ("tet", "o"): 5, ("bct", "o"): 4,
         ("ort", "o"): 4, ("orc", "o"): 4, ("orf", "o"): 3, ("ori", "o"): 3, ("mon", "o"): 4, ("moc", "o"): 4,
         ("tri", "o"): 4, ("rho", "o"): 5, ("hex", "o"): 5, ("hex", "hcp"): 5, ("hex2", "hcp"): 3,
         ("fcc", "dia"): 5, ("fcc", "diaoff"): 4, ("sc", "pair"): 5, ("sc", "pairz"): 4, ("sc", "gen2"): 4,
         ("sc", "gen3"): 4, ("sc", "cscl"): 4, ("sc", "tri3"): 4, ("fccskew", "o"): 4, ("scskew", "pairz"): 4,
         ("hexskew", "o"): 4, ("scturn", "o"): 4, ("hex", "hon"): 3, ("sclh", "off"): 4, ("fcc", "neg"): 3,
         ("sc", "pol"): 4, ("sc", "diag3"): 5, ("sc", "chi4"): 4, ("fcc", "diag3"): 4, ("tet", "chi4"): 4, ("hex", "diag3"): 3}


def cases(tier):
    out = []
    for (l, b), N in sorted(QUICK.items()):
        if tier != "quick":
            N = min(N + 4, 10) if N > 3 else 6
        for n in range(2, N + 1):
            out.append(Case("%s_%s_%d" % (l, b, n), "shapes", dict(lat=l, basis=b, n=n), weight=n ** 3))
        if b != "neg":
            out.append(Case("deg_%s_%s" % (l, b), "degeneracy", dict(lat=l, basis=b, n=4), weight=30))
    for l in ("sc", "fcc", "hex", "tri", "bcc"):
        for n in range(1, 5 if tier == "quick" else 9):
            for m in range(1, 5 if tier == "quick" else 9):
                if n == m or (n + m) % 3 == 0 or tier != "quick":
                    out.append(Case("eq_%s_%d_%d" % (l, n, m), "equiv", dict(lat=l, n=n, m=m), weight=n * m))
    return out
