"""C13 the allowed compositions of a supercell, each once."""
from symex.core import zand, zor, znot, zsum
from symex.run import Case

EXPECT_FUNCTIONS = ["symmetry.get_concs_for_size"]
EXPECT_LABELS = ["every allowed composition is listed", "nothing else is listed", "nothing is listed twice"]
BOUNDS = {"quick": "2-4 species, up to 12 sites (1-3 atoms in the parent cell), symbolic ranges (numerators and a common "
                   "denominator up to 12, in either order, denominators differing between the species up to 4); one range in cells of up to 30 sites in steps of one site",
          "thorough": "up to 24 sites and denominators up to 24; one range in cells of up to 60 sites"}
ASSUMPTIONS = []


def _check(ctx, out, k, n, allowed):
    """out: the concrete list; allowed(probe) -> the condition on a symbolic composition"""
    out = [[int(x) for x in c] for c in out]
    ctx.check(len(set(map(tuple, out))) == len(out), "nothing is listed twice")
    ctx.check(all(len(c) == k for c in out), "nothing else is listed")
    p = [ctx.int("probe%d" % i, 0, n) for i in range(k)]
    ctx.assume(zsum(p) == n)
    ok = allowed(p)
    listed = zor(*([False] + [zand(*[p[i] == c[i] for i in range(k)]) for c in out]))
    ctx.check(zor(znot(ok), listed), "every allowed composition is listed")
    ctx.check(zor(ok, znot(listed)), "nothing else is listed")
    ctx.check(all(sum(c) == n and min(c) >= 0 for c in out), "nothing else is listed")


def free(ctx, ph, k, size, nb):
    s = int(ctx.int("size", 1, size))
    out = ph.symmetry.get_concs_for_size(s, k, False, nb, [])
    _check(ctx, out, k, s * nb, lambda p: True)


def ranges(ctx, ph, k, size, nb, den, arrows, native=False):
    """every species has its range lo/den .. hi/den (given in either order)"""
    n = size * nb
    num = [(ctx.int("lo%d" % i, 0, den), ctx.int("hi%d" % i, 0, den)) for i in range(k)]
    if native:      # the machine's own rounding
        num = [(int(a), int(b)) for a, b in num]
    concs = [[a, b, den] + ([0.5] if arrows else []) for a, b in num]
    out = ph.symmetry.get_concs_for_size(size, k, True, nb, concs)
    _check(ctx, out, k, n, lambda p: zand(*[zor(zand(p[i] * den >= num[i][0] * n, p[i] * den <= num[i][1] * n),
                                                zand(p[i] * den >= num[i][1] * n, p[i] * den <= num[i][0] * n))
                                            for i in range(k)]))


def limits(ctx, ph, size, nb, den):
    """the machine's own rounding in larger cells: the range of one species, the other is free"""
    a = int(ctx.int("lo", 0, den))
    b = int(ctx.int("hi", 0, den))
    ctx.assume(a <= b)
    out = ph.symmetry.get_concs_for_size(size, 2, True, nb, [[a, b, den], [0, den, den]])
    n = size * nb
    _check(ctx, out, 2, n, lambda p: zand(p[0] * den >= a * n, p[0] * den <= b * n))


def denominators(ctx, ph, k, size, nb, dens):
    """ranges with a denominator of their own"""
    n = size * nb
    concs = []
    for i in range(k):
        d = dens[int(ctx.int("d%d" % i, 0, len(dens) - 1))]
        a, b = int(ctx.int("lo%d" % i, 0, d)), int(ctx.int("hi%d" % i, 0, d))
        concs.append([a, b, d])
    out = ph.symmetry.get_concs_for_size(size, k, True, nb, concs)
    _check(ctx, out, k, n, lambda p: zand(*[zand(p[i] * c[2] >= min(c[:2]) * n, p[i] * c[2] <= max(c[:2]) * n)
                                            for i, c in enumerate(concs)]))


def cases(tier):
    out = []
    q = tier == "quick"
    for k, size, nb in [(1, 8, 1), (2, 12, 1), (2, 6, 2), (3, 8, 1), (3, 4, 2), (3, 3, 3), (4, 5, 1), (4, 3, 2), (5, 4, 1)] + \
            ([] if q else [(2, 40, 1), (3, 20, 1), (4, 10, 1), (5, 7, 1)]):
        out.append(Case("free_%d_%d_%d" % (k, size, nb), "free", dict(k=k, size=size, nb=nb), weight=size ** k))
    for k, size, nb, den in [(2, 3, 1, 3), (2, 5, 1, 5), (2, 4, 1, 6), (2, 6, 1, 4), (2, 7, 1, 3), (2, 3, 2, 5), (2, 2, 3, 7), (3, 2, 2, 2),
                             (3, 3, 1, 3), (3, 4, 1, 2), (3, 5, 1, 2), (3, 2, 1, 3), (2, 12, 1, 5), (2, 11, 1, 5), (1, 4, 1, 4)] + \
            ([] if q else [(2, 10, 1, 10), (2, 12, 1, 12), (2, 12, 2, 7), (3, 6, 1, 3), (3, 3, 2, 4), (2, 9, 1, 24), (4, 3, 1, 2)]):
        for arrows in ((False, True) if den < 5 and k < 3 else (False,)):
            out.append(Case("range_%d_%d_%d_%d%s" % (k, size, nb, den, "a" if arrows else ""), "ranges",
                            dict(k=k, size=size, nb=nb, den=den, arrows=arrows), weight=den ** (2 * k)))
    for k, size, nb, den in [(2, 7, 1, 5), (2, 3, 3, 6), (1, 49, 1, 49), (3, 3, 1, 2)] + ([] if q else [(2, 10, 1, 10), (2, 7, 2, 7), (3, 6, 1, 3)]):
        out.append(Case("native_%d_%d_%d_%d" % (k, size, nb, den), "ranges",
                        dict(k=k, size=size, nb=nb, den=den, arrows=False, native=True), weight=den ** (2 * k)))
    for size, nb, den in [(22, 1, 22), (23, 1, 23), (25, 1, 25), (29, 1, 29), (13, 2, 26), (10, 3, 10), (11, 2, 11), (28, 1, 14)] + \
            ([] if q else [(s, 1, s) for s in range(12, 61) if s not in (22, 23, 25, 29)] + [(s, 2, s) for s in range(5, 31)] +
             [(s, 3, s) for s in range(5, 21)] + [(25, 1, 100), (50, 1, 100), (29, 1, 100)]):
        out.append(Case("limits_%d_%d_%d" % (size, nb, den), "limits", dict(size=size, nb=nb, den=den), weight=den * den * size))
    for k, size, nb, dens in [(2, 4, 1, [2, 3, 4]), (2, 6, 1, [2, 3]), (2, 3, 2, [1, 4]), (3, 4, 1, [1, 2])] + \
            ([] if q else [(2, 12, 1, [3, 4, 6]), (3, 6, 1, [1, 2, 3])]):
        out.append(Case("dens_%d_%d_%d" % (k, size, nb), "denominators", dict(k=k, size=size, nb=nb, dens=dens), weight=1000))
    return out
