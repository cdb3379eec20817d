"""C08 the enumeration without displacements: one of every class."""
import math
from symex.core import zand, zor, znot, zsum
from symex.run import Case
from . import lat as lt

EXPECT_FUNCTIONS = ["tree.brancher", "tree._perm", "tree._invhash", "tree._hash", "tree._coefficients",
                    "tree._color_list", "phonons.how_many_arrows"]
EXPECT_LABELS = ["every arrangement is equivalent to a listed one or superperiodic", "no two listed ones are equivalent",
                 "no listed one is superperiodic", "a listed one has the composition",
                 "with superperiodic ones: every arrangement is equivalent to a listed one"]
BOUNDS = {"quick": "permutation groups of real supercells (up to 12 sites, 1-3 atoms per cell) with all compositions of "
                   "1-5 species having at most 1300 arrangements, and every group generated by two symbolic "
                   "permutations of 4 (one of 5) points; the probe is a symbolic arrangement of the whole composition",
          "thorough": "up to 12 sites and 5000 arrangements"}
ASSUMPTIONS = ["the group handed over is a group with its translations first (C06 shows that for the package's groups)"]


def _decor(conc, species):
    return [[-1, s] for s, c in zip(species, conc) for _ in range(c)]


def _sup(c, trans):
    """symbolic: invariant under a nontrivial translation"""
    return zor(*[zand(*[c[i] == c[j] for i, j in enumerate(t) if i != j]) for t in trans])


def _judge(ctx, surv, group, conc, species, supers, trans):
    n = sum(conc)
    S = []
    for s in surv:
        ctx.check(len(s) == n, "a listed one has the composition")
        ctx.check(all(x[0] == -1 for x in s), "a listed one has the composition")
        v = [int(x[1]) for x in s]
        ctx.check(all(v.count(sp) == c for sp, c in zip(species, conc)), "a listed one has the composition")
        S.append(v)
    c = [ctx.int("c%d" % i, 0, len(conc) - 1) for i in range(n)]
    for k in range(len(conc)):
        ctx.assume(zsum([x == k for x in c]) == conc[k])
    pos = {s: i for i, s in enumerate(species)}
    hit = []
    for v in S:
        orb = set(tuple(pos[v[j]] for j in g[0]) for g in group)
        hit.append(zor(*[zand(*[c[i] == o[i] for i in range(n)]) for o in sorted(orb)]))
    tot = zsum(hit) if hit else 0
    ctx.check(tot <= 1, "no two listed ones are equivalent")
    if supers:
        ctx.check(zor(*hit), "with superperiodic ones: every arrangement is equivalent to a listed one")
    else:
        sp = _sup(c, trans)
        ctx.check(zor(sp, *hit), "every arrangement is equivalent to a listed one or superperiodic")
        ctx.check(znot(zand(sp, zor(*hit))), "no listed one is superperiodic")


def cell(ctx, ph, lat, basis, H, conc, species, supers):
    grp = lt.group(lat, basis, H)
    n = H[0][0] * H[1][1] * H[2][2]

    def run():
        r = ph.tree.brancher(list(conc), [[list(p), list(q)] for p, q in grp], _decor(conc, species), 6, supers, n)
        return [[[int(y) for y in x] for x in s] for s in r]
    surv = ctx.once("enum", run)
    ident = list(range(len(grp[0][0])))
    trans = [g[0] for g in grp[:n] if g[0] != ident]
    _judge(ctx, surv, grp, conc, species, supers, trans)


def _closure(gens, n):
    ident = tuple(range(n))
    out = [ident]
    seen = {ident}
    for g in out:
        for h in gens:
            x = tuple(g[h[i]] for i in range(n))
            if x not in seen:
                seen.add(x)
                out.append(x)
    return out


def anygroup(ctx, ph, n, ngen, conc):
    gens = []
    for k in range(ngen):
        gens.append([int(x) for x in ctx.perm("g%d_" % k, n)])
    grp = [[list(p), [0]] for p in _closure(gens, n)]
    species = list(range(1, len(conc) + 1))
    surv = ctx.once("enum%s" % (sorted(g[0] for g in grp),),
                    lambda: [[[int(y) for y in x] for x in s] for s in
                             ph.tree.brancher(list(conc), grp, _decor(conc, species), 6, False, 1)])
    _judge(ctx, surv, grp, conc, species, True, [])


SHAPES = [("sc", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 4]]), ("sc", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 2]]),
          ("sc", "o", [[1, 0, 0], [0, 1, 0], [1, 2, 5]]), ("fcc", "o", [[1, 0, 0], [0, 1, 0], [1, 2, 6]]),
          ("fcc", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 4]]), ("fcc", "o", [[1, 0, 0], [1, 2, 0], [0, 2, 4]]),
          ("bcc", "o", [[1, 0, 0], [0, 1, 0], [2, 3, 7]]), ("tri", "o", [[1, 0, 0], [0, 1, 0], [0, 2, 6]]),
          ("hex", "o", [[1, 0, 0], [0, 3, 0], [0, 0, 3]]), ("hex", "hcp", [[1, 0, 0], [0, 1, 0], [0, 1, 3]]),
          ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [1, 0, 2]]), ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [1, 1, 4]]),
          ("sc", "cscl", [[1, 0, 0], [0, 1, 0], [0, 1, 3]]), ("sc", "tri3", [[1, 0, 0], [0, 1, 0], [0, 1, 2]]),
          ("ort", "pair", [[1, 0, 0], [0, 2, 0], [0, 0, 2]]), ("rho", "o", [[2, 0, 0], [0, 2, 0], [0, 0, 2]]),
          ("sc", "gen3", [[1, 0, 0], [0, 1, 0], [1, 0, 2]]), ("mon", "o", [[1, 0, 0], [0, 1, 0], [0, 3, 5]]),
          ("sc", "o", [[2, 0, 0], [0, 2, 0], [0, 0, 2]]), ("sc", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
          ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [0, 0, 1]]), ("tet", "pairz", [[1, 0, 0], [0, 1, 0], [1, 1, 2]])]
BIG = [("sc", "o", [[1, 0, 0], [0, 3, 0], [0, 0, 4]]), ("fcc", "o", [[1, 0, 0], [0, 1, 0], [3, 4, 10]]),
       ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [1, 3, 5]]), ("tri", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 9]]),
       ("sc", "cscl", [[1, 0, 0], [0, 2, 0], [0, 0, 3]]), ("sc", "face", [[1, 0, 0], [0, 1, 0], [0, 1, 3]])]


def _parts(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(1, n - k + 2):
        for r in _parts(n - i, k - 1):
            yield (i,) + r


def _multi(c):
    r = math.factorial(sum(c))
    for x in c:
        r //= math.factorial(x)
    return r


def cases(tier):
    out = []
    lim = 1300 if tier == "quick" else 5000
    for l, b, H in SHAPES + (BIG):
        m = H[0][0] * H[1][1] * H[2][2] * len(lt.BASES[b])
        i = 0
        for K in range(1, 6):
            for c in _parts(m, K):
                if _multi(c) > lim or (tier == "quick" and _multi(c) > 500 and (c[0] * 7 + c[-1] * 3 + m) % 4):
                    continue
                i += 1
                species = list(range(1, K + 1))
                if i % 3 == 0:
                    species = species[::-1]
                if i % 5 == 0 and K > 1:
                    species = [s + 1 for s in species]
                out.append(Case("%s_%s_%s_%s%s" % (l, b, "".join(str(x) for r in H for x in r), "".join(map(str, c)),
                                                   "s" if i % 4 == 0 else ""), "cell",
                                dict(lat=l, basis=b, H=H, conc=list(c), species=species, supers=i % 4 == 0),
                                weight=_multi(c), path_timeout=300))
    for c in [(2, 2), (1, 3), (2, 1, 1), (1, 2, 1), (1, 1, 1, 1), (1, 1, 2)]:
        out.append(Case("any4_%s" % "".join(map(str, c)), "anygroup", dict(n=4, ngen=2, conc=list(c)), weight=800))
    for c in [(2, 3), (2, 2, 1), (1, 2, 2), (1, 1, 3)]:
        out.append(Case("any5_%s" % "".join(map(str, c)), "anygroup", dict(n=5, ngen=1, conc=list(c)), weight=500))
    if tier != "quick":
        for c in [(3, 3), (2, 2, 2)]:
            out.append(Case("any6_%s" % "".join(map(str, c)), "anygroup", dict(n=6, ngen=1, conc=list(c)), weight=5000))
        for c in [(2, 3), (2, 2, 1), (1, 1, 3), (1, 1, 1, 2)]:
            out.append(Case("any52_%s" % "".join(map(str, c)), "anygroup", dict(n=5, ngen=2, conc=list(c)), weight=50000))
    return out
