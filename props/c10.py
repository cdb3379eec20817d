"""C10 the Polya count is the exact number of orbits."""
import math
from symex.core import zand, zor, zsum
from symex.run import Case
from . import lat as lt
from .c09 import _closure, _act

EXPECT_FUNCTIONS = ["polyaburnside.polya", "polyaburnside._group_to_cyclic", "polyaburnside.Product.coeff",
                    "polyaburnside.Product._sum_sequences", "polyaburnside.Sequence.expand",
                    "polyaburnside.Multinomial.nchoosekm", "polyaburnside.Multinomial.nchoosek"]
EXPECT_LABELS = ["every arrangement lies in exactly one of the counted orbits", "the count is the number of orbits",
                 "the count for a supercell is the number of orbits", "the count is exact for large numbers"]
BOUNDS = {"quick": "every group generated by one or two symbolic site permutations (n <= 5) with symbolic permutations of "
                   "2-4 directions; groups of real supercells of up to 12 sites with symbolic compositions of 2-4 "
                   "colours; translation groups of up to 64 sites with symbolic compositions (counts above 2**53)",
          "thorough": "n <= 6, more directions, up to 24 sites"}
ASSUMPTIONS = ["the second oracle for larger groups is Burnside's lemma evaluated with exact integers"]


def _fixed(p, q, conc, arrows):
    """arrangements of the composition fixed by the operation (exact)"""
    n = len(p)
    seen = [False] * n
    cyc = []
    for i in range(n):
        k = 0
        while not seen[i]:
            seen[i] = True
            i = p[i]
            k += 1
        if k:
            cyc.append(k)
    tab = {tuple(conc): 1}
    for k in cyc:
        qq = list(range(len(q)))
        for _ in range(k):
            qq = [q[x] for x in qq]
        fx = sum(1 for i, x in enumerate(qq) if i == x)
        new = {}
        for rest, w in tab.items():
            for c in range(len(conc)):
                if rest[c] >= k:
                    r = list(rest)
                    r[c] -= k
                    r = tuple(r)
                    new[r] = new.get(r, 0) + w * (fx if arrows[c] else 1)
        tab = new
    return tab.get(tuple([0] * len(conc)), 0)


def burnside(group, conc, arrows):
    t = sum(_fixed(p, q, conc, arrows) for p, q in group)
    assert t % len(group) == 0
    return t // len(group)


def _arrangements(conc, arrows, dim):
    def rec(left, n):
        if n == 0:
            yield ()
            return
        for k in range(len(left)):
            if left[k]:
                nl = left[:k] + (left[k] - 1,) + left[k + 1:]
                for r in rec(nl, n - 1):
                    for d in (range(dim) if arrows[k] else (-1,)):
                        yield ((k, d),) + r
    return list(rec(tuple(conc), sum(conc)))


def anygroup(ctx, ph, n, dim, ngen, conc, arrows, base=0):
    """arrows: number of displaced colours (the last ones)"""
    gens = []
    for k in range(ngen):
        p = [int(x) for x in ctx.perm("p%d_" % k, n)]
        q = [int(x) for x in ctx.perm("q%d_" % k, dim)] if dim > 1 else [0]
        gens.append((p, q))
    grp = _closure(gens, n, dim)
    arr = [False] * (len(conc) - arrows) + [True] * arrows
    cnt = ctx.once("count%s" % (sorted(grp),),
                   lambda: int(ph.polyaburnside.polya(list(conc), [[[i + base for i in p], [i + (base if dim > 1 else 0) for i in q]]
                                                                   for p, q in grp],
                                                      arrowings=arrows if arrows else None)))
    allst = _arrangements(conc, arr, dim)
    left = set(allst)
    w = dim + 1
    code = [ctx.int("s%d" % i, 0, len(conc) * w - 1) for i in range(n)]
    for k in range(len(conc)):
        lo, hi = (k * w + 1, k * w + dim) if arr[k] else (k * w, k * w)
        ctx.assume(zsum([zand(x >= lo, x <= hi) for x in code]) == conc[k])
    hit = []
    for st in allst:
        if st in left:
            orb = set(_act(st, g, None, dim) for g in grp)
            left -= orb
            hit.append(zor(*[zand(*[code[i] == o[i][0] * w + o[i][1] + 1 for i in range(n)]) for o in sorted(orb)]))
    ctx.check(zsum(hit) == 1, "every arrangement lies in exactly one of the counted orbits")
    ctx.check(cnt == len(hit), "the count is the number of orbits")


def _grp(lat, basis, H, dirs):
    return lt.group(lat, basis, H, dirs)


def cell(ctx, ph, lat, basis, H, K, arrows):
    grp = lt.group(lat, basis, H, arrows > 0)
    n = len(grp[0][0])
    conc = [ctx.int("c%d" % i, 1 if i else 0, n) for i in range(K)]
    ctx.assume(zsum(conc) == n)
    if arrows:
        ctx.assume(zsum(conc[-arrows:]) <= 4)
    cnt = ph.polyaburnside.polya(list(conc), [[list(p), list(q)] for p, q in grp], arrowings=arrows if arrows else None)
    conc = [int(c) for c in conc]
    arr = [False] * (K - arrows) + [True] * arrows
    ctx.check(cnt == burnside(grp, conc, arr), "the count for a supercell is the number of orbits")


def cyclic(ctx, ph, n, shifts, K, arrows, lo):
    """translations by multiples of `shifts` on a ring of n sites, composition symbolic"""
    grp = []
    for s in range(0, n, shifts):
        grp.append([[(i + s) % n for i in range(n)], list(range(6)) if arrows else [0]])
    conc = [ctx.int("c%d" % i, l, h) for i, (l, h) in enumerate(lo)]
    ctx.assume(zsum(conc) == n)
    conc = [int(c) for c in conc]
    arr = [False] * (K - arrows) + [True] * arrows
    cnt = ph.polyaburnside.polya(list(conc), [[list(p), list(q)] for p, q in grp], arrowings=arrows if arrows else None)
    ctx.check(cnt == burnside(grp, conc, arr), "the count is exact for large numbers")


SH = [("sc", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 2]]), ("sc", "o", [[2, 0, 0], [0, 2, 0], [0, 0, 2]]),
      ("fcc", "o", [[1, 0, 0], [0, 1, 0], [1, 2, 6]]), ("fcc", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 4]]),
      ("bcc", "o", [[1, 0, 0], [0, 1, 0], [2, 3, 7]]), ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [1, 1, 4]]),
      ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [0, 0, 3]]), ("sc", "cscl", [[1, 0, 0], [0, 2, 0], [0, 0, 2]]),
      ("tet", "pairz", [[1, 0, 0], [0, 1, 0], [1, 1, 4]]), ("ort", "pair", [[1, 0, 0], [0, 2, 0], [0, 0, 2]]),
      ("sc", "face", [[1, 0, 0], [0, 1, 0], [0, 1, 2]]), ("sc", "o", [[1, 0, 0], [0, 3, 0], [0, 0, 3]]),
      ("sc", "gen3", [[1, 0, 0], [0, 1, 0], [1, 0, 3]])]
HEX = [("hex", "hcp", [[1, 0, 0], [0, 1, 0], [0, 1, 3]]), ("hex", "o", [[1, 0, 0], [0, 3, 0], [0, 0, 3]]),
       ("tri", "o", [[1, 0, 0], [0, 1, 0], [0, 2, 8]]), ("rho", "o", [[2, 0, 0], [0, 2, 0], [0, 0, 2]]),
       ("fcc", "o", [[1, 0, 0], [0, 1, 0], [1, 5, 11]]), ("sc", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 6]])]
BIG = [("sc", "o", [[2, 0, 0], [0, 2, 0], [0, 0, 4]]), ("fcc", "o", [[2, 0, 0], [0, 2, 0], [0, 0, 4]]),
       ("fcc", "dia", [[2, 0, 0], [0, 2, 0], [0, 0, 2]]), ("sc", "cscl", [[1, 0, 0], [0, 3, 0], [0, 0, 3]])]


def cases(tier):
    out = []
    q = tier == "quick"
    A = [(3, 1, 2, [1, 2], 0), (4, 1, 2, [2, 2], 0), (4, 1, 2, [1, 1, 2], 0), (4, 1, 1, [1, 3], 0), (5, 1, 1, [2, 3], 0),
         (5, 1, 1, [1, 2, 2], 0), (5, 1, 1, [1, 1, 1, 2], 0), (4, 1, 1, [1, 1, 1, 1], 0),
         (2, 3, 1, [2], 1), (3, 2, 1, [3], 1), (3, 3, 1, [1, 2], 1), (3, 2, 2, [1, 2], 1), (3, 3, 1, [1, 1, 1], 2),
         (4, 2, 1, [2, 2], 1), (4, 2, 1, [1, 3], 1), (2, 4, 1, [1, 1], 2), (2, 4, 1, [2], 1), (4, 3, 1, [3, 1], 1),
         (3, 4, 1, [2, 1], 1), (3, 3, 1, [2, 1], 2), (2, 3, 2, [2], 1)]
    if not q:
        A += [(5, 1, 2, [2, 3], 0), (6, 1, 1, [3, 3], 0), (6, 1, 1, [2, 2, 2], 0), (4, 3, 1, [2, 2], 1), (3, 4, 1, [1, 2], 1),
              (4, 2, 2, [2, 2], 1), (5, 2, 1, [2, 3], 1), (2, 5, 1, [2], 1), (4, 3, 1, [2, 1, 1], 2)]
    for i, (n, dim, ng, conc, ar) in enumerate(A):
        out.append(Case("any_%d_%d_%d_%s_%d" % (n, dim, ng, "".join(map(str, conc)), ar), "anygroup",
                        dict(n=n, dim=dim, ngen=ng, conc=conc, arrows=ar, base=i % 3 == 1 and 1 or 0), weight=300))
    for l, b, H in SH + HEX + ([] if q else BIG):
        n = H[0][0] * H[1][1] * H[2][2] * len(lt.BASES[b])
        for K in (1, 2, 3, 4, 5):
            if n > 9 and K > 3 or K > n:
                continue
            for ar in ((0, 1, 2) if (l, b, H) in SH and K < 4 else (0,)):
                if ar <= K and not (ar == K and n > 4):
                    out.append(Case("%s_%s_%s_%d_%d" % (l, b, "".join(str(x) for r in H for x in r), K, ar), "cell",
                                    dict(lat=l, basis=b, H=H, K=K, arrows=ar), weight=n ** K))
    for n, s, K, ar, lo in [(64, 64, 2, 0, [(30, 34), (30, 34)]), (64, 8, 2, 0, [(29, 35), (29, 35)]),
                            (60, 60, 3, 0, [(18, 21), (18, 22), (18, 22)]), (36, 9, 2, 1, [(30, 34), (2, 6)]),
                            (40, 8, 2, 1, [(15, 20), (20, 25)]), (32, 16, 3, 0, [(8, 12), (9, 12), (10, 14)])]:
        out.append(Case("ring_%d_%d_%d_%d" % (n, s, K, ar), "cyclic", dict(n=n, shifts=s, K=K, arrows=ar, lo=lo),
                        weight=1000, path_timeout=300))
    return out
