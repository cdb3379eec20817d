"""C07 colourings and displacement patterns are numbered one to one."""
import math
import numpy as np
from symex.core import zand, zsum
from symex.run import Case

EXPECT_FUNCTIONS = ["tree._hash", "tree._invhash", "tree._coefficients", "numerics.binomial_coefficient",
                    "numerics.multinomial", "numerics.factorial", "phonons._ahash", "phonons._ainvhash"]
EXPECT_LABELS = ["decoding gives back the colouring", "encoding gives back the number", "the number is within its range",
                 "the ranges multiply to the number of colourings", "displacements: decoding gives back the pattern",
                 "displacements: encoding gives back the number", "the binomial coefficient is exact",
                 "the multinomial coefficient is exact"]
BOUNDS = {"quick": "symbolic colourings and symbolic numbers of all compositions listed (up to 8 sites, 4 colours); "
                   "symbolic displacement patterns of up to 8 atoms in 2..6 directions and symbolic numbers; symbolic n, k "
                   "<= 44 for the binomial (plus bands up to 90), symbolic multinomials up to 64 sites",
          "thorough": "up to 11 sites, n, k <= 110"}


def _multi(c):
    r = math.factorial(sum(c))
    for x in c:
        r //= math.factorial(x)
    return r


def _encode(ph, col, colors):
    """Numbers of a colouring: each colour against those not yet taken."""
    out = []
    left = list(col)
    for k in range(1, len(colors) + 1):
        out.append(ph.tree._hash([1 if x == k else 0 for x in left]))
        left = [x for x in left if x != k]
    return out


def decode(ctx, ph, conc):
    """symbolic numbers -> colouring -> numbers"""
    n = sum(conc)
    coe = [x for x in ph.tree._coefficients(list(conc), n)]
    p = 1
    for x in coe:
        p *= x
    ctx.check(p == _multi(conc), "the ranges multiply to the number of colourings")
    I = [ctx.int("i%d" % k, 0, int(c) - 1) for k, c in enumerate(coe)]
    col = ph.tree._invhash(list(I), list(conc), n)
    ctx.check(len(col) == n, "a colour for every site")
    col = [int(x) for x in col]
    for k, c in enumerate(conc):
        ctx.check(col.count(k + 1) == c, "the decoded colouring has the composition")
    back = _encode(ph, col, conc)
    for a, b in zip(I, back):
        ctx.check(a == b, "encoding gives back the number")


def encode(ctx, ph, conc):
    """symbolic colouring -> numbers -> colouring"""
    n = sum(conc)
    K = len(conc)
    col = [ctx.int("c%d" % i, 1, K) for i in range(n)]
    for k in range(K):
        ctx.assume(zsum([x == k + 1 for x in col]) == conc[k])
    num = []
    left = list(col)
    for k in range(1, K + 1):
        num.append(ph.tree._hash([1 if bool(x == k) else 0 for x in left]))
        left = [x for x in left if not bool(x == k)]
    coe = ph.tree._coefficients(list(conc), n)
    for a, c in zip(num, coe):
        ctx.check(zand(a >= 0, a < c), "the number is within its range")
    back = ph.tree._invhash(list(num), list(conc), n)
    for a, b in zip(col, back):
        ctx.check(a == b, "decoding gives back the colouring")


def binary(ctx, ph, n, k):
    """_hash on a symbolic selection of k of n sites, the symbolic list handed over as it is"""
    sel = [ctx.int("s%d" % i, 0, 1) for i in range(n)]
    ctx.assume(zsum(sel) == k)
    h = ph.tree._hash(list(sel))
    ctx.check(zand(h >= 0, h < math.comb(n, k)), "the number is within its range")
    back = ph.tree._invhash([h], [k], n)
    for a, b in zip(sel, back):
        ctx.check(a == b, "decoding gives back the colouring")


def arrows(ctx, ph, m, dim):
    pat = [ctx.int("a%d" % i, 0, dim - 1) for i in range(m)]
    h = ph.phonons._ahash(list(pat), dim)
    ctx.check(zand(h >= 0, h < dim ** m), "displacements: the number is within its range")
    back = ph.phonons._ainvhash(h, m, dim)
    ctx.check(len(back) == m, "displacements: a direction for every atom")
    for a, b in zip(pat, back):
        ctx.check(a == b, "displacements: decoding gives back the pattern")


def numbers(ctx, ph, m, dim):
    x = ctx.int("x", 0, dim ** m - 1)
    pat = ph.phonons._ainvhash(x, m, dim)
    for a in pat:
        ctx.check(zand(a >= 0, a < dim), "displacements: every direction exists")
    ctx.check(ph.phonons._ahash(list(pat), dim) == x, "displacements: encoding gives back the number")


def binom(ctx, ph, nlo, nhi):
    n = ctx.int("n", nlo, nhi)
    k = ctx.int("k", -2, nhi + 2)
    r = ph.numerics.binomial_coefficient(n, k)
    n, k = int(n), int(k)
    ctx.check(r == (math.comb(n, k) if 0 <= k <= n else 0), "the binomial coefficient is exact")


def fact(ctx, ph, hi):
    n = ctx.int("n", 0, hi)
    r = ph.numerics.factorial(n)
    ctx.check(r == math.factorial(int(n)), "the factorial is exact")


def multi(ctx, ph, parts):
    c = [ctx.int("m%d" % i, lo, hi) for i, (lo, hi) in enumerate(parts)]
    r = ph.numerics.multinomial(list(c))
    ctx.check(r == _multi([int(x) for x in c]), "the multinomial coefficient is exact")
    # the numbers read from an input file are numpy's
    r = ph.numerics.multinomial([np.int64(int(x)) for x in c])
    ctx.check(r == _multi([int(x) for x in c]), "the multinomial coefficient is exact")
    ok = True
    t = sum(int(x) for x in c)
    for x, y in zip(c, ph.tree._coefficients([np.int64(int(x)) for x in c], np.int64(t))):
        ok = ok and y == math.comb(t, int(x))
        t -= int(x)
    ctx.check(ok, "the ranges are exact")


def _parts(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(1, n - k + 2):
        for r in _parts(n - i, k - 1):
            yield (i,) + r


def cases(tier):
    out = []
    q = tier == "quick"
    N = 7 if q else 9
    for n in range(1, N + 1):
        for K in range(1, 5):
            for c in _parts(n, K):
                m = _multi(c)
                if m <= (300 if q else 3000):
                    out.append(Case("dec_%s" % "".join(map(str, c)), "decode", dict(conc=list(c)), weight=m))
                    out.append(Case("enc_%s" % "".join(map(str, c)), "encode", dict(conc=list(c)), weight=m * n))
    for n in range(1, 10 if q else 13):
        for k in range(1, n + 1):
            if math.comb(n, k) <= (130 if q else 1000):
                out.append(Case("bin_%d_%d" % (n, k), "binary", dict(n=n, k=k), weight=n * math.comb(n, k)))
    for dim in (2, 3, 4, 6):
        for m in range(1, 7 if q else 10):
            out.append(Case("ah_%d_%d" % (m, dim), "arrows", dict(m=m, dim=dim), weight=m))
            out.append(Case("ai_%d_%d" % (m, dim), "numbers", dict(m=m, dim=dim), weight=m))
    B = [(0, 12), (13, 20), (21, 27), (28, 33), (34, 38), (60, 62), (66, 68), (90, 90)]
    if not q:
        B = [(i, i + 2) for i in range(0, 112, 3)]
    for lo, hi in B:
        out.append(Case("binom_%d" % lo, "binom", dict(nlo=lo, nhi=hi), weight=hi * (hi - lo + 1)))
    out.append(Case("fact", "fact", dict(hi=30 if q else 60), weight=10))
    for i, p in enumerate([[(0, 4), (0, 4), (0, 4)], [(0, 12), (0, 12)], [(15, 20), (30, 34)], [(14, 17), (15, 17), (16, 16), (16, 17)],
                           [(0, 3)] * 4, [(40, 44), (38, 40)], [(0, 30)], [(1, 1), (60, 63)]]):
        out.append(Case("multi_%d" % i, "multi", dict(parts=p), weight=200))
    return out
