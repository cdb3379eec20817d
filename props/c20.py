"""C20 generated groups and full matrices are complete."""
import numpy as np
from symex.core import Sym, zand, zor
from symex.run import Case

EXPECT_FUNCTIONS = ["grouptheory.a_group", "grouptheory.a_group_gen", "grouptheory._group", "polyaburnside.group", "grouptheory.get_full_HNF"]
BOUNDS = {"quick": "one to three symbolic generators acting on up to 4 (5 for one) sites and up to 4 directions, numbered from 0 or 1; products of up to 3 translations and "
                   "3 rotations on up to 4 sites; supercell matrices with symbolic entries up to 10^6",
          "thorough": "one generator on 6 sites, 3 directions on 3 sites, 3 rotations on 2"}
ASSUMPTIONS = []
EXPECT_LABELS = ["every generator is in the group", "the group is closed", "nothing else is in the group", "no operation is listed twice",
                 "the operations are the products", "the matrix has the entries given"]


def _clos(gens):
    """closure of tuples of permutations under composition"""
    def mul(a, b):
        return tuple(tuple(x[i] for i in y) for x, y in zip(a, b))
    out = set(gens)
    new = list(out)
    while new:
        nxt = []
        for a in new:
            for g in gens:
                c = mul(a, g)
                if c not in out:
                    out.add(c)
                    nxt.append(c)
        new = nxt
    return out


def _tup(e, parts):
    return tuple(tuple(int(x) for x in p) for p in (e if parts else [e]))


def _judge(ctx, got, gens):
    want = _clos(gens)
    g = set(got)
    ctx.check(all(x in g for x in gens), "every generator is in the group")
    ctx.check(g <= want, "nothing else is in the group")
    ctx.check(g >= want, "the group is closed")
    ctx.check(len(g) == len(got), "no operation is listed twice")


def gen(ctx, ph, n, k):
    base = int(ctx.choose("base", 2))
    ps = [ctx.perm("g%d_" % i, n) for i in range(k)]
    arg = [[x + base for x in p] for p in ps]
    got = ph.polyaburnside.group(arg)
    _judge(ctx, [_tup(e, False) for e in got], [_tup(p, False) for p in ps])


def agen(ctx, ph, n, m, nt, nr):
    """group generated by the products of translations and rotations"""
    T = [ctx.perm("t%d_" % i, n) for i in range(nt)]
    R = [[ctx.perm("r%d_" % i, n), ctx.perm("a%d_" % i, m)] for i in range(nr)]
    got = ph.grouptheory.a_group_gen([list(t) for t in T], [[list(r), list(a)] for r, a in R])
    gens = []
    for t in T:
        for r, a in R:
            gens.append((tuple(int(r[int(x)]) for x in t), tuple(int(x) for x in a)))
    _judge(ctx, [_tup(e, True) for e in got], gens)


def prod(ctx, ph, n, m, nt, nr):
    T = [ctx.perm("t%d_" % i, n) for i in range(nt)]
    R = [[ctx.perm("r%d_" % i, n), ctx.perm("a%d_" % i, m)] for i in range(nr)]
    got = ph.grouptheory.a_group([list(t) for t in T], [[list(r), list(a)] for r, a in R])
    want = set()
    for t in T:
        for r, a in R:
            want.add((tuple(int(r[int(x)]) for x in t), tuple(int(x) for x in a)))
    g = [_tup(e, True) for e in got]
    ctx.check(set(g) == want, "the operations are the products")
    ctx.check(len(set(g)) == len(g), "no operation is listed twice")


def hnf(ctx, ph, kind, most):
    h = [ctx.int("h%d" % i, 0, most) for i in range(6)]
    arg = {"list": list, "array": np.array}[kind](h)
    H = ph.grouptheory.get_full_HNF(arg)
    want = [[h[0], 0, 0], [h[1], h[2], 0], [h[3], h[4], h[5]]]
    ok = len(H) == 3 and all(len(r) == 3 for r in H)
    ctx.check(ok and zand(*[H[i][j] == want[i][j] for i in range(3) for j in range(3)]), "the matrix has the entries given")


def cases(tier):
    q = tier == "quick"
    out = []
    for n, k in ((2, 1), (3, 1), (4, 1), (5, 1), (2, 2), (3, 2), (3, 3), (4, 2)) + (() if q else ((6, 1),)):
        out.append(Case("gen_%d_%d" % (n, k), "gen", dict(n=n, k=k)))
    for n, m, nt, nr in ((2, 2, 1, 1), (3, 2, 1, 1), (4, 2, 1, 1), (2, 3, 1, 2), (3, 2, 2, 1), (2, 2, 2, 2), (3, 2, 1, 2)) + (
            () if q else ((4, 2, 1, 1), (3, 3, 1, 1), (2, 2, 1, 3))):
        out.append(Case("agen_%d_%d_%d_%d" % (n, m, nt, nr), "agen", dict(n=n, m=m, nt=nt, nr=nr)))
    for n, m, nt, nr in ((2, 2, 1, 1), (3, 3, 1, 1), (3, 2, 2, 1), (3, 2, 1, 2), (2, 2, 2, 2), (2, 2, 3, 2)) + (
            () if q else ((3, 2, 2, 2),)):
        out.append(Case("prod_%d_%d_%d_%d" % (n, m, nt, nr), "prod", dict(n=n, m=m, nt=nt, nr=nr)))
    for k in ("list", "array"):
        out.append(Case("hnf_%s" % k, "hnf", dict(kind=k, most=10 ** 6)))
    return out
