"""C02 every sublattice of a given index is listed once, in Hermite normal form."""
from symex.core import zand, zor
from symex.run import Case

EXPECT_FUNCTIONS = ["HNFs.find_all_HNFs", "HNFs._get_HNF_diagonals"]
EXPECT_LABELS = ["every matrix in normal form is listed", "no matrix is listed twice"]
BOUNDS = {"quick": "every index n <= 64; a symbolic matrix in Hermite normal form of determinant n",
          "thorough": "every index n <= 120"}
ASSUMPTIONS = ["n and the matrix entries are mathematical integers"]


def listed(ctx, ph, n):
    H = ctx.once("hnfs", lambda: [[[int(x) for x in r] for r in h] for h in ph.HNFs.find_all_HNFs(n)])
    ctx.check(all(h[0][1] == 0 and h[0][2] == 0 and h[1][2] == 0 for h in H),
              "listed matrices are lower triangular")
    ctx.check(all(h[0][0] > 0 and h[1][1] > 0 and h[2][2] > 0
                  and h[0][0] * h[1][1] * h[2][2] == n for h in H), "listed matrices have determinant n")
    ctx.check(all(0 <= h[1][0] < h[1][1] and 0 <= h[2][0] < h[2][2] and 0 <= h[2][1] < h[2][2] for h in H),
              "entries below the diagonal are reduced")
    diags = [(a, c, n // a // c) for a in range(1, n + 1) if n % a == 0
             for c in range(1, n // a + 1) if (n // a) % c == 0]
    a, c, f = diags[ctx.choose("diagonal", len(diags))]
    b = ctx.int("b", 0, c - 1)
    d = ctx.int("d", 0, f - 1)
    e = ctx.int("e", 0, f - 1)
    same = [zand(b == h[1][0], d == h[2][0], e == h[2][1]) for h in H
            if (h[0][0], h[1][1], h[2][2]) == (a, c, f)]
    ctx.check(zor(*same), "every matrix in normal form is listed")
    ctx.check(len(set(map(str, H))) == len(H), "no matrix is listed twice")


def cases(tier):
    return [Case("n%d" % n, "listed", dict(n=n), weight=n * n)
            for n in range(1, (64 if tier == "quick" else 120) + 1)]
