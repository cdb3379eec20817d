"""C01 Smith normal form."""
from symex.run import Case

BOUNDS = {"quick": "every matrix in Hermite normal form of determinant <= 24 (off-diagonal entries symbolic)",
          "thorough": "determinant <= 60"}
ASSUMPTIONS = ["numpy dot/any/array on integers and numpy.linalg.det on concrete values follow their documented meaning"]
EXPECT_FUNCTIONS = ["grouptheory.SmithNormalForm"]


def _mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def _det(M):
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1])
            - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
            + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))


def _verify(ctx, ph, H, det):
    S, L, R = ph.grouptheory.SmithNormalForm([list(r) for r in H])
    S = [[S[i][j] for j in range(3)] for i in range(3)]
    L = [[L[i][j] for j in range(3)] for i in range(3)]
    R = [[R[i][j] for j in range(3)] for i in range(3)]
    P = _mul(_mul(L, H), R)
    for i in range(3):
        for j in range(3):
            ctx.check(P[i][j] == S[i][j], "L.H.R equals S")
            if i != j:
                ctx.check(S[i][j] == 0, "S is diagonal")
    for i in range(3):
        ctx.check(S[i][i] >= 1, "diagonal entries are positive")
    ctx.check(S[1][1] % S[0][0] == 0, "first divides second")
    ctx.check(S[2][2] % S[1][1] == 0, "second divides third")
    ctx.check(S[0][0] * S[1][1] * S[2][2] == det, "the diagonal multiplies to the determinant")
    dl, dr = _det(L), _det(R)
    ctx.check(dl * dl == 1, "the left transform is unimodular")
    ctx.check(dr * dr == 1, "the right transform is unimodular")


def hnf(ctx, ph, a, c, f):
    b = ctx.int("b", 0, c - 1)
    d = ctx.int("d", 0, f - 1)
    e = ctx.int("e", 0, f - 1)
    _verify(ctx, ph, [[a, 0, 0], [b, c, 0], [d, e, f]], a * c * f)


def cases(tier):
    N = 24 if tier == "quick" else 60
    out = []
    for n in range(1, N + 1):
        for a in range(1, n + 1):
            if n % a:
                continue
            for c in range(1, n // a + 1):
                if (n // a) % c:
                    continue
                f = n // a // c
                out.append(Case("hnf_%d_%d_%d" % (a, c, f), "hnf", dict(a=a, c=c, f=f), weight=c * f * f))
    return out
