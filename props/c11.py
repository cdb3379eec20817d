"""C11 sampled enumerations are subsets of the full enumeration, whatever the random choices."""
from symex.core import zsum
from symex.run import Case
from . import lat as lt
from .c09 import _act, _decor, _judge, _run
from .c10 import burnside

EXPECT_FUNCTIONS = ["tree.brancher", "phonons.enum_sys", "phonons.add_arrows", "polyaburnside.polya"]
EXPECT_LABELS = ["the arrangements at the positions asked for are returned", "as many structures as asked for",
                 "no more structures than asked for", "each structure has the composition",
                 "the structures are pairwise inequivalent", "no structure is superperiodic",
                 "each structure belongs to the full enumeration",
                 "asking for all returns as many as predicted",
                 "every arrangement is equivalent to a listed one or superperiodic", "no two listed ones are equivalent",
                 "with superperiodic ones: every arrangement is equivalent to a listed one"]
BOUNDS = {"quick": "every set of 1-3 ordinals (symbolic, in any order) of enumerations with up to 40 members; every number "
                   "of structures asked for with every shuffle (symbolic permutation) of enumerations with up to 40 members; "
                   "every outcome of the acceptance draws for up to 8 members; complete enumerations through enum_sys for "
                   "supercells of up to 8 sites judged against a symbolic arrangement",
          "thorough": "larger supercells, up to 4 ordinals"}
ASSUMPTIONS = ["the permutation group of a supercell is right (C06); superperiodic arrangements left out, an ordinal that falls "
               "on one is passed on to a later one, so that fewer structures than asked for can come back"]


def _n(H):
    return H[0][0] * H[1][1] * H[2][2]


def _norm(r):
    return [[(int(a), int(b)) for a, b in s] for s in r]


def _states(surv, colors, dim, ctx, label):
    out = []
    n = sum(c[0] for c in colors)
    for s in surv:
        ctx.check(len(s) == n, label)
        st = []
        for d, sp in s:
            k = [i for i, c in enumerate(colors) if c[1] == sp and bool(c[2]) == (d >= 0)]
            ctx.check(len(k) == 1 and -1 <= d < dim, label)
            st.append((k[0], d))
        ctx.check(all(sum(1 for x in st if x[0] == i) == c[0] for i, c in enumerate(colors)), label)
        out.append(tuple(st))
    return out


def _super(st, trans):
    return any(all(st[i] == st[j] for i, j in enumerate(t)) for t in trans)


def _honest(ctx, surv, grp, colors, dim, supers, ncell, full):
    """the sample is a sublist of the enumeration up to equivalence"""
    S = _states(surv, colors, dim, ctx, "each structure has the composition")
    ident = list(range(len(grp[0][0])))
    trans = [g[0] for g in grp[:ncell] if list(g[0]) != ident]
    can = [min(_act(s, g, None, dim) for g in grp) for s in S]
    ctx.check(len(set(can)) == len(can), "the structures are pairwise inequivalent")
    if not supers:
        ctx.check(not any(_super(s, trans) for s in S), "no structure is superperiodic")
    if full is not None:
        ctx.check(all(s in full for s in surv), "each structure belongs to the full enumeration")


def ordinals(ctx, ph, lat, basis, H, colors, supers, k, order):
    """brancher with a list of ordinal numbers"""
    arrows = any(c[2] for c in colors)
    grp = lt.group(lat, basis, H, arrows)
    n = _n(H)
    full = ctx.once("full", lambda: _run(ph, grp, colors, 6, True if not arrows else supers, n))
    ident = list(range(len(grp[0][0])))
    trans = [g[0] for g in grp[:n] if list(g[0]) != ident]
    m = len(full)
    k = min(k, m)
    S = [ctx.int("o%d" % i, 1, m) for i in range(k)]
    for i in range(k):
        for j in range(i):
            ctx.assume(S[j] < S[i] if order else S[j] != S[i])
    if not order and k > 1:
        ctx.assume(S[0] > S[1])
    want = list(S)
    r = ph.tree.brancher([c[0] for c in colors], [[list(p), list(q)] for p, q in grp], _decor(colors), 6, supers, n,
                         m, S)
    r = _norm(r)
    want = sorted(int(s) for s in want)
    if supers or arrows:
        ctx.check(r == [full[s - 1] for s in want], "the arrangements at the positions asked for are returned")
        return
    dull = [_super(tuple((b, a) for a, b in s), trans) for s in full]
    ctx.check(all(full[s - 1] in r for s in want if not dull[s - 1]), "the arrangements at the positions asked for are returned")
    ctx.check(len(r) <= k, "no more structures than asked for")
    _honest(ctx, r, grp, colors, 6, supers, n, full)


def accepted(ctx, ph, lat, basis, H, colors, supers, accept, num):
    """huge enumerations: a number of structures and/or an acceptance rate, every outcome of the draws"""
    arrows = any(c[2] for c in colors)
    grp = lt.group(lat, basis, H, arrows)
    n = _n(H)
    full = ctx.once("full", lambda: _run(ph, grp, colors, 6, supers, n))
    k = ctx.int("num", 1, len(full)) if num else None
    if k is not None:
        k = int(k)
    r = ph.tree.brancher([c[0] for c in colors], [[list(p), list(q)] for p, q in grp], _decor(colors), 6, supers, n,
                         10 ** 7, k, accept)
    r = _norm(r)
    if k is not None:
        ctx.check(len(r) <= k, "no more structures than asked for")
        if accept is None or accept >= 1:
            ctx.check(len(r) == k, "as many structures as asked for")
    elif accept >= 1:
        ctx.check(len(r) == len(full), "as many structures as asked for")
    _honest(ctx, r, grp, colors, 6, supers, n, full)


def _system(lat, basis, H, conc, acon):
    L = lt.LATS[lat]
    params = dict(lat_vecs=[list(v) for v in L.vecs], basis_vecs=lt.cart_basis(L, basis), bulk=True, sizes=[1, 4],
                  nspecies=len(conc), is_crestricted=False, arrows=any(acon), concs=[])
    hnf = [H[0][0], H[1][0], H[1][1], H[2][0], H[2][1], H[2][2]]
    colors = []
    for i, c in enumerate(conc):
        na = int(c * acon[i] + 1e-7)
        if c - na:
            colors.append((c - na, i + 1, False))
        if na:
            colors.append((na, i + 1, True))
    return params, hnf, colors


def _pkg_group(ph, params, H, arrows):
    g = ph.grouptheory.get_sym_group(params["lat_vecs"], params["basis_vecs"], [list(r) for r in H], 3, arrows=arrows)
    return [[[int(x) for x in p], [int(x) for x in q]] for p, q in zip(g.perm.site_perm, g.perm.arrow_perm)]


def system(ctx, ph, lat, basis, H, conc, acon, supers, np_ints=False, lim=2):
    """enum_sys asked for any number of structures, every outcome of the shuffle"""
    params, hnf, colors = _system(lat, basis, H, conc, acon)
    arrows = any(c[2] for c in colors)
    grp = ctx.once("grp", lambda: _pkg_group(ph, params, H, arrows))
    dim = 6
    n = _n(H)
    pred = burnside(grp, [c[0] for c in colors], [c[2] for c in colors])
    # the structures come back in the order of the package's colours, so judge by class
    num = int(ctx.int("num", 1, pred + 1))
    if pred > 5:
        ctx.assume(num <= lim or num >= pred or (num == pred - 1 and pred < 7))
    c = list(conc)
    if np_ints:
        import numpy
        c = list(numpy.array(conc))
        num = numpy.int64(num)
        hnf = numpy.array(hnf)
    r = _norm(ph.phonons.enum_sys(None, c, list(acon), num, hnf, params, supers))
    if num < pred:
        if supers:
            ctx.check(len(r) == num, "as many structures as asked for")
        else:
            ctx.check(len(r) <= num, "no more structures than asked for")
        _honest(ctx, r, grp, colors, dim, supers, n, None)
    else:
        if supers:
            ctx.check(len(r) == pred, "asking for all returns as many as predicted")
        ident = list(range(len(grp[0][0])))
        _judge(ctx, r, grp, colors, dim, supers, [g[0] for g in grp[:n] if g[0] != ident])


def from_file(ctx, ph, lat, basis, H, conc, supers):
    """the group read from a file"""
    params, hnf, colors = _system(lat, basis, H, conc, [0] * len(conc))
    grp = ctx.once("grp", lambda: _pkg_group(ph, params, H, False))
    with open("rot_perms", "w") as f:
        f.write("\n" * 6)
        for i, (p, q) in enumerate(grp):
            w = ["%d" % (x + 1) for x in p]
            f.write(" Perm #:  %d Perm: %s\n" % (i + 1, " ".join(w[:4])))
            if w[4:]:
                f.write("       %s\n" % " ".join(w[4:]))
    n = _n(H)
    pred = burnside(grp, [c[0] for c in colors], [False] * len(colors))
    num = int(ctx.int("num", 1, pred))
    r = _norm(ph.phonons.enum_sys("rot_perms", list(conc), [0] * len(conc), num, hnf, params, supers))
    if num < pred:
        ctx.check(len(r) == num if supers else len(r) <= num, "as many structures as asked for")
        _honest(ctx, r, grp, colors, 6, supers, n, None)
    else:
        ident = list(range(len(grp[0][0])))
        _judge(ctx, r, grp, colors, 6, supers, [g[0] for g in grp[:n] if g[0] != ident])


def cases(tier):
    out = []
    q = tier == "quick"
    nm = lambda H: "".join(str(x) for r in H for x in r)
    O = [("sc", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 2]], [(2, 1, False), (2, 2, False)]),
         ("fcc", "o", [[1, 0, 0], [0, 1, 0], [1, 2, 6]], [(2, 1, False), (4, 2, False)]),
         ("fcc", "o", [[1, 0, 0], [0, 1, 0], [1, 2, 6]], [(3, 2, False), (3, 1, False)]),
         ("fcc", "o", [[1, 0, 0], [0, 1, 0], [1, 2, 6]], [(1, 2, False), (2, 3, False), (3, 1, False)]),
         ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [1, 1, 4]], [(2, 1, False), (6, 2, False)]),
         ("sc", "cscl", [[1, 0, 0], [0, 1, 0], [0, 1, 2]], [(2, 1, False), (2, 2, False)]),
         ("ort", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 4]], [(4, 1, False), (4, 2, False)]),
         ("tri", "o", [[1, 0, 0], [0, 1, 0], [0, 2, 6]], [(2, 1, False), (2, 2, False), (2, 3, False)]),
         ("tri", "o", [[1, 0, 0], [0, 1, 0], [0, 2, 8]], [(4, 2, False), (4, 1, False)]),
         ("ort", "pair", [[1, 0, 0], [0, 2, 0], [0, 0, 2]], [(4, 2, False), (4, 1, False)]),
         ("tri", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 4]], [(2, 2, False), (6, 1, False)]),
         ("sc", "tri3", [[1, 0, 0], [0, 1, 0], [0, 1, 2]], [(3, 2, False), (3, 3, False)]),
         ("sc", "o", [[1, 0, 0], [0, 1, 0], [0, 1, 3]], [(2, 1, False), (1, 2, True)]),
         ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [(1, 1, True), (1, 2, True)]),
         ("sc", "cscl", [[1, 0, 0], [0, 1, 0], [0, 1, 2]], [(2, 1, False), (1, 1, True), (1, 2, True)]),
         ("tet", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 4]], [(2, 1, False), (2, 2, True)]),
         ("ort", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 2]], [(1, 3, False), (2, 1, False), (1, 1, True)])]
    for i, (l, b, H, cols) in enumerate(O):
        arr = any(c[2] for c in cols)
        for supers in (False, True):
            m = len(cols)
            for k in ((1, 2, 3) if not q or not arr else (1, 2)):
                out.append(Case("ord_%s_%s_%s_%s_%d%s" % (l, b, nm(H), "-".join("%d%d%s" % (c[0], c[1], "d" if c[2] else "") for c in cols),
                                                          k, "s" if supers else ""), "ordinals",
                                dict(lat=l, basis=b, H=H, colors=cols, supers=supers, k=k, order=k > 2), weight=40 ** k * (3 if arr else 1)))
    A = [O[1], O[3], O[5], O[12], O[13]]
    for l, b, H, cols in A:
        for supers in (False, True):
            for acc, num in ((0.5, False), (0.3, True), (None, True), (1.0, False)):
                if acc not in (None, 1.0) and any(c[2] for c in cols) and _cnt(l, b, H, cols) > 9:
                    continue
                out.append(Case("acc_%s_%s_%s_%s_%s%s%s" % (l, b, nm(H), "-".join("%d%d%s" % (c[0], c[1], "d" if c[2] else "") for c in cols),
                                                           acc, "n" if num else "", "s" if supers else ""), "accepted",
                                dict(lat=l, basis=b, H=H, colors=cols, supers=supers, accept=acc, num=num), weight=3000))
    S = [("sc", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 2]], [2, 2], [0, 0]),
         ("fcc", "o", [[1, 0, 0], [0, 1, 0], [1, 2, 6]], [4, 2], [0, 0]),
         ("fcc", "o", [[1, 0, 0], [0, 1, 0], [1, 2, 4]], [2, 1, 1], [0, 0, 0]),
         ("fcc", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 4]], [3, 0, 1], [0, 0, 0]),
         ("bcc", "o", [[1, 0, 0], [0, 1, 0], [0, 1, 3]], [3, 0], [0, 0]),
         ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [0, 1, 2]], [2, 2], [0, 0]),
         ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [0, 1, 3]], [1, 5], [0, 0]),
         ("sc", "cscl", [[1, 0, 0], [0, 1, 0], [0, 1, 2]], [3, 1], [0, 0]),
         ("hex", "hcp", [[1, 0, 0], [0, 1, 0], [0, 0, 2]], [2, 2], [0, 0]),
         ("ort", "pair", [[1, 0, 0], [0, 1, 0], [0, 0, 2]], [1, 1, 2], [0, 0, 0]),
         ("tri", "o", [[1, 0, 0], [0, 1, 0], [0, 2, 5]], [2, 3], [0, 0]),
         ("sc", "o", [[1, 0, 0], [0, 1, 0], [0, 1, 3]], [2, 1], [0, 1.0]),
         ("sc", "o", [[1, 0, 0], [0, 1, 0], [0, 1, 3]], [2, 1], [0.5, 0]),
         ("fcc", "o", [[1, 0, 0], [0, 1, 0], [0, 1, 2]], [2], [1.0]),
         ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [2], [1.0]),
         ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [2, 0], [1.0, 0]),
         ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [1, 1], [1.0, 0]),
         ("sc", "cscl", [[1, 0, 0], [0, 1, 0], [0, 1, 2]], [3, 1], [0.34, 0]),
         ("tet", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 4]], [1, 3], [0, 0.34]),
         ("sc", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 2]], [1, 1], [1.0, 1.0]),
         ("ort", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 3]], [1, 1, 1], [0, 0, 1.0])]
    if not q:
        S += [("fcc", "dia", [[1, 0, 0], [0, 1, 0], [1, 1, 4]], [2, 6], [0, 0]),
              ("bcc", "o", [[1, 0, 0], [0, 1, 0], [2, 3, 7]], [3, 4], [0, 0]),
              ("sc", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 4]], [2, 6], [0, 0]),
              ("sc", "tri3", [[1, 0, 0], [0, 1, 0], [0, 1, 2]], [2, 4], [0, 0]),
              ("sc", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 2]], [2, 2], [0, 0.5]),
              ("sc", "tri3", [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [2, 1], [0.5, 0])]
    for i, (l, b, H, conc, acon) in enumerate(S):
        for supers in (False, True):
            out.append(Case("sys_%s_%s_%s_%s_%s%s" % (l, b, nm(H), "".join(map(str, conc)), "".join("d" if a else "u" for a in acon),
                                                     "s" if supers else ""), "system",
                            dict(lat=l, basis=b, H=H, conc=conc, acon=acon, supers=supers, np_ints=i % 2 == 0,
                                                         lim=2 if q else 3), weight=5000))
    for l, b, H, conc in [("fcc", "o", [[1, 0, 0], [0, 1, 0], [1, 2, 6]], [2, 4]), ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [0, 1, 2]], [2, 2]),
                          ("sc", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 2]], [1, 1, 2])]:
        out.append(Case("file_%s_%s_%s" % (l, b, "".join(map(str, conc))), "from_file",
                        dict(lat=l, basis=b, H=H, conc=conc, supers=l != "fcc"), weight=500))
    return out


def _cnt(l, b, H, cols):
    g = lt.group(l, b, H, any(c[2] for c in cols))
    return burnside(g, [c[0] for c in cols], [c[2] for c in cols])
