"""C12 random guess-and-check sampling returns distinct structures, whatever the draws."""
from symex.core import Sym, zand, zite, znot, zor
from symex.run import Case
from . import lat as lt
from .c09 import _act, _decor, _closure
from .c10 import burnside, _arrangements
from .c11 import _n, _pkg_group, _system

EXPECT_FUNCTIONS = ["tree.guess_and_check_brancher", "phonons.add_arrows", "phonons.enum_sys"]
EXPECT_LABELS = ["each structure has the composition", "the structures are pairwise inequivalent",
                 "no structure is superperiodic", "no more structures than asked for",
                 "a sampled structure has the species asked for"]
BOUNDS = {"quick": "every sequence of draws (symbolic) of bounded length: 2-4 candidates of up to 60 colourings, up to 6 sites "
                   "with 1-3 displaced atoms, also displaced atoms only (up to 1296 patterns); every group generated by a "
                   "symbolic permutation of 3-4 sites with a symbolic permutation of 2-3 directions",
          "thorough": "longer sequences, up to 8 sites"}
ASSUMPTIONS = ["runs with more draws than the bound (repeated rejections) are not explored",
               "colourings without displacements in which the colours are not listed by increasing number of atoms are judged "
               "up to the known relabelling (known_findings.json); a fixed case reports that finding"]


def _norm(r):
    """directions may stay symbolic"""
    return [[(a if isinstance(a, Sym) else int(a), int(b)) for a, b in s] for s in r]


def _at(q, d):
    """q[d] for a symbolic d"""
    if not isinstance(d, Sym):
        return q[d]
    r = q[-1]
    for i in range(len(q) - 2, -1, -1):
        r = zite(d == i, q[i], r)
    return r


def _same(s, t, g):
    """the operation takes s to t (entries (colour, direction or None))"""
    p, q = g
    c = []
    for i, j in enumerate(p):
        if s[j][0] != t[i][0]:
            return False
        if s[j][1] is not None:
            c.append(_at(q, s[j][1]) == t[i][1])
    return zand(*c) if c else True


def _honest(ctx, surv, grp, colors, dim, supers, ncell, full):
    n = sum(c[0] for c in colors)
    S = []
    for s in surv:
        ctx.check(len(s) == n, "each structure has the composition")
        st = []
        for d, sp in s:
            und = d < 0
            if isinstance(und, bool) or not isinstance(d, Sym):
                und = bool(und)
            else:
                ctx.check(znot(und), "each structure has the composition")
                und = False
            k = [i for i, c in enumerate(colors) if c[1] == sp and bool(c[2]) != und]
            ctx.check(len(k) == 1, "each structure has the composition")
            if not und:
                ctx.check(zand(d >= 0, d < dim), "each structure has the composition")
            st.append((k[0], None if und else d))
        ctx.check(all(sum(1 for x in st if x[0] == i) == c[0] for i, c in enumerate(colors)), "each structure has the composition")
        S.append(st)
    ident = list(range(len(grp[0][0])))
    for i in range(len(S)):
        for j in range(i):
            ctx.check(znot(zor(*[_same(S[j], S[i], g) for g in grp])), "the structures are pairwise inequivalent")
        if not supers:
            ctx.check(znot(zor(*([False] + [_same(S[i], S[i], g) for g in grp[:ncell] if list(g[0]) != ident]))),
                      "no structure is superperiodic")


def _relabel(surv, colors):
    """species of the colours by position instead of by number: the known finding"""
    return [[(d, colors[sp - 1][1] if 1 <= sp <= len(colors) else sp) for d, sp in s] for s in surv]


def _ok(surv, colors):
    n = sum(c[0] for c in colors)
    return all(len(s) == n and all(sum(1 for d, sp in s if sp == c[1] and (d >= 0) == bool(c[2])) == c[0] for c in colors)
               for s in surv)


def _call(ph, grp, colors, supers, n, num):
    r = ph.tree.guess_and_check_brancher([c[0] for c in colors], [[list(p), list(q)] for p, q in grp], _decor(colors), 6,
                                         supers, n, num)
    return _norm(r)


def guess(ctx, ph, lat, basis, H, colors, supers, num):
    arrows = any(c[2] for c in colors)
    grp = lt.group(lat, basis, H, arrows)
    n = _n(H)
    r = _call(ph, grp, colors, supers, n, num)
    ctx.check(len(r) <= num, "no more structures than asked for")
    if not arrows and not _ok(r, colors):
        r = _relabel(r, colors)
    _honest(ctx, r, grp, colors, 6, supers, n, None)


def species(ctx, ph, lat, basis, H, colors, num):
    """undisplaced colours, the species themselves"""
    grp = lt.group(lat, basis, H, False)
    r = _call(ph, grp, colors, True, _n(H), num)
    ctx.check(_ok(r, colors), "a sampled structure has the species asked for")


def all_of_them(ctx, ph, lat, basis, H, colors, supers, num):
    """more asked for than there are: ends, with one of every class"""
    arrows = any(c[2] for c in colors)
    grp = lt.group(lat, basis, H, arrows)
    n = _n(H)
    r = _call(ph, grp, colors, supers, n, num)
    if not arrows and not _ok(r, colors):
        r = _relabel(r, colors)
    _honest(ctx, r, grp, colors, 6, supers, n, None)
    ctx.check(len(r) == burnside(grp, [c[0] for c in colors], [c[2] for c in colors]), "every class is found when more are asked for")


def anygroup(ctx, ph, n, dim, colors, num):
    p = [int(x) for x in ctx.perm("p", n)]
    q = [int(x) for x in ctx.perm("q", dim)] if dim > 1 else [0]
    grp = [[list(a), list(b)] for a, b in _closure([(p, q)], n, dim)]
    r = _norm(ph.tree.guess_and_check_brancher([c[0] for c in colors], grp, _decor(colors), dim, True, 1, num))
    ctx.check(len(r) <= num, "no more structures than asked for")
    if not any(c[2] for c in colors) and not _ok(r, colors):
        r = _relabel(r, colors)
    _honest(ctx, r, grp, colors, dim, True, 1, None)


def patterns(ctx, ph, lat, basis, H, colors, supers, num, arrange):
    """add_arrows drawing displacement patterns on a fixed arrangement of the colours"""
    grp = lt.group(lat, basis, H, True)
    n = _n(H)
    col = [[1 if colors[k][2] else -1, colors[k][1]] for k in arrange]
    fixing = [[list(p), list(q)] for p, q in grp if [col[j] for j in p] == col]
    r = ph.phonons.add_arrows([list(c) for c in col], fixing, 6, [[list(p), list(q)] for p, q in grp[:n]], nested=True,
                              num_wanted=num, small=True, supers=supers)
    r = _norm(r)
    ctx.check(len(r) <= num, "no more structures than asked for")
    _honest(ctx, r, grp, colors, 6, supers, n, None)


def wired(ctx, ph, lat, basis, H, conc, acon, supers, num):
    """through enum_sys: large supercells are sampled"""
    params, hnf, colors = _system(lat, basis, H, conc, acon)
    grp = ctx.once("grp", lambda: _pkg_group(ph, params, H, any(c[2] for c in colors)))
    r = _norm(ph.phonons.enum_sys(None, list(conc), list(acon), num, hnf, params, supers))
    ctx.check(len(r) <= num, "no more structures than asked for")
    _honest(ctx, r, grp, colors, 6, supers, _n(H), None)


def _proper(l, b, H, cols):
    """number of classes that are not superperiodic"""
    grp = lt.group(l, b, H, False)
    ident = list(range(len(grp[0][0])))
    tr = [g[0] for g in grp[:_n(H)] if g[0] != ident]
    left = set(_arrangements(tuple(c[0] for c in cols), [False] * len(cols), 1))
    n = 0
    while left:
        s = next(iter(left))
        left -= set(_act(s, g, None, 1) for g in grp)
        n += not any(all(s[i] == s[j] for i, j in enumerate(t)) for t in tr)
    return n


def cases(tier):
    out = []
    q = tier == "quick"
    nm = lambda H: "".join(str(x) for r in H for x in r)
    cn = lambda cols: "-".join("%d%d%s" % (c[0], c[1], "d" if c[2] else "") for c in cols)
    SC4 = [[1, 0, 0], [0, 2, 0], [0, 0, 2]]
    SC3 = [[1, 0, 0], [0, 1, 0], [0, 1, 3]]
    F4 = [[1, 0, 0], [0, 1, 0], [1, 2, 4]]
    F6 = [[1, 0, 0], [0, 1, 0], [1, 2, 6]]
    H2 = [[1, 0, 0], [0, 1, 0], [0, 1, 2]]
    H1 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    # (lattice, basis, H, colours, number wanted, candidates explored)
    G = [("sc", "o", SC4, [(2, 1, False), (2, 2, False)], 2, 4), ("ort", "o", SC4, [(2, 1, False), (2, 2, False)], 2, 4),
         ("fcc", "o", F4, [(1, 1, False), (3, 2, False)], 2, 4), ("fcc", "o", F4, [(1, 1, False), (1, 2, False), (2, 3, False)], 2, 3),
         ("fcc", "o", F6, [(2, 1, False), (4, 2, False)], 2, 3), ("fcc", "o", F6, [(3, 2, False), (3, 1, False)], 2, 3),
         ("fcc", "dia", H2, [(2, 1, False), (2, 2, False)], 2, 4), ("sc", "cscl", H2, [(1, 2, False), (3, 1, False)], 2, 4),
         ("tri", "o", [[1, 0, 0], [0, 1, 0], [0, 2, 5]], [(2, 1, False), (3, 2, False)], 2, 3),
         ("hex", "hcp", [[1, 0, 0], [0, 1, 0], [0, 0, 2]], [(2, 1, False), (2, 2, False)], 2, 4),
         ("ort", "o", [[1, 0, 0], [0, 2, 0], [0, 0, 2]], [(1, 1, False), (1, 2, False), (2, 3, False)], 2, 3),
         ("fcc", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 4]], [(4, 1, False)], 2, 3),
         ("ort", "pair", [[1, 0, 0], [0, 1, 0], [0, 0, 3]], [(3, 1, False), (3, 2, False)], 2, 3),
         ("sc", "tri3", H1, [(1, 3, False), (1, 1, False), (1, 2, False)], 3, 5),
         # several translation subgroups
         ("ort", "pair", SC4, [(2, 1, False), (6, 2, False)], 1, 2), ("tri", "pair", SC4, [(2, 1, False), (2, 2, False), (4, 3, False)], 1, 1),
         ("fcc", "dia", SC4, [(2, 1, False), (6, 2, False)], 1, 2), ("sc", "cscl", SC4, [(4, 1, False), (4, 2, False)], 1, 2),
         ("sc", "o", [[2, 0, 0], [0, 2, 0], [0, 0, 2]], [(2, 1, False), (6, 2, False)], 1, 2),
         ("sc", "o", [[2, 0, 0], [0, 2, 0], [0, 0, 2]], [(4, 1, False), (4, 2, False)], 1, 2),
         ]
    if not q:
        G += [("fcc", "o", F6, [(2, 1, False), (4, 2, False)], 3, 4), ("tri", "o", [[1, 0, 0], [0, 1, 0], [0, 2, 5]], [(2, 1, False), (3, 2, False)], 4, 5),
              ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [1, 1, 4]], [(2, 1, False), (6, 2, False)], 3, 3),
              ("bcc", "o", [[1, 0, 0], [0, 1, 0], [2, 3, 7]], [(3, 1, False), (4, 2, False)], 3, 3)]
    for l, b, H, cols, num, cand in G:
        for supers in (False, True):
            if not supers and _proper(l, b, H, cols) < num:
                continue        # only ends when every arrangement has been drawn
            out.append(Case("guess_%s_%s_%s_%s_%d_%d%s" % (l, b, nm(H), cn(cols), num, cand, "s" if supers else ""), "guess",
                            dict(lat=l, basis=b, H=H, colors=cols, supers=supers, num=num), weight=100,
                            max_draws=cand * len(cols)))
    # with displacements: a candidate, then patterns
    D = [("sc", "o", SC3, [(2, 1, False), (1, 2, True)], 1, 4), ("sc", "o", SC3, [(2, 1, False), (1, 2, True)], 2, 6),
         ("fcc", "dia", H1, [(1, 1, True), (1, 2, True)], 2, 4), ("sc", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 2]], [(1, 1, False), (1, 1, True)], 2, 6),
         ("tet", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 3]], [(1, 1, False), (2, 2, True)], 2, 4),
         ("sc", "cscl", H2, [(2, 2, False), (1, 1, True), (1, 3, True)], 1, 5),
         ("ort", "o", SC4, [(1, 3, False), (2, 1, False), (1, 2, True)], 1, 5),
         ("sc", "tri3", H1, [(1, 2, False), (2, 1, True)], 2, 4)]
    for l, b, H, cols, num, dr in D:
        for supers in (False, True):
            out.append(Case("disp_%s_%s_%s_%s_%d_%d%s" % (l, b, nm(H), cn(cols), num, dr, "s" if supers else ""), "guess",
                            dict(lat=l, basis=b, H=H, colors=cols, supers=supers, num=num), weight=400, max_draws=dr + (0 if q else 1)))
    E = [("fcc", "o", F4, [(1, 1, False), (3, 2, False)], 1, 4), ("sc", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 2]], [(1, 1, False), (1, 2, False)], 1, 4),
         ("sc", "tri3", H1, [(1, 1, False), (2, 2, False)], 1, 4)]
    for l, b, H, cols, least, cand in E:
        out.append(Case("all_%s_%s_%s_%s" % (l, b, nm(H), cn(cols)), "all_of_them",
                        dict(lat=l, basis=b, H=H, colors=cols, supers=True, num=least + 3), weight=500,
                        max_draws=cand * 2))
    for n, dim, cols, num, dr in [(3, 1, [(1, 1, False), (2, 2, False)], 2, 6), (4, 1, [(2, 1, False), (2, 2, False)], 2, 6),
                                  (3, 1, [(1, 3, False), (1, 2, False), (1, 1, False)], 2, 6), (3, 2, [(2, 1, False), (1, 2, True)], 2, 6),
                                  (3, 2, [(1, 1, False), (2, 2, True)], 1, 4), (2, 3, [(1, 1, True), (1, 2, True)], 1, 4),
                                  (3, 3, [(2, 1, False), (1, 1, True)], 1, 4)]:
        out.append(Case("any_%d_%d_%s" % (n, dim, cn(cols)), "anygroup", dict(n=n, dim=dim, colors=cols, num=num), weight=600, max_draws=dr))
    P = [("sc", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 2]], [(2, 1, True)], [0, 0], 2, 2), ("ort", "pair", H1, [(2, 1, True)], [0, 0], 2, 2),
         ("sc", "o", [[1, 0, 0], [0, 1, 0], [0, 0, 2]], [(1, 1, False), (1, 2, True)], [0, 1], 2, 4),
         ("sc", "o", SC3, [(1, 1, False), (2, 2, True)], [1, 0, 1], 2, 2), ("fcc", "o", F4, [(2, 1, False), (2, 2, True)], [0, 1, 0, 1], 2, 2),
         ("ort", "o", SC4, [(4, 1, True)], [0, 0, 0, 0], 1, 1), ("sc", "cscl", H1, [(1, 1, True), (1, 2, True)], [1, 0], 2, 2),
         ("sc", "tri3", H1, [(3, 1, True)], [0, 0, 0], 1, 2)]
    for l, b, H, cols, arr, num, dr in P:
        for supers in (False, True):
            out.append(Case("pat_%s_%s_%s_%s%s" % (l, b, nm(H), cn(cols), "s" if supers else ""), "patterns",
                            dict(lat=l, basis=b, H=H, colors=cols, supers=supers, num=num, arrange=arr), weight=700, max_draws=dr))
    for l, b, H, conc, acon, num, dr in [("tri", "o", [[1, 0, 0], [0, 1, 0], [1, 2, 12]], [11, 1], [0, 1.0], 1, 4),
                                         ("ort", "o", [[1, 0, 0], [0, 2, 0], [0, 1, 6]], [1, 11], [1.0, 0], 2, 6),
                                         ("fcc", "dia", [[1, 0, 0], [0, 1, 0], [0, 2, 6]], [12, 1][:1], [0.084], 1, 4)]:
        for supers in (False, True):
            out.append(Case("wired_%s_%s%s" % (l, nm(H), "s" if supers else ""), "wired",
                            dict(lat=l, basis=b, H=H, conc=conc, acon=acon, supers=supers, num=num), weight=800, max_draws=dr))
    out.append(Case("species_sorted", "species", dict(lat="fcc", basis="o", H=F4, colors=[(1, 1, False), (3, 2, False)], num=1),
                    weight=1, max_draws=2))
    out.append(Case("species_unsorted", "species", dict(lat="fcc", basis="o", H=F4, colors=[(1, 2, False), (3, 1, False)], num=1),
                    weight=1, max_draws=2))
    return out
