"""C17 POSCAR and MTP files describe the listed structure."""
import itertools
import os
from fractions import Fraction as F
from symex.core import Sym, zand
from symex.load import sx_float, sx_int
from symex.run import Case
from . import lat as lt

EXPECT_FUNCTIONS = ["phenumStr._make_structures", "io_utils.write_POSCAR", "io_utils.write_config", "io_utils.read_enum_out",
                    "vector_utils.map_enumStr_to_real_space", "vector_utils.cartesian2direct"]
EXPECT_LABELS = ["the file lists every species with its number of atoms", "the cell is that of the supercell",
                 "every site has its atom, of its species and moved along its direction", "the lattice parameter is the mean of the elements'",
                 "MTP: one configuration per structure, with every atom", "MTP: the cell is that of the supercell",
                 "MTP: every site has its atom, of its type and moved along its direction", "one file per structure"]
BOUNDS = {"quick": "structures of up to 6 atoms on 12 parent crystals, reduced or not: every labelling (symbolic) with up to 4 species, every "
                   "displacement direction (symbolic) of one or two atoms, every displacement amplitude between -0.2 and 0.3 (a real), every "
                   "outcome of the random draws (reals) when rattled, with and without species names, zero removal and species mappings; "
                   "several structures in one file",
          "thorough": "up to 8 atoms, more of the combinations"}
ASSUMPTIONS = ["the left transform and the Smith form in the file are those of grouptheory.SmithNormalForm (C01)",
               "formatting a number adds a rounding error of at most half a unit of the last digit (a free variable)"]
DIRS = [[0, 0, 0], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
TOL = F(1, 10 ** 5)


def _r7(x):
    return F(round(float(x) * 10 ** 7), 10 ** 7)


def _r7s(x):
    return "{:.7f}".format(x if isinstance(x, (Sym, float)) else float(x))


def write_out(ctx, vecs, base, k, structs, name="enum.out"):
    with open(name, "w", encoding="utf-8") as f:
        f.write("Random structure enumeration: 2020-01-01\nbulk\n")
        for r in vecs:
            f.write(" %s       %s       %s\n" % tuple(_r7s(x) for x in r))
        f.write("    %d\n" % len(base))
        for r in base:
            f.write("  %s       %s       %s\n" % tuple(_r7s(x) for x in r))
        f.write(" %d-nary case\n   1   4\n 1e-7\nConcentration check:\n    F\nfull list of labelings (including incomplete labelings) is used \n"
                "Equivalency list: 1 #Not used in the random enumeration algorithm \nstart   #tot      HNF     Hdegn   labdegn   Totdegn   "
                "#size idx    pg    SNF             HNF                 Left transform                          labeling                 "
                "directions\n" % k)
        for i, s in enumerate(structs):
            H, S, L = s["H"], s["S"], s["L"]
            w = [s.get("strN", i + 1), 1, 1, 1, 1, 1, s["n"], 1] + S + [H[0][0], H[1][0], H[1][1]] + list(H[2]) + [x for r in L for x in r]
            f.write("  ".join(str(x) for x in w))
            f.write("     %s     %s\n" % ("".join("{}".format(x) for x in s["lab"]), "".join("{}".format(x) for x in s["dir"])))


def _sites(s, nd):
    """[(parent atom, lattice vector, number in the labelling)]"""
    S, L = s["S"], s["L"]
    A, d = lt.adj(L), lt.det(L)
    out = []
    for kk in range(nd):
        for g in itertools.product(*[range(x) for x in S]):
            p = [sum(A[i][j] * g[j] for j in range(3)) // d for i in range(3)]
            out.append((kk, p, kk * s["n"] + (g[0] * S[1] + g[1]) * S[2] + g[2]))
    return out


def _nums(line):
    return [sx_float(x) for x in line.split()]


def _ex(x):
    return x if isinstance(x, (Sym, F)) else F(float(x))


def _lin(v, M):
    """row vector with symbolic entries times a matrix of fractions"""
    out = []
    for j in range(3):
        t = 0
        for i in range(3):
            if M[i][j]:
                t = t + v[i] * M[i][j]
        out.append(t)
    return out


def _abs_le(x, t):
    return zand(x <= t, x >= -t)


def _match(ctx, vecs, base, s, atoms, amp, rattle, label):
    """atoms: [(type, Cartesian position)]; every site of the structure has one, and there are no others"""
    nd = len(base)
    n = s["n"]
    H = s["H"]
    slv = [[sum(F(H[i][j]) * vecs[i][c] for i in range(3)) for c in range(3)] for j in range(3)]
    inv = lt.inv(slv)
    lab, drs = s["lab"], s["dir"]
    sites = _sites(s, nd)
    ctx.check(len(atoms) == len(sites), label)
    if len(atoms) != len(sites):
        return
    need = []
    for kk, p, idx in sites:
        d = DIRS[int(drs[idx])]
        pos = [sum(p[i] * vecs[i][c] for i in range(3)) + base[kk][c] for c in range(3)]
        need.append((int(lab[idx]), d, pos))

    def pick():
        """site -> (atom, superlattice vector), judged by the current values (a witness)"""
        am = F(ctx.approx(amp))
        ap = [[F(ctx.approx(x)) for x in q] for t, q in atoms]
        left = set(range(len(atoms)))
        res = []
        for sp, d, pos in need:
            best = None
            for a in sorted(left):
                if atoms[a][0] != sp:
                    continue
                co = lt.rowmul([x - F(ctx.approx(y)) - am * z for x, y, z in zip(ap[a], pos, d)], inv)
                m = [round(x) for x in co]
                err = sum(abs(x - y) for x, y in zip(co, m))
                if best is None or err < best[0]:
                    best = (err, a, m)
            if best is None:
                return None
            left.discard(best[1])
            res.append(best[1:])
        return res
    def holds(w):
        c = []
        for (sp, d, pos), (a, m) in zip(need, w):
            res = [x - y for x, y in zip(atoms[a][1], [p + sum(m[i] * slv[i][c] for i in range(3)) for c, p in enumerate(pos)])]
            for x, z in zip(res, d):
                if not rattle:
                    c.append(_abs_le(x - amp * z, TOL))
                elif z == 0:
                    c.append(_abs_le(x, TOL))
                else:
                    lo, hi = sorted([amp * (1 - rattle), amp * (1 + rattle)])
                    c.append(zand(x * z >= lo - TOL, x * z <= hi + TOL))
        return zand(*c)
    # a witness may serve only part of the inputs of the path: the rest is a path of its own with another witness
    for t in range(200):
        w = ctx.pick(pick)
        ctx.check(w is not None, label)
        if w is None:
            return
        if bool(holds(w)):
            ctx.check(True, label)
            return
    ctx.check(holds(w), label)


def _vegard(ph, vecs, nd, species, counts):
    vol = abs(float(lt.det(vecs))) / nd
    return sum(c * (ph.element_data.element_volume[e] / vol) ** (1. / 3) for c, e in zip(counts, species)) / sum(counts)


def _cell(ctx, rows, vecs, H, scale, label):
    """integer unimodular relation of the written cell to the supercell; returns the exact cell"""
    slv = [[sum(F(H[i][j]) * vecs[i][c] for i in range(3)) for c in range(3)] for j in range(3)]
    inv = lt.inv(slv)
    M = []
    for r in rows:
        co = lt.rowmul([F(x) / scale for x in r], inv)
        M.append([round(x) for x in co])
        ctx.check(all(abs(x - round(x)) < F(1, 10 ** 4) for x in co), label)
    ctx.check(abs(lt.det(M)) == 1, label)
    return [[sum(M[i][j] * slv[j][c] for j in range(3)) for c in range(3)] for i in range(3)], M


def _setup(ctx, ph, lat, basis, structs, k, free=()):
    L = lt.LATS[lat]
    vecs = [[_r7(x) for x in r] for r in L.vecs]
    base = [[_r7(x) for x in r] for r in lt.cart_basis(L, basis)]
    nd = len(base)
    for i, lo, hi in free:
        base[i] = [ctx.real("b%d_%d" % (i, c), lo, hi) for c in range(3)]
    out = []
    for i, (H, sym, dsym, first) in enumerate(structs):
        S, Lt, R = ph.grouptheory.SmithNormalForm([list(r) for r in H])
        n = H[0][0] * H[1][1] * H[2][2]
        lab = [ctx.int("l%d_%d" % (i, j), 0, k - 1) if j < sym else j % k for j in range(n * nd)]
        drs = [ctx.int("d%d_%d" % (i, j), 0, 6) if j in dsym else 0 if first else (j + 1) % 7 for j in range(n * nd)]
        out.append(dict(n=n, H=H, S=[int(S[j][j]) for j in range(3)], L=[[int(x) for x in r] for r in Lt], lab=lab, dir=drs, strN=i + 1))
    write_out(ctx, vecs, base, k, out)
    return vecs, base, out


def _amp(ctx, displace):
    return ctx.real("amp", *displace) if isinstance(displace, (list, tuple)) else displace


def poscar(ctx, ph, lat, basis, structs, k, mink, displace, rattle, species, remove_zeros, free=()):
    vecs, base, ss = _setup(ctx, ph, lat, basis, structs, k, free)
    nd = len(base)
    amp = _amp(ctx, displace)
    args = dict(structures=[s["strN"] for s in ss], input="enum.out", displace=amp, mink=mink, species=species, mapping=None,
                outfile="vasp.{}", rattle=rattle, config="f", remove_zeros=remove_zeros)
    ph.phenumStr._make_structures(args)
    ctx.check(sorted(x for x in os.listdir(".") if x.startswith("vasp")) == sorted("vasp.%d" % s["strN"] for s in ss), "one file per structure")
    for s in ss:
        with open("vasp.%d" % s["strN"], encoding="utf-8") as f:
            lines = f.read().split("\n")
        os.remove("vasp.%d" % s["strN"])
        scale = float(lines[1])
        rows = [[float(x) for x in l.split()] for l in lines[2:5]]
        cell, M = _cell(ctx, rows, vecs, s["H"], 1, "the cell is that of the supercell")
        if not mink:
            ctx.check(M == [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "the cell is that of the supercell")
        counts = [int(x) for x in lines[5].split()]
        lab = [int(x) for x in s["lab"]]
        want = [lab.count(i) for i in range(k)]
        kinds = list(range(k))
        if remove_zeros and species is not None:
            kinds = [i for i in kinds if want[i]]
        ctx.check(counts == [want[i] for i in kinds] and lines[6][:1] in "Dd", "the file lists every species with its number of atoms")
        if counts != [want[i] for i in kinds]:
            return
        lp = _vegard(ph, vecs, nd, species, want) if species else 1.0
        ctx.check(abs(scale - lp) <= 0.00501, "the lattice parameter is the mean of the elements'")
        if species:
            names = lines[0].split()[:len(kinds)]
            ctx.check(names == [species[i] for i in kinds], "the file lists every species with its number of atoms")
        types = [i for i in kinds for j in range(want[i])]
        rest = [l for l in lines[7:] if l.strip()]
        ctx.check(len(rest) == len(types), "every site has its atom, of its species and moved along its direction")
        if len(rest) != len(types):
            return
        atoms = [(t, _lin([_ex(x) for x in _nums(l)], cell)) for t, l in zip(types, rest)]
        _match(ctx, vecs, base, s, atoms, amp, rattle, "every site has its atom, of its species and moved along its direction")


def mtp(ctx, ph, lat, basis, structs, k, mink, displace, rattle, species, mapping, free=()):
    vecs, base, ss = _setup(ctx, ph, lat, basis, structs, k, free)
    nd = len(base)
    amp = _amp(ctx, displace)
    args = dict(structures=[s["strN"] for s in ss], input="enum.out", displace=amp, mink=mink, species=species,
                mapping=None if mapping is None else dict(enumerate(mapping)), outfile="train.cfg", rattle=rattle, config="t",
                remove_zeros=False)
    ph.phenumStr._make_structures(args)
    with open("train.cfg", encoding="utf-8") as f:
        text = f.read()
    os.remove("train.cfg")
    cfgs = text.split("BEGIN_CFG")[1:]
    ctx.check(len(cfgs) == len(ss), "MTP: one configuration per structure, with every atom")
    for c, s in zip(cfgs, ss):
        lines = [l for l in c.split("\n") if l.strip()]
        ctx.check(int(lines[1]) == s["n"] * nd and lines[-1].strip() == "END_CFG", "MTP: one configuration per structure, with every atom")
        rows = [[float(x) for x in l.split()] for l in lines[3:6]]
        lab = [int(x) for x in s["lab"]]
        want = [lab.count(i) for i in range(k)]
        sp = species if species is None or mapping is None or len(species) == len(mapping) else [species[i] for i in mapping]
        lp = F(_vegard(ph, vecs, nd, sp, want) if sp else 1.0)
        cell, M = _cell(ctx, rows, vecs, s["H"], lp, "MTP: the cell is that of the supercell")
        at = lines[7:7 + s["n"] * nd]
        words = [l.split() for l in at]
        ids = [int(w[0]) for w in words if len(w) == 5]
        ctx.check(sorted(ids) == list(range(1, s["n"] * nd + 1)) and "AtomData" in lines[6], "MTP: one configuration per structure, with every atom")
        if sorted(ids) != list(range(1, s["n"] * nd + 1)):
            return
        kind = {(mapping[i] if mapping else i): i for i in range(k)}
        ok = all(int(w[1]) in kind for w in words)
        ctx.check(ok, "MTP: every site has its atom, of its type and moved along its direction")
        if not ok:
            return
        atoms = [(kind[int(w[1])], [_ex(sx_float(x)) / lp for x in w[2:5]]) for w in words]
        _match(ctx, vecs, base, s, atoms, amp, rattle, "MTP: every site has its atom, of its type and moved along its direction")
        ctx.check(lines[-2].split()[0] == "Feature" and lines[-2].split()[-1].endswith("_%d" % s["strN"]),
                  "MTP: one configuration per structure, with every atom")


I1 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
H2 = [[1, 0, 0], [0, 1, 0], [0, 1, 2]]
H2b = [[1, 0, 0], [0, 1, 0], [1, 1, 2]]
H3 = [[1, 0, 0], [0, 1, 0], [1, 2, 3]]
H4 = [[1, 0, 0], [0, 2, 0], [0, 1, 2]]
H4b = [[1, 0, 0], [0, 1, 0], [1, 3, 4]]
H5 = [[1, 0, 0], [0, 1, 0], [2, 3, 5]]
H6 = [[1, 0, 0], [1, 2, 0], [0, 2, 3]]


def cases(tier):
    out = []
    O = dict(strings=True, whole=True, memo=True)
    A = (-0.2, 0.3)
    # (lattice, basis, [(H, symbolic labels, sites with a symbolic direction, others undisplaced)], species of atoms, mink, amplitude, rattle,
    #  species, remove zeros)
    P = [("fcc", "o", [(H4b, 4, [0], True)], 2, True, A, 0.0, ["Al", "Cu"], False),
         ("fcc", "o", [(H4, 4, [1], True)], 2, False, A, 0.0, ["Al", "Cu"], True),
         ("sc", "o", [(H3, 3, [0, 2], True)], 3, True, A, 0.0, ["Al", "Cu", "Ni"], True),
         ("bcc", "o", [(H5, 2, [3], False)], 2, True, A, 0.0, None, False),
         ("fcc", "dia", [(H2, 4, [], False)], 2, True, A, 0.0, ["Ga", "As"], True),
         ("hex", "hcp", [(H2, 4, [1], False)], 2, True, A, 0.0, ["Ti", "Zr"], False),
         ("tri", "o", [(H6, 3, [0], False)], 3, True, A, 0.0, None, True),
         ("ort", "pair", [(H3, 2, [5], False)], 2, False, A, 0.0, ["Fe", "Pt"], False),
         ("mon", "gen2", [(H2b, 2, [2], False)], 4, True, A, 0.0, ["Fe", "Pt", "Au", "Ag"], True),
         ("sc", "tri3", [(H2, 3, [], False)], 3, True, A, 0.0, ["Ba", "Ti", "O"], False),
         ("fccskew", "o", [(H4b, 2, [2], False)], 2, True, A, 0.0, ["Al", "Cu"], True),
         ("sclh", "off", [(H4, 2, [1], False)], 2, True, A, 0.0, None, False),
         ("fcc", "o", [(H2, 2, [], False), (H3, 1, [1], False)], 2, True, A, 0.0, ["Al", "Cu"], True),
         ("bct", "neg", [(H2, 2, [0], False)], 2, False, A, 0.0, ["In", "Sn"], False),
         ("fcc", "o", [(H2, 2, [0], False)], 2, True, 0.25, 0.5, ["Al", "Cu"], False),
         ("sc", "cscl", [(H2, 1, [2], False)], 2, False, 0.125, 0.25, None, False),
         ("tri", "o", [(H3, 1, [1], False)], 2, True, -0.125, 0.5, None, True)]
    for i, (l, b, st, k, mk, am, ra, sp, rz) in enumerate(P):
        out.append(Case("poscar_%d_%s_%s" % (i, l, b), "poscar", dict(lat=l, basis=b, structs=st, k=k, mink=mk, displace=am, rattle=ra, species=sp,
                                                                      remove_zeros=rz), weight=100, **O))
    M = [("fcc", "o", [(H4b, 4, [0], True)], 2, True, A, 0.0, ["Al", "Cu"], None),
         ("fcc", "o", [(H4, 4, [1], True)], 2, False, A, 0.0, ["Al", "Cu", "Ni"], [0, 2]),
         ("sc", "o", [(H3, 3, [0], True)], 2, True, A, 0.0, ["Al", "Cu", "Ni"], [2, 1]),
         ("bcc", "o", [(H5, 2, [3], False)], 2, True, A, 0.0, None, None),
         ("fcc", "dia", [(H2, 4, [], False)], 3, True, A, 0.0, ["Al", "Ga", "As", "In"], [3, 0, 1]),
         ("hex", "hcp", [(H2, 3, [1], False)], 2, True, A, 0.0, ["Ti", "Zr"], [0, 1]),
         ("tri", "o", [(H6, 3, [0], False)], 3, True, A, 0.0, None, [0, 2, 1]),
         ("ort", "pair", [(H3, 2, [5], False)], 2, False, A, 0.0, ["Fe", "Pt"], None),
         ("fcc", "o", [(H2, 2, [], False), (H3, 1, [1], False), (I1, 1, [], False)], 2, True, A, 0.0, ["Al", "Cu"], None),
         ("sc", "tri3", [(H2, 3, [], False)], 3, True, A, 0.0, ["Ba", "Ti", "O"], None),
         ("mon", "gen2", [(H2b, 2, [2], False)], 4, False, A, 0.0, None, [1, 0, 3, 2]),
         ("fcc", "o", [(H2, 2, [0], False)], 2, True, 0.25, 0.5, ["Al", "Cu"], None),
         ("sc", "cscl", [(H2, 1, [2], False)], 2, False, 0.125, 0.25, None, None)]
    for i, (l, b, st, k, mk, am, ra, sp, mp) in enumerate(M):
        out.append(Case("mtp_%d_%s_%s" % (i, l, b), "mtp", dict(lat=l, basis=b, structs=st, k=k, mink=mk, displace=am, rattle=ra, species=sp,
                                                                mapping=mp), weight=100, **O))
    # basis atoms anywhere
    B = [("sc", "cscl", [(H2, 1, [2], False)], 2, False, 0.125, 0.0, None, [[1, -0.3, 1.2]]),
         ("fcc", "dia", [(H3, 1, [], False)], 2, True, A, 0.0, ["Ga", "As"], [[1, 0.05, 0.4]]),
         ("tri", "o", [(H2, 1, [0], False)], 2, False, A, 0.0, None, [[0, -0.2, 0.9]]),
         ("hex", "hcp", [(H2b, 1, [1], False)], 2, False, 0.25, 0.0, ["Ti", "Zr"], [[1, 0.1, 0.8]])]
    for i, (l, b, st, k, mk, am, ra, sp, fr) in enumerate(B):
        out.append(Case("poscar_free_%d_%s_%s" % (i, l, b), "poscar", dict(lat=l, basis=b, structs=st, k=k, mink=mk, displace=am, rattle=ra,
                                                                           species=sp, remove_zeros=False, free=fr), weight=200, **O))
        out.append(Case("mtp_free_%d_%s_%s" % (i, l, b), "mtp", dict(lat=l, basis=b, structs=st, k=k, mink=mk, displace=am, rattle=ra,
                                                                     species=sp, mapping=None, free=fr), weight=200, **O))
    return out
