"""C19 the lattice parameter follows Vegard's law for any composition."""
from fractions import Fraction as F
from symex.core import Sym, zand, zor, znot, zsum
from symex.run import Case
from . import lat as lt

EXPECT_FUNCTIONS = ["element_data.get_lat_param_element", "element_data.get_lattice_parameter"]
BOUNDS = {"quick": "pure crystals: cells with real-valued symbolic entries (an edge between 1/4 and 9, off-diagonal entries of triangular "
                   "and general cells between -3 and 3, both hands), every tabulated element, 1-12 atoms in the basis; alloys: 7 cells, up "
                   "to 4 species with symbolic numbers of atoms, up to 30 in all, species repeated",
          "thorough": "up to 6 species, up to 100 atoms, more cells"}
ASSUMPTIONS = ["exact real arithmetic; the exponent 1/3 is the cube root"]
EXPECT_LABELS = ["the volume per atom of the pure crystal is the tabulated one", "the lattice parameter is the mean over the atoms",
                 "the title names the species", "the wrong number of elements is refused", "without elements the cell is taken as it is"]
VOLUME = {"H": 37.2958, "He": 32.1789, "Li": 21.2543, "Be": 8.49323, "B": 7.24205, "C": 5.68741, "N": 46.6002, "O": 22.2802, "F": 17.0258,
          "Ne": 21.7346, "Na": 23.2596, "Mg": 23.3928, "Al": 16.6075, "Si": 7.8511, "P": 9.1459, "S": 17.1672, "Cl": 35.2074, "Ar": 36.3829,
          "K": 71.5278, "Ca": 43.4353, "Sc": 25.6478, "Ti": 18.1565, "V": 13.7718, "Cr": 11.9439, "Mn": 19.3207, "Fe": 11.82, "Co": 11.1838,
          "Ni": 10.9036, "Cu": 11.7615, "Zn": 13.311, "Ga": 18.4496, "Ge": 19.3638, "As": 20.4270, "Se": 58.6173, "Br": 33.3170,
          "Kr": 46.7873, "Rb": 87.3384, "Sr": 56.1889, "Y": 33.0792, "Zr": 23.8327, "Nb": 17.9685, "Mo": 15.6279, "Tc": 14.5458,
          "Ru": 13.9206, "Rh": 13.718, "Pd": 14.716, "Ag": 17.1045, "Cd": 18.7161, "In": 26.6861, "Sn": 29.3238, "Sb": 27.1733,
          "Te": 62.3227, "I": 24.3807, "Xe": 59.582, "Cs": 110.723, "Ba": 63.253, "Hf": 23.1748, "Ta": 18.1323, "W": 15.7772, "Re": 14.8694,
          "Os": 14.5485, "Ir": 14.1558, "Pt": 15.0591, "Au": 16.9793, "Hg": 27.6914, "Tl": 29.2949, "Pb": 30.3218, "Bi": 31.2849}
ELEMENTS = list(VOLUME)
EPS = F(1, 10 ** 9)


def _cell(ctx, spec):
    """3x3 cell; entries are numbers or bounds of a symbolic entry"""
    return [[ctx.real("a%d%d" % (i, j), *e) if isinstance(e, (list, tuple)) else e for j, e in enumerate(r)] for i, r in enumerate(spec)]


def _det(ctx, A):
    d = 0
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        d = d + A[0][i] * (A[1][j] * A[2][k] - A[1][k] * A[2][j])
    ctx.assume(zor(d > F(1, 100), d < -F(1, 100)))
    return d if bool(d > 0) else -d


def _vol(e):
    return F(VOLUME[e]).limit_denominator(10 ** 8)


def _eq(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return zand(a - b <= EPS, b - a <= EPS)
    return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b)))


def element(ctx, ph, spec, nb, elements):
    A = _cell(ctx, spec)
    d = _det(ctx, A)
    n = int(ctx.choose("n", len(nb)))
    e = elements[int(ctx.choose("e", len(elements)))]
    a = ph.element_data.get_lat_param_element([list(r) for r in A], nb[n], e)
    L = "the volume per atom of the pure crystal is the tabulated one"
    ctx.check(a > 0, L)
    ctx.check(_eq(a * a * a * d, nb[n] * _vol(e)), L)


def alloy(ctx, ph, spec, nb, elements, most, as_array):
    A = _cell(ctx, spec)
    d = _det(ctx, A)
    total = 1 + int(ctx.choose("total", most))
    c = [ctx.int("c%d" % i, 0, total) for i in range(len(elements) - 1)]
    c.append(total - zsum(c) if c else total)
    ctx.assume(c[-1] >= 0)
    zeros = ctx.choose("remove", 2) == 1
    L = [list(r) for r in A]
    if as_array:
        import numpy as np
        L = np.array(L)
    a, title = ph.element_data.get_lattice_parameter(list(elements), list(c), L, nb, " the system", remove_zeros=zeros)
    t = {}
    for i, e in enumerate(sorted(set(elements))):
        # the edge of the crystal of the pure element
        t[e] = F((float(nb * _vol(e)) / float(d)) ** (1 / 3.))
    s = 0
    for x, e in zip(c, elements):
        s = s + x * t[e]
    ctx.check(_eq(a * zsum(c), s), "the lattice parameter is the mean over the atoms")
    words = title.split()
    ctx.check(words[-2:] == ["the", "system"] and title.endswith("\n") and title.count("\n") == 1, "the title names the species")
    names = words[:-2]
    if zeros:
        want = [e for x, e in zip(c, elements) if bool(x > 0)]
    else:
        want = list(elements)
    ctx.check(names == want, "the title names the species")


def wrong(ctx, ph, spec, most):
    A = _cell(ctx, spec)
    k, m = int(ctx.choose("k", most + 1)), int(ctx.choose("m", most + 1))
    ctx.assume(k != m)
    c = [ctx.int("c%d" % i, 1, 9) for i in range(m)]
    try:
        ph.element_data.get_lattice_parameter(ELEMENTS[:k], c, A, 1, "title")
    except ValueError:
        ctx.check(True, "the wrong number of elements is refused")
        return
    ctx.check(False, "the wrong number of elements is refused")


def none(ctx, ph, spec, most):
    A = _cell(ctx, spec)
    c = [ctx.int("c%d" % i, 0, most) for i in range(3)]
    a, title = ph.element_data.get_lattice_parameter(None, c, A, 2, "some title", remove_zeros=bool(ctx.bool("z")))
    ctx.check(a == 1, "without elements the cell is taken as it is")
    ctx.check(title.strip() == "some title", "without elements the cell is taken as it is")


E1 = [0.25, 9]
CUB = [[E1, 0, 0], [0, 1, 0], [0, 0, 1]]
TRI = [[E1, 0, 0], [[-3, 3], 1, 0], [[-3, 3], [-3, 3], 1.5]]
UPP = [[1, [-3, 3], 0.5], [0, E1, [-3, 3]], [0, 0, 2]]
FCC = [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]]
HEX = [[1, 0, 0], [0.5, 0.8660254037844386, 0], [0, 0, E1]]
GEN = [[1, [-3, 3], 0.25], [0.5, -1, 0.75], [0.25, 0.5, 1.25]]
CUB1 = [[2.5, 0, 0], [0, 2.5, 0], [0, 0, 2.5]]
TRI1 = [[1, 0, 0], [0.25, 1.5, 0], [-0.5, 0.75, 2]]
HEX1 = [[1, 0, 0], [0.5, 0.8660254037844386, 0], [0, 0, 1.6]]
GEN1 = [[1, 0.5, 0.25], [0.5, -1, 0.75], [0.25, 0.5, 1.25]]
LEFT1 = [[0, 3, 0], [1, 0, 0], [0, 0, 1]]
LEFT = [[0, E1, 0], [1, 0, 0], [0, 0, 1]]


def cases(tier):
    q = tier == "quick"
    out = []
    for nm, sp in (("cub", CUB), ("tri", TRI), ("upp", UPP), ("hex", HEX), ("gen", GEN), ("left", LEFT)):
        out.append(Case("element_%s" % nm, "element", dict(spec=sp, nb=[1, 2, 3, 4, 6, 8, 12], elements=["Al", "Ni", "Cs", "C"] if q else ELEMENTS)))
    out.append(Case("element_all", "element", dict(spec=CUB, nb=[1, 5], elements=ELEMENTS)))
    out.append(Case("element_fcc", "element", dict(spec=FCC, nb=[1, 2], elements=ELEMENTS)))
    S = [("cub", CUB1, 1, ["Al"]), ("cub", CUB1, 3, ["Al", "Ni"]), ("tri", TRI1, 2, ["Ni", "Al"]), ("gen", GEN1, 1, ["Cu", "Pt"]),
         ("fcc", FCC, 1, ["Al", "Ni", "Ti"]), ("hex", HEX1, 2, ["Mg", "Zn", "Al"]), ("left", LEFT1, 4, ["H", "Pd"]),
         ("fcc", FCC, 2, ["Al", "Al"]), ("cub", CUB1, 1, ["Ni", "Al", "Ni"]), ("fcc", FCC, 1, ["Ag", "Au", "Cu", "Pd"])]
    if not q:
        S += [("fcc", FCC, 1, ["Ag", "Au", "Cu", "Pd", "Pt", "Ag"]), ("tri", TRI1, 3, ["W", "Ta", "Re"]), ("gen", GEN1, 8, ["Si", "Ge", "C"])]
    for i, (nm, sp, nb, el) in enumerate(S):
        out.append(Case("alloy_%d_%s_%d" % (i, nm, len(el)), "alloy", dict(spec=sp, nb=nb, elements=el, most=30 if q else 100, as_array=i % 2 == 0)))
    out.append(Case("wrong", "wrong", dict(spec=FCC, most=4)))
    out.append(Case("none", "none", dict(spec=FCC, most=9)))
    return out
