"""C23 the same input and seed give the same structures, whatever happened before and however the folder is listed."""
import contextlib
import os
import sys
import types
from symex.load import Streams
from symex.run import Case
from . import lat as lt
from .c14 import CONCS, SHAPES, _write

EXPECT_FUNCTIONS = ["structures.make_enum_in", "structures._distribute", "enumeration._enum_out", "enumeration._enum_in", "phonons.enum_sys",
                    "tree.brancher", "phonons.add_arrows"]
EXPECT_LABELS = ["the same seed gives the same requests", "the same seed gives the same structures"]
BOUNDS = {"quick": "every whole number as the seed, every outcome of every draw after seeding (the same in both runs) and before it (independent), "
                   "every order of the folder's files in the second run, with and without progress reports; requests from polya files of "
                   "3 sizes with every number of structures asked for; samples of up to 4 of up to 12 arrangements per request, displacements, "
                   "acceptance rates, whole program runs",
          "thorough": "more sizes and structures"}
ASSUMPTIONS = ["the generator's numbers depend on nothing but the seed and how many were drawn since; the hashing of strings is not varied"]


class _Bar(object):
    def __init__(self, *a, **k):
        pass

    def update(self, *a, **k):
        pass

    close = set_description = refresh = write = update


class _Dir(object):
    """os.scandir in another order"""
    def __init__(self, items):
        self.items = iter(items)

    def __iter__(self):
        return self.items

    def __next__(self):
        return next(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


@contextlib.contextmanager
def listed(order):
    """the folder's files are listed in this order (None: sorted)"""
    ls, sc = os.listdir, os.scandir

    def key(n):
        n = os.path.basename(n)
        return (order.index(n), n) if order and n in order else (-1, n)
    os.listdir = lambda *a: sorted(ls(*a), key=key)
    os.scandir = lambda *a: _Dir(sorted(sc(*a), key=lambda e: key(e.name)))
    try:
        yield
    finally:
        os.listdir, os.scandir = ls, sc


@contextlib.contextmanager
def progress(ph, on):
    """as with -verbose; the progress bars draw nothing"""
    old = sys.modules.get("tqdm")
    ph.msg.set_verbosity(True if on else None)
    if on:
        m = types.ModuleType("tqdm")
        m.tqdm = _Bar
        m.recording = True
        sys.modules["tqdm"] = m
    try:
        yield
    finally:
        ph.msg.set_verbosity(None)
        if old is None:
            sys.modules.pop("tqdm", None)
        else:
            sys.modules["tqdm"] = old


def _files(ctx, names):
    """an arbitrary order of these files"""
    return [names[int(i)] for i in ctx.perm("file", len(names))]


def _twice(ctx, ph, go, names, out, verbose):
    """what two runs write"""
    seed = ctx.int("seed", -1000, 1000)
    ctx.streams = Streams()
    order = _files(ctx, names) if names else None
    texts = []
    for i in range(2):
        ctx.streams.restart(i)
        with listed(order if i else None), progress(ph, verbose and i):
            go(seed)
        with open(out) as f:
            texts.append("\n".join(x for x in f.read().split("\n") if not x.startswith("Random structure enumeration")))   # the date
        os.remove(out)
    ctx.streams = None
    return texts


def requests(ctx, ph, sizes, nshape, nconc, vals, top, verbose, kind="all", restrict=None):
    shapes = {s: SHAPES[s][:nshape] for s in sizes}
    concs = {s: CONCS[s][:nconc] for s in sizes}
    it = iter(vals)
    v = {s: [[next(it) for _ in concs[s]] for _ in shapes[s]] for s in sizes}
    _write(ctx, "polya.out", sizes, shapes, concs, v)
    n = int(ctx.int("n", 1, top))

    def go(seed):
        ph.structures.make_enum_in("polya.out", kind, "enum.in", number=n, sizes=None, seed=seed)
    a, b = _twice(ctx, ph, go, ["polya.out.%d" % s for s in sizes], "enum.in", verbose)
    ctx.check(a == b and len(a) > 0, "the same seed gives the same requests")


def _args(**k):
    a = dict(polya=False, enum=False, lattice="lattice.in", input=None, outfile=None, distribution=None, savedist=False, sizes=None, acceptrate=None,
             seed=None, super=False, filter=None, visualize=False, shapes=False, show=False, profile=False, verbose=None, dataformat="cells.{}")
    a.update(k)
    return a


def _crystal(lat, basis, sizes, k, arrows, conc=None):
    L = lt.LATS[lat]
    with open("lattice.in", "w") as f:
        f.write("%d %d\nbulk\n" % tuple(sizes))
        for v in L.vecs:
            f.write(" ".join(repr(float(x)) for x in v) + "\n")
        f.write("%d\n%d\n" % (k, len(lt.BASES[basis])))
        for v in lt.cart_basis(L, basis):
            f.write(" ".join(repr(float(x)) for x in v) + "\n")
        if arrows:
            f.write("T\nT\n")
            for a in arrows:
                f.write("0 %d %d %s\n" % (sizes[1], sizes[1], a))
        elif conc:
            f.write("T\nF\n")
            for c in conc:
                f.write("%d %d %d\n" % tuple(c))
        else:
            f.write("F\n")


def structures(ctx, ph, lat, basis, reqs, k, arrows, verbose, supers=False, accept=None):
    """-enum from an enum.in file; reqs: HNF, composition, the most structures asked for"""
    _crystal(lat, basis, [1, 4], k, arrows)
    with open("enum.in", "w") as f:
        f.write("# HNF  Conc.  Number\n")
        for i, (h, c, m) in enumerate(reqs):
            f.write("  %s  %s  %d\n" % (" ".join(map(str, h)), " ".join(map(str, c)), int(ctx.int("m%d" % i, 1, m))))

    def go(seed):
        ph.enumeration._script_enum(_args(enum=True, seed=seed, super=supers, acceptrate=accept))
    a, b = _twice(ctx, ph, go, None, "enum.out", verbose)
    ctx.check(a == b and len(a) > 0, "the same seed gives the same structures")


def program(ctx, ph, lat, basis, sizes, k, top, verbose, left, conc=None):
    """-enum -distribution all N from lattice.in alone; left: the predictions of an earlier run are there already"""
    _crystal(lat, basis, sizes, k, None, conc)
    n = int(ctx.int("n", 1, top))
    names = ["polya.out.%d" % s for s in range(sizes[0], sizes[1] + 1)]
    if left:
        ph.enumeration._script_enum(_args(polya=True))

    def go(seed):
        ph.enumeration._script_enum(_args(enum=True, seed=seed, distribution=["all", str(n)]))
        os.remove("enum.in")
        if not left:
            for x in names:
                os.remove(x)
    a, b = _twice(ctx, ph, go, names, "enum.out", verbose)
    ctx.check(a == b and len(a) > 0, "the same seed gives the same structures")


def cases(tier):
    q = tier == "quick"
    out = []
    for i, (sz, ns, nc, vals, top, vb, kind) in enumerate([
            ([1, 2, 3], 1, 1, [1, 2, 3], 5, False, "all"), ([1, 2, 3], 1, 1, [2, 2, 2], 4, True, "all"), ([1, 2], 1, 2, [1, 1, 2, 1], 3, True, "all"),
            ([2, 3], 1, 1, [2, 3], 4, False, "all")] + ([] if q else [([1, 2, 3], 1, 2, [1, 1, 2, 2, 1, 3], 6, False, "all")])):
        out.append(Case("requests_%d" % i, "requests", dict(sizes=sz, nshape=ns, nconc=nc, vals=vals, top=top, verbose=vb, kind=kind), weight=100))
    h1, h2, h3, h4, h22 = [1, 0, 1, 0, 0, 1], [1, 0, 1, 0, 0, 2], [1, 0, 1, 0, 1, 3], [1, 0, 1, 0, 0, 4], [1, 0, 2, 0, 0, 2]
    S = [("sc", "o", [(h4, [2, 2], 2), (h3, [1, 2], 1)], 2, None, True, False, None),
         ("tri", "o", [(h4, [2, 2], 3), (h22, [2, 2], 2)], 2, None, False, True, None),
         ("sc", "cscl", [(h2, [2, 2], 2), (h1, [1, 1], 1)], 2, None, True, True, None),
         ("tri", "o", [([1, 0, 1, 0, 0, 6], [2, 2, 2], 2)], 3, None, True, True, None),
         ("mon", "o", [(h4, [1, 3], 2), (h22, [1, 3], 1), (h3, [1, 2], 1)], 2, None, False, False, None),
         ("tet", "o", [(h3, [1, 1, 1], 1), (h4, [2, 1, 1], 3)], 3, None, False, False, None),
         ("sc", "o", [(h2, [1, 1], 2), (h2, [0, 2], 1)], 2, [1.0, 1.0], True, False, None),
         ("sc", "o", [(h3, [1, 2], 2)], 2, [1.0, 0], False, True, None),
         ("sc", "o", [(h2, [2], 3)], 1, [0.5], True, True, None),
         ("sc", "o", [(h4, [2, 2], 3)], 2, None, True, True, 0.5),
         ("sc", "o", [(h2, [1, 1], 3)], 2, [1.0, 0], False, True, 0.25)]
    for i, (l, b, r, k, ar, vb, su, ac) in enumerate(S):
        out.append(Case("structures_%d_%s_%s" % (i, l, b), "structures",
                        dict(lat=l, basis=b, reqs=r, k=k, arrows=ar, verbose=vb, supers=su, accept=ac), weight=100))
    for i, (l, b, sz, k, top, vb, lf, co) in enumerate([("sc", "o", [2, 2], 2, 2, False, True, [[1, 1, 2], [1, 1, 2]]), ("sc", "cscl", [1, 1], 2, 2, True, False, None),
                                                    ("sc", "o", [1, 2], 2, 1, False, True, [[1, 2, 2], [0, 1, 2]])]):
        out.append(Case("program_%d_%s_%s" % (i, l, b), "program", dict(lat=l, basis=b, sizes=sz, k=k, top=top, verbose=vb, left=lf, conc=co), weight=300))
    return out
