"""Recording stand-in for matplotlib: figures keep what is drawn on them (the calls of the installed version, 3.11)."""
import sys
import types

FIGS = []       # every figure created since reset()


class Axes(object):
    def __init__(self, three):
        self.three = three
        self.points = []
        self.lines = []

    def scatter(self, xs, ys, zs=0, zdir="z", **kw):
        if not self.three:
            raise TypeError("a three-dimensional plot is needed")
        xs, ys, zs = [list(v) for v in (xs, ys, zs)]
        if zdir != "z" or not len(xs) == len(ys) == len(zs):
            raise ValueError("xs, ys, and zs")
        self.points.extend(zip(xs, ys, zs))

    def plot(self, xs, ys, zs=None, *fmt, **kw):
        if not self.three or zs is None or isinstance(zs, str):
            raise TypeError("a three-dimensional plot is needed")
        xs, ys, zs = [list(v) for v in (xs, ys, zs)]
        if not len(xs) == len(ys) == len(zs):
            raise ValueError("xs, ys, and zs")
        self.lines.append((list(zip(xs, ys, zs)), (fmt[0] if fmt else kw.get("fmt", kw.get("color", kw.get("c"))))))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Figure(object):
    def __init__(self):
        self.axes = []
        self.saved = []
        FIGS.append(self)

    def gca(self):
        return self.axes[-1] if self.axes else self.add_subplot()

    def add_subplot(self, *args, projection=None, **kw):
        self.axes.append(Axes(projection == "3d"))
        return self.axes[-1]

    def add_axes(self, rect, projection=None, **kw):
        return self.add_subplot(projection=projection)

    def savefig(self, name, **kw):
        self.saved.append(str(name))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Axes3D(Axes):
    def __init__(self, fig, *a, **k):
        Axes.__init__(self, True)
        fig.axes.append(self)


def _figure(*a, **k):
    return Figure()


def _axes(projection=None, **k):
    return (FIGS[-1] if FIGS else Figure()).add_subplot(projection=projection)


def _subplots(*a, subplot_kw=None, **k):
    f = Figure()
    return f, f.add_subplot(projection=(subplot_kw or {}).get("projection"))


def _nothing(*a, **k):
    return None


def _save(name, **k):
    FIGS[-1].savefig(name)


def install():
    m = types.ModuleType("matplotlib")
    m.use = _nothing
    m.recording = True
    p = types.ModuleType("matplotlib.pyplot")
    p.figure, p.axes, p.subplots, p.show, p.close, p.savefig = _figure, _axes, _subplots, _nothing, _nothing, _save
    p.gcf = lambda: FIGS[-1]
    c = types.ModuleType("matplotlib.cm")
    t = types.ModuleType("mpl_toolkits")
    t3 = types.ModuleType("mpl_toolkits.mplot3d")
    t3.Axes3D = Axes3D
    m.pyplot, m.cm, t.mplot3d = p, c, t3
    sys.modules.update({"matplotlib": m, "matplotlib.pyplot": p, "matplotlib.cm": c, "mpl_toolkits": t, "mpl_toolkits.mplot3d": t3})


def reset():
    del FIGS[:]
