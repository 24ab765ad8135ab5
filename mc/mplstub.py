"""A stand-in for matplotlib (which is not installed) that keeps what is drawn: figure by figure, as it is at the time it is saved.

It refuses what matplotlib refuses: coordinates and errors of different lengths."""

import sys
import types

import numpy as np

SAVED = []   # dicts: path, axes (list of dicts with series, texts, ...)


class Anything(object):
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Anything()


def _data(v):
    return [x for x in (v if isinstance(v, (list, tuple, np.ndarray)) else [v])]


def _error(e, n):
    if e is None:
        return None
    e = np.asarray(e)
    if e.ndim == 0:
        return [float(e)] * n
    if e.shape not in ((n,), (1,), (2, n)):
        raise ValueError("errorbar: %r errors of %d points" % (e.shape, n))
    return [float(x) for x in np.broadcast_to(e, (n,))] if e.ndim == 1 else e.tolist()


class Axes(object):
    def __init__(self, fig):
        self.figure, self.transAxes = fig, "axes"
        self.d = {"series": [], "hlines": [], "vlines": [], "text": [], "mesh": [], "hist": [], "legend": False}

    def _xy(self, kind, x, y, label, xerr=None, yerr=None):
        x, y = _data(x), _data(y)
        if len(x) != len(y):
            raise ValueError("%d abscissae, %d ordinates" % (len(x), len(y)))
        self.d["series"].append({"kind": kind, "x": x, "y": y, "label": label, "xerr": _error(xerr, len(x)),
                                 "yerr": _error(yerr, len(x))})
        return [Anything()]

    def errorbar(self, x, y, yerr=None, xerr=None, fmt="", label=None, **k):
        return self._xy("errorbar", x, y, label, xerr, yerr)

    def plot(self, x, y, *a, **k):
        return self._xy("plot", x, y, k.get("label"))

    def scatter(self, x, y, *a, **k):
        return self._xy("scatter", x, y, k.get("label"))

    def hist2d(self, x, y, bins=10, **k):
        x, y = np.asarray(x, float), np.asarray(y, float)
        h, ex, ey = np.histogram2d(x, y, bins=bins)
        self.d["hist"].append((x.tolist(), y.tolist(), bins))
        return h, ex, ey, Anything()

    def pcolormesh(self, x, y, z, **k):
        self.d["mesh"].append((np.array(x, float), np.array(y, float), np.array(z, float)))
        return Anything()

    def axhline(self, y=0, **k):
        self.d["hlines"].append(y)

    def axvline(self, x=0, **k):
        self.d["vlines"].append(x)

    def text(self, x, y, s, **k):
        self.d["text"].append(s)

    def legend(self, *a, **k):
        self.d["legend"] = True
        return Anything()

    def get_position(self):
        return Anything(x0=0.1, y0=0.1, width=0.8, height=0.8, x1=0.9, y1=0.9)

    def __getattr__(self, name):
        if name.startswith("set_"):
            def setter(*a, **k):
                self.d[name[4:]] = a[0] if len(a) == 1 else list(a) if a else k
            return setter
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Anything()


class Figure(object):
    def __init__(self, *a, **k):
        self.axes = []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self))
        return self.axes[-1]

    def gca(self):
        return self.axes[-1] if self.axes else self.add_subplot(111)

    def savefig(self, path, *a, **k):
        SAVED.append({"path": str(path), "axes": [dict(ax.d) for ax in self.axes]})

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Anything()


class Pyplot(types.ModuleType):
    open = []

    def figure(self, *a, **k):
        self.open.append(Figure())
        return self.open[-1]

    def subplots(self, *a, **k):
        f = self.figure()
        return f, f.add_subplot(111)

    def gcf(self):
        return self.open[-1] if self.open else self.figure()

    def gca(self):
        return self.gcf().gca()

    def savefig(self, *a, **k):
        return self.gcf().savefig(*a, **k)

    def close(self, fig=None):
        if fig == "all":
            del self.open[:]
        elif fig is None:
            del self.open[-1:]
        elif fig in self.open:
            self.open.remove(fig)

    def get_cmap(self, *a, **k):
        return lambda v: (v, v, v, 1.0)

    def pcolormesh(self, *a, **k):
        return self.gca().pcolormesh(*a, **k)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Anything()


def install():
    mpl = types.ModuleType("matplotlib")
    mpl.__path__ = []
    mpl.use = lambda *a, **k: None
    mpl.rcParams = {}
    plt = Pyplot("matplotlib.pyplot")
    mpl.pyplot = plt
    sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = mpl, plt
    return plt


def take():
    """The figures saved since the last call, by path; leaves no figure open."""
    out = list(SAVED)
    del SAVED[:]
    del Pyplot.open[:]
    return out
