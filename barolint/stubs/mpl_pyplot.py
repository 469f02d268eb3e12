# Interface of matplotlib.pyplot: the data given to an axes, in data coordinates.
import numpy as np


class Axis:

    def __init__(self):
        self.formatter = None

    def set_major_formatter(self, f):
        self.formatter = f

    def set_major_locator(self, x):
        pass

    def set_ticks(self, x, labels=None, **kwargs):
        pass


class Mappable:

    def __init__(self, levels):
        self.levels = levels


def mesh(x, y, z):
    x, y, z = np.asarray(x), np.asarray(y), np.asarray(z)
    if x.ndim == 1:
        x = np.ones(z.shape) * x
    if y.ndim == 1:
        y = np.ones(z.shape) * y[:,None]
    return x, y, z


class Axes:

    def __init__(self, figure):
        self.figure = figure
        self.xaxis = Axis()
        self.yaxis = Axis()
        self.fills = []
        self.contours = []
        self.lines = []
        self.vectors = []
        self.titles = {}
        self.xlim = None
        self.ylim = None
        self.xticks = None
        self.xticklabels = None
        self.labelled = False

    def contourf(self, x, y, z, levels=None, **kwargs):
        self.fills.append((mesh(x, y, z), levels))
        return Mappable(levels)

    def contour(self, x, y, z, levels=None, **kwargs):
        self.contours.append((mesh(x, y, z), levels))
        return Mappable(levels)

    def pcolormesh(self, x, y, z, **kwargs):
        self.fills.append((mesh(x, y, z), None))
        return Mappable(None)

    def quiver(self, x, y, u, v, *args, **kwargs):
        self.vectors.append((x, y, u, v))
        return Mappable(None)

    def plot(self, x, y, *args, label=None, **kwargs):
        self.lines.append((x, y, label))
        return [Mappable(None)]

    def clabel(self, *args, **kwargs):
        return []

    def vlines(self, x, lo, hi, **kwargs):
        return Mappable(None)

    def hlines(self, y, lo, hi, **kwargs):
        return Mappable(None)

    def axvline(self, x=0, *args, **kwargs):
        return Mappable(None)

    def axhline(self, y=0, *args, **kwargs):
        return Mappable(None)

    def legend(self, *args, **kwargs):
        pass

    def grid(self, *args, **kwargs):
        pass

    def set_title(self, text, loc="center", **kwargs):
        self.titles[loc] = text

    def set_xlabel(self, *args, **kwargs):
        pass

    def set_ylabel(self, *args, **kwargs):
        pass

    def set_xlim(self, left=None, right=None):
        if right is None:
            left, right = left
        self.xlim = (left, right)
        return self.xlim

    def set_ylim(self, bottom=None, top=None):
        if top is None:
            bottom, top = bottom
        self.ylim = (bottom, top)
        return self.ylim

    def get_xlim(self):
        return _unknown("xmin"), _unknown("xmax")

    def get_ylim(self):
        return self.ylim

    def set_xticks(self, ticks, labels=None, **kwargs):
        self.xticks = ticks
        if labels is not None:
            self.xticklabels = labels

    def get_xticks(self):
        return np.asarray(self.xticks)

    def set_xticklabels(self, labels, **kwargs):
        self.xticklabels = labels

    def tick_params(self, *args, **kwargs):
        pass


class AxesArray:

    def __init__(self, rows):
        self.rows = rows
        self.shape = (len(rows), len(rows[0]))
        self.flat = [x for r in rows for x in r]
        self.size = len(self.flat)

    def __iter__(self):
        return iter(self.rows)

    def __len__(self):
        return len(self.rows)

    def __getitem__(self, key):
        if isinstance(key, tuple):
            return self.rows[key[0]][key[1]]
        return self.rows[key]

    def ravel(self):
        return self.flat

    def flatten(self):
        return self.flat


class Figure:

    def __init__(self):
        self.axes = []

    def add_subplot(self, *args, **kwargs):
        ax = Axes(self)
        self.axes.append(ax)
        return ax

    def subplots(self, nrows=1, ncols=1, squeeze=True, **kwargs):
        rows = [[self.add_subplot() for j in range(ncols)] for i in range(nrows)]
        if not squeeze:
            return AxesArray(rows)
        if nrows == 1 and ncols == 1:
            return rows[0][0]
        if nrows == 1:
            return rows[0]
        if ncols == 1:
            return [r[0] for r in rows]
        return AxesArray(rows)

    def colorbar(self, *args, **kwargs):
        return Mappable(None)

    def tight_layout(self, *args, **kwargs):
        pass

    def suptitle(self, *args, **kwargs):
        pass

    def subplots_adjust(self, *args, **kwargs):
        pass


def figure(*args, **kwargs):
    return Figure()


def subplots(nrows=1, ncols=1, squeeze=True, **kwargs):
    f = Figure()
    return f, f.subplots(nrows, ncols, squeeze)
