"""Figures as they are when they are saved: the artists on their axes, not how they got there."""

import contextlib
import functools

import numpy as np

import matplotlib
matplotlib.use('Agg')

import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.axes import Axes  # noqa: E402
from matplotlib.collections import LineCollection, QuadMesh  # noqa: E402
from matplotlib.contour import ContourSet  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402
from matplotlib.path import Path  # noqa: E402
from matplotlib.quiver import Quiver  # noqa: E402


class Picture:
    """The first axes of a figure at the time it was saved or shown."""

    def __init__(self, fig, path, options):
        self.path = path
        self.options = options
        self.size = tuple(fig.get_size_inches())
        axes = list(fig.axes)
        self.num_axes = len(axes)
        ax = axes[0]
        self.xlim, self.ylim = ax.get_xlim(), ax.get_ylim()
        self.title, self.xlabel, self.ylabel = ax.get_title(), ax.get_xlabel(), ax.get_ylabel()
        self.axis = ax.axison
        self.scales = (ax.get_xscale(), ax.get_yscale())
        # 1 if both axes have the same length per unit
        self.aspect = ax.get_aspect()
        self.axes_on = [a.axison for a in axes]
        legend = ax.get_legend()
        self.legend = None if legend is None else [t.get_text() for t in legend.get_texts()]
        # Next to the map
        self.bar = None
        if len(axes) > 1:
            bar = axes[1].yaxis
            self.bar = {'label': bar.get_label_text(), 'lim': axes[1].get_ylim(),
                        'ticks': [float(t) for t in bar.get_ticklocs()],
                        'ticklabels': [t.get_text() for t in bar.get_majorticklabels()]}
        artists = list(ax.get_children())
        self.colormaps = [a.get_cmap().name for a in artists if isinstance(a, (QuadMesh, ContourSet, Quiver, LineCollection))]
        self.streams = [a for a in artists if isinstance(a, LineCollection) and not isinstance(a, ContourSet)]
        self.meshes = [a for a in artists if isinstance(a, QuadMesh)]
        self.contours = [a for a in artists if isinstance(a, ContourSet)]
        self.quivers = [a for a in artists if isinstance(a, Quiver)]
        self.lines = [(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float), l.get_label())
                      for l in ax.get_lines()]


@contextlib.contextmanager
def pictures():
    """Record figures instead of rendering them into files. An empty file stands for each."""

    saved = []
    savefig, layout, show = Figure.savefig, Figure.tight_layout, plt.show

    def record(self, fname, *args, **kwargs):
        if isinstance(fname, str):
            with open(fname, 'wb'):
                pass
        saved.append(Picture(self, fname, kwargs))

    Figure.savefig = record
    plt.show = lambda *args, **kwargs: saved.append(Picture(plt.gcf(), None, {}))
    # Renders all of the figure, for its margins only
    Figure.tight_layout = lambda self, *args, **kwargs: None
    try:
        yield saved
    finally:
        Figure.savefig, Figure.tight_layout, plt.show = savefig, layout, show
        plt.close('all')


def recorded(func):
    """A sub-check whose figures are recorded."""

    @functools.wraps(func)
    def wrapper(spec, ctx):
        with pictures():
            func(spec, ctx)
    return wrapper


@contextlib.contextmanager
def streams():
    """Record the fields of stream plots, by their grid, instead of following the lines."""

    drawn = []
    streamplot = Axes.streamplot

    def record(self, x, y, u, v, density=1, linewidth=None, color=None, **kwargs):
        drawn.append({'x': np.array(x), 'y': np.array(y), 'u': np.ma.array(u, copy=True),
                      'v': np.ma.array(v, copy=True),
                      'color': color if color is None or isinstance(color, str) else np.ma.array(color, copy=True)})
        # What the original refuses is refused. A few lines are enough for that
        return streamplot(self, x, y, u, v, density=0.2, linewidth=linewidth, color=color, **kwargs)

    Axes.streamplot = record
    try:
        yield drawn
    finally:
        Axes.streamplot = streamplot


def rings(path):
    """The closed polygons or open lines of a compound path, with whether they are closed."""

    out, current, closed = [], [], False
    vertices = np.asarray(path.vertices, dtype=float)
    codes = path.codes
    if codes is None:
        return [(vertices, False)] if len(vertices) else []
    for v, c in zip(vertices, codes):
        if c == Path.MOVETO:
            if current:
                out.append((np.array(current), closed))
            current, closed = [v], False
        elif c == Path.CLOSEPOLY:
            closed = True
            if current:
                current.append(current[0])
        elif c == Path.LINETO:
            current.append(v)
    if current:
        out.append((np.array(current), closed))
    return out


def inside(path, x, y):
    """Whether a point is inside of the polygons of a path, by the even-odd rule."""

    count = 0
    for ring, _ in rings(path):
        x0, y0 = ring[:-1].T
        x1, y1 = ring[1:].T
        cross = (y0 > y) != (y1 > y)
        with np.errstate(all='ignore'):
            at = x0 + (y - y0) / (y1 - y0) * (x1 - x0)
        count += int(np.count_nonzero(cross & (at > x)))
        # Rings which do not repeat their first vertex
        if not np.allclose(ring[0], ring[-1], rtol=0, atol=0):
            (xa, ya), (xb, yb) = ring[-1], ring[0]
            if (ya > y) != (yb > y) and xa + (y - ya) / (yb - ya) * (xb - xa) > x:
                count += 1
    return count % 2 == 1
