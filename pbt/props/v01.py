"""V01: drawn quantities are computed from the right bins and drawn at them."""

import os

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import avg, figures, files, gen
from pbt.core import Sub
from pbt.oracle import same, same_pair
from pbt.props.m02 import dissipation

from droplets.data_utils import get_lim_indices
from droplets.flow import FlowData
from droplets.flowfield import draw_flowfield
from strata.strata import strata as cli
from strata.view_flowmap import (
    add_absolute_flow, add_density_gradient, add_evaporation, add_radial_flow, add_viscous_dissipation,
    get_quiver_data, view_flowfields, view_flowmap_2d
)

ID = 'V01'
RULE = (
    "maps of 1x1 to 9x8 bins in each format and order, of which all added fields, height maps, contours, arrows and "
    "stream lines are drawn through the functions or the command line, with limits on any side and cutoffs on any "
    "label. Figures are inspected when they are saved and not rendered. Non-trivial: the drawn values are not all "
    "the same, or only some of the bins are drawn"
)

VISCOSITY = 8.77e-4


# The added fields ---------------------------------------------------------------------------

def slope(a, h, axis):
    """First-order differences at the ends, second-order between them."""

    a = np.moveaxis(np.asarray(a, dtype=float), axis, 0)
    out = np.empty_like(a)
    for k in range(len(a)):
        lo, hi = max(0, k - 1), min(len(a) - 1, k + 1)
        out[k] = (a[hi] - a[lo]) / ((hi - lo) * h)
    return np.moveaxis(out, 0, axis)


def field_of(label, grid):
    """The field of a map as an array of shape (nx, ny)."""

    f = grid.fields
    if label == 'flow':
        return np.hypot(f['U'], f['V'])
    if label in ('visc', 'visc_diss'):
        with np.errstate(all='ignore'):
            return dissipation(f['U'] * f['M'], f['V'] * f['M'], grid.dx, grid.dy, VISCOSITY) / f['M']**2
    if label == 'grad_rho_x':
        return slope(f['M'], grid.dx, 0)
    if label == 'grad_rho_y':
        return slope(f['M'], grid.dy, 1)
    if label == 'evaporation':
        return f['U'] * slope(f['M'], grid.dx, 0) + f['V'] * slope(f['M'], grid.dy, 1)
    if label == 'radial':
        m = f['M']
        xs, ys = grid.centers()
        x0, y0 = (xs * m.sum(axis=1)).sum() / m.sum(), (ys * m.sum(axis=0)).sum() / m.sum()
        rx, ry = xs[:, None] - x0, ys[None, :] - y0
        r = np.hypot(rx, ry)
        with np.errstate(all='ignore'):
            # At the centre itself there is no direction
            return np.where(r > 1e-6, (f['U'] * ry - f['V'] * rx) / r, np.nan)
    return f[label]


def needs(label):
    """Bins along each axis that a field needs."""
    return {'visc': 3, 'visc_diss': 3, 'grad_rho_x': 2, 'grad_rho_y': 2, 'evaporation': 2}.get(label, 1)


def tolerance(values, gmx=True):
    v = np.abs(values[np.isfinite(values)])
    return (1e-5 if gmx else 3e-3) * (1e-3 + (float(v.max()) if v.size else 0.))


ADDED = ['flow', 'radial', 'visc', 'grad_rho_x', 'grad_rho_y', 'evaporation']


@st.composite
def field_specs(draw):
    g = draw(gen.maps(min_nx=2, max_nx=9, min_ny=2, max_ny=8))
    g['perm'] = draw(st.integers(0, 10**6))
    g['label'] = draw(st.sampled_from(ADDED))
    g['coord'] = [draw(st.integers(-40, 40)) / 8., draw(st.integers(-40, 40)) / 8.]
    g['viscosity'] = draw(st.sampled_from([1.0, VISCOSITY, 2.5]))
    return g


def fields(spec, ctx):
    """The added field has the right value in every bin, and all other data stays."""

    label = spec['label']
    if min(spec['nx'], spec['ny']) < needs(label):
        return
    data, info = gen.build(spec)
    n = data['M'].size
    shape = info['shape']
    grid = avg.Grid(spec['x0'], spec['y0'], spec['dx'], spec['dy'],
                    {l: data[l].reshape(shape) for l in ('M', 'N', 'T', 'U', 'V')})
    order = gen.order(spec['perm'], data['X'], data['Y'])
    flow = FlowData(*([(l, data[l][order]) for l in ('X', 'Y', 'N', 'T', 'M', 'U', 'V')]
                      + [('mark', np.arange(n, dtype=float)[order])]), info=info)
    ctx.label(label)

    if label == 'flow':
        out = ctx.sut(add_absolute_flow, flow.data)
        want = field_of(label, grid)
    elif label == 'radial':
        out = ctx.sut(add_radial_flow, flow.data, tuple(spec['coord']))
        rx = (data['X'] - spec['coord'][0]).reshape(shape)
        ry = (data['Y'] - spec['coord'][1]).reshape(shape)
        r = np.hypot(rx, ry)
        with np.errstate(all='ignore'):
            want = np.where(r > 1e-6, (grid.fields['U'] * ry - grid.fields['V'] * rx) / r, np.nan)
    else:
        if label == 'visc':
            ctx.sut(add_viscous_dissipation, flow, spec['viscosity'])
            want = field_of(label, grid) * (spec['viscosity'] / VISCOSITY)
        elif label == 'evaporation':
            ctx.sut(add_evaporation, flow)
            want = field_of(label, grid)
        else:
            ctx.sut(add_density_gradient, flow)
            want = field_of(label, grid)
        out = flow.data
        ctx.check(list(flow.shape) == list(shape) and list(flow.spacing) == list(info['spacing']),
                  "the grid of the data was changed to %r, %r", flow.shape, flow.spacing)

    ctx.check(label in out.dtype.names, "no field %s in %r", label, out.dtype.names)
    at = np.asarray(out['mark']).astype(int)
    ctx.check(sorted(at.tolist()) == list(range(n)), "bins were lost from the data")
    for l in ('X', 'Y', 'N', 'T', 'M', 'U', 'V'):
        same(ctx, out[l], data[l][at], 'field %s with the added %s' % (l, label), rtol=0, atol=0)
    w = want.ravel()[at]
    known = np.isfinite(w)
    got = np.asarray(out[label], dtype=float)
    same(ctx, got[known], w[known], 'field ' + label, rtol=1e-6, atol=1e-3 * tolerance(want))
    ctx.nontrivial(float(np.ptp(w[known])) > 0 if known.any() else False)


# Selected arrows ----------------------------------------------------------------------------

@st.composite
def quiver_specs(draw):
    g = draw(gen.maps(max_nx=8, max_ny=8))
    g['perm'] = draw(st.integers(0, 10**6))
    g['physical'] = draw(st.booleans())
    g['lims'] = [draw(gen.limits(g['nx'])), draw(gen.limits(g['ny']))]
    g['labels'] = draw(st.sampled_from([['U', 'V'], ['U', 'V'], ['V', 'U'], ['T', 'N']]))
    g['coords'] = draw(st.sampled_from([['X', 'Y'], ['X', 'Y'], ['Y', 'X']]))
    g['colour'] = draw(st.sampled_from([None, 'T', 'M', 'none', 'mark']))
    g['cutoff_label'] = draw(st.sampled_from([None, 'M', 'M', 'T', 'U']))
    g['cutoff'] = draw(st.sampled_from([None, 0.0, 1 / 16., 4.0, 8.0, 20.0]))
    return g


def quiver(spec, ctx):
    data, info = gen.build(spec, physical=spec['physical'])
    n = data['M'].size
    order = gen.order(spec['perm'], data['X'], data['Y'])
    data = {l: v[order] for l, v in data.items()}
    data['mark'] = np.arange(n, dtype=float)
    flow = FlowData(*data.items(), info=info)
    before = flow.data.copy()
    cx, cy = gen.centers(spec)
    lims = {}
    for l, c, d, pair in (('X', cx, spec['dx'], spec['lims'][0]), ('Y', cy, spec['dy'], spec['lims'][1])):
        lims[l] = list(gen.limits_of(pair, c, d))
    ul, vl = spec['labels']
    xl, yl = spec['coords']

    keep = (data[ul] != 0) | (data[vl] != 0)
    for l in 'XY':
        lo, hi = lims[l]
        if lo is not None:
            keep &= data[l] >= lo
        if hi is not None:
            keep &= data[l] <= hi
    if spec['cutoff_label'] is not None and spec['cutoff'] is not None:
        keep &= data[spec['cutoff_label']] >= spec['cutoff']

    got = ctx.sut_list(get_quiver_data, flow.data, [ul, vl], [xl, yl], spec['colour'],
                       (spec['cutoff_label'], spec['cutoff']), tuple(lims[xl]), tuple(lims[yl]))
    ctx.check(len(got) == 5, "%d and not five arrays", len(got))
    colour = spec['colour']
    want = [data[xl], data[yl], data[ul], data[vl],
            data[colour] if colour in ('T', 'M', 'mark') else np.ones(n)]
    for what, g, w in zip(('x', 'y', 'u', 'v', 'weights'), got, want):
        same(ctx, g, w[keep], what, rtol=0, atol=0)
    ctx.check(np.array_equal(flow.data, before), "the data was changed")
    ctx.nontrivial(0 < keep.sum() < n)


# Figures ------------------------------------------------------------------------------------

@st.composite
def figure_specs(draw, **kwargs):
    spec = draw(avg.series(max_maps=3, first=1, **kwargs))
    spec['src'] = draw(st.sampled_from(['gmx', 'gmx', 'gmx', 'simple', 'simple', 'simple_plain', 'simple_plain', 'mixed', 'mixed2']))
    spec['axes'] = draw(st.sampled_from([None, None, None, [[-1.25, 0.25], [None, None]],
                                         [[None, 1.25], [0.25, 3.75]]]))
    spec['vlim'] = draw(st.sampled_from([None, None, [2.03125, None], [None, 7.03125], [1.03125, 5.03125],
                                         [0.0, None], [None, 0.0], [0.0, 5.03125], [-3.03125, 0.0]]))
    spec['show'] = draw(st.booleans())
    spec['bar'] = draw(st.sampled_from([None, None, None, True, False]))
    return spec


def axis_limits(spec, grids):
    if not spec['axes']:
        return None
    return [[None if v is None else float(c[0] + v * d) for v in pair]
            for pair, c, d in zip(spec['axes'], grids[0].centers(), (spec['dx'], spec['dy']))]


def write(spec, ctx):
    indir = ctx.mkdir('in')
    avg.write_series(spec, indir)
    grids = [avg.grid_of(m) for m in avg.map_specs(spec)]
    paths = [os.path.join(indir, name) for name in sorted(os.listdir(indir))]
    ctx.check(len(paths) == len(grids), "the series was not written")
    return indir, paths, grids


def with_limits(vlim, drawn):
    """Colour limits, of which one-sided ones have to leave some colours on every map."""

    if vlim is None or None not in vlim:
        return vlim
    lim = vlim[0] if vlim[1] is None else vlim[1]
    for v in drawn:
        v = v[np.isfinite(v)]
        if v.size == 0 or not v.min() < lim - 1e-3 or not v.max() > lim + 1e-3:
            return [1.03125, 5.03125]
    return vlim


def numbers(pair):
    return ['none' if v is None else repr(v) for v in pair]


def draw_it(ctx, spec, kind, paths, options, axes):
    """Draw maps by the command line or the function, and return the saved pictures."""

    out = ctx.path('figure.png')
    before = files.snapshot(os.path.dirname(paths[0]))
    with figures.pictures() as saved:
        if spec['cli']:
            args = ['view', kind] + paths + ['-o', out, '--noshow']
            for name, value in options.items():
                flag = {'label': '-l', 'cutoff': '-co', 'cutoff_label': '-cl', 'colour': '-cl',
                        'contour_levels': '-lv', 'num_contours': '-n'}.get(name, '--' + name)
                if name in ('filled', 'streamlines'):
                    args += [flag] if value else []
                elif name in ('clim', 'vlim'):
                    args += [flag] + numbers(value)
                elif name == 'contour_levels':
                    args += [flag, ' '.join(repr(v) for v in value)]
                else:
                    args += [flag, value if isinstance(value, str) else repr(value)]
            if axes:
                args += ['--xlim'] + numbers(axes[0]) + ['--ylim'] + numbers(axes[1])
            if spec['bar'] is not None:
                args.append('--colourbar' if spec['bar'] else '--nocolourbar')
            ctx.called = True
            result = CliRunner().invoke(cli, args)
            ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
            ctx.label('command line')
            what = ' '.join(args) + '\n' + result.output
        else:
            kw = {'save_fig': out, 'show': False, 'vlim': (None, None)}
            if kind == 'height':
                kw['clim'] = (None, None)
            kw.update({k: tuple(v) if k in ('clim', 'vlim') else v for k, v in options.items()})
            if axes:
                kw.update(xlim=tuple(axes[0]), ylim=tuple(axes[1]))
            if spec['bar'] is not None:
                kw['colorbar'] = spec['bar']
            if kind == 'flow':
                ctx.sut(view_flowfields, *paths, **kw)
            else:
                ctx.sut(view_flowmap_2d, *paths, type=kind, **kw)
            what = repr(kw)
    ctx.check(len(saved) == len(paths), "%d figures and not %d were saved by %s", len(saved), len(paths), what)
    for picture in saved:
        ctx.check(picture.path == out, "a figure was saved to %r", picture.path)
        if axes:
            for got, lims in zip((picture.xlim, picture.ylim), axes):
                for g, v in zip(got, lims):
                    ctx.check(v is None or abs(g - v) < 1e-9 * (1. + abs(v)), "axis limits %r and not %r", got, lims)
    ctx.check(files.snapshot(os.path.dirname(paths[0])) == before, "the input files were changed")
    return saved


@st.composite
def height_specs(draw):
    spec = draw(figure_specs(max_nx=8, max_ny=8))
    labels = ['M', 'M', 'N', 'T', 'U', 'V', 'flow', 'visc_diss', 'evaporation']
    spec['label'] = draw(st.sampled_from(labels + ([] if spec['cli'] else ['grad_rho_x', 'grad_rho_y', 'visc'])))
    spec['cutoff_label'] = draw(st.sampled_from(['M', 'M', 'M', 'T', 'U', 'flow', 'visc', None]))
    spec['cutoff'] = draw(st.sampled_from([None, None, 1 / 32., 4 + 1 / 32., 8 + 1 / 32.]))
    spec['clim'] = draw(st.sampled_from([None, None, None, [3 + 1 / 32., None], [None, 9 + 1 / 32.],
                                         [2 + 1 / 32., 7 + 1 / 32.]]))
    return spec


def kept_bins(grid, label, cutoff):
    """Bins at or above a cutoff, and those so close to it that they are not judged."""

    if label is None or cutoff is None:
        return np.ones(grid.shape, dtype=bool), np.zeros(grid.shape, dtype=bool)
    v = field_of(label, grid)
    with np.errstate(all='ignore'):
        close = ~np.isfinite(v) | (np.abs(v - cutoff) < 1e-3 * (1. + np.abs(v)))
        return (v >= cutoff) & ~close, close


def height(spec, ctx):
    label, cl = spec['label'], spec['cutoff_label']
    size = min(spec['nx'], spec['ny'])
    if size < max(needs(label), needs(cl) if spec['cutoff'] is not None else 1):
        return
    indir, paths, grids = write(spec, ctx)
    spec['vlim'] = with_limits(spec['vlim'], [
        field_of(label, g)[kept_bins(g, cl or 'M', spec['cutoff'])[0]] for g in grids
    ] if spec['clim'] is None else [np.zeros(0)])
    options = {'label': label}
    for k in ('cutoff_label', 'cutoff', 'clim', 'vlim'):
        if spec[k] is not None:
            options[k] = spec[k]
    axes = axis_limits(spec, grids)
    saved = draw_it(ctx, spec, 'height', paths, options, axes)
    gmx = spec['src'] == 'gmx'
    ctx.label(label, spec['src'])
    # Without a cutoff label only the command line has no cutoff
    if cl is None and not spec['cli']:
        cl = 'M'
    clim = spec['clim'] or [None, None]
    vlim = spec['vlim'] or [None, None]
    for picture, grid in zip(saved, grids):
        ctx.check(len(picture.meshes) == 1, "%d height maps in the figure", len(picture.meshes))
        mesh = picture.meshes[0]
        corners = np.asarray(mesh.get_coordinates(), dtype=float)
        values = np.ma.filled(np.ma.asarray(mesh.get_array(), dtype=float), np.nan)
        values = values.reshape(corners.shape[0] - 1, corners.shape[1] - 1)
        ctx.check(not np.isnan(corners).any(), "the map has no place")
        x0, x1 = np.sort(corners[0, [0, -1], 0])
        y0, y1 = np.sort(corners[[0, -1], 0, 1])
        ex, ey = corners[0, :, 0], corners[:, 0, 1]
        want = field_of(label, grid)
        kept, close = kept_bins(grid, cl, spec['cutoff'])
        tol = tolerance(want, gmx)
        xs, ys = grid.centers()
        thin = not gmx and size == 1
        drawn = set()
        for i, x in enumerate(xs):
            for j, y in enumerate(ys):
                if close[i, j]:
                    continue
                for s in ((0.,) if thin else (0., 0.3, -0.3)):
                    px, py = x + s * grid.dx, y + s * grid.dy
                    inside = x0 < px < x1 and y0 < py < y1
                    if not inside:
                        ctx.check(not kept[i, j], "bin (%d, %d) is not in the map", i, j)
                        continue
                    k = int(np.searchsorted(ex, px)) - 1
                    m = int(np.searchsorted(ey, py)) - 1
                    got = values[m, k]
                    if kept[i, j]:
                        w = want[i, j]
                        if not np.isfinite(w):
                            continue
                        out = [None if c is None else s * (w - c) for c, s in zip(clim, (-1, 1))]
                        if any(c is not None and abs(c) < 2 * tol for c in out):
                            continue
                        if any(c is not None and c > 0 for c in out):
                            ctx.check(np.isnan(got), "bin (%d, %d) with %r is drawn outside of %r", i, j, w, clim)
                        else:
                            drawn.add(w)
                            ctx.check(abs(got - w) <= tol, "bin (%d, %d) is drawn with %r and not %r", i, j, got, w)
                    else:
                        ctx.check(np.isnan(got) or got == 0.0, "bin (%d, %d) is below the cutoff but drawn with %r",
                                  i, j, got)
        if np.count_nonzero(kept) > 0:
            for got, v in zip(mesh.get_clim(), vlim):
                ctx.check(v is None or got == v, "colours are limited to %r and not %r", mesh.get_clim(), vlim)
        ctx.nontrivial(len(drawn) > 1)


@st.composite
def contour_specs(draw):
    spec = draw(figure_specs(min_nx=2, max_nx=8, min_ny=2, max_ny=8))
    labels = ['M', 'M', 'N', 'T', 'U', 'V', 'flow']
    spec['label'] = draw(st.sampled_from(
        labels + ([] if spec['cli'] else ['grad_rho_x', 'grad_rho_y', 'evaporation'] * 2)))
    spec['filled'] = draw(st.booleans())
    spec['levels'] = draw(st.one_of(
        st.none(),
        st.lists(st.integers(-60, 120), min_size=2, max_size=5, unique=True).map(
            lambda ks: [k / 8. + 1 / 32. for k in sorted(ks)])))
    spec['num'] = draw(st.sampled_from([None, 3, 6]))
    return spec


def contour(spec, ctx):
    label = spec['label']
    indir, paths, grids = write(spec, ctx)
    # Colour bars of empty contours have nothing to show
    values = [field_of(label, g) for g in grids]
    if any(float(np.ptp(v)) == 0 for v in values):
        spec['bar'] = None
    options = {'label': label, 'filled': spec['filled']}
    if spec['levels'] is not None:
        options['contour_levels'] = spec['levels']
        if not all(spec['levels'][0] < v.max() and spec['levels'][-1] > v.min() for v in values):
            spec['bar'] = None
    if spec['num'] is not None:
        options['num_contours'] = spec['num']
    if spec['vlim'] is not None:
        options['vlim'] = spec['vlim']
    axes = axis_limits(spec, grids)
    saved = draw_it(ctx, spec, 'contour', paths, options, axes)
    gmx = spec['src'] == 'gmx'
    ctx.label(label, 'filled' if spec['filled'] else 'lines', spec['src'])
    for picture, grid, v in zip(saved, grids, values):
        ctx.check(len(picture.contours) == 1, "%d contours in the figure", len(picture.contours))
        cs = picture.contours[0]
        ctx.check(bool(cs.filled) == spec['filled'], "contours are filled: %r", cs.filled)
        levels = [float(l) for l in cs.levels]
        if spec['levels'] is not None:
            same(ctx, levels, spec['levels'], 'levels')
        elif spec['vlim'] is not None:
            v = np.clip(v, *[(-np.inf, np.inf)[k] if l is None else l for k, l in enumerate(spec['vlim'])])
        # As many levels as the library makes for that number of them
        if spec['levels'] is None and label in 'MNTUV' and float(np.ptp(v)) > 0:
            fig, ax = figures.plt.subplots()
            want = [float(l) for l in ax.contour(v, spec['num'] or 10).levels]
            if spec['filled']:
                want = [float(l) for l in ax.contourf(v, spec['num'] or 10).levels]
            figures.plt.close(fig)
            same(ctx, levels, want, 'levels for %r contours' % spec['num'], rtol=1e-3)
        tol = max(2e-3, 3 * tolerance(v, gmx))
        # Positions in bins
        xs, ys = grid.centers()

        def at(point):
            """The points between two neighbouring bins which a point may be."""

            p = (np.asarray(point, dtype=float) - [xs[0], ys[0]]) / [grid.dx, grid.dy]
            ends = np.array([len(xs) - 1, len(ys) - 1])
            snap = np.round(p)
            near = (np.abs(p - snap) < 1e-3) & (snap >= 0) & (snap <= ends)
            for k in np.nonzero(near)[0]:
                q = np.clip(p, 0, ends)
                q[k] = snap[k]
                if abs(q[1 - k] - p[1 - k]) < 1e-3:
                    yield q[0], q[1]

        def value(fx, fy):
            i0, j0 = int(np.floor(fx)), int(np.floor(fy))
            i1, j1 = int(np.ceil(fx)), int(np.ceil(fy))
            sx, sy = fx - i0, fy - j0
            return ((1 - sx) * (1 - sy) * v[i0, j0] + sx * (1 - sy) * v[i1, j0]
                    + (1 - sx) * sy * v[i0, j1] + sx * sy * v[i1, j1])

        steepest = max(float(np.abs(np.diff(v, axis=k)).max()) for k in (0, 1))
        if not spec['filled']:
            crossed = 0
            for level, path in zip(levels, cs.get_paths()):
                points = np.concatenate([r for r, _ in figures.rings(path)]) if len(path.vertices) else []
                here = set()
                for point in points:
                    near = list(at(point))
                    ctx.check(near, "a contour at %r is not between neighbouring bins", tuple(point))
                    values_at = [value(*q) for q in near]
                    off = [abs(w - level) for w in values_at]
                    # Places are known to 1e-3 bins
                    ctx.check(min(off) < tol + 1e-3 * steepest, "the contour of %r is at %r with the value %r",
                              level, tuple(point), values_at)
                    for (fx, fy), o in zip(near, off):
                        if o < tol + 1e-3 * steepest:
                            here.add((np.floor(fx), np.ceil(fx), np.floor(fy), np.ceil(fy)))
                for axis in (0, 1):
                    a, b = (v[:-1], v[1:]) if axis == 0 else (v[:, :-1], v[:, 1:])
                    for i, j in zip(*np.nonzero((a - level) * (b - level) < 0)):
                        if min(abs(a[i, j] - level), abs(b[i, j] - level)) < 10 * tol:
                            continue
                        key = (i, i + (axis == 0), j, j + (axis == 1))
                        crossed += 1
                        ctx.check(key in here, "no contour of %r between the bins (%d, %d) and (%d, %d)",
                                  level, i, j, i + (axis == 0), j + (axis == 1))
            ctx.nontrivial(crossed > 0)
        else:
            bounds = list(zip(levels[:-1], levels[1:]))
            for (lo, hi), path in zip(bounds, cs.get_paths()):
                for i in range(len(xs)):
                    for j in range(len(ys)):
                        if min(abs(v[i, j] - lo), abs(v[i, j] - hi)) < max(10 * tol, 5e-4 * steepest):
                            continue
                        si, sj = (1 if i < len(xs) - 1 else -1), (1 if j < len(ys) - 1 else -1)
                        px, py = xs[i] + 1e-4 * si * grid.dx, ys[j] + 1.1e-4 * sj * grid.dy
                        if not gmx:
                            # Coordinates are rounded: stay inside
                            px, py = xs[i] + 2e-3 * si * grid.dx, ys[j] + 2.2e-3 * sj * grid.dy
                            if min(abs(v[i, j] - lo), abs(v[i, j] - hi)) < max(0.2, 1e-2 * steepest):
                                continue
                        want = lo < v[i, j] < hi
                        got = figures.inside(path, px, py)
                        ctx.check(got == want, "bin (%d, %d) with %r is %sfilled for %r to %r", i, j, v[i, j],
                                  '' if got else 'not ', lo, hi)
                        ctx.nontrivial(want)


@st.composite
def flow_specs(draw):
    spec = draw(figure_specs(max_nx=8, max_ny=8))
    spec['colour'] = draw(st.sampled_from(
        ['T', 'M', 'N', 'U', 'None', 'flow', 'visc', 'radial', 'evaporation', 'default']))
    spec['cutoff'] = draw(st.sampled_from([None, None, 1 / 32., 4 + 1 / 32., 8 + 1 / 32.]))
    spec['streamlines'] = draw(st.sampled_from([False, False, True]))
    return spec


def flow(spec, ctx):
    colour = spec['colour']
    lines = spec['streamlines']
    if min(spec['nx'], spec['ny']) < max(2 if lines else 1, needs(colour)):
        return
    if lines and colour == 'default' and not spec['cli']:
        colour = 'M'
    indir, paths, grids = write(spec, ctx)
    if colour == 'radial' and any(not g.fields['M'].any() for g in grids):
        return
    options = {'streamlines': lines}
    if colour != 'default':
        options['colour'] = colour
    shown = {'default': 'T' if spec['cli'] else None, 'None': None}.get(colour, colour)
    if spec['cutoff'] is not None:
        options['cutoff'] = spec['cutoff']
    if spec['vlim'] is not None:
        options['vlim'] = spec['vlim']
    axes = axis_limits(spec, grids)
    gmx = spec['src'] == 'gmx'
    cx, cy = grids[0].centers()
    within = np.ones(grids[0].shape, dtype=bool)
    for c, (lo, hi), shape in zip((cx, cy), axes or [[None, None]] * 2, ((-1, 1), (1, -1))):
        ok = np.array([(lo is None or x >= lo) and (hi is None or x <= hi) for x in c])
        within &= ok.reshape(shape)
    kept = [within & (g.fields['M'] >= (-1. if spec['cutoff'] is None else spec['cutoff'])) for g in grids]
    if lines:
        for g, k in zip(grids, kept):
            # Lines need some flow, and two columns and rows with it
            if not (g.fields['M'][k] > 0).any() or min(k.any(axis=0).sum(), k.any(axis=1).sum()) < 2:
                return
        spec['bar'] = None
    if not spec['cli'] and not any(((g.fields['U'] != 0) | (g.fields['V'] != 0))[k].any() for g, k in zip(grids, kept)):
        spec['bar'] = None
    colours = [np.ones(2) if shown is None else field_of(shown, g)[k & ((g.fields['U'] != 0) | (g.fields['V'] != 0))]
               for g, k in zip(grids, kept)]
    if spec['vlim'] is not None:
        spec['vlim'] = options['vlim'] = with_limits(spec['vlim'], colours)
    with figures.streams() as drawn:
        saved = draw_it(ctx, spec, 'flow', paths, options, axes)
    ctx.label(shown, 'stream lines' if lines else 'arrows', spec['src'])

    def column(points, centers, size):
        k = np.round((np.asarray(points, dtype=float) - centers[0]) / size)
        ctx.check(k.size == 0 or (k.min() >= 0 and k.max() < len(centers)), "flow is drawn outside of the map")
        k = k.astype(int)
        same(ctx, points, centers[k], 'positions', rtol=1e-5, atol=1e-4 * size if gmx else max(6e-6, 1e-4 * size))
        return k

    for n, (picture, grid, keep) in enumerate(zip(saved, grids, kept)):
        f = grid.fields
        color = None if shown is None else field_of(shown, grid)
        tol = None if shown is None else tolerance(color, gmx)
        if not lines:
            ctx.check(len(picture.quivers) == 1, "%d flow fields in the figure", len(picture.quivers))
            q = picture.quivers[0]
            i, j = column(q.X, grid.centers()[0], grid.dx), column(q.Y, grid.centers()[1], grid.dy)
            want = keep & ((f['U'] != 0) | (f['V'] != 0))
            got = sorted(zip(i.tolist(), j.tolist()))
            ctx.check(got == sorted(zip(*[k.tolist() for k in np.nonzero(want)])),
                      "arrows are drawn at %r and not at %r", got, np.argwhere(want).tolist())
            same(ctx, q.U, f['U'][i, j], 'flow along x', rtol=1e-5, atol=1e-6)
            same(ctx, q.V, f['V'][i, j], 'flow along y', rtol=1e-5, atol=1e-6)
            c = np.ma.filled(np.ma.asarray(q.get_array(), dtype=float), np.nan)
            w = np.ones(len(i)) if color is None else color[i, j]
            known = np.isfinite(w)
            same(ctx, c[known], w[known], 'colours', rtol=1e-5 if gmx else 3e-3, atol=tol or 1e-9)
            for got, v in zip(q.get_clim(), spec['vlim'] or (None, None)):
                ctx.check(v is None or got == v, "colours are limited to %r and not %r", q.get_clim(), spec['vlim'])
            ctx.nontrivial(len(i) > 1 and len(i) < want.size or len(set(w[known].tolist())) > 1)
        else:
            ctx.check(len(drawn) == len(saved), "%d stream plots in %d figures", len(drawn), len(saved))
            for collection in picture.streams if shown is not None else []:
                for got, v in zip(collection.get_clim(), spec['vlim'] or (None, None)):
                    ctx.check(v is None or got == v, "colours are limited to %r and not %r", collection.get_clim(),
                              spec['vlim'])
            s = drawn[n]
            i, j = column(s['x'], grid.centers()[0], grid.dx), column(s['y'], grid.centers()[1], grid.dy)
            ctx.check(keep[np.ix_(i, j)].sum() == keep.sum(), "bins with flow are outside of the stream plot")
            ctx.check(not axes or within[np.ix_(i, j)].all(), "stream lines are drawn outside of the limits")
            for a, l in ((s['u'], 'U'), (s['v'], 'V')):
                ctx.check(a.shape == (len(j), len(i)), "flow has the shape %r", a.shape)
                w = f[l][np.ix_(i, j)].T
                k = keep[np.ix_(i, j)].T
                mask = np.ma.getmaskarray(a)
                ctx.check(np.array_equal(mask, ~k), "flow is drawn in the wrong bins: %r", mask.tolist())
                same(ctx, np.ma.getdata(a)[k], w[k], 'flow ' + l, rtol=1e-5, atol=1e-6)
            if color is not None:
                k = keep[np.ix_(i, j)].T
                w = color[np.ix_(i, j)].T[k]
                known = np.isfinite(w)
                same(ctx, np.ma.getdata(s['color'])[k][known], w[known], 'colours', rtol=1e-5 if gmx else 3e-3,
                     atol=tol)
            ctx.nontrivial(len(i) > 1)


@st.composite
def arrow_specs(draw):
    nx, ny = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    return {'nx': nx, 'ny': ny, 'data': draw(gen.field_bytes(nx * ny, fields=('U', 'V', 'C'))),
            'names': draw(st.sampled_from([['X', 'Y', 'U', 'V', 'M'], ['f0', 'f1', 'f2', 'f3', 'f4'], ['Y', 'X', 'V', 'U', 'T']])),
            'fields': draw(st.sampled_from(['default', 'places', 'colours', 'flow'])),
            'limits': draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 20), st.sampled_from(['low', 'high', 'both', 'none'])),
                                    max_size=3, unique_by=lambda v: v[0])),
            'again': draw(st.booleans())}


@figures.recorded
def arrows(spec, ctx):
    """The function which draws the arrows of any data."""

    import matplotlib.pyplot as plt

    nx, ny, names = spec['nx'], spec['ny'], spec['names']
    xs, ys = np.meshgrid(np.arange(nx) / 2., np.arange(ny) * 3.)
    raw = gen.decode(spec['data'])
    columns = [xs.ravel(), ys.ravel()] + [np.asarray(raw[l], dtype=float) for l in 'UVC']
    flow = FlowData(*[(name, v) for name, v in zip(names, columns)])
    limits, keep = {}, np.ones(nx * ny, dtype=bool)
    for k, at, side in spec['limits']:
        v = sorted(columns[k].tolist())
        lo, hi = v[at % len(v)], v[(at * 7) % len(v)]
        lo, hi = min(lo, hi), max(lo, hi)
        lo, hi = (None if side in ('high', 'none') else lo), (None if side in ('low', 'none') else hi)
        limits[names[k]] = (lo, hi)
        keep &= (columns[k] >= (-np.inf if lo is None else lo)) & (columns[k] <= (np.inf if hi is None else hi))
    if not keep.any():
        return
    data = flow.data[ctx.sut(get_lim_indices, flow.data, limits)]
    number = {'default': 4, 'places': 4, 'colours': 5, 'flow': 2}[spec['fields']]
    if spec['fields'] == 'default':
        if names[0] != 'X':
            names = ['X', 'Y', 'U', 'V', 'T'] if names[0] == 'Y' else names
        if 'X' not in names:
            return
    used = names[2:4] if number == 2 else names[:number]
    order = [spec['names'].index(l) for l in used]
    before = data.copy()
    for _ in range(1 + spec['again']):
        q = ctx.sut(draw_flowfield, data) if spec['fields'] == 'default' else ctx.sut(draw_flowfield, data, fields=tuple(used))
    found = [a for a in plt.gca().get_children() if type(a).__name__ == 'Quiver']
    ctx.check(len(found) == 1 + spec['again'] and q is found[-1], "%r are drawn and %r is returned", found, q)
    ctx.check(np.array_equal(data, before), "the data was changed")
    want = [columns[k][keep] for k in order]
    got = [q.U, q.V] if number == 2 else [q.X, q.Y, q.U, q.V] + ([q.get_array()] if number == 5 else [])
    for l, a, b in zip(used, got, want):
        same(ctx, np.ma.filled(np.ma.asarray(a, dtype=float), np.nan), b, 'arrows, ' + l)
    ctx.nontrivial(1 < keep.sum())


SUBS = [
    Sub('arrows', arrow_specs(), arrows, quick=40),
    Sub('fields', field_specs(), fields, quick=600),
    Sub('quiver', quiver_specs(), quiver, quick=300),
    Sub('height', height_specs(), height, quick=150),
    Sub('contour', contour_specs(), contour, quick=150),
    Sub('flow', flow_specs(), flow, quick=150),
]
