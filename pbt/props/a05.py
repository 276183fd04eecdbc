"""A05: limits keep the bins inside of them, and the steps of an average work together."""

import numpy as np
from hypothesis import strategies as st

from pbt import avg, gen
from pbt.core import Sub
from pbt.props.a04 import edge_shifts

ID = 'A05'
RULE = (
    "series of 1 to 5 maps of 1x1 to 9x7 bins, averaged within limits on any of the four sides (also outside of the "
    "system), alone and together with recentring, combination and supersampling. Non-trivial: the limits leave out "
    "some bins or at least two steps are combined, and a map with mass is written"
)


@st.composite
def specs(draw):
    spec = draw(avg.series(units=True, max_maps=4, max_nx=9, max_ny=7))
    spec['lims'] = [draw(gen.limits(spec['nx'])), draw(gen.limits(spec['ny']))]
    spec['src'] = draw(st.sampled_from(['gmx', 'gmx', 'simple']))
    return spec


def lims_of(spec):
    return [gen.limits_of(pair, v0 + d * (np.arange(n) + 0.5), d) for pair, v0, d, n in
            zip(spec['lims'], (spec['x0'], spec['y0']), (spec['dx'], spec['dy']), (spec['nx'], spec['ny']))]


def lim_opts(spec):
    xlim, ylim = lims_of(spec)
    opts = {}
    if xlim != (None, None):
        opts['xlim'] = xlim
    if ylim != (None, None):
        opts['ylim'] = ylim
    return opts


def within(spec, ctx):
    xlim, ylim = lims_of(spec)
    if spec['src'] != 'gmx' and (spec['nx'] < 2 or spec['ny'] < 2):
        return
    left = []

    def expect(grids):
        kept = [avg.cut(g, xlim, ylim) for g in grids]
        left.append(kept[0].shape != grids[0].shape)
        return avg.mean(kept)

    grid = avg.grid_of(avg.map_specs(spec)[0])
    if avg.cut(grid, xlim, ylim) is None:
        ctx.label('nothing left')
        return
    avg.run(spec, ctx, lim_opts(spec), expect)
    ctx.label('cut' if any(left) else 'whole')
    ctx.is_nontrivial = ctx.is_nontrivial and any(left)


@st.composite
def step_specs(draw):
    spec = draw(avg.series(units=True, max_maps=4, fill=draw(st.sampled_from([100, 100, 60])), min_nx=4, max_nx=8, min_ny=2, max_ny=5))
    spec['lims'] = [draw(gen.limits(spec['nx'])), draw(gen.limits(spec['ny']))] if draw(st.booleans()) else [[None, None]] * 2
    spec['position'] = draw(st.sampled_from([None, 'com', 'left', 'right']))
    spec['combine'] = draw(st.sampled_from([None, [1, 2], [2, 1], [2, 2], [3, 1]]))
    spec['supersample'] = draw(st.sampled_from([None, 2, 3]))
    spec['cutoff'] = draw(st.sampled_from([2.0, 8.0]))
    spec['cutoff'] *= spec['unit']
    spec['radius'] = draw(st.sampled_from([1.1, 1.5]))
    spec['bins'] = draw(st.sampled_from([0, 1]))
    spec['floor'] = None
    return spec


def steps(spec, ctx):
    xlim, ylim = lims_of(spec)

    def prepare(grids):
        kept = [avg.cut(g, xlim, ylim) for g in grids]
        if any(g is None for g in kept):
            return None
        if spec['position'] is None:
            return kept
        if kept[0].shape[0] < 2 or kept[0].shape[1] < 2:
            return None
        if spec['position'] == 'com':
            if any(not g.fields['M'].any() for g in kept):
                return None
            at = [avg.bins_to(g, avg.center_of_mass(g)) for g in kept]
            if any(avg.ambiguous(a) for a in at):
                return None
            shifts = [int(np.floor(a + 0.5)) for a in at]
        else:
            shifts = edge_shifts(spec, kept)
            if shifts is None:
                return None
        return avg.recenter(kept, shifts)

    def expect(grids):
        out = avg.mean(prepare(grids))
        if spec['combine']:
            out = avg.combine(out, *spec['combine'])
        if spec['supersample']:
            out = avg.supersample(out, spec['supersample'])
        return out

    grids = [avg.grid_of(m) for m in avg.map_specs(spec)]
    for inds, _ in avg.bundles(spec):
        kept = prepare([grids[i] for i in inds])
        nx, ny = spec['combine'] or (1, 1)
        if kept is None or kept[0].shape[0] < nx or kept[0].shape[1] < ny:
            ctx.label('left out')
            return

    opts = lim_opts(spec)
    if spec['position']:
        r = edges_radius(spec)
        opts.update({'recenter': spec['position'], 'cutoff': spec['cutoff'], 'cutoff_radius': r,
                     'cutoff_bins': spec['bins']})
    if spec['combine']:
        opts['combine'] = spec['combine']
    if spec['supersample']:
        opts['supersample'] = spec['supersample']
    number = bool(lim_opts(spec)) + sum(bool(spec[k]) for k in ('position', 'combine', 'supersample'))
    ctx.label('%d steps' % number, spec['position'])
    avg.run(spec, ctx, opts, expect)
    ctx.is_nontrivial = ctx.is_nontrivial and number > 1


def edges_radius(spec):
    from pbt import edges
    return edges.radius_of(spec['dx'], spec['dy'], spec['radius'])


SUBS = [
    Sub('limits', specs(), within, quick=400),
    Sub('steps', step_specs(), steps, quick=400),
]
