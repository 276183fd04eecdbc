"""A03: combining bins conserves what is in them and where they are."""

import numpy as np
from hypothesis import strategies as st

from pbt import avg, gen
from pbt.core import Sub
from pbt.oracle import combined_map, same, same_ints, same_pair

from droplets.flow import FlowData
from droplets.resample import downsample_flow_data
from strata.dataformats.gmx_flow_version_1.main import combine_bins as gmx_combine
from strata.dataformats.simple.main import combine_bins as simple_combine

ID = 'A03'
RULE = (
    "maps of 1x1 to 9x9 bins with any share of empty bins, combined by any factors (also such that leave a rest), "
    "through the average command, the format modules and the resampling of flow data in any order of bins and with "
    "limits. Non-trivial: a factor above 1 and some combined bin has mass"
)


@st.composite
def factors(draw, spec):
    return [draw(st.integers(1, max(1, min(4, spec['nx'])))), draw(st.integers(1, max(1, min(4, spec['ny']))))]


@st.composite
def command_specs(draw):
    spec = draw(avg.series(units=True, max_maps=4, max_nx=8, max_ny=8))
    spec['combine'] = draw(factors(spec))
    spec['src'] = draw(st.sampled_from(['gmx', 'gmx', 'gmx', 'simple']))
    return spec


def command(spec, ctx):
    nx, ny = spec['combine']
    if spec['src'] != 'gmx' and (spec['nx'] < 2 or spec['ny'] < 2):
        # The simple format does not know the spacing along an axis with a single bin
        return
    ctx.label('rest' if spec['nx'] % nx or spec['ny'] % ny else 'even', 'factor 1' if nx * ny == 1 else 'combines')

    def expect(grids):
        return avg.combine(avg.mean(grids), nx, ny)

    avg.run(spec, ctx, {'combine': [nx, ny]}, expect)
    ctx.is_nontrivial = ctx.is_nontrivial and nx * ny > 1


@st.composite
def module_specs(draw):
    spec = draw(gen.maps(max_nx=9, max_ny=9))
    spec['combine'] = draw(factors(spec))
    spec['module'] = draw(st.sampled_from(['gmx', 'simple']))
    return spec


def modules(spec, ctx):
    nx, ny = spec['combine']
    data, info = gen.build(spec)
    if spec['module'] == 'simple':
        info['origin'] = (data['X'][0], data['Y'][0])
    original = gen.copy_data(data)
    ctx.nontrivial(nx * ny > 1 and np.any(data['M']))

    want, (mx, my) = combined_map(data, info['shape'], nx, ny)
    func = gmx_combine if spec['module'] == 'gmx' else simple_combine
    got, got_info = ctx.sut(func, data, info, nx, ny)

    same_ints(ctx, got_info['shape'], (mx, my), 'shape')
    ctx.check(int(got_info['num_bins']) == mx * my, "num_bins %r", got_info['num_bins'])
    same_pair(ctx, got_info['spacing'], (spec['dx'] * nx, spec['dy'] * ny), 'spacing')
    xs = spec['x0'] + nx * spec['dx'] * (np.arange(mx) + 0.5)
    ys = spec['y0'] + ny * spec['dy'] * (np.arange(my) + 0.5)
    xm, ym = np.meshgrid(xs, ys, indexing='ij')
    same(ctx, got['X'], xm.ravel(), 'X')
    same(ctx, got['Y'], ym.ravel(), 'Y')
    origin = (spec['x0'], spec['y0']) if spec['module'] == 'gmx' else (xs[0], ys[0])
    same_pair(ctx, got_info['origin'], origin, 'origin')
    for l in want:
        same(ctx, got[l], want[l], l)
    for l in original:
        same(ctx, data[l], original[l], 'input %s' % l, rtol=0, atol=0)


@st.composite
def downsample_specs(draw):
    spec = draw(gen.maps(max_nx=9, max_ny=9, spacings=gen.DYADIC,
                         origins=st.integers(-40, 40).map(lambda k: k / 8.)))
    lim = st.one_of(st.none(), st.none(), st.integers(0, 8))
    spec['lims'] = [draw(lim), draw(lim), draw(lim), draw(lim)]
    spec['combine'] = draw(factors(spec))
    spec['weights'] = draw(st.sampled_from([[], [['U', 'M']], [['U', 'M'], ['V', 'M'], ['T', 'N']]]))
    spec['perm'] = draw(st.integers(0, 10**6))
    spec['labels'] = draw(st.sampled_from([['X', 'Y'], ['X', 'Y'], ['Y', 'Z']]))
    return spec


def downsample(spec, ctx):
    nx, ny = spec['combine']
    data, info = gen.build(spec, physical=False)
    n = data['X'].size
    xl, yl = spec['labels']
    stride = 1 + spec['perm'] % n
    while np.gcd(stride, n) != 1:
        stride += 1
    perm = (spec['perm'] // 7 + stride * np.arange(n)) % n

    # Limits in bins from both sides
    i0, i1, j0, j1 = [v or 0 for v in spec['lims']]
    i1, j1 = spec['nx'] - i1, spec['ny'] - j1
    if i1 - i0 < nx or j1 - j0 < ny:
        i0, i1, j0, j1 = 0, spec['nx'], 0, spec['ny']
        lims = [None] * 4
    else:
        lims = spec['lims']
    xs, ys = gen.centers(spec)
    xlim = (None if lims[0] is None else xs[i0], None if lims[1] is None else xs[i1 - 1] + 0.25 * spec['dx'])
    ylim = (None if lims[2] is None else ys[j0] - 0.25 * spec['dy'], None if lims[3] is None else ys[j1 - 1])
    ctx.label('limited' if any(v is not None for v in lims) else 'whole')

    fields = [(l, data[l][perm]) for l in ('M', 'N', 'T', 'U', 'V')]
    flow = ctx.sut(FlowData, (xl, data['X'][perm]), (yl, data['Y'][perm]), *fields, info=info)
    before = flow.data.copy()
    kw = {'weights': [tuple(w) for w in spec['weights']]}
    if any(v is not None for v in lims[:2]):
        kw['xlim'] = xlim
    if any(v is not None for v in lims[2:]):
        kw['ylim'] = ylim
    if spec['labels'] != ['X', 'Y']:
        kw['coord_labels'] = tuple(spec['labels'])
    got = ctx.sut(downsample_flow_data, flow, (nx, ny), **kw)

    mx, my = (i1 - i0) // nx, (j1 - j0) // ny
    same_ints(ctx, got.shape, (mx, my), 'shape')
    ctx.check(got.num_bins == mx * my and got.data.size == mx * my, "num_bins is %r", got.num_bins)
    same_pair(ctx, got.spacing, (spec['dx'] * nx, spec['dy'] * ny), 'spacing')
    xc = spec['x0'] + spec['dx'] * (i0 + nx * (np.arange(mx) + 0.5))
    yc = spec['y0'] + spec['dy'] * (j0 + ny * (np.arange(my) + 0.5))
    same_pair(ctx, got.origin, (xc[0], yc[0]), 'origin')
    order = np.lexsort((got.data[yl], got.data[xl]))
    xm, ym = np.meshgrid(xc, yc, indexing='ij')
    same(ctx, got.data[xl][order], xm.ravel(), xl)
    same(ctx, got.data[yl][order], ym.ravel(), yl)

    weights = dict(map(tuple, spec['weights']))
    for l in ('M', 'N', 'T', 'U', 'V'):
        def blocks(label):
            a = data[label].reshape(spec['nx'], spec['ny'])[i0:i0 + mx * nx, j0:j0 + my * ny]
            return a.reshape(mx, nx, my, ny).transpose(1, 3, 0, 2).reshape(nx * ny, mx * my)
        if l in weights:
            w = blocks(weights[l])
            total = w.sum(axis=0)
            want = np.where(total == 0, 0.0, (blocks(l) * w).sum(axis=0) / np.where(total == 0, 1.0, total))
        else:
            want = blocks(l).sum(axis=0)
        same(ctx, got.data[l][order], want, l)
        if l == 'M':
            ctx.nontrivial(nx * ny > 1 and np.any(want))
    for l in before.dtype.names:
        same(ctx, flow.data[l], before[l], 'input %s' % l, rtol=0, atol=0)


SUBS = [
    Sub('command', command_specs(), command, quick=200),
    Sub('modules', module_specs(), modules, quick=300),
    Sub('downsample', downsample_specs(), downsample, quick=300),
]
