"""A06: supersampling splits bins and smooths over the split ones."""

import numpy as np
from hypothesis import strategies as st

from pbt import avg, gen
from pbt.core import Sub
from pbt.oracle import same, same_ints, same_pair

from droplets.flow import FlowData
from droplets.resample import supersample_flow_data

ID = 'A06'
RULE = (
    "maps of 1x1 to 6x6 bins with any share of empty bins, supersampled by 1 to 4, through the average command and "
    "as flow data in any order of bins, with any weights. Non-trivial: a factor above 1 and the map has mass and "
    "more than one bin"
)


@st.composite
def command_specs(draw):
    spec = draw(avg.series(units=True, max_maps=3, max_nx=5, max_ny=5))
    spec['factor'] = draw(st.integers(1, 4))
    return spec


def command(spec, ctx):
    n = spec['factor']
    ctx.label('factor %d' % n)
    avg.run(spec, ctx, {'supersample': n}, lambda grids: avg.supersample(avg.mean(grids), n))
    ctx.is_nontrivial = ctx.is_nontrivial and n > 1 and spec['nx'] * spec['ny'] > 1


@st.composite
def direct_specs(draw):
    spec = draw(gen.maps(max_nx=6, max_ny=6))
    spec['factor'] = draw(st.sampled_from([None, 1, 2, 2, 3, 3, 4]))
    spec['weights'] = draw(st.sampled_from([[], [['U', 'M']], [['U', 'M'], ['V', 'M'], ['T', 'N']], [['T', 'M']]]))
    spec['labels'] = draw(st.sampled_from([['X', 'Y'], ['X', 'Y'], ['Y', 'Z']]))
    spec['perm'] = draw(st.integers(0, 10**6))
    return spec


def direct(spec, ctx):
    data, info = gen.build(spec, physical=False)
    nx, ny = info['shape']
    n = nx * ny
    xl, yl = spec['labels']
    stride = 1 + spec['perm'] % n
    while np.gcd(stride, n) != 1:
        stride += 1
    perm = (spec['perm'] // 7 + stride * np.arange(n)) % n
    labels = ('M', 'N', 'T', 'U', 'V')
    flow = ctx.sut(FlowData, (xl, data['X'][perm]), (yl, data['Y'][perm]),
                   *[(l, data[l][perm]) for l in labels], info=info)
    before = flow.data.copy()
    kw = {'weights': [tuple(w) for w in spec['weights']]}
    if spec['labels'] != ['X', 'Y']:
        kw['coord_labels'] = tuple(spec['labels'])
    got = ctx.sut(supersample_flow_data, flow, spec['factor'], **kw)
    for l in before.dtype.names:
        same(ctx, flow.data[l], before[l], 'input %s' % l, rtol=0, atol=0)
    ctx.check(got is not flow, "the input data itself is returned")

    f = spec['factor'] or 1
    ctx.nontrivial(f > 1 and n > 1 and np.any(data['M']))
    ctx.label('factor %s' % spec['factor'])
    same_ints(ctx, got.shape, (nx * f, ny * f), 'shape')
    same_pair(ctx, got.spacing, (spec['dx'] / f, spec['dy'] / f), 'spacing')
    ctx.check(got.data.size == n * f * f, "%d bins and not %d", got.data.size, n * f * f)
    order = np.lexsort((np.round((got.data[yl] - data['Y'][0]) / spec['dy'] * f),
                        np.round((got.data[xl] - data['X'][0]) / spec['dx'] * f)))
    for l, v0, d, k in ((xl, data['X'][0], spec['dx'] / f, 0), (yl, data['Y'][0], spec['dy'] / f, 1)):
        vs = np.unique(np.round((got.data[l] - np.min(got.data[l])) / d, 6))
        same(ctx, vs, np.arange((nx, ny)[k] * f), 'positions along %s' % l, atol=1e-5)

    # Nothing is smoothed if no bins are split
    weights = dict(map(tuple, spec['weights'])) if f > 1 else {}
    fine = {l: np.repeat(np.repeat(data[l].reshape(nx, ny), f, axis=0), f, axis=1) for l in labels}
    for l in labels:
        want = np.zeros((nx * f, ny * f))
        for i in range(nx * f):
            for j in range(ny * f):
                box = np.s_[max(0, i - f + 1):i + f, max(0, j - f + 1):j + f]
                v = fine[l][box]
                if l in weights:
                    w = fine[weights[l]][box]
                    want[i, j] = (v * w).sum() / w.sum() if w.sum() != 0 else 0.0
                else:
                    want[i, j] = v.mean()
        same(ctx, got.data[l][order], want.ravel(), l)


SUBS = [
    Sub('command', command_specs(), command, quick=200),
    Sub('direct', direct_specs(), direct, quick=300),
]
