"""D02: limits select exactly the bins inside of them."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub
from pbt.oracle import same, same_ints, same_pair

from droplets.data_utils import get_lim_indices
from droplets.flow import FlowData

ID = 'D02'
RULE = (
    "gridded and scattered sets of up to 64 bins in any order, with limits on, between and outside of the values, "
    "one- and two-sided, empty and inverted, on any fields. Non-trivial: some but not all bins are selected"
)

LABELS = ('X', 'Y', 'N', 'T', 'M', 'U', 'V')


def limits_pair():
    """Quarters of a bin, so that limits meet bin centres, edges and points between."""
    low = st.integers(-4, 14)
    return st.one_of(
        st.tuples(low, st.integers(0, 32)).map(lambda t: [t[0], t[0] + t[1]]),
        st.tuples(low, st.integers(0, 32)).map(lambda t: [t[0], t[0] + t[1]]),
        low.map(lambda v: [v, None]),
        st.integers(0, 36).map(lambda v: [None, v]),
        st.just([None, None]),
        st.tuples(st.integers(-6, 40), st.integers(-6, 40)).map(list),
    )


@st.composite
def specs(draw):
    spec = draw(gen.maps(max_nx=8, max_ny=8, spacings=gen.DYADIC))
    spec['perm'] = draw(st.integers(0, 10**6))
    spec['xlim'] = draw(limits_pair())
    spec['ylim'] = draw(limits_pair())
    spec['corner'] = draw(st.booleans())
    spec['other'] = draw(st.lists(
        st.tuples(st.sampled_from(['N', 'T', 'M', 'U', 'V']), st.integers(-64, 60), st.integers(20, 130)),
        max_size=2, unique_by=lambda t: t[0]))
    spec['sides'] = draw(st.lists(st.sampled_from(['both', 'low', 'high', 'none']), min_size=3, max_size=3))
    return spec


def shuffled(n, key):
    if key == 0 or n < 2:
        return np.arange(n)
    stride = 1 + key % n
    while np.gcd(stride, n) != 1:
        stride += 1
    return (key // 13 + stride * np.arange(n)) % n


def make(spec):
    data, info = gen.build(spec, physical=False)
    perm = shuffled(data['X'].size, spec['perm'])
    data = {l: data[l][perm] for l in LABELS}
    return data, info


def real_limits(spec):
    def conv(lims, x0, dx):
        return tuple(None if v is None else x0 + v * dx / 4. for v in lims)
    return conv(spec['xlim'], spec['x0'], spec['dx']), conv(spec['ylim'], spec['y0'], spec['dy'])


def inside(values, lims):
    lo, hi = lims
    keep = np.ones(len(values), dtype=bool)
    if lo is not None:
        keep &= np.array([v >= lo for v in values], dtype=bool)
    if hi is not None:
        keep &= np.array([v <= hi for v in values], dtype=bool)
    return keep


def note(ctx, keep):
    num = int(np.count_nonzero(keep))
    ctx.label('none' if num == 0 else 'all' if num == len(keep) else 'some')
    ctx.nontrivial(0 < num < len(keep))


def compare(ctx, flow, data, keep, what):
    for l in LABELS:
        same(ctx, flow.data[l], data[l][keep], '%s of %s' % (l, what), rtol=0, atol=0)


def other_limits(spec):
    out = {}
    for (l, lo, hi), side in zip(spec['other'], spec['sides']):
        out[l] = (lo / 8. if side in ('both', 'low') else None, hi / 8. if side in ('both', 'high') else None)
    return out


def lims(spec, ctx):
    """Chained limits are an intersection, in whichever order they are applied."""

    data, info = make(spec)
    flow = ctx.sut(FlowData, data, info=info)
    xlim, ylim = real_limits(spec)
    limits = dict([('X', xlim), ('Y', ylim)], **other_limits(spec))
    keep = np.ones(data['X'].size, dtype=bool)
    for l, v in limits.items():
        keep &= inside(data[l], v)
    note(ctx, keep)

    for order in (list(limits), list(reversed(list(limits)))):
        new = flow
        for l in order:
            new = ctx.sut(new.lims, l, *limits[l])
        compare(ctx, new, data, keep, 'limited data')
        ctx.check(new.num_bins == int(np.count_nonzero(keep)), "num_bins is %r", new.num_bins)
        ctx.check(tuple(new.shape) == (None, None), "the shape %r is kept", new.shape)
        ctx.check(tuple(new.origin) == (None, None), "the origin %r is kept", new.origin)
        same_pair(ctx, new.spacing, (spec['dx'], spec['dy']), 'spacing')
        ctx.check(new.data.dtype == flow.data.dtype, "the data type became %r", new.data.dtype)
    compare(ctx, flow, data, np.ones(len(keep), dtype=bool), 'original data')


def cut(spec, ctx):
    """A cut has the bins inside of both limits, and the shape of what is left."""

    data, info = make(spec)
    # Both conventions of the origin are in use: lower corner and first centre
    if not spec['corner']:
        info['origin'] = (float(data['X'].min()), float(data['Y'].min()))
    flow = ctx.sut(FlowData, data, info=info)
    xlim, ylim = real_limits(spec)
    keep = inside(data['X'], xlim) & inside(data['Y'], ylim)
    note(ctx, keep)

    new = ctx.sut(flow.cut, xlim=xlim, ylim=ylim)
    compare(ctx, new, data, keep, 'cut data')
    nx = len(np.unique(data['X'][keep]))
    ny = len(np.unique(data['Y'][keep]))
    same_ints(ctx, new.shape, (nx, ny), 'shape')
    ctx.check(new.num_bins == nx * ny, "num_bins is %r and not %d", new.num_bins, nx * ny)
    same_pair(ctx, new.spacing, (spec['dx'], spec['dy']), 'spacing')
    compare(ctx, flow, data, np.ones(len(keep), dtype=bool), 'original data')
    ctx.check(tuple(flow.shape) == (spec['nx'], spec['ny']), "the original shape became %r", flow.shape)

    # Without limits along an axis nothing is cut along it
    for name, lim, l in (('xlim', xlim, 'X'), ('ylim', ylim, 'Y')):
        one = ctx.sut(flow.cut, **{name: lim})
        compare(ctx, one, data, inside(data[l], lim), 'data cut by %s' % name)
    free = ctx.sut(flow.cut)
    compare(ctx, free, data, np.ones(len(keep), dtype=bool), 'data of a cut without limits')
    same_pair(ctx, free.origin, info['origin'], 'origin')


def indices(spec, ctx):
    """Indices of limits are those of all bins that fulfil all of them."""

    data, info = make(spec)
    flow = ctx.sut(FlowData, data, info=info)
    xlim, ylim = real_limits(spec)
    limits = other_limits(spec)
    if spec['corner']:
        limits = dict([('X', xlim)], **limits)
    if spec['perm'] % 2:
        limits['Y'] = ylim
    keep = np.ones(data['X'].size, dtype=bool)
    for l, v in limits.items():
        keep &= inside(data[l], v)
    note(ctx, keep)
    ctx.label('%d limits' % len(limits))

    inds = ctx.sut(get_lim_indices, flow.data, limits)
    got = np.asarray(flow.data[inds]['X']), np.asarray(flow.data[inds]['Y'])
    ctx.check(np.ravel(inds).tolist() == np.flatnonzero(keep).tolist(), "indices %r and not %r",
        np.ravel(inds).tolist(), np.flatnonzero(keep).tolist())
    same(ctx, got[0], data['X'][keep], 'X of the indices', rtol=0, atol=0)
    same(ctx, got[1], data['Y'][keep], 'Y of the indices', rtol=0, atol=0)


SUBS = [
    Sub('lims', specs(), lims, quick=350),
    Sub('cut', specs(), cut, quick=350),
    Sub('indices', specs(), indices, quick=350),
]
