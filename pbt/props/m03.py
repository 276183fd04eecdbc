"""M03: samples per angle average exactly the bins of each interval and within the radii."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub
from pbt.oracle import same

from droplets.flow import FlowData
from droplets.sample import sample_per_angle_from

ID = 'M03'
RULE = (
    "maps of 1x1 to 9x9 bins in any order, sampled from points inside and outside of them, in intervals of 1 to 180 "
    "degrees over the whole or a part of the circle, within any radii, with and without weights. Non-trivial: at "
    "least two intervals with bins, and some interval or bin without"
)


@st.composite
def specs(draw):
    g = draw(gen.grids(max_nx=9, max_ny=9, spacings=gen.DYADIC, origins=st.integers(-40, 40).map(lambda k: k / 8.)))
    n = g['nx'] * g['ny']
    g['M'], g['W'] = draw(gen.hexbytes(n)), draw(gen.sparse_hexbytes(n, draw(st.sampled_from([100, 60, 20]))))
    g['perm'] = draw(st.integers(0, 10**6))
    # In quarters of bins from the first bin centre
    g['at'] = [draw(st.integers(-6, 4 * g['nx'] + 2)), draw(st.integers(-6, 4 * g['ny'] + 2))]
    g['size'] = draw(st.sampled_from([None, 1., 5., 10., 30., 45., 90., 120., 180.]))
    size = g['size'] or 1.
    g['amin'] = draw(st.one_of(st.none(), st.none(), st.integers(0, 350)))
    steps = int((360. - (g['amin'] or 0.)) / size)
    g['steps'] = draw(st.one_of(st.none(), st.none(), st.integers(0, max(0, steps - 1))))
    g['rmin'] = draw(st.one_of(st.none(), st.integers(0, 12)))
    g['rmax'] = draw(st.one_of(st.none(), st.integers(1, 40)))
    # Some radii reach to the centre of a bin
    g['at_bins'] = draw(st.sampled_from([None, None, [0, 1], [1, 0], [1, 1]]))
    g['bins'] = [draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))]
    g['weight'] = draw(st.booleans())
    g['labels'] = draw(st.sampled_from([['X', 'Y'], ['X', 'Y'], ['Y', 'X'], ['a', 'b']]))
    return g


def sample(spec, ctx):
    nx, ny, dx, dy = (spec[k] for k in ('nx', 'ny', 'dx', 'dy'))
    n = nx * ny
    xs, ys = gen.mesh(spec)
    ox, oy = xs[0] + spec['at'][0] * dx / 4., ys[0] + spec['at'][1] * dy / 4.
    rx, ry = xs - ox, ys - oy
    dist = np.hypot(rx, ry)
    values, weights = gen.signed(spec['M']), gen.positive(spec['W'])
    size, amin = spec['size'] or 1., float(spec['amin'] or 0)
    if amin > 360. - size:
        amin = 360. - size
    amax = 360. if spec['steps'] is None else amin + spec['steps'] * size
    r = min(dx, dy) / 4.
    rmin = 0. if spec['rmin'] is None else (spec['rmin'] + 0.03125) * r
    rmax = np.inf if spec['rmax'] is None else (spec['rmax'] + 0.03125) * r

    # Those which are exact are those along axes and in Pythagorean triangles
    if spec['at_bins']:
        exact = dist[np.equal(np.round(dist * 64.), dist * 64.) & (dist > 0)]
        if exact.size:
            if spec['at_bins'][0]:
                rmin = float(exact[spec['bins'][0] % exact.size])
            if spec['at_bins'][1]:
                rmax = float(exact[spec['bins'][1] % exact.size])
            ctx.label('radius of a bin')

    # No distance is decided by rounding, and a bin at the point has no direction
    for lim in (rmin, rmax):
        if np.any((dist != lim) & (np.abs(dist - lim) < 1e-6)):
            return
    keep = (dist > 0) & (dist >= rmin) & (dist <= rmax)
    if np.any((dist == 0) & (rmin == 0.)):
        return
    angles = np.degrees(np.arctan2(ry, rx)) % 360.
    # Directions along the axes and diagonals are exact up to rounding
    exact = np.round(angles)
    angles = np.where(np.abs(angles - exact) < 1e-9, exact, angles) % 360.

    k = (angles - amin) / size
    inside = keep & (angles >= amin) & (angles <= amax)
    near = np.abs(k - np.round(k)) * size
    if np.any(inside & (near > 0) & (near < 1e-4)):
        return

    lower = min(amax, 360. - size)
    count = int(np.floor((lower - amin) / size + 1e-9)) + 1
    # The last interval of a whole circle which does not begin at a multiple is cut at 360
    if amin + count * size < 360. - 1e-9 and spec['steps'] is None:
        count += 1
    # Each interval is half-open, bins at the upper limit itself begin the next
    slot = np.floor(k + 1e-9).astype(int)

    order = gen.order(spec['perm'], xs, ys)
    xl, yl = spec['labels']
    flow = FlowData((xl, xs[order]), (yl, ys[order]), ('M', values[order]), ('W', weights[order]), info=gen.info_of(spec))
    before = flow.data.copy()
    kw = {}
    if spec['labels'] != ['X', 'Y']:
        kw['coord_labels'] = (xl, yl)
    if spec['size'] is not None:
        kw['size'] = size
    if spec['amin'] is not None:
        kw['amin'] = amin
    if spec['steps'] is not None:
        kw['amax'] = amax
    if rmin != 0.:
        kw['rmin'] = rmin
    if rmax != np.inf:
        kw['rmax'] = rmax
    if spec['weight']:
        kw['weight'] = 'W'
    got = ctx.sut(sample_per_angle_from, flow, (ox, oy), 'M', **kw)
    ctx.check(np.array_equal(flow.data, before), "the sampled data was changed")

    want = np.zeros(count)
    filled = 0
    for i in range(count):
        bins = np.flatnonzero(inside & (slot == i))
        w = weights[bins] if spec['weight'] else np.ones(bins.size)
        if bins.size and w.sum() > 0:
            want[i] = (values[bins] * w).sum() / w.sum()
            filled += 1
    same(ctx, got['angle'], amin + size * np.arange(count), 'angles', atol=1e-6)
    same(ctx, got['M'], want, 'values', atol=1e-9)
    ctx.nontrivial(filled > 1 and (filled < count or not inside.all()))
    ctx.label('%s circle' % ('whole' if amax == 360. else 'part of the'))


SUBS = [Sub('sample', specs(), sample, quick=1500)]
