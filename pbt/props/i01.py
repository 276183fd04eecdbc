"""I01: the interface search returns the outermost liquid bins of every layer."""

import numpy as np
from hypothesis import strategies as st

from pbt import edges, gen
from pbt.core import Sub
from pbt.oracle import same

from droplets.flow import FlowData
from droplets.interface import get_interface

ID = 'I01'
RULE = (
    "maps of 1x1 to 9x8 bins of values of any scale and sign, some with bins missing, stored in any order under any labels, with any number of bins "
    "above the cutoff, any radius, number of neighbours, height limits and default settings. Non-trivial: at least "
    "one layer has edges, and some bin above the cutoff is left out for its lack of neighbours or is inside a layer"
)


# Any scale and sign: values are multiplied and added to
SCALES = st.sampled_from([[1., 0.]] * 4 + [[2.**-20, 0.], [2.**15, 0.], [1., -8.], [2.**-10, -2.**-8]])


@st.composite
def specs(draw):
    g = draw(gen.grids(max_nx=9, max_ny=8, spacings=gen.DYADIC, origins=st.integers(-40, 40).map(lambda k: k / 8.)))
    n = g['nx'] * g['ny']
    g['M'] = draw(gen.sparse_hexbytes(n, draw(st.sampled_from([100, 80, 60, 40, 20]))))
    if draw(st.integers(0, 3)) == 0:
        g['M'] = ''.join('80' if int(g['M'][2 * k:2 * k + 2], 16) else '00' for k in range(n))
    g['keep'] = draw(st.one_of(st.none(), st.none(), gen.hexbytes(n)))
    g['perm'] = draw(st.integers(0, 10**6))
    g['cutoff'] = draw(st.sampled_from([None, 0.0, 1 / 16., 4.0, 8.0, 8.0]))
    g['radius'] = draw(st.sampled_from([None, None, 0.6, 1.1, 1.5, 2.1, 3.3, 1, 2]))
    g['bins'] = draw(st.sampled_from([None, 0, 1, 1, 2, 3, 5]))
    g['ylims'] = draw(st.one_of(st.none(), st.tuples(
        st.one_of(st.none(), st.integers(0, g['ny'])), st.one_of(st.none(), st.integers(-1, g['ny'])))))
    g['exact'] = draw(st.booleans())
    g['scale'] = draw(SCALES)
    g['labels'] = draw(st.sampled_from([['X', 'Y'], ['X', 'Y'], ['Z', 'X']]))
    return g


def setting(spec):
    """Values (-inf for missing bins), keyword arguments and the model's search parameters."""

    nx, ny, dx, dy = (spec[k] for k in ('nx', 'ny', 'dx', 'dy'))
    a, b = spec.get('scale', [1., 0.])
    values = gen.positive(spec['M']).reshape(nx, ny) * a + b
    if spec.get('keep'):
        keep = (gen.unhex(spec['keep']) < 200).reshape(nx, ny)
    else:
        keep = np.ones((nx, ny), dtype=bool)
    return values, keep


def search_args(spec, values, keep):
    dx, dy, ny = spec['dx'], spec['dy'], spec['ny']
    kw = {}
    present = values[keep]
    if spec['cutoff'] is not None:
        a, b = spec.get('scale', [1., 0.])
        kw['cutoff'] = cutoff = spec['cutoff'] * a + b
    else:
        cutoff = edges.midpoint(present)
    if spec['radius'] is not None:
        # Whole ones meet bins exactly
        radius = spec['radius'] * min(dx, dy) if isinstance(spec['radius'], int) else edges.radius_of(dx, dy, spec['radius'])
        kw['cutoff_radius'] = radius
    else:
        # The minimum distance between bins in the system
        gaps = np.append(np.diff(np.flatnonzero(keep.any(axis=1))) * dx, np.diff(np.flatnonzero(keep.any(axis=0))) * dy)
        radius = gaps.min() if gaps.size else None
    bins = 1
    if spec['bins'] is not None:
        kw['cutoff_bins'] = bins = spec['bins']
    layers = np.arange(ny)
    if spec['ylims'] is not None:
        off = 0.0 if spec['exact'] else 0.25 * dy
        lo, hi = spec['ylims']
        y0 = spec['y0'] + 0.5 * dy
        kw['ylims'] = (None if lo is None else y0 + lo * dy - off, None if hi is None else y0 + hi * dy + off)
        layers = layers[(layers >= (0 if lo is None else lo)) & (layers <= (ny if hi is None else hi))]
    if spec['labels'] != ['X', 'Y']:
        kw['coord_labels'] = tuple(spec['labels'])
    return kw, cutoff, radius, bins, layers


def make(spec, ctx, values, keep, info=None):
    nx, ny = spec['nx'], spec['ny']
    xs, ys = gen.mesh(spec)
    sel = np.flatnonzero(keep.ravel())
    sel = sel[gen.order(spec['perm'], xs[sel], ys[sel])]
    xl, yl = spec['labels']
    kw = {'info': info} if info else {}
    flow = ctx.sut(FlowData, (xl, xs[sel]), (yl, ys[sel]), ('M', values.ravel()[sel]), ('N', 16 - values.ravel()[sel]), **kw)
    # The place of every bin
    return flow, [(int(k) // ny, int(k) % ny) for k in sel]


def search(spec, ctx):
    values, keep = setting(spec)
    if not keep.any():
        return
    kw, cutoff, radius, bins, layers = search_args(spec, values, keep)
    if radius is None:
        return
    flow, place = make(spec, ctx, values, keep)
    before = flow.data.copy()
    got = ctx.sut_list(get_interface, flow, 'M', **kw)
    for l in before.dtype.names:
        same(ctx, flow.data[l], before[l], 'input %s' % l, rtol=0, atol=0)

    present = values[keep]
    if spec['cutoff'] is None and present.min() == present.max():
        ctx.label('homogenous')
        ctx.check(got == [], "a homogenous system has interface %r", got)
        return

    masked = np.where(keep, values, -np.inf)
    liquid = edges.filled(masked, spec['dx'], spec['dy'], radius, cutoff, bins)
    want = []
    for j in layers:
        found = edges.outermost(liquid[:, j])
        if found:
            want.append(((found[0], int(j)), (found[1], int(j))))
    found = [tuple(place[int(i)] for i in pair) for pair in got]
    ctx.check(found == want, "edges %r and not %r", found, want)
    above = masked >= cutoff
    ctx.nontrivial(bool(want) and (np.any(above & ~liquid) or any(b[0] - a[0] > 1 for a, b in want)))
    ctx.label('%d layers' % min(len(want), 3))


SUBS = [Sub('search', specs(), search, quick=4000)]
