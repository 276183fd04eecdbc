"""I02: the periodic interface search returns the longest liquid stretch of every layer."""

import numpy as np
from hypothesis import strategies as st

from pbt import edges, gen
from pbt.core import Sub
from pbt.oracle import same
from pbt.props.i01 import SCALES, make, search_args, setting

from droplets.interface import get_interface

ID = 'I02'
RULE = (
    "periodic maps of 1x1 to 10x7 bins of values of any scale and sign, stored in any order, with any number of bins above the cutoff, any radius "
    "below half the box, also rotated around the box and moved. Non-trivial: at least one layer with a unique "
    "longest stretch which is not the whole layer and has more than one bin or crosses the boundary"
)


@st.composite
def specs(draw):
    g = draw(gen.grids(max_nx=10, max_ny=7, spacings=gen.DYADIC, origins=st.integers(-40, 40).map(lambda k: k / 8.)))
    n = g['nx'] * g['ny']
    g['M'] = draw(gen.sparse_hexbytes(n, draw(st.sampled_from([100, 90, 75, 60, 40]))))
    g['perm'] = draw(st.integers(0, 10**6))
    g['cutoff'] = draw(st.sampled_from([None, 1 / 16., 1 / 16., 2.0, 4.0, 8.0]))
    g['radius'] = draw(st.sampled_from([None, 0.6, 1.1, 1.1, 1.5, 2.1, 1, 2]))
    g['bins'] = draw(st.sampled_from([None, 0, 1, 1, 2, 3, 5]))
    g['ylims'] = draw(st.one_of(st.none(), st.tuples(
        st.one_of(st.none(), st.integers(0, g['ny'])), st.one_of(st.none(), st.integers(-1, g['ny'])))))
    g['exact'] = draw(st.booleans())
    g['scale'] = draw(SCALES)
    g['labels'] = draw(st.sampled_from([['X', 'Y'], ['X', 'Y'], ['Z', 'X']]))
    g['roll'] = draw(st.integers(0, 9))
    g['move'] = draw(st.integers(-64, 64))
    return g


def search(spec, ctx):
    nx, ny, dx, dy = (spec[k] for k in ('nx', 'ny', 'dx', 'dy'))
    values, keep = setting(spec)
    kw, cutoff, radius, bins, layers = search_args(spec, values, keep)
    if radius is None or radius >= 0.5 * nx * dx:
        ctx.label('radius above half the box')
        return
    homogenous = spec['cutoff'] is None and values.min() == values.max()

    # Rotating the system around the boundary rotates the edges with it, and the position
    # of the system does not matter
    for roll, move in ((0, 0), (spec['roll'] % nx, spec['move'] / 8.)):
        moved = dict(spec, x0=spec['x0'] + move)
        rolled = np.roll(values, roll, axis=0)
        flow, place = make(moved, ctx, rolled, keep, gen.info_of(moved))
        before = flow.data.copy()
        got = ctx.sut_list(get_interface, flow, 'M', search_longest_connected=True, **kw)
        for l in before.dtype.names:
            same(ctx, flow.data[l], before[l], 'input %s' % l, rtol=0, atol=0)
        if homogenous:
            ctx.check(got == [], "a homogenous system has interface %r", got)
            continue

        liquid = edges.filled(rolled, dx, dy, radius, cutoff, bins, periodic=True)
        want = [(int(j), edges.stretches(liquid[:, j])) for j in layers]
        want = [(j, w) for j, w in want if w]
        found = [tuple(place[int(i)] for i in pair) for pair in got]
        ctx.check([f[0][1] for f in found] == [j for j, _ in want], "layers %r and not %r",
                  [f[0][1] for f in found], [j for j, _ in want])
        for (left, right), (j, options) in zip(found, want):
            ctx.check(left[1] == right[1] == j, "edges %r, %r of layer %d", left, right, j)
            ctx.check((left[0], right[0]) in options, "edges %r of layer %d and not one of %r",
                      (left[0], right[0]), j, options)
            if len(options) == 1 and options[0][0] != options[0][1]:
                ctx.nontrivial()
                if options[0][0] > options[0][1]:
                    ctx.label('across the boundary')
            elif len(options) == nx:
                ctx.label('whole layer')


@st.composite
def unset_specs(draw):
    spec = draw(specs())
    spec['without'] = draw(st.sampled_from(['shape', 'spacing']))
    return spec


def unset(spec, ctx):
    """Without a box there is no periodic boundary."""

    values, keep = setting(spec)
    info = {k: v for k, v in gen.info_of(spec).items() if k != spec['without']}
    flow, _ = make(spec, ctx, values, keep, info)
    labels = {} if spec['labels'] == ['X', 'Y'] else {'coord_labels': tuple(spec['labels'])}
    bad = ctx.raises(lambda: list(get_interface(flow, 'M', search_longest_connected=True, cutoff=1.0,
                                                cutoff_radius=spec['dx'], **labels)))
    ctx.check(bad[0] and isinstance(bad[1], ValueError), "unset %s gave %r", spec['without'], bad[1])
    ctx.nontrivial()


SUBS = [
    Sub('search', specs(), search, quick=3000),
    Sub('unset', unset_specs(), unset, quick=40),
]
