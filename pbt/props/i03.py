"""I03: contact angles are those between the contact line and the interface at a height."""

import numpy as np
from hypothesis import strategies as st

from pbt import edges, gen
from pbt.core import Sub
from pbt.oracle import same
from pbt.props.i01 import SCALES, make, search_args, setting

from droplets.interface import get_contact_angle

ID = 'I03'
RULE = (
    "maps of 1x1 to 10x9 bins in any order, droplets of any outline and noise, with any height, floor, cutoff, "
    "radius and number of neighbours. Non-trivial: an angle that is not 90 degrees is due"
)


@st.composite
def droplet(draw, nx, ny):
    """Mass of a droplet with an outline that moves by any number of bins between layers."""

    noise = np.frombuffer(draw(st.binary(min_size=nx * ny, max_size=nx * ny)), dtype=np.uint8).reshape(nx, ny)
    m = noise // draw(st.sampled_from([2, 4, 8, 255]))
    for j in range(draw(st.integers(0, min(2, ny - 1))), draw(st.integers(1, ny))):
        left = draw(st.integers(0, nx - 1))
        right = draw(st.integers(left, nx - 1))
        m[left:right + 1, j] = noise[left:right + 1, j] | 128
    return m.astype(np.uint8).tobytes().hex()


@st.composite
def specs(draw):
    g = draw(gen.grids(max_nx=10, max_ny=9, spacings=gen.DYADIC, origins=st.integers(-40, 40).map(lambda k: k / 8.)))
    g['M'] = draw(droplet(g['nx'], g['ny']))
    g['perm'] = draw(st.integers(0, 10**6))
    g['cutoff'] = draw(st.sampled_from([None, 8.0, 8.0, 8.0, 2.0]))
    g['radius'] = draw(st.sampled_from([None, 1.1, 1.5, 2.1]))
    g['bins'] = draw(st.sampled_from([None, 0, 1, 1, 2]))
    g['ylims'] = None
    g['scale'] = draw(SCALES)
    g['labels'] = draw(st.sampled_from([['X', 'Y'], ['X', 'Y'], ['Z', 'X']]))
    # In quarters of layers
    g['height'] = draw(st.integers(0, 4 * g['ny']))
    floor = st.integers(-8, 4 * g['ny'] + 4).filter(lambda k: k % 4 != 2)
    g['floor'] = draw(st.one_of(st.none(), st.none(), floor, st.integers(0, 2).map(lambda k: 4 * k)))
    return g


def angle(spec, ctx):
    dx, dy, ny = spec['dx'], spec['dy'], spec['ny']
    values, keep = setting(spec)
    kw, cutoff, radius, bins, _ = search_args(spec, values, keep)
    if radius is None:
        return
    flow, _ = make(spec, ctx, values, keep)
    before = flow.data.copy()
    if spec['floor'] is not None:
        kw['floor'] = spec['y0'] + 0.5 * dy + spec['floor'] * dy / 4.
    height = spec['height'] * dy / 4.
    got = ctx.sut(get_contact_angle, flow, height, 'M', **kw)
    for l in before.dtype.names:
        same(ctx, flow.data[l], before[l], 'input %s' % l, rtol=0, atol=0)
    ctx.check(len(got) == 2, "%r are not two angles", got)

    layers = []
    if spec['cutoff'] is not None or values.min() != values.max():
        liquid = edges.filled(values, dx, dy, radius, cutoff, bins)
        layers = [(j, edges.outermost(liquid[:, j])) for j in range(ny)]
        layers = [(j, e) for j, e in layers if e]
    if spec['floor'] is not None:
        floor = min(max(int(np.floor(spec['floor'] / 4. + 0.5)), 0), ny - 1)
        layers = [(j, e) for j, e in layers if j >= floor]
        if layers and layers[0][0] != floor:
            layers = []
    above = [(j, e) for j, e in layers[1:] if (j - layers[0][0]) * dy <= height]
    if not above:
        ctx.label('no angle')
        ctx.check(tuple(got) == (None, None), "angles %r without a droplet or a layer to measure at", got)
        return
    j0, (l0, r0) = layers[0]
    j1, (l1, r1) = above[-1]
    want = [np.degrees(np.arctan2((j1 - j0) * dy, (l1 - l0) * dx)), np.degrees(np.arctan2((j1 - j0) * dy, (r0 - r1) * dx))]
    ctx.check(None not in tuple(got), "no angles %r and not %r", got, want)
    same(ctx, [float(v) for v in got], want, 'angles')
    ctx.nontrivial(l1 != l0 or r1 != r0)
    ctx.label('floor' if spec['floor'] is not None else 'no floor')


SUBS = [Sub('angle', specs(), angle, quick=2000)]
