"""M02: the viscous dissipation is that of the gradients of the flow."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub
from pbt.oracle import same

from droplets.flow import FlowData
from droplets.sample import sample_viscous_dissipation

ID = 'M02'
RULE = (
    "flow on 3x3 to 9x8 bins of any sizes and origins, in any order and under any labels, of random values, of "
    "quadratic functions, of rigid motion, with and without weights. Non-trivial: the dissipation is not the same "
    "in all bins, or the flow is rigid"
)


def derivative(a, h, axis):
    """Second-order differences along an axis, one-sided at the ends."""

    a = np.moveaxis(np.asarray(a, dtype=float), axis, 0)
    out = np.empty_like(a)
    for k in range(1, len(a) - 1):
        out[k] = (a[k + 1] - a[k - 1]) / (2. * h)
    out[0] = (-3. * a[0] + 4. * a[1] - a[2]) / (2. * h)
    out[-1] = (3. * a[-1] - 4. * a[-2] + a[-3]) / (2. * h)
    return np.moveaxis(out, 0, axis)


def function(viscosity, ux, uy, vx, vy):
    return viscosity * (2. * (ux * ux + vy * vy) - 2. * (ux + vy)**2 / 3. + (vx + uy)**2)


def dissipation(u, v, dx, dy, viscosity):
    """Of arrays of shape (nx, ny)."""

    return function(viscosity, derivative(u, dx, 0), derivative(u, dy, 1), derivative(v, dx, 0), derivative(v, dy, 1))


def grids():
    return gen.grids(min_nx=3, max_nx=9, min_ny=3, max_ny=8)


LABELS = [['X', 'Y', 'U', 'V', 'M'], ['X', 'Y', 'U', 'V', 'M'], ['Y', 'X', 'V', 'U', 'M'], ['r', 'z', 'a', 'b', 'w']]


@st.composite
def specs(draw):
    g = draw(grids())
    n = g['nx'] * g['ny']
    g['U'], g['V'], g['W'] = draw(gen.hexbytes(n)), draw(gen.hexbytes(n)), draw(gen.hexbytes(n))
    g['kind'] = draw(st.sampled_from(['random', 'random', 'quadratic', 'quadratic', 'rigid']))
    g['coef'] = draw(st.lists(st.integers(-16, 16), min_size=12, max_size=12))
    g['viscosity'] = draw(st.sampled_from([1.0, 8.77e-4, 3.0, 0.0]))
    g['weight'] = draw(st.sampled_from([False, False, True]))
    g['perm'] = draw(st.integers(0, 10**6))
    g['labels'] = draw(st.sampled_from(LABELS))
    return g


def sample(spec, ctx):
    nx, ny, dx, dy = (spec[k] for k in ('nx', 'ny', 'dx', 'dy'))
    shape = (nx, ny)
    xs, ys = gen.mesh(spec)
    xm, ym = ((v.reshape(shape) - o) for v, o in ((xs, spec['x0']), (ys, spec['y0'])))
    c = [k / 8. for k in spec['coef']]
    visc = spec['viscosity']
    exact = None
    if spec['kind'] == 'random':
        u, v = (gen.signed(spec[l]).reshape(shape) for l in 'UV')
    elif spec['kind'] == 'quadratic':
        u = c[0] + c[1] * xm + c[2] * ym + c[3] * xm**2 + c[4] * xm * ym + c[5] * ym**2
        v = c[6] + c[7] * xm + c[8] * ym + c[9] * xm**2 + c[10] * xm * ym + c[11] * ym**2
        exact = function(visc, c[1] + 2 * c[3] * xm + c[4] * ym, c[2] + c[4] * xm + 2 * c[5] * ym,
                         c[7] + 2 * c[9] * xm + c[10] * ym, c[8] + c[10] * xm + 2 * c[11] * ym)
    else:
        u, v = c[0] - c[1] * ym, c[2] + c[1] * xm
        exact = np.zeros(shape)
    ctx.label(spec['kind'])

    w = None
    if spec['weight']:
        w = 1. + gen.positive(spec['W']).reshape(shape)
        want = dissipation(u * w, v * w, dx, dy, visc) / w**2
        ctx.label('weighted')
    else:
        want = dissipation(u, v, dx, dy, visc)
        if exact is not None:
            same(ctx, want, exact, 'the model', rtol=1e-6, atol=1e-6)
            want = exact

    xl, yl, ul, vl, wl = spec['labels']
    n = nx * ny
    order = gen.order(spec['perm'], xs, ys)
    marks = np.arange(n, dtype=float)
    data = [(xl, xs[order]), (yl, ys[order]), (ul, u.ravel()[order]), (vl, v.ravel()[order]),
            (wl, (w if w is not None else np.ones(shape)).ravel()[order]), ('mark', marks[order])]
    flow = FlowData(*data, info=gen.info_of(spec))
    kw = {}
    if spec['labels'][:4] != ['X', 'Y', 'U', 'V']:
        kw = {'coord_labels': (xl, yl), 'flow_labels': (ul, vl)}
    if w is not None:
        kw['weight_label'] = wl
    got = np.asarray(ctx.sut(sample_viscous_dissipation, flow, visc, **kw), dtype=float)
    ctx.check(got.size == n, "%d values and not %d", got.size, n)

    # The values are those of the data in its order after the call, which has all bins intact
    at = flow.data['mark'].astype(int)
    ctx.check(sorted(at.tolist()) == list(range(n)), "bins were lost from the data")
    for l, values in ((xl, xs), (yl, ys), (ul, u.ravel()), (vl, v.ravel())):
        same(ctx, flow.data[l], np.asarray(values)[at], 'field %s after the sampling' % l, rtol=0, atol=0)
    scale = max(1., float(np.max(np.abs(want))))
    same(ctx, got.ravel(), want.ravel()[at], 'dissipation', rtol=1e-6, atol=1e-7 * scale)
    ctx.nontrivial(spec['kind'] == 'rigid' and any(c[:3]) or visc > 0 and float(np.ptp(want)) > 1e-6)


@st.composite
def bad_specs(draw):
    g = draw(grids())
    g['drop'] = draw(st.sampled_from(['shape', 'spacing', 'both']))
    return g


def refuse(spec, ctx):
    """Without a grid there is no dissipation: an error, and not numbers."""

    xs, ys = gen.mesh(spec)
    info = gen.info_of(spec)
    for k in ('shape', 'spacing') if spec['drop'] == 'both' else (spec['drop'],):
        info.pop(k)
    flow = FlowData(('X', xs), ('Y', ys), ('U', xs), ('V', ys), info=info)
    raised, value = ctx.raises(sample_viscous_dissipation, flow, 1.)
    ctx.check(raised, "a dissipation for flow without %s", spec['drop'])
    ctx.nontrivial()


SUBS = [
    Sub('sample', specs(), sample, quick=1200),
    Sub('refuse', bad_specs(), refuse, quick=40),
]
