"""M04: centre of mass, inertial energy and flow angle follow their definitions."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub
from pbt.oracle import same

from droplets.flow import FlowData
from droplets.sample import sample_center_of_mass, sample_flow_angle, sample_inertial_energy

ID = 'M04'
RULE = (
    "maps of 1x1 to 8x8 bins in any order and under any labels, with any share of empty bins, also moved, mirrored and "
    "turned. Non-trivial: at least two bins with mass and flow"
)


@st.composite
def specs(draw):
    g = draw(gen.maps(fill=draw(gen.FILLS)))
    g['perm'] = draw(st.integers(0, 10**6))
    g['labels'] = draw(st.sampled_from([None, None, ['a', 'b', 'm', 'c', 'd'], ['Y', 'X', 'N', 'V', 'U']]))
    g['weight'] = draw(st.sampled_from([None, 'M', 'N', 'W']))
    g['move'] = [draw(st.integers(-40, 40)) / 4., draw(st.integers(-40, 40)) / 4.]
    g['scale'] = draw(st.sampled_from([1.0, 0.001, 1e3]))
    return g


def angle_between(a, b):
    """Difference of angles in degrees."""
    d = (np.asarray(a, dtype=float) - np.asarray(b, dtype=float)) % 360.
    return np.minimum(d, 360. - d)


def sample(spec, ctx):
    data, info = gen.build(spec, physical=False)
    n = spec['nx'] * spec['ny']
    order = gen.order(spec['perm'], data['X'], data['Y'])
    m = data['M']
    u, v = data['U'] * spec['scale'], data['V'] * spec['scale']
    xl, yl, ml, ul, vl = spec['labels'] or ['X', 'Y', 'M', 'U', 'V']
    weight = {None: None, 'M': 'M', 'N': 'other', 'W': ul}[spec['weight']]
    if weight == 'M':
        weight = ml

    def make(x, y, u, v):
        cols = [(xl, x), (yl, y), (ml, m), (ul, u), (vl, v), ('other', data['N'])]
        return FlowData(*[(l, np.array(c)[order]) for l, c in cols], info=info)

    coords = {} if spec['labels'] is None else {'coord_labels': [xl, yl]}
    masses = {} if spec['labels'] is None else {'mass_label': ml}
    flows = {} if spec['labels'] is None else {'flow_labels': [ul, vl]}

    flow = make(data['X'], data['Y'], u, v)
    before = flow.data.copy()

    # Inertial energy
    got = ctx.sut(sample_inertial_energy, flow, **dict(masses, **flows))
    same(ctx, got, (0.5 * m * (u * u + v * v))[order], 'inertial energy')

    # Angles of all bins. No flow has no angle, and what it gets is not judged
    moving = ((u != 0) | (v != 0))
    got = np.asarray(ctx.sut(sample_flow_angle, flow, **flows), dtype=float)
    ctx.check(got.shape == (n,), "angles have shape %r", got.shape)
    want = np.degrees([np.arctan2(b, a) for a, b in zip(u[order], v[order])])
    diff = angle_between(got, want)[moving[order]]
    ctx.check(not diff.size or diff.max() < 1e-6, "flow angles %r and not %r", got.tolist(), want.tolist())
    ctx.check(np.all(np.abs(got) <= 180. + 1e-9), "angles outside of -180 to 180 degrees")

    # The mean
    kw = dict(flows, mean=True)
    w = np.ones(n)
    if weight is not None:
        kw['weight'] = weight
        w = {ml: m, 'other': data['N'], ul: u}[weight]
    su, sv = float((u * w).sum()), float((v * w).sum())
    got = ctx.sut(sample_flow_angle, flow, **kw)
    ctx.check(np.ndim(got) == 0, "the mean angle %r is no number", got)
    size = float((np.hypot(u, v) * np.abs(w)).sum())
    if np.hypot(su, sv) > 1e-9 * size and size > 0:
        ctx.check(angle_between(got, np.degrees(np.arctan2(sv, su))) < 1e-5, "mean angle %r and not %r", got,
                  np.degrees(np.arctan2(sv, su)))
        ctx.label('mean angle')
        # A quarter of a turn
        if weight != ul:
            turned = ctx.sut(sample_flow_angle, make(data['X'], data['Y'], -v, u), **kw)
            ctx.check(angle_between(turned, got + 90.) < 1e-5, "turned flow has mean angle %r and not %r", turned, got + 90.)

    # Centre of mass
    if m.sum() > 0:
        com = ctx.sut(sample_center_of_mass, flow, **dict(coords, **masses))
        want = [float((data[c] * m).sum() / m.sum()) for c in 'XY']
        same(ctx, com, want, 'centre of mass', atol=1e-8)
        ax, ay = spec['move']
        moved = ctx.sut(sample_center_of_mass, make(data['X'] + ax, data['Y'] + ay, u, v), **dict(coords, **masses))
        same(ctx, moved, [com[0] + ax, com[1] + ay], 'moved centre of mass', atol=1e-8)
        mirrored = ctx.sut(sample_center_of_mass, make(-data['X'], data['Y'], u, v), **dict(coords, **masses))
        same(ctx, mirrored, [-com[0], com[1]], 'mirrored centre of mass', atol=1e-8)
        ctx.label('centre of mass')
    ctx.check(np.array_equal(flow.data, before), "the sampled data was changed")
    ctx.nontrivial(np.count_nonzero((m > 0) & moving) > 1)


def massless(spec, ctx):
    """A system without mass has no centre of mass: an error, and not a position."""

    data, info = gen.build(spec, physical=False)
    flow = FlowData(('X', data['X']), ('Y', data['Y']), ('M', np.zeros(data['X'].size)), info=info)
    raised, value = ctx.raises(sample_center_of_mass, flow)
    ctx.check(raised and isinstance(value, ZeroDivisionError), "centre of mass without mass: %r", value)
    ctx.nontrivial()


SUBS = [
    Sub('sample', specs(), sample, quick=800),
    Sub('massless', gen.maps(), massless, quick=20),
]
