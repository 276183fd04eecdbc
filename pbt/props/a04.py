"""A04: recentred maps are shifted by whole bins and cut to what they have in common."""

import numpy as np
from hypothesis import strategies as st

from pbt import avg, edges, gen
from pbt.core import Sub
from pbt.oracle import same, same_ints, same_pair

from strata.average import recenter_maps

ID = 'A04'
RULE = (
    "1 to 4 maps of 2x2 to 10x6 bins, recentred around any positions, and series of droplet maps that move by "
    "several bins recentred around their centre of mass or either edge before averaging. Non-trivial: at least two "
    "maps that move by a different number of bins and have columns in common"
)


@st.composite
def map_specs(draw):
    g = draw(gen.grids(min_nx=2, max_nx=10, min_ny=2, max_ny=6))
    num = draw(st.integers(1, 4))
    n = g['nx'] * g['ny']
    g['maps'] = [draw(gen.field_bytes(n, fields=('M', 'U'), fill=100)) for _ in range(num)]
    # In eighths of bins from the first bin centre, never half-way between two
    g['at'] = [8 * draw(st.integers(-2, g['nx'])) + draw(st.integers(-3, 3)) for _ in range(num)]
    g['perm'] = draw(st.integers(0, 10**6))
    g['few'] = draw(st.sampled_from([False, False, False, False, True]))
    return g


def direct(spec, ctx):
    nx, ny, dx, dy = (spec[k] for k in ('nx', 'ny', 'dx', 'dy'))
    n = nx * ny
    stride = 1 + spec['perm'] % n
    while np.gcd(stride, n) != 1:
        stride += 1
    perm = (spec['perm'] // 7 + stride * np.arange(n)) % n

    maps, fields = [], []
    for m in avg.map_specs(spec):
        data, _ = gen.build(m, physical=False)
        fields.append({l: data[l].reshape(nx, ny) for l in ('M', 'U')})
        maps.append({l: v[perm] for l, v in data.items()})
    first = spec['x0'] + 0.5 * dx
    at = [first + dx * k / 8. for k in spec['at']]
    if spec['few']:
        bad = ctx.raises(recenter_maps, maps, at[:-1])
        ctx.check(bad[0] and isinstance(bad[1], IndexError), "fewer positions than maps gave %r", bad[1])
        return

    shifts = [int(np.floor(k / 8. + 0.5)) for k in spec['at']]
    lo = max(-k for k in shifts)
    hi = min(nx - 1 - k for k in shifts)
    if hi < lo:
        return
    ctx.nontrivial(len(set(shifts)) > 1)
    originals = [gen.copy_data(d) for d in maps]
    got, info = ctx.sut(recenter_maps, maps, at)
    width = hi - lo + 1
    same_ints(ctx, info['shape'], (width, ny), 'shape')
    ctx.check(int(info['num_bins']) == width * ny, "num_bins %r", info['num_bins'])
    same_pair(ctx, info['spacing'], (dx, dy), 'spacing', atol=1e-8)
    x0 = first + lo * dx
    same_pair(ctx, info['origin'], (x0, spec['y0'] + 0.5 * dy), 'origin', atol=1e-8)
    ctx.check(len(got) == len(maps), "%d maps", len(got))
    xm, ym = np.meshgrid(x0 + dx * np.arange(width), spec['y0'] + dy * (np.arange(ny) + 0.5), indexing='ij')
    for i, (out, k) in enumerate(zip(got, shifts)):
        ctx.check(set(out) == {'X', 'Y', 'M', 'U'}, "labels %r", sorted(out))
        ctx.check(len(out['X']) == width * ny, "map %d has %d bins and not %d", i, len(out['X']), width * ny)
        order = np.lexsort((np.round((out['Y'] - spec['y0']) / dy - 0.5), np.round((out['X'] - x0) / dx)))
        same(ctx, out['X'][order], xm.ravel(), 'X of map %d' % i, atol=1e-8)
        same(ctx, out['Y'][order], ym.ravel(), 'Y of map %d' % i, atol=1e-8)
        for l in ('M', 'U'):
            want = fields[i][l][lo + k:hi + k + 1]
            same(ctx, out[l][order], want.ravel(), '%s of map %d' % (l, i), rtol=0, atol=0)
    for d, o in zip(maps, originals):
        for l in o:
            same(ctx, d[l], o[l], 'input %s' % l, rtol=0, atol=0)


@st.composite
def command_specs(draw):
    spec = draw(avg.series(units=True, max_maps=5, fill=100, min_nx=5, max_nx=10, min_ny=2, max_ny=5))
    nx, ny = spec['nx'], spec['ny']
    start, speed = draw(st.integers(0, 2)), draw(st.sampled_from([-1, 0, 1, 1, 2]))
    for i, fields in enumerate(spec['maps']):
        width = draw(st.integers(2, nx - 2))
        left = min(max(start + speed * i, 0), nx - width)
        m = np.frombuffer(bytes.fromhex(fields['M']), dtype=np.uint8).reshape(nx, ny).copy()
        outside = np.ones(nx, dtype=bool)
        outside[left:left + width] = False
        m[outside] //= draw(st.sampled_from([4, 16, 255]))
        m[~outside] |= 192
        fields['M'] = m.tobytes().hex()
    spec['position'] = draw(st.sampled_from(['com', 'left', 'right']))
    spec['cutoff'] = draw(st.sampled_from([8.0, 10.0, None, 11.99]))
    spec['radius'] = draw(st.sampled_from([1.1, 1.5, 2.3]))
    spec['bins'] = draw(st.sampled_from([1, 1, 2, 3]))
    # The floor lies half-way below this layer
    spec['floor'] = draw(st.sampled_from([None, None, 0, 1]))
    spec['src'] = draw(st.sampled_from(['gmx', 'gmx', 'simple']))
    if spec['cutoff'] is not None and spec['src'] == 'gmx':
        spec['cutoff'] *= spec['unit']
    return spec


def edge_shifts(spec, grids):
    """The column of the selected edge of every map, or None if not all have one."""

    r = edges.radius_of(spec['dx'], spec['dy'], spec['radius'])
    out = []
    for g in grids:
        m = g.fields['M']
        cutoff = spec['cutoff']
        if cutoff is None:
            if spec['cli'] or m.min() == m.max():
                return None
            cutoff = edges.midpoint(m)
        liquid = edges.filled(m, g.dx, g.dy, r, cutoff, spec['bins'])
        found = None
        for j in range(m.shape[1]):
            # A layer without any bins above the cutoff is no layer of the interface
            if spec['floor'] is not None and j != spec['floor']:
                continue
            found = edges.outermost(liquid[:, j])
            if found:
                break
        if not found:
            return None
        out.append(found[0 if spec['position'] == 'left' else 1])
    return out


def shifts_of(spec, grids):
    if spec['position'] != 'com':
        return edge_shifts(spec, grids)
    at = [avg.bins_to(g, avg.center_of_mass(g)) for g in grids]
    if any(avg.ambiguous(a) for a in at):
        return None
    return [int(np.floor(a + 0.5)) for a in at]


def command(spec, ctx):
    if spec['floor'] is not None and (spec['dy'] > 1. or spec['floor'] >= spec['ny']):
        # The layer of the floor is the first which is up to a length unit above it
        spec['floor'] = None
    grids = [avg.grid_of(m) for m in avg.map_specs(spec)]
    moved = False
    for inds, _ in avg.bundles(spec):
        shifts = shifts_of(spec, [grids[i] for i in inds])
        if shifts is None or avg.recenter([grids[i] for i in inds], shifts) is None:
            ctx.label('left out')
            return
        moved = moved or len(set(shifts)) > 1
    if spec['src'] != 'gmx':
        ctx.label('simple')

    def expect(found):
        return avg.mean(avg.recenter(found, shifts_of(spec, found)))

    r = edges.radius_of(spec['dx'], spec['dy'], spec['radius'])
    opts = {'recenter': spec['position'], 'cutoff_radius': r, 'cutoff_bins': spec['bins']}
    if spec['cutoff'] is not None:
        opts['cutoff'] = spec['cutoff']
    if spec['floor'] is not None:
        opts['floor'] = spec['y0'] + spec['dy'] * spec['floor']
    ctx.label(spec['position'], 'moves' if moved else 'rests')
    avg.run(spec, ctx, opts, expect)
    ctx.is_nontrivial = ctx.is_nontrivial and moved


SUBS = [
    Sub('direct', map_specs(), direct, quick=400),
    Sub('command', command_specs(), command, quick=350),
]
