"""A model of the averaged bins at the contact lines of a series of droplets.

An edge is a dict with the fields as arrays (nx, ny) on the smallest grid that covers its bins,
and `i`, the column of its first bins on a lattice of bins from x = 0, relative to which it
has been placed.
"""

import os

import numpy as np
from hypothesis import strategies as st

from pbt import edges, files, gen
from pbt.oracle import weighted_mean

LABELS = ('N', 'T', 'M', 'U', 'V')
WEIGHTS = {'U': 'M', 'V': 'M', 'T': 'N'}


@st.composite
def systems(draw, max_maps=5):
    """Series of droplets which rest on a layer and move, grow and shrink."""

    g = draw(gen.grids(min_nx=4, max_nx=12, min_ny=1, max_ny=7, spacings=gen.DYADIC,
                       origins=st.integers(-40, 40).map(lambda k: k / 8.)))
    nx, ny = g['nx'], g['ny']
    j0, frames = draw(st.integers(0, min(2, ny - 1))), []
    top = draw(st.integers(j0, ny - 1))
    left = draw(st.integers(0, nx - 2))
    right = draw(st.integers(left + 1, nx - 1))
    for _ in range(draw(st.integers(1, max_maps))):
        frame = []
        l, r = left, right
        for j in range(j0, top + 1):
            frame.append([j, l, r])
            l = min(max(0, l + draw(st.sampled_from([-1, 0, 0, 1, 2]))), nx - 2)
            r = min(max(l + 1, r + draw(st.sampled_from([1, 0, 0, -1, -2]))), nx - 1)
        frames.append(frame)
        left = min(max(0, left + draw(st.integers(-2, 2))), nx - 2)
        right = min(max(left + 1, right + draw(st.integers(-2, 2))), nx - 1)
    g['frames'] = frames
    g['fields'] = draw(gen.field_bytes(nx * ny, fields=('M', 'N', 'T', 'U', 'V'), fill=draw(st.sampled_from([100, 70, 40]))))
    g['cutoff'] = draw(st.sampled_from([None, 8.0, 8.0, 4.5]))
    g['radius'] = draw(st.sampled_from([1.1, 1.1, 1.5, 2.1]))
    g['bins'] = draw(st.sampled_from([0, 1, 1, 2]))
    g['first'] = draw(st.sampled_from([1, 1, 3]))
    g['begin'] = draw(st.sampled_from([0, 0, 0, 1]))
    g['end'] = draw(st.sampled_from([None, None, None, 2, 3]))
    num = len(frames)
    g['average'] = draw(st.sampled_from([1, 1, min(2, num), min(2, num), min(3, num), num, 4]))
    g['rolling'] = draw(st.booleans())
    g['floor'] = draw(st.sampled_from([None, None, None, 0, 1]))
    # In quarters of bins
    g['area'] = [draw(st.integers(0, 16)), draw(st.integers(0, 20))]
    g['height'] = draw(st.sampled_from([0, 0, 4, 8, 5]))
    # A single row of a simple map does not tell its height
    g['src'] = draw(st.sampled_from(['gmx', 'gmx', 'gmx', 'simple', 'simple', 'simple_plain', 'simple_plain', 'mixed', 'mixed2'])) if ny > 1 else 'gmx'
    g['ext'] = draw(st.sampled_from(['.dat', '.dat', '.map']))
    g['cli'] = draw(st.booleans())
    return g


def frame_fields(spec, k):
    """Fields (nx, ny) of a map: at least 12 of mass in the droplet, less than 4 around it."""

    nx, ny = spec['nx'], spec['ny']
    fields = {l: np.roll(gen.unhex(s), 7 * k) for l, s in spec['fields'].items()}
    m = fields['M'].reshape(nx, ny) // 4 / 16.
    inside = np.zeros((nx, ny), dtype=bool)
    for j, left, right in spec['frames'][k]:
        inside[left:right + 1, j] = True
    m = np.where(inside, 12. + m, m)
    out = {'M': m, 'N': fields['N'].reshape(nx, ny) / 16., 'T': fields['T'].reshape(nx, ny) / 16.}
    for l in 'UV':
        b = fields[l].reshape(nx, ny)
        out[l] = np.where(b < 128, b, 128 - b) / 16.
    # The droplet is told by its mass
    unit = spec.get('unit', 1.)
    return {l: np.where(m == 0, 0.0, v * (1. if l == 'M' else unit)) for l, v in out.items()}


def write_series(spec, indir):
    xs, ys = gen.mesh(spec)
    for k in range(len(spec['frames'])):
        data = {l: v.ravel() for l, v in frame_fields(spec, k).items()}
        data.update(X=xs, Y=ys)
        path = os.path.join(indir, 'map_%05d%s' % (spec['first'] + k, spec['ext']))
        files.write_map(path, data, gen.info_of(spec), spec['src'], k)


def settings(spec):
    """Keyword arguments of the search."""

    dx, dy = spec['dx'], spec['dy']
    # Reaches the next bin along x
    radius = edges.radius_of(dx, dy, spec['radius'] * dx / min(dx, dy))
    kw = {'extract_area': (spec['area'][0] * dx / 4., spec['area'][1] * dy / 4.), 'extract_height': spec['height'] * dy / 4.,
          'cutoff_radius': radius, 'cutoff_bins': spec['bins']}
    if spec['cutoff'] is not None:
        kw['cutoff'] = spec['cutoff']
    if spec['floor'] is not None:
        kw['floor'] = spec['y0'] + (spec['floor'] + 0.25) * dy
    return kw


def as_args(kw):
    args = ['-ea'] + [repr(v) for v in kw['extract_area']] + ['-eh', repr(kw['extract_height']),
                                                               '-cr', repr(kw['cutoff_radius']), '-cb', str(kw['cutoff_bins'])]
    for name in ('cutoff', 'floor'):
        if name in kw:
            args += ['--' + name, repr(kw[name])]
    return args


def cells(found, nx, dx, dy, width, height, extract_height):
    """Boxes (i0, i1, j0, j1) of bins at both contact lines, ends included.

    `found` has (layer, (left, right)) for each layer with an interface.
    """

    j0 = found[0][0]
    found = [(j, e) for j, e in found if (j - j0) * dy <= height]
    at = [k for k, (j, _) in enumerate(found) if (j - j0) * dy <= extract_height][-1]
    boxes = []
    for side in (0, 1):
        columns = [e[side] * dx for _, e in found]
        inner = columns[at] + (width if side == 0 else -width)
        lo, hi = min(columns + [inner]), max(columns + [inner])
        inside = [i for i in range(nx) if lo <= i * dx <= hi]
        boxes.append((inside[0], inside[-1], j0, found[-1][0]))
    return boxes


def extracted(spec, k):
    """Boxes of bins of the map `k`, None if there is no contact line."""

    kw = settings(spec)
    m = frame_fields(spec, k)['M']
    if spec['cutoff'] is None and np.ptp(m) == 0:
        # Documented: nothing tells the droplet from the rest of a homogenous map
        return None
    cutoff = spec['cutoff'] if spec['cutoff'] is not None else edges.midpoint(m)
    liquid = edges.filled(m, spec['dx'], spec['dy'], kw['cutoff_radius'], cutoff, spec['bins'])
    lowest = 0 if spec['floor'] is None else spec['floor'] + (0 if spec['floor'] + 0.5 >= spec['floor'] + 0.25 else 1)
    found = [(j, edges.outermost(liquid[:, j])) for j in range(lowest, spec['ny'])]
    found = [(j, e) for j, e in found if e]
    if not found:
        return None
    width, height = kw['extract_area']
    return cells(found, spec['nx'], spec['dx'], spec['dy'], width, height, kw['extract_height'])


def average_edge(spec, bundle, boxes, side):
    """Mean over boxes of a bundle of maps, with their innermost column and lowest layer in common."""

    inner = [b[1] if side == 0 else b[0] for b in boxes]
    i0 = min(b[0] - c for b, c in zip(boxes, inner))
    i1 = max(b[1] - c for b, c in zip(boxes, inner))
    nj = max(b[3] - b[2] for b in boxes) + 1
    stack = {l: np.zeros((len(boxes), i1 - i0 + 1, nj)) for l in LABELS}
    for n, (k, b, c) in enumerate(zip(bundle, boxes, inner)):
        fields = frame_fields(spec, k)
        for l in LABELS:
            stack[l][n, b[0] - c - i0:b[1] - c - i0 + 1, :b[3] - b[2] + 1] = fields[l][b[0]:b[1] + 1, b[2]:b[3] + 1]
    out = {}
    for l in LABELS:
        out[l] = weighted_mean(stack[l], stack[WEIGHTS[l]]) if l in WEIGHTS else stack[l].mean(axis=0)
    # Mean position of the innermost column
    x = spec['x0'] + spec['dx'] * (np.mean(inner) + 0.5)
    return {'fields': out, 'i': i0, 'x': float(x)}


def chosen(spec):
    begin = spec['begin']
    num = len(spec['frames'])
    end = num if spec['end'] is None else min(num, begin + spec['end'])
    return list(range(begin, max(begin, end)))


def bundles(spec):
    found = chosen(spec)
    n = spec['average']
    return [found[k:k + n] for k in range(0, len(found) - n + 1, 1 if spec['rolling'] else n)]


def model(spec, recenter):
    """Averaged edges of all bundles: [left, right] with their place `i`.

    None is returned if there is a map without contact line. The place is not `certain` if
    rounding decides it.
    """

    out = []
    # Maps that are not in any bundle are searched as well
    edges_at = {k: extracted(spec, k) for k in chosen(spec)}
    if None in edges_at.values():
        return None
    for bundle in bundles(spec):
        boxes = [edges_at[k] for k in bundle]
        pair = [average_edge(spec, bundle, [b[side] for b in boxes], side) for side in (0, 1)]
        at = [e['x'] for e in pair]
        if recenter:
            half = 0.5 * (at[1] - at[0])
            at = [-half, half]
        for e, x in zip(pair, at):
            column = x / spec['dx']
            e['certain'] = abs(column - np.round(column)) > 1e-3
            # On a lattice where bin 0 is from 0 to dx
            e['i'] += int(np.floor(column + (0 if e['certain'] else 0.5)))
        out.append(pair)
    return out


def file_options(spec):
    begin = spec['first'] + spec['begin']
    return begin, None if spec['end'] is None else begin + spec['end'] - 1
