"""Histories of droplets that move, grow and shrink in a periodic system.

A frame is a list of [layer, left, right], with system-absolute columns of the edges, from
the bottom layer to the top.
"""

import os

import numpy as np
from hypothesis import strategies as st

from pbt import files, gen


def valid(old, new, n, smallest=1):
    """Whether the move of a layer's edges can be told from their periodic positions.

    Each edge moves by less than half the box, and at most one of them crosses the boundary.
    """

    (l0, r0), (l1, r1) = old, new
    dl, dr = abs(l1 - l0), abs(r1 - r0)
    return smallest <= r1 - l1 <= n - 2 and 2 * dl < n and 2 * dr < n and dl + dr < n \
        and (l1 // n == l0 // n or r1 // n == r0 // n)


def reference(frame, j):
    """The edges in the layer of a frame which is closest to layer j."""
    return min(((abs(layer - j), (l, r)) for layer, l, r in frame))[1]


@st.composite
def layers(draw, n, ny, min_layers=2, crossed=False):
    j0 = draw(st.integers(0, min(2, ny - min_layers)))
    j1 = draw(st.integers(j0 + min_layers - 1, ny - 1))
    out = []
    for j in range(j0, j1 + 1):
        left = draw(st.integers(0, n - (1 if crossed else 2)))
        right = left + draw(st.integers(1, max(1, min(n - 2, n - 2 if crossed else n - 1 - left))))
        out.append([j, left, right])
    return out


@st.composite
def histories(draw, n, ny, max_frames=8, min_layers=2, crossed=False, fixed_bottom=False):
    frames = [draw(layers(n, ny, min_layers, crossed))]
    drift = draw(st.integers(-3, 3))
    for _ in range(draw(st.integers(0, max_frames - 1))):
        last = frames[-1]
        j0, j1 = last[0][0], last[-1][0]
        if not fixed_bottom:
            j0 = max(0, j0 + draw(st.sampled_from([0, 0, 0, -1, 1])))
        j1 = min(ny - 1, j1 + draw(st.sampled_from([0, 0, 0, -1, 1, 2, -2])))
        if j1 - j0 + 1 < min_layers:
            j0, j1 = last[0][0], last[-1][0]
        frame = []
        same = draw(st.booleans())
        move = drift + draw(st.integers(-2, 2))
        for j in range(j0, j1 + 1):
            old = reference(last, j)
            dl, dr = (0, 0) if same else (draw(st.integers(-2, 2)), draw(st.integers(-2, 2)))
            new = (old[0] + move + dl, old[1] + move + dr)
            for option in (new, (old[0] + move, old[1] + move), (new[0], old[1]), (old[0], new[1]), old):
                if valid(old, option, n):
                    break
            frame.append([j, option[0], option[1]])
        frames.append(frame)
    return frames


@st.composite
def systems(draw, min_nx=5, max_nx=14, min_ny=2, max_ny=6, **kwargs):
    g = draw(gen.grids(min_nx=min_nx, max_nx=max_nx, min_ny=min_ny, max_ny=max_ny))
    g['frames'] = draw(histories(g['nx'], g['ny'], **kwargs))
    g['noise'] = draw(gen.hexbytes(g['nx'] * g['ny']))
    g['cutoff'] = draw(st.sampled_from([None, 8.0, 4.5]))
    g['radius'] = draw(st.sampled_from([1.1, 1.1, 1.5, 2.1]))
    g['bins'] = draw(st.sampled_from([0, 1, 1]))
    g['first'] = draw(st.sampled_from([1, 1, 3, 0]))
    g['src'] = draw(st.sampled_from(['gmx', 'gmx', 'gmx', 'simple', 'simple', 'simple_plain', 'simple_plain', 'mixed', 'mixed2']))
    if g['src'] in files.MIXED:
        # Coordinates of simple maps have five decimals: the formats agree only for spacings which these hold
        g.update({k: v if v > 0.05 else 0.25 for k, v in g.items() if k in ('dx', 'dy')})
        g.update({k: round(v, 4) for k, v in g.items() if k in ('x0', 'y0')})
    return g


def mass(spec, frame, k=0):
    """Bins of the frame have at least 12 of mass, others less than 4."""

    nx, ny = spec['nx'], spec['ny']
    noise = np.roll(gen.unhex(spec['noise']), k).reshape(nx, ny)
    m = (noise // 4) / 16.
    for j, left, right in frame:
        cols = np.arange(left, right + 1) % nx
        m[cols, j] = 12. + (noise[cols, j] // 4) / 16.
    return m


def radius_of(spec):
    from pbt import edges
    # Reaches the next bin along x
    dx, dy = spec['dx'], spec['dy']
    r = edges.radius_of(dx, dy, spec['radius'] * dx / min(dx, dy))
    return r if r < 0.49 * spec['nx'] * spec['dx'] else None


def write_frames(spec, directory, ext='.dat', frames=None, base='map_'):
    """Write maps of all frames, number `first` and on. Returns the mass in them."""

    out = []
    for k, frame in enumerate(spec['frames'] if frames is None else frames):
        m = mass(spec, frame, k)
        xs, ys = gen.mesh(spec)
        data = {'X': xs, 'Y': ys, 'M': m.ravel()}
        for l in ('N', 'T', 'U', 'V'):
            data[l] = np.where(data['M'] > 0, m.ravel() / 2., 0.)
        path = os.path.join(directory, '%s%05d%s' % (base, spec['first'] + k, ext))
        files.write_map(path, data, gen.info_of(spec), spec['src'], k)
        out.append(m)
    return out
