"""Generators of flow maps, and the reference model of what they contain.

Specs are plain JSON. A map spec is

    {'nx', 'ny', 'dx', 'dy', 'x0', 'y0',    grid, origin in the lower corner of the first bin
     'fields': {'M': 'hex', ...}}           one byte per bin, x-major
     'unit'                                 of all fields, 1 if there is none

and `build` decodes it into arrays of values. Byte 0 always is an exact zero, so shrinking
empties bins. All values are dyadic, and exact in the 32-bit floats of the file formats.
"""

import numpy as np
from hypothesis import strategies as st

FIELDS = ('N', 'T', 'M', 'U', 'V')

# Of which some have multiples that are not exact
TIME_STEPS = [1.0, 0.5, 12.5, 0.1, 0.3, 0.7, 1234.567]
SPACINGS = [1.0, 0.5, 0.25, 2.0, 0.2, 0.1, 0.3, 1.5, 0.03125, 0.015625]
# Of fields: all values still are exact in 32-bit floats
UNITS = [1.0, 1.0, 1.0, 1.0, 2.**-10, 2.**-20, 2.**15]
DYADIC = [1.0, 0.5, 0.25, 2.0, 0.125]


def hexbytes(n):
    return st.binary(min_size=n, max_size=n).map(bytes.hex)


def sparse_hexbytes(n, percent):
    """Bytes, of which around `percent` are not zero."""

    def merge(parts):
        values, mask = parts
        lim = 256 * percent / 100.
        return bytes(v if m < lim or m == 255 and percent >= 100 else 0 for v, m in zip(values, mask)).hex()

    if percent >= 100:
        return hexbytes(n)
    return st.tuples(
        st.binary(min_size=n, max_size=n), st.binary(min_size=n, max_size=n)
    ).map(merge)


def unhex(s):
    return np.frombuffer(bytes.fromhex(s), dtype=np.uint8).astype(int)


def positive(s, scale=16.):
    """Values in {0} and (0, 16)."""
    return unhex(s) / scale


def signed(s, scale=16.):
    """Values in (-8, 8), byte 0 is an exact zero."""
    b = unhex(s)
    return np.where(b < 128, b, 128 - b) / scale


@st.composite
def grids(draw, min_nx=1, max_nx=8, min_ny=1, max_ny=8, spacings=SPACINGS, square=False, origins=None):
    nx = draw(st.integers(min_nx, max_nx))
    ny = draw(st.integers(min_ny, max_ny))
    dx = draw(st.sampled_from(spacings))
    dy = dx if square else draw(st.sampled_from(spacings))
    if origins is None:
        origins = st.one_of(
            st.just(0.0),
            st.integers(-80, 80).map(lambda k: k / 8.),
            st.integers(-200, 200).map(lambda k: round(k * 0.1, 1)),
            st.integers(-40000, 40000).map(lambda k: round(k * 0.0005, 4)),
        )
    def origin(n, d):
        # Some systems reach from below to above zero
        if draw(st.integers(0, 3)) == 3:
            return round(-d * (draw(st.integers(0, n)) - draw(st.sampled_from([0., 0.25, 0.5]))), 6)
        return draw(origins)

    x0 = origin(nx, dx)
    y0 = origin(ny, dy)
    return {'nx': nx, 'ny': ny, 'dx': dx, 'dy': dy, 'x0': x0, 'y0': y0}


@st.composite
def limits(draw, n):
    """Limits in bins from the first bin centre, mostly with a part of a bin to spare, or 'zero'."""

    i0 = draw(st.integers(0, n - 1))
    i1 = draw(st.integers(i0, n - 1))
    return [draw(st.sampled_from([None, i0 - 0.25, i0 - 0.75, i0, -3.3, 'zero'])),
            draw(st.sampled_from([None, i1 + 0.25, i1 + 0.75, i1, n + 2.3, 'zero']))]


def limits_of(pair, centers, d):
    """The positions of limits in bins.

    Limits at a bin centre are only kept if the centre is exact in all file formats. Those of
    zero are left out if not.
    """

    exact = all(float(v * 32).is_integer() for v in centers)

    def position(v, spare):
        if v == 'zero':
            return 0.0 if exact or not np.any(np.abs(centers) < 1e-2 * d) else None
        if isinstance(v, int) and not exact:
            v += spare
        return None if v is None else round(float(centers[0] + v * d), 9)

    return position(pair[0], -0.25), position(pair[1], 0.25)


FILLS = st.sampled_from([100, 100, 70, 30, 10])


@st.composite
def field_bytes(draw, n, fields=FIELDS, fill=None):
    """Bytes of all fields of a map with `n` bins."""

    percent = draw(FILLS) if fill is None else fill
    return {
        l: draw(sparse_hexbytes(n, percent) if l == 'M' else hexbytes(n)) for l in fields
    }


@st.composite
def maps(draw, fill=None, **kwargs):
    g = draw(grids(**kwargs))
    g['fields'] = draw(field_bytes(g['nx'] * g['ny'], fill=fill))
    return g


def centers(g):
    """Bin centres along both axes of a grid spec."""

    xs = g['x0'] + g['dx'] * (np.arange(g['nx']) + 0.5)
    ys = g['y0'] + g['dy'] * (np.arange(g['ny']) + 0.5)
    return xs, ys


def mesh(g):
    """Bin centres of all bins, x-major."""

    xs, ys = centers(g)
    xm, ym = np.meshgrid(xs, ys, indexing='ij')
    return xm.ravel(), ym.ravel()


def order(seed, xs, ys):
    """An order of the bins at some positions: by any or both axes, reversed, or none at all."""

    n = len(xs)
    kind = seed % 9
    rng = np.random.RandomState(seed)
    noise = rng.permutation(n)
    if kind == 0:
        stride = 1 + seed % max(n, 1)
        while np.gcd(stride, n) != 1:
            stride += 1
        return (seed // 7 + stride * np.arange(n)) % n
    if kind == 1:
        return np.arange(n)
    if kind == 2:
        return np.lexsort((xs, ys))
    if kind == 3:
        # Rows in order, but not the bins of a row
        return np.lexsort((noise, ys))
    if kind == 4:
        return np.lexsort((noise, xs))
    if kind == 5:
        return np.lexsort((-np.asarray(xs), ys))
    if kind == 6:
        return np.arange(n)[::-1]
    if kind == 7 and n > 1:
        # Two bins have changed places
        out = np.lexsort((xs, ys)) if noise[0] % 2 else np.arange(n)
        a, b = rng.choice(n, 2, replace=False)
        out[[a, b]] = out[[b, a]]
        return out
    return noise


def decode(fields):
    """The field values of bytes."""

    out = {}
    for l, s in fields.items():
        out[l] = signed(s) if l in ('U', 'V') else positive(s)
    return out


def build(spec, physical=True):
    """A dict of x-major field arrays and the info of a map spec.

    A physical map has all fields zero in bins without mass: those are the only maps that the
    gmx format, which leaves out bins without mass, can represent.
    """

    xs, ys = mesh(spec)
    data = {'X': xs, 'Y': ys}
    data.update(decode(spec['fields']))
    for l in FIELDS:
        if l in data:
            data[l] = data[l] * spec.get('unit', 1.)
    if physical and 'M' in data:
        empty = data['M'] == 0.0
        for l in FIELDS:
            if l in data:
                data[l] = np.where(empty, 0.0, data[l])
    return data, info_of(spec)


def info_of(g):
    return {
        'shape': (g['nx'], g['ny']),
        'spacing': (g['dx'], g['dy']),
        'origin': (g['x0'], g['y0']),
        'num_bins': g['nx'] * g['ny'],
    }


def copy_data(data):
    return {l: np.array(v, copy=True) for l, v in data.items()}
