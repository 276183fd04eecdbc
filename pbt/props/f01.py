"""F01: a map in the gmx flow format reads back as what was written."""

import numpy as np
from hypothesis import strategies as st

from pbt import files, gen
from pbt.core import Sub
from pbt.oracle import same, same_ints, same_pair

from strata.dataformats.read import read_data_file, read_from_files
from strata.dataformats.write import write

ID = 'F01'
RULE = (
    "maps of 1x1 to 9x9 bins (also 1xN, Nx1) with any share of empty bins, spacing, origin of both signs "
    "and values of several magnitudes and both signs; files made by the code or by an independent encoder (records in any "
    "order, fields in any order, headers padded to any length around the read blocks). Non-trivial: at least "
    "one bin is stored and at least one field value differs from zero"
)

LABELS = ('N', 'T', 'M', 'U', 'V')


@st.composite
def coords(draw):
    """Any real origin, also those that the six decimals of the header can not hold."""
    return draw(st.one_of(
        st.integers(-400, 400).map(lambda k: k / 8.),
        st.floats(-500, 500, allow_nan=False).map(lambda v: float(np.round(v, 9))),
    ))


@st.composite
def specs(draw, max_n=9):
    spec = draw(gen.maps(max_nx=max_n, max_ny=max_n, origins=coords()))
    spec['scale'] = draw(st.sampled_from([1.0, 1.0, 1e-6, 1e8, 3.7]))
    spec['physical'] = draw(st.booleans())
    # Differences of maps have values of both signs
    spec['negative'] = draw(st.sampled_from([None, None, 3, 5]))
    return spec


def make(spec):
    data, info = gen.build(spec, physical=spec['physical'])
    for l in LABELS:
        data[l] = data[l] * spec['scale']
        if spec['negative']:
            b = gen.unhex(spec['fields'][l])
            data[l] = np.where(b % spec['negative'] == 1, -data[l], data[l])
    return data, info


def verify(ctx, got, info_got, data, info, check='M'):
    nx, ny = info['shape']
    n = nx * ny
    same_ints(ctx, info_got['shape'], (nx, ny), 'shape')
    ctx.check(int(info_got['num_bins']) == n, "num_bins is %r and not %d", info_got['num_bins'], n)
    same_pair(ctx, info_got['spacing'], info['spacing'], 'spacing', atol=6e-7)
    same_pair(ctx, info_got['origin'], info['origin'], 'origin', atol=6e-7)
    same(ctx, got['X'], data['X'], 'X', atol=2e-6 + 6e-7 * nx)
    same(ctx, got['Y'], data['Y'], 'Y', atol=2e-6 + 6e-7 * ny)
    stored = data[check] != 0
    for l in LABELS:
        want = np.where(stored, data[l].astype('f4').astype(float), 0.0)
        same(ctx, got[l], want, l, rtol=0, atol=0)


def note(spec, ctx, data, check='M'):
    num = int(np.count_nonzero(data[check]))
    ctx.label('empty' if num == 0 else 'full' if num == data['M'].size else 'partial')
    ctx.label('line' if 1 in (spec['nx'], spec['ny']) else 'square' if spec['nx'] == spec['ny'] else 'oblong')
    ctx.nontrivial(num > 0)


def write_read(spec, ctx):
    data, info = make(spec)
    check = spec['check']
    note(spec, ctx, data, check)
    original = gen.copy_data(data)
    path = ctx.path('map00001.dat')

    if check == 'M':
        if spec['ftype'] is None:
            ctx.sut(write, path, data, info)
        else:
            ctx.sut(write, path, data, info, ftype=spec['ftype'])
    else:
        ctx.sut(write, path, data, info, check)

    for l in original:
        same(ctx, data[l], original[l], 'input %s after writing' % l, rtol=0, atol=0)

    # The file is what the format says, and only non-empty bins are in it
    stored, info_file = files.load_gmx(path)
    ctx.check(info_file['num_values'] == np.count_nonzero(data[check]), "%d bins stored of %d non-empty ones",
        info_file['num_values'], np.count_nonzero(data[check]))
    verify(ctx, stored, info_file, data, info, check)

    got, info_got, meta = ctx.sut(read_data_file, path)
    verify(ctx, got, info_got, data, info, check)
    ctx.check(meta['path'] == path, "metadata path %r", meta['path'])


@st.composite
def write_read_specs(draw):
    spec = draw(specs())
    spec['check'] = draw(st.sampled_from(['M', 'M', 'M', 'N']))
    spec['ftype'] = draw(st.sampled_from([None, 'gmx', 'default']))
    return spec


@st.composite
def foreign_specs(draw):
    spec = draw(specs())
    spec['perm'] = draw(st.permutations(list(range(7))))
    spec['layout'] = draw(st.permutations(list(range(5))))
    spec['order'] = draw(st.integers(0, 10**6))
    spec['version'] = draw(st.sampled_from([1, 2]))
    # Length of the header including the marker, None leaves it as it is
    spec['header'] = draw(st.one_of(
        st.none(), st.integers(1020, 1030), st.integers(2044, 2052), st.integers(300, 3500)
    ))
    return spec


def foreign_read(spec, ctx):
    data, info = make(spec)
    note(spec, ctx, data)
    fields = [['IX', 'IY', 'N', 'T', 'M', 'U', 'V'][i] for i in spec['perm']]
    layout = [['ORIGIN', 'SHAPE', 'SPACING', 'NUMDATA', 'FIELDS'][i] for i in spec['layout']]

    def order(n):
        # A permutation from a linear congruence: spec['order'] picks start and stride
        stride = 1 + spec['order'] % max(n, 1)
        while n and np.gcd(stride, n) != 1:
            stride += 1
        return (spec['order'] // 7 + stride * np.arange(n)) % max(n, 1)

    opts = dict(fields=fields, layout=layout, order=order, version=spec['version'])
    comments = ['Grid is regular but only non-empty bins are output']
    if spec['header'] is not None:
        plain = files.gmx_bytes(data, info, comments=[''], **opts)
        pad = spec['header'] - (plain.index(b'\0') + 1)
        comments = ['c' * max(pad, 0)]
    path = ctx.path('map00001.dat')
    files.write_gmx(path, data, info, comments=comments, **opts)

    with open(path, 'rb') as fp:
        size = len(fp.read())
    ctx.label('file below 1024 bytes' if size < 1024 else 'larger file')

    got, info_got, _ = ctx.sut(read_data_file, path)
    verify(ctx, got, info_got, data, info)

    several = ctx.sut_list(read_from_files, path, path)
    ctx.check(len(several) == 2, "%d maps read from 2 files", len(several))
    for got, info_got, _ in several:
        verify(ctx, got, info_got, data, info)


def rewrite(spec, ctx):
    """Reading and writing again changes nothing, however often it is done."""

    data, info = make(spec)
    note(spec, ctx, data)
    first = ctx.path('a00001.dat')
    ctx.sut(write, first, data, info)
    previous = files.parse_gmx(first)
    path = first
    for i in range(2):
        got, info_got, _ = ctx.sut(read_data_file, path)
        path = ctx.path('b%05d.dat' % i)
        ctx.sut(write, path, got, info_got)
        info_file, values = files.parse_gmx(path)
        ctx.check(info_file == previous[0], "header %r and not %r", info_file, previous[0])
        for l, v in values.items():
            same(ctx, v, previous[1][l], l, rtol=0, atol=0)


SUBS = [
    Sub('write_read', write_read_specs(), write_read, quick=400),
    Sub('foreign_read', foreign_specs(), foreign_read, quick=400),
    Sub('rewrite', specs(), rewrite, quick=150),
]
