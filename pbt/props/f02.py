"""F02: maps in the simple formats read back as what was written, the format is recognised."""

import numpy as np
from hypothesis import strategies as st

from pbt import files, gen
from pbt.core import Sub
from pbt.oracle import same, same_ints, same_pair

from droplets.flow import FlowData
from strata.dataformats.read import read_data_file
from strata.dataformats.write import flowdata_to_dict, write

ID = 'F02'
RULE = (
    "regular x-major maps of 1x1 to 9x9 bins (also single rows, columns and bins) with any values, written as "
    "simple binary or plain text by the code or by an independent encoder, read back through format detection. "
    "Non-trivial: some value besides the coordinates is not zero"
)

LABELS = ('N', 'T', 'M', 'U', 'V')


@st.composite
def specs(draw):
    spec = draw(gen.maps(max_nx=9, max_ny=9, spacings=gen.SPACINGS + [0.004, 0.0125]))
    spec['scale'] = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e4]))
    spec['plain'] = draw(st.booleans())
    spec['columns'] = draw(st.permutations(list(range(7))))
    spec['shuffle'] = draw(st.integers(1, 10**6))
    # The bytes of these floats are all text
    spec['ascii'] = draw(st.sampled_from([False, False, True]))
    return spec


def make(spec):
    data, info = gen.build(spec, physical=False)
    if spec['ascii']:
        text = np.frombuffer(b'1234ab=A 5.6\n-7.', dtype='<f4')
        for i, l in enumerate(LABELS):
            data[l] = text[(gen.unhex(spec['fields'][l]) + i) % len(text)].astype(float)
    else:
        for l in LABELS:
            data[l] = data[l] * spec['scale']
    return data, info


def note(spec, ctx, data):
    ctx.label('plain' if spec['plain'] else 'binary')
    ctx.label('line' if 1 in (spec['nx'], spec['ny']) else 'area')
    ctx.nontrivial(any(np.any(data[l]) for l in LABELS))


def verify(ctx, got, info_got, spec, data):
    nx, ny = spec['nx'], spec['ny']
    same_ints(ctx, info_got['shape'], (nx, ny), 'shape')
    ctx.check(int(info_got['num_bins']) == nx * ny, "num_bins is %r", info_got['num_bins'])
    spacing = [d if n > 1 else 0.0 for d, n in zip((spec['dx'], spec['dy']), (nx, ny))]
    same_pair(ctx, info_got['spacing'], spacing, 'spacing', atol=3e-5)
    same_pair(ctx, info_got['origin'], (data['X'][0], data['Y'][0]), 'origin', atol=3e-5)
    same(ctx, got['X'], data['X'], 'X', atol=5e-5)
    same(ctx, got['Y'], data['Y'], 'Y', atol=5e-5)
    for l in LABELS:
        if spec['plain']:
            same(ctx, got[l], data[l].astype('f4'), l, rtol=1e-6, atol=6e-7)
        else:
            same(ctx, got[l], data[l].astype('f4'), l, rtol=0, atol=0)


def write_read(spec, ctx):
    data, info = make(spec)
    note(spec, ctx, data)
    ftype = 'simple_plain' if spec['plain'] else 'simple'
    path = ctx.path('map00001.dat')
    original = gen.copy_data(data)

    ctx.sut(write, path, data, info, ftype=ftype)
    for l in original:
        same(ctx, data[l], original[l], 'input %s after writing' % l, rtol=0, atol=0)

    stored = files.load_simple(path, plain=spec['plain'])
    for l in ('X', 'Y') + LABELS:
        want = np.asarray(data[l]).astype('f4').astype(float)
        same(ctx, stored[l], want, 'stored %s' % l, rtol=1e-6 if spec['plain'] else 0,
             atol=6e-7 if spec['plain'] else 0)

    got, info_got, meta = ctx.sut(read_data_file, path)
    verify(ctx, got, info_got, spec, data)
    ctx.check(meta['path'] == path, "metadata path %r", meta['path'])


def foreign_read(spec, ctx):
    """Files of another program, of which the text has named columns in any order."""

    data, info = make(spec)
    note(spec, ctx, data)
    path = ctx.path('map00001.dat')
    columns = [files.SIMPLE_FIELDS[i] for i in spec['columns']] if spec['plain'] else files.SIMPLE_FIELDS
    files.write_simple(path, data, plain=spec['plain'], columns=columns)
    got, info_got, _ = ctx.sut(read_data_file, path)
    verify(ctx, got, info_got, spec, data)


def record_write(spec, ctx):
    """A record of bins in any order is written sorted, also from a flow data object."""

    data, info = make(spec)
    note(spec, ctx, data)
    n = data['X'].size
    perm = gen.order(spec['shuffle'], data['X'], data['Y'])
    ctx.label('shuffled' if not np.array_equal(perm, np.arange(n)) else 'in order')
    flow = ctx.sut(FlowData, {l: data[l][perm] for l in ('X', 'Y') + LABELS})
    ftype = 'simple_plain' if spec['plain'] else 'simple'
    path = ctx.path('map00001.dat')
    ctx.sut(write, path, flow.data, ftype=ftype)
    got, info_got, _ = ctx.sut(read_data_file, path)
    verify(ctx, got, info_got, spec, data)

    # The dictionary of a flow data object has all of its data
    flow = ctx.sut(FlowData, data)
    as_dict = ctx.sut(flowdata_to_dict, flow)
    ctx.check(set(as_dict) == set(data), "labels %r and not %r", sorted(as_dict), sorted(data))
    for l in data:
        same(ctx, as_dict[l], data[l], 'dictionary %s' % l, rtol=0, atol=0)


SUBS = [
    Sub('write_read', specs(), write_read, quick=350),
    Sub('foreign_read', specs(), foreign_read, quick=350),
    Sub('record_write', specs(), record_write, quick=150),
]
