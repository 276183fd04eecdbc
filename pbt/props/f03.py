"""F03: converting maps keeps every bin and all of its values, file by file."""

import os

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import files, gen
from pbt.core import Sub, Violation
from pbt.oracle import same, same_ints, same_pair

from strata.convert import convert
from strata.dataformats.read import read_data_file
from strata.strata import strata as cli

ID = 'F03'
RULE = (
    "series of 1 to 4 maps of different grids in the gmx, simple binary or plain format, with any first number, "
    "begin and end, converted into each format through the function or the command line. Non-trivial: at least "
    "one file is converted and has a bin that is not empty"
)

FTYPES = ['gmx', 'simple', 'simple_plain']
LABELS = ('N', 'T', 'M', 'U', 'V')


@st.composite
def specs(draw):
    first = draw(st.sampled_from([0, 1, 1, 1, 7, 98, 99998]))
    num = draw(st.integers(1, 4))
    return {
        'first': first,
        'maps': [draw(gen.maps(max_nx=6, max_ny=6)) for _ in range(num)],
        'src': draw(st.sampled_from(FTYPES)),
        'dst': draw(st.sampled_from(FTYPES)),
        'begin': draw(st.sampled_from([None, 0, 0, 1])),
        'end': draw(st.one_of(st.none(), st.integers(-1, 4))),
        'ext': draw(st.sampled_from(['.dat', '.dat', '.bin', ''])),
        'gap': draw(st.sampled_from([None, None, 2])),
        'cli': draw(st.booleans()),
        # The second has values of all digits that a file keeps
        'scale': draw(st.sampled_from([1.0, 97.340203, 97.340203, 1024.0])),
    }


def run(spec, ctx):
    indir, outdir = ctx.mkdir('in'), ctx.path('out')
    numbers = [spec['first'] + i + (1 if spec['gap'] is not None and i >= spec['gap'] else 0)
               for i in range(len(spec['maps']))]
    maps = {}
    for n, m in zip(numbers, spec['maps']):
        data, info = gen.build(m)
        for l in LABELS:
            data[l] = data[l] * spec['scale']
        maps[n] = (data, info)
        files.write_map(os.path.join(indir, 'map_%05d%s' % (n, spec['ext'])), data, info, spec['src'])
    before = files.snapshot(indir)

    begin = spec['first'] + (spec['begin'] or 0)
    end = None if spec['end'] is None else spec['first'] + spec['end']
    expected = []
    n = begin
    while n in maps and (end is None or n <= end):
        expected.append(n)
        n += 1

    base, output = os.path.join(indir, 'map_'), os.path.join(outdir, 'sub', 'out_')
    if spec['cli'] and (end is None or end >= 0):
        args = ['convert', base, output, '--ftype', spec['dst'], '--ext', spec['ext'], '-b', str(begin)]
        if end is not None:
            args += ['-e', str(end)]
        ctx.called = True
        result = CliRunner().invoke(cli, args)
        ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
    else:
        opts = {'begin': begin, 'ext': spec['ext'], 'ftype': spec['dst'], 'quiet': True}
        if end is not None:
            opts['end'] = end
        ctx.sut(convert, base, output, **opts)

    ctx.label('%s to %s' % (spec['src'], spec['dst']))
    ctx.nontrivial(any(np.any(maps[n][0]['M']) for n in expected))
    ctx.check(files.snapshot(indir) == before, "the input files were changed")

    found = sorted(files.snapshot(outdir)) if os.path.exists(outdir) else []
    names = sorted('sub/out_%05d%s' % (n, spec['ext']) for n in expected)
    ctx.check(found == names, "files %r and not %r", found, names)

    for n in expected:
        data, info = maps[n]
        path = os.path.join(outdir, 'sub', 'out_%05d%s' % (n, spec['ext']))
        verify(spec, ctx, path, data, info)


def verify(spec, ctx, path, data, info):
    nx, ny = info['shape']
    # Plain text has six decimals
    lossy = 'simple_plain' in (spec['src'], spec['dst'])
    tol = dict(rtol=1e-7, atol=1.1e-6) if lossy else dict(rtol=0, atol=0)

    if spec['dst'] == 'gmx':
        stored, info_file = files.load_gmx(path)
        same_ints(ctx, info_file['shape'], (nx, ny), 'shape')
        if spec['src'] == 'gmx':
            same_pair(ctx, info_file['origin'], info['origin'], 'origin', atol=1e-6)
            same_pair(ctx, info_file['spacing'], info['spacing'], 'spacing', atol=1e-6)
        else:
            spacing = [d if n > 1 else 0.0 for d, n in zip(info['spacing'], (nx, ny))]
            same_pair(ctx, info_file['spacing'], spacing, 'spacing', atol=3e-5)
    else:
        stored = files.load_simple(path, plain=spec['dst'] == 'simple_plain')
        same(ctx, stored['X'], data['X'], 'stored X', atol=5e-5)
        same(ctx, stored['Y'], data['Y'], 'stored Y', atol=5e-5)
    for l in LABELS:
        same(ctx, stored[l], data[l].astype('f4'), 'stored %s' % l, **tol)

    got, info_got, _ = ctx.sut(read_data_file, path)
    same_ints(ctx, info_got['shape'], (nx, ny), 'shape read')
    for l in LABELS:
        same(ctx, got[l], data[l].astype('f4'), 'read %s' % l, **tol)
    if 'gmx' not in (spec['src'], spec['dst']) or spec['src'] == 'gmx':
        same(ctx, got['X'], data['X'], 'read X', atol=1e-4)
        same(ctx, got['Y'], data['Y'], 'read Y', atol=1e-4)


SUBS = [
    Sub('convert', specs(), run, quick=350),
]
