"""F04: an incomplete map is rejected, and never taken for a map with empty bins or another grid."""

import os

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import files, gen
from pbt.core import Sub

from strata.dataformats.read import read_data_file
from strata.dataformats.write import write
from strata.strata import strata as cli

ID = 'F04'
RULE = (
    "gmx flow files of 1x1 to 6x6 bins, written by the code or an independent encoder with headers of any length, "
    "cut at every kind of position: inside the header, at its end, inside and between the stored fields, one byte "
    "before the end; simple binary and plain files cut anywhere, also between their bins. Non-trivial: the file stores at "
    "least one bin and is cut after the format line, or inside of its last column"
)


@st.composite
def specs(draw):
    spec = draw(gen.maps(max_nx=6, max_ny=6))
    spec['own'] = draw(st.booleans())
    spec['comment'] = draw(st.sampled_from([1400, 0, 880, 2500, 890]))
    # Where to cut, in 1/10000 of the file, besides the positions that always are tried
    spec['cuts'] = draw(st.lists(st.integers(0, 9999), min_size=1, max_size=12))
    return spec


def content(spec, ctx, name='full.dat'):
    data, info = gen.build(spec)
    path = ctx.path(name)
    if spec['own']:
        ctx.sut(write, path, data, info)
    else:
        files.write_gmx(path, data, info, comments=['c' * spec['comment']])
    with open(path, 'rb') as fp:
        buf = fp.read()
    return buf, int(np.count_nonzero(data['M']))


def positions(spec, buf, num):
    """Lengths at which the file is incomplete, but still says that it is of this format."""

    first = len(b'FORMAT GMX_FLOW_1')
    head = buf.index(b'\0')
    ends = [head + 1 + 8 * num, head + 1 + 16 * num] + [head + 1 + (16 + 4 * i) * num for i in range(1, 6)]
    out = {first, first + 1, head - 1, head, head + 1, len(buf) - 1, len(buf) - 4}
    out |= set(ends) | {e - 1 for e in ends}
    out |= {first + (len(buf) - first) * c // 10000 for c in spec['cuts']}
    complete = len(buf)
    return sorted(p for p in out if first <= p < complete)


def reject(spec, ctx):
    buf, num = content(spec, ctx)
    ctx.label('stores nothing' if num == 0 else 'stores bins')
    ctx.label('header below 1024 bytes' if buf.index(b'\0') < 1024 else 'larger header')
    path = ctx.path('cut.dat')
    for pos in positions(spec, buf, num):
        if pos > buf.index(b'\0') and num == 0:
            continue
        ctx.nontrivial(num > 0)
        with open(path, 'wb') as fp:
            fp.write(buf[:pos])
        rejected, result = ctx.raises(read_data_file, path)
        ctx.check(rejected, "a file cut to %d of %d bytes (header of %d) was read: %r",
            pos, len(buf), buf.index(b'\0'), result)

    # The same file in full is read
    ctx.sut(read_data_file, ctx.path('full.dat'))


@st.composite
def command_specs(draw):
    spec = draw(gen.maps(max_nx=5, max_ny=5, min_nx=2, min_ny=2, fill=70))
    spec['own'] = False
    spec['comment'] = draw(st.sampled_from([0, 400, 1400]))
    spec['cuts'] = draw(st.lists(st.integers(0, 9999), min_size=1, max_size=2))
    spec['command'] = draw(st.sampled_from(['average', 'convert']))
    spec['num'] = draw(st.integers(1, 4))
    spec['bad'] = draw(st.integers(0, 3))
    spec['group'] = draw(st.integers(1, 3))
    return spec


def command(spec, ctx):
    """Commands fail on an incomplete map and do not write a result made from it."""

    buf, num = content(spec, ctx)
    bad = 1 + spec['bad'] % spec['num']
    group = spec['group']
    for i, pos in enumerate(positions(spec, buf, num)):
        if num == 0 and pos > buf.index(b'\0'):
            continue
        if i % 4 != spec['bad']:
            continue
        ctx.nontrivial(num > 0)
        indir = ctx.mkdir('in%d' % pos)
        outdir = ctx.mkdir('out%d' % pos)
        for k in range(1, spec['num'] + 1):
            with open(os.path.join(indir, 'map_%05d.dat' % k), 'wb') as fp:
                fp.write(buf[:pos] if k == bad else buf)
        args = [os.path.join(indir, 'map_'), os.path.join(outdir, 'out_')]
        if spec['command'] == 'average':
            args = ['average'] + args + [str(group)]
            last_group = spec['num'] // group
            bad_out = (bad - 1) // group + 1
            if bad_out > last_group:
                continue
        else:
            args = ['convert'] + args + ['--ftype', 'simple']
            bad_out = bad
        ctx.called = True
        result = CliRunner().invoke(cli, args)
        ctx.check(result.exit_code != 0, "%r succeeded on a file cut to %d of %d bytes", args, pos, len(buf))
        ctx.check(not os.path.exists(os.path.join(outdir, 'out_%05d.dat' % bad_out)),
            "output %d was made from a file cut to %d of %d bytes", bad_out, pos, len(buf))


@st.composite
def simple_specs(draw):
    spec = draw(gen.maps(max_nx=6, max_ny=6, fill=80))
    spec['ftype'] = draw(st.sampled_from(['simple', 'simple', 'simple_plain']))
    spec['cuts'] = draw(st.lists(st.integers(0, 9999), min_size=1, max_size=3))
    spec['bins'] = draw(st.lists(st.integers(1, 35), min_size=1, max_size=3))
    spec['command'] = draw(st.sampled_from(['convert', 'average', 'sample', 'spreading', 'interface', 'view']))
    return spec


def fills(num, ny):
    """Whether that number of bins, column after column, is a whole grid."""

    columns = -(-num // ny)
    return num > 0 and num % columns == 0


def simple(spec, ctx):
    """Simple maps which end inside of a bin or inside of a column."""

    data, info = gen.build(spec)
    binary = spec['ftype'] == 'simple'
    full = ctx.path('full.dat')
    ctx.sut(write, full, data, ftype=spec['ftype'])
    with open(full, 'rb') as fp:
        buf = fp.read()
    lines = buf.split(b'\n')
    ny, total = spec['ny'], spec['nx'] * spec['ny']
    cuts = []   # content, whether reading has to fail
    for n in spec['bins']:
        if n < total:
            cuts.append((buf[:28 * n] if binary else b'\n'.join(lines[:n + 1]) + b'\n', False, fills(n, ny)))
    for c in spec['cuts']:
        if binary:
            pos = len(buf) * c // 10000
            if pos % 28 and pos > 0:
                cuts.append((buf[:pos], True, False))
        else:
            # Some values of a line
            n, m = 1 + c // 100 % total, 1 + c % 6
            cuts.append((b'\n'.join(lines[:n] + [b' '.join(lines[n].split()[:m])]) + b'\n', n > 1, n == 1))
    for k, (content, fails, whole) in enumerate(cuts):
        indir, outdir = ctx.mkdir('in%d' % k), ctx.mkdir('out%d' % k)
        path = os.path.join(indir, 'map_00001.dat')
        with open(path, 'wb') as fp:
            fp.write(content)
        if fails:
            rejected, result = ctx.raises(read_data_file, path)
            ctx.check(rejected, "a %s file cut to %d of %d bytes was read: %r", spec['ftype'], len(content), len(buf), result)
        if whole:
            continue
        ctx.nontrivial()
        ctx.label(spec['ftype'], 'inside of a bin' if fails else 'inside of a column')
        base, out = os.path.join(indir, 'map_'), os.path.join(outdir, 'out_')
        args = {
            'convert': ['convert', base, out, '--ftype', 'simple'], 'average': ['average', base, out, '1'],
            'sample': ['sample', base, 'M'], 'spreading': ['spreading', 'collect', base, '0.0', '-cr', '1.0'],
            'interface': ['interface', 'collect', base, out, '-cr', '1.0'], 'view': ['view', 'height', path, '--noshow', '-o', out + '.png'],
        }[spec['command']]
        ctx.called = True
        result = CliRunner().invoke(cli, args)
        ctx.check(result.exit_code != 0 and not isinstance(result.exception, SystemExit),
                  "%r read a %s file cut to %d of %d bytes: %s", args, spec['ftype'], len(content), len(buf), result.output)
        ctx.check(not os.listdir(outdir), "output was made from a cut file: %r", os.listdir(outdir))


SUBS = [
    Sub('simple', simple_specs(), simple, quick=100),
    Sub('reject', specs(), reject, quick=250),
    Sub('command', command_specs(), command, quick=60),
]
