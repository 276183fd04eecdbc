"""N03: areas and lengths of interfaces are those of their polygons."""

import os

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub
from pbt.figures import recorded
from pbt.oracle import same
from pbt.props.n02 import coords, interfaces, write_interface

from strata.interface.sample import calc_length, get_area_of_interface, sample_interfaces
from strata.strata import strata as cli

ID = 'N03'
RULE = (
    "interfaces of 1 to 7 layers with any edges, also moved, scaled and mirrored, as arrays and as series of files, "
    "some of which do not have the same heights on both sides. Non-trivial: at least two layers"
)


@st.composite
def specs(draw):
    return {'face': draw(interfaces()), 'dy': draw(st.sampled_from([1.0, 0.5, 0.25, 0.2])),
            'move': [draw(st.integers(-80, 80)) / 8., draw(st.integers(-80, 80)) / 8.],
            'scale': draw(st.sampled_from([2.0, 0.5, 3.0]))}


def shoelace(xs, ys):
    return 0.5 * abs(np.sum(xs * np.roll(ys, -1) - ys * np.roll(xs, -1)))


def path_length(xs, ys):
    return sum(np.hypot(xs[k + 1] - xs[k], ys[k + 1] - ys[k]) for k in range(len(xs) - 1))


def arrays(spec, ctx):
    xs, ys = coords(spec['face'], spec['dy'])
    area, length = shoelace(xs, ys), path_length(xs, ys)
    ctx.nontrivial(len(xs) > 2)
    mx, my = spec['move']
    s = spec['scale']
    for x, y, f, what in (
            (xs, ys, 1., 'interface'), (xs + mx, ys + my, 1., 'moved interface'), (xs * s, ys * s, s, 'scaled interface'),
            (-xs[::-1], ys[::-1], 1., 'mirrored interface')):
        x0, y0 = x.copy(), y.copy()
        same(ctx, float(ctx.sut(get_area_of_interface, x, y)), f * f * area, 'area of the %s' % what)
        same(ctx, float(ctx.sut(calc_length, x, y)), f * length, 'length of the %s' % what)
        same(ctx, [x, y], [x0, y0], 'input', rtol=0, atol=0)


@st.composite
def file_specs(draw):
    num = draw(st.integers(1, 6))
    return {
        'faces': [draw(interfaces()) for _ in range(num)], 'dy': draw(st.sampled_from([1.0, 0.5, 0.25, 0.2])),
        'bad': draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, num - 1))), 'bad_at': draw(st.integers(0, 13)),
        'variable': draw(st.sampled_from(['area', 'length'])), 'first': draw(st.sampled_from([1, 1, 4, 0])),
        'begin': draw(st.sampled_from([0, 0, 1])), 'end': draw(st.sampled_from([None, None, 2])),
        'dt': draw(st.sampled_from(gen.TIME_STEPS)), 'cli': draw(st.booleans()), 'ext': draw(st.sampled_from(['.xvg', '.dat'])),
    }


@recorded
def series(spec, ctx):
    indir = ctx.mkdir('in')
    for k, face in enumerate(spec['faces']):
        path = os.path.join(indir, 'int_%05d%s' % (spec['first'] + k, spec['ext']))
        write_interface(path, face, spec['dy'])
    bad = spec['bad']
    if bad is not None and (spec['variable'] != 'area' or len(spec['faces'][bad]['l']) < 2):
        bad = None
    if bad is not None:
        # The sides of this one have different heights
        xs, ys = coords(spec['faces'][bad], spec['dy'])
        ys[spec['bad_at'] % len(ys)] -= 3.0
        with open(os.path.join(indir, 'int_%05d%s' % (spec['first'] + bad, spec['ext'])), 'w') as fp:
            for x, y in zip(xs, ys):
                fp.write('%.3f %.3f\n' % (x, y))
        ctx.label('with a bad interface')
    begin = spec['begin']
    end = len(spec['faces']) if spec['end'] is None else min(len(spec['faces']), begin + spec['end'])
    want = []
    for k in range(begin, end):
        if k == bad:
            continue
        xs, ys = coords(spec['faces'][k], spec['dy'])
        want.append([(k - begin) * spec['dt'], (shoelace if spec['variable'] == 'area' else path_length)(xs, ys)])
    want = np.array(want).reshape(len(want), 2)
    ctx.nontrivial(len(want) > 1)
    base = os.path.join(indir, 'int_')
    out = ctx.path('new', 'sample.xvg')
    opts = {'begin': spec['first'] + begin}
    if spec['end'] is not None:
        opts['end'] = spec['first'] + begin + spec['end'] - 1
    if spec['cli']:
        args = ['interface', 'sample', base, spec['variable'], '--noshow', '-x', out, '-dt', repr(spec['dt']),
                '--ext', spec['ext'], '-b', str(opts['begin'])]
        if 'end' in opts:
            args += ['-e', str(opts['end'])]
        ctx.called = True
        result = CliRunner().invoke(cli, args)
        ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
        ctx.label('command line')
    else:
        times, values = ctx.sut(sample_interfaces, base, spec['variable'], save_xvg=out, delta_t=spec['dt'],
                                ext=spec['ext'], show=False, quiet=True, **opts)
        same(ctx, times, want[:, 0], 'times', atol=1e-6)
        same(ctx, values, want[:, 1], spec['variable'], atol=0.2 * spec['dy'], rtol=1e-3)
        same(ctx, values, want[:, 1], spec['variable'], atol=1e-2, rtol=1e-3)
    with open(out) as fp:
        rows = [[float(v) for v in l.split()] for l in fp if l.strip() and l[0] != '#']
    rows = np.array(rows).reshape(len(rows), 2)
    same(ctx, rows, want, 'written rows', atol=1e-2, rtol=1e-3)
    same(ctx, rows[:, 0], want[:, 0], 'written times', atol=6e-4)


SUBS = [
    Sub('arrays', specs(), arrays, quick=400),
    Sub('series', file_specs(), series, quick=100),
]
