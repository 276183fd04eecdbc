"""N02: averaged interfaces are the mean edges of the layers that a bundle has in common."""

import os

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import files
from pbt.core import Sub
from pbt.figures import recorded
from pbt.oracle import same
from pbt.props.n01 import read_interface

from strata.interface.view import view_interfaces
from strata.strata import strata as cli

ID = 'N02'
RULE = (
    "series of 1 to 6 interfaces of 1 to 7 layers, which begin and end at any height, some of them not readable, "
    "averaged in bundles of any length through the function or the command line. Non-trivial: a bundle of at least "
    "two different interfaces with a layer in common"
)


@st.composite
def interfaces(draw, min_layers=1, even=False):
    n = draw(st.integers(min_layers, 7))
    j0 = draw(st.sampled_from([0, 0, 0, 1, 2]))
    left = draw(st.lists(st.integers(-80, 79), min_size=n, max_size=n))
    width = draw(st.lists(st.integers(1, 120), min_size=n, max_size=n))
    return {'j0': j0, 'l': left, 'r': [a + b for a, b in zip(left, width)]}


def coords(face, dy):
    ys = [dy * (face['j0'] + k) for k in range(len(face['l']))]
    xs = [l / 8. for l in face['l']] + [r / 8. for r in face['r'][::-1]]
    return np.array(xs), np.array(ys + ys[::-1])


def write_interface(path, face, dy, header=True):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    xs, ys = coords(face, dy)
    with open(path, 'w') as fp:
        if header:
            fp.write('# Interface coordinates of a droplet\n# \n# x (nm) y (nm)\n')
        for x, y in zip(xs, ys):
            fp.write('%.3f %.3f\n' % (x, y))


@st.composite
def specs(draw):
    num = draw(st.integers(1, 6))
    return {
        'faces': [draw(interfaces()) for _ in range(num)],
        'bad': draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, num - 1))),
        'dy': draw(st.sampled_from([1.0, 0.5, 0.25, 0.2, 0.1])),
        'first': draw(st.sampled_from([1, 1, 2, 0, 7])),
        'begin': draw(st.sampled_from([0, 0, 0, 1])),
        'end': draw(st.sampled_from([None, None, 2, 4])),
        'group': draw(st.sampled_from([1, 2, 2, 3, num])),
        'cli': draw(st.booleans()), 'save': draw(st.sampled_from([True, True, False])),
        'ext': draw(st.sampled_from(['.xvg', '.xvg', '.dat'])),
    }


@recorded
def view(spec, ctx):
    indir, outdir = ctx.mkdir('in'), ctx.path('out')
    for k, face in enumerate(spec['faces']):
        path = os.path.join(indir, 'int_%05d%s' % (spec['first'] + k, spec['ext']))
        write_interface(path, face, spec['dy'])
        if k == spec['bad']:
            with open(path, 'w') as fp:
                fp.write('# Interface\n1.0 2.0\n3.0\n')
    before = files.snapshot(indir)
    begin, group = spec['begin'], spec['group']
    end = len(spec['faces']) if spec['end'] is None else min(len(spec['faces']), begin + spec['end'])
    number = -(-(spec['first'] + begin) // group)
    wanted = []
    for n, i in enumerate(range(begin, end - group + 1, group)):
        inds = list(range(i, i + group))
        if spec['bad'] in inds:
            continue
        edges = [{spec['faces'][k]['j0'] + m: (spec['faces'][k]['l'][m] / 8., spec['faces'][k]['r'][m] / 8.)
                  for m in range(len(spec['faces'][k]['l']))} for k in inds]
        common = sorted(set.intersection(*[set(e) for e in edges]))
        left = [np.mean([e[j][0] for e in edges]) for j in common]
        right = [np.mean([e[j][1] for e in edges]) for j in common]
        ys = [spec['dy'] * j for j in common]
        wanted.append((number + n, np.array(left + right[::-1]), np.array(ys + ys[::-1])))
        if len(common) == 0:
            ctx.label('nothing in common')
            return
        ctx.nontrivial(group > 1 and any(edges[0] != e for e in edges))

    base, output = os.path.join(indir, 'int_'), os.path.join(outdir, 'avg_')
    opts = {'begin': spec['first'] + begin}
    if spec['end'] is not None:
        opts['end'] = spec['first'] + begin + spec['end'] - 1
    if spec['cli']:
        args = ['interface', 'view', base, '--noshow', '-av', str(group), '--ext', spec['ext'], '-b', str(opts['begin'])]
        if 'end' in opts:
            args += ['-e', str(opts['end'])]
        if spec['save']:
            args += ['-x', output]
        ctx.called = True
        result = CliRunner().invoke(cli, args)
        ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
        ctx.label('command line')
    else:
        if spec['save']:
            opts['save_xvg'] = output
        xs, ys = ctx.sut(view_interfaces, base, average=group, ext=spec['ext'], show=False, quiet=True, **opts)
        ctx.check(len(xs) == len(ys) == len(wanted), "%d, %d interfaces and not %d", len(xs), len(ys), len(wanted))
        for x, y, (n, wx, wy) in zip(xs, ys, wanted):
            same(ctx, x, wx, 'x of interface %d' % n, atol=1e-6)
            same(ctx, y, wy, 'y of interface %d' % n, atol=1e-6)
    ctx.check(files.snapshot(indir) == before, "the input files were changed")
    found = sorted(os.listdir(outdir)) if os.path.exists(outdir) else []
    names = ['avg_%05d%s' % (n, spec['ext']) for n, _, _ in wanted] if spec['save'] else []
    ctx.check(found == names, "output files %r and not %r", found, names)
    for name, (n, wx, wy) in zip(names, wanted):
        got = read_interface(os.path.join(outdir, name))
        same(ctx, got, np.array([wx, wy]).T, 'written interface %d' % n, atol=6e-4, rtol=1e-6)
    ctx.label('%d bundles' % min(len(wanted), 3), 'with a bad file' if spec['bad'] is not None else 'all readable')


SUBS = [Sub('view', specs(), view, quick=150)]
