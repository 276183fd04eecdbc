"""M05: the slip length is where the flow profile extrapolates to zero."""

import os

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import files, gen
from pbt.core import Sub
from pbt.oracle import same

from strata.sample_average import sample_average_files
from strata.strata import strata as cli

ID = 'M05'
RULE = (
    "series of 1 to 4 maps of 1x2 to 7x8 bins in each format, with a linear or any monotonous flow profile in each "
    "column, within limits, for any floor, alone and together with other labels, through the function or the command "
    "line. Non-trivial: the slip length is not the same in all columns, or not in all maps"
)

OTHERS = ['U', 'M', 'visc_diss', 'flow_angle', 'inertial_energy']


@st.composite
def specs(draw):
    g = draw(gen.grids(max_nx=7, min_ny=2, max_ny=8, spacings=[1.0, 0.5, 0.25, 0.2, 2.0]))
    nx, ny = g['nx'], g['ny']
    g['maps'] = []
    for _ in range(draw(st.integers(1, 4))):
        g['maps'].append({
            'kind': draw(st.sampled_from(['linear', 'linear', 'any'])),
            # Where the flow is zero, in quarters of bins, and how it grows
            'zero': draw(st.lists(st.integers(-20, 20), min_size=nx, max_size=nx)),
            'rate': draw(st.lists(st.sampled_from([1, 2, 3, 8, -1, -4]), min_size=nx, max_size=nx)),
            'steps': draw(gen.hexbytes(nx * ny)),
        })
    g['V'] = draw(gen.hexbytes(nx * ny))
    g['floor'] = draw(st.sampled_from([None, 0., 1., -0.5, 2.25]))
    g['labels'] = draw(st.permutations(OTHERS))[:draw(st.sampled_from([0, 0, 1, 1, 2, 3]))]
    g['at'] = draw(st.integers(0, 3))
    i0 = draw(st.integers(0, nx - 1))
    i1 = draw(st.integers(i0, nx - 1))
    j0 = draw(st.integers(0, ny - 2))
    j1 = draw(st.integers(j0 + 1, ny - 1))
    g['lims'] = draw(st.sampled_from([None, None, None, [i0, i1, j0, j1], [i0, i1, None, None], [None, None, j0, None]]))
    g['first'] = draw(st.sampled_from([1, 1, 4]))
    g['src'] = draw(st.sampled_from(['gmx', 'gmx', 'gmx', 'simple', 'simple', 'simple_plain', 'simple_plain', 'mixed', 'mixed2']))
    g['cli'] = draw(st.booleans())
    return g


def sample(spec, ctx):
    nx, ny, dx, dy = (spec[k] for k in ('nx', 'ny', 'dx', 'dy'))
    xs, ys = gen.mesh(spec)
    xc, yc = gen.centers(spec)
    indir = ctx.mkdir('in')
    maps = []
    for k, m in enumerate(spec['maps']):
        rate = np.array(m['rate'], dtype=float)[:, None] / 4.
        if m['kind'] == 'linear':
            u = (yc[None, :] - yc[0] + (np.array(m['zero'])[:, None] / 4. + 0.125) * dy) * rate
        else:
            steps = 1. + gen.unhex(m['steps']).reshape(nx, ny) % 16
            u = (np.cumsum(steps, axis=1) + np.array(m['zero'])[:, None]) * rate / 4.
        data = {'X': xs, 'Y': ys, 'U': u.ravel(), 'V': gen.signed(spec['V'])}
        for l in ('M', 'N', 'T'):
            data[l] = 1. + np.abs(data['V'])
        files.write_map(os.path.join(indir, 'map_%05d.dat' % (spec['first'] + k)), data, gen.info_of(spec), spec['src'], k)
        maps.append(u)

    i0, i1, j0, j1 = spec['lims'] or [None] * 4
    si = slice(i0, None if i1 is None else i1 + 1)
    sj = slice(j0, None if j1 is None else j1 + 1)
    labels = list(spec['labels'])
    if len(range(nx)[si]) < 3 or len(range(ny)[sj]) < 3:
        labels = [l for l in labels if l != 'visc_diss']
    at = min(spec['at'], len(labels))
    labels.insert(at, 'slip_length')

    floor = spec['floor'] or 0.
    want, slack = [], []
    for m, u in zip(spec['maps'], maps):
        y, u = yc[sj], u[si][:, sj]
        lengths = []
        for col in u:
            # y = a + b u of least squares
            b = ((col - col.mean()) * (y - y.mean())).sum() / ((col - col.mean())**2).sum()
            lengths.append(floor - (y.mean() - b * col.mean()))
        lengths = np.array(lengths)
        # The precision of coordinates in files, extrapolated
        gain = max(1., float(np.max(np.abs(u))) / float(np.min(np.ptp(u, axis=1))))
        slack.append(gain * ((1e-4 if spec['src'] != 'gmx' else 2e-5) + 2e-5 * float(np.max(np.abs(y))) + 2e-5))
        want.append([float(np.mean(lengths)), float(np.std(lengths))])
        ctx.nontrivial(lengths.std() > 1e-3)
    want = np.array(want)
    ctx.nontrivial(np.ptp(want[:, 0]) > 1e-3)
    if labels != ['slip_length']:
        ctx.label('with other labels')

    lims = {}
    if spec['lims']:
        def limits(lo, hi, cs, d):
            return (None if lo is None else cs[lo] - 0.25 * d, None if hi is None else cs[hi] + 0.25 * d)
        lims = {'xlim': limits(i0, i1, xc, dx), 'ylim': limits(j0, j1, yc, dy)}
        ctx.label('limits')
    base, out = os.path.join(indir, 'map_'), ctx.path('new', 'out.xvg')
    if spec['cli']:
        args = ['sample', base] + labels + ['-o', out, '-b', str(spec['first'])]
        if spec['floor'] is not None:
            args += ['--floor', repr(spec['floor'])]
        for l, pair in lims.items():
            args += ['--' + l] + ['none' if v is None else repr(float(v)) for v in pair]
        ctx.called = True
        result = CliRunner().invoke(cli, args)
        ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
    else:
        kw = dict(lims)
        if spec['floor'] is not None:
            kw['slip_floor'] = spec['floor']
        got = ctx.sut(sample_average_files, base, labels, output=out, begin=spec['first'], verbose=False, quiet=True, **kw)
        ctx.check(got is not None, "nothing was sampled")
        for k, (v, w, s) in enumerate(zip(got[1][at], want, slack)):
            same(ctx, v, w[0], 'slip length of map %d' % k, atol=s)
        ctx.check(len(got[1][at]) == len(want), "%d samples and not %d", len(got[1][at]), len(want))

    with open(out) as fp:
        rows = [[float(v) for v in l.split()] for l in fp if l.strip() and l[0] != '#']
    ctx.check(len(rows) == len(want), "%d rows and not %d", len(rows), len(want))
    # Each label has a value and a deviation, but for the mean angle
    column = 1 + sum(1 if l == 'flow_angle' else 2 for l in labels[:at])
    for row, w, s in zip(rows, want, slack):
        same(ctx, row[column:column + 2], w, 'written slip length and deviation', atol=2 * s, rtol=2e-5)


SUBS = [Sub('sample', specs(), sample, quick=600)]
