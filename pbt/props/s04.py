"""S04: the power law fit of spreading data is that of least squares in log-log space."""

import os

import numpy as np
import pandas as pd
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import files
from pbt.core import Sub
from pbt.oracle import same

from strata.spreading.fit import fit_spreading_data, get_fitted_data, get_fitting_parameters
from strata.spreading.view import read_spreading_data
from strata.strata import strata as cli

ID = 'S04'
RULE = (
    "1 to 3 series of 3 to 15, or some of 50 to 400, times, of exact power laws or any positive radii, with times before zero, limits that "
    "keep at least two times or none, as series, through files and the command line. Non-trivial: a fit of at least "
    "three different times"
)


@st.composite
def series(draw):
    n = draw(st.integers(3, 15))
    # Of measurements at many times only the first ones are drawn, which then repeat
    num, n = n, n if draw(st.integers(0, 11)) != 11 else draw(st.integers(50, 400))
    t0 = draw(st.sampled_from([-2, -1, 0, 0, 1, 3]))
    times = []
    t = t0 * 4
    steps = [draw(st.integers(1, 12)) for _ in range(num)]
    for i in range(n):
        times.append(t / 4.)
        t += steps[i % num]
    if draw(st.booleans()):
        a, k = draw(st.integers(1, 60)) / 8., draw(st.integers(-8, 12)) / 8.
        radii = [a * t**k if t > 0 else 1. for t in times]
    else:
        a = k = None
        radii = draw(st.lists(st.integers(1, 300), min_size=num, max_size=num))
        radii = [(radii[i % num] + i // num) / 16. for i in range(n)]
    if draw(st.sampled_from([False, False, False, True])):
        # The measurements may come in any order
        order = draw(st.permutations(list(range(num)))) + list(range(num, n))
        times, radii = [times[i] for i in order], [radii[i] for i in order]
    return {'t': times, 'r': radii, 'exact': None if a is None else [a, k]}


@st.composite
def specs(draw):
    spec = {'series': [draw(series()) for _ in range(draw(st.integers(1, 3)))]}
    lim = st.one_of(st.none(), st.none(), st.integers(-3, 60).map(float))
    spec['lims'] = sorted([draw(lim), draw(lim)], key=lambda v: (v is not None, v or 0.)) if draw(st.booleans()) \
        else [draw(lim), None]
    if None not in spec['lims'] and spec['lims'][0] > spec['lims'][1]:
        spec['lims'] = spec['lims'][::-1]
    spec['out'] = draw(st.sampled_from([[None, None], [None, None], [2.0, None], [None, 9.0], [1.0, 20.0], [1e6, None], [0.0, None], [0.0, 9.0],
                                         [-1.0, 12.0], [None, 0.0]]))
    spec['scale'] = draw(st.sampled_from([2.0, 0.5, 10.0]))
    return spec


def within(s, lims):
    """Times within the limits, or all if there are none."""

    t = np.array(s['t'])
    lo, hi = lims
    keep = (t >= (-np.inf if lo is None else lo)) & (t <= (np.inf if hi is None else hi))
    return keep if keep.any() else np.ones(t.size, dtype=bool)


def expected(s, lims):
    t, r = np.array(s['t']), np.array(s['r'])
    keep = within(s, lims) & (t > 0)
    if keep.sum() < 2:
        return None
    x, y = np.log(t[keep]), np.log(r[keep])
    k = ((x - x.mean()) * (y - y.mean())).sum() / ((x - x.mean())**2).sum()
    return np.exp(y.mean() - k * x.mean()), k


def judge(ctx, got, series, lims, what, scale=1.):
    """A fit has the least squares, of which no other parameters can be told apart."""

    ctx.check(len(got) == len(series), "%d of %s and not %d", len(got), what, len(series))
    for (a, k), s in zip(got, series):
        b, m = expected(s, lims)
        b *= scale
        t, r = np.array(s['t']), np.array(s['r'])
        keep = within(s, lims) & (t > 0)
        x, y = np.log(t[keep]), np.log(r[keep] * scale)
        squares = ((y - np.log(b) - m * x)**2).sum()
        if not 1e-290 < b < 1e290:
            continue
        ctx.check(a > 0 and np.isfinite(a) and np.isfinite(k), "%s: the fit is %r and not %r", what, (a, k), (b, m))
        off = ((np.log(a / b) + (k - m) * x)**2).sum()
        ctx.check(off <= 1e-6 * squares + 1e-10 * x.size, "%s: the fit is %r and not %r, of squares %g and %g more", what,
                  (a, k), (b, m), squares, off)


def fit(spec, ctx):
    want = [expected(s, spec['lims']) for s in spec['series']]
    if None in want:
        ctx.label('too few times')
        return
    data = [pd.Series(s['r'], index=s['t'], name='s%d' % i) for i, s in enumerate(spec['series'])]
    lims, out = tuple(spec['lims']), tuple(spec['out'])
    ctx.nontrivial(any((within(s, spec['lims']) & (np.array(s['t']) > 0)).sum() > 2 for s in spec['series']))

    got = ctx.sut(get_fitting_parameters, data, lims)
    judge(ctx, got, spec['series'], spec['lims'], 'fits')
    for s, g in zip(spec['series'], got):
        if s['exact']:
            ctx.label('exact')
            t = np.array(s['t'])[within(s, spec['lims'])]
            t = t[t > 0]
            same(ctx, g[0] * t**g[1], s['exact'][0] * t**s['exact'][1], 'fit of a power law', rtol=1e-5)
    # Another unit of the radius scales the amplitude only
    more = ctx.sut(get_fitting_parameters, [d * spec['scale'] for d in data], lims)
    judge(ctx, more, spec['series'], spec['lims'], 'fits of scaled radii', spec['scale'])

    positive = [{'t': [t for t in s['t'] if t > 0], 'r': [r for t, r in zip(s['t'], s['r']) if t > 0]}
                for s in spec['series']]
    pos = [pd.Series(s['r'], index=s['t'], name='s%d' % i) for i, s in enumerate(positive)]
    # A power law has no values before zero, but limits are the same
    for f, s, (a, k) in zip(ctx.sut(get_fitted_data, got, data, out), spec['series'], got):
        t = np.array(s['t'])[within(s, spec['out'])]
        same(ctx, f.index.values, t, 'times of the fit')
        after = t > 0
        same(ctx, f.values[after], (a * t[after]**k), 'radii of the fit', rtol=1e-9)
    fitted = ctx.sut(get_fitted_data, got, pos, out)
    ctx.check(len(fitted) == len(pos), "%d fitted series", len(fitted))
    for f, s, (a, k) in zip(fitted, positive, got):
        t = np.array(s['t'])[within(s, spec['out'])]
        same(ctx, f.index.values, t, 'times of the fit')
        same(ctx, f.values, a * t**k, 'radii of the fit', rtol=1e-9)


@st.composite
def file_specs(draw):
    spec = draw(specs())
    for s in spec['series']:
        t0 = min(s['t'])
        if t0 <= 0 and draw(st.booleans()):
            s['t'] = [t - t0 + 0.25 for t in s['t']]
            s['exact'] = None
    return spec


def in_files(spec, ctx):
    for s in spec['series']:
        s['r'] = [round(r, 5) for r in s['r']]
    if any(min(s['r']) < 0.01 for s in spec['series']) or any(min(s['t']) <= 0 for s in spec['series']):
        return
    want = [expected(s, spec['lims']) for s in spec['series']]
    if None in want:
        return
    paths = []
    for i, s in enumerate(spec['series']):
        path = ctx.path('s%d.xvg' % i)
        with open(path, 'w') as fp:
            for t, r in zip(s['t'], s['r']):
                fp.write('%.5f %.5f\n' % (t, r))
        paths.append(path)
    ctx.nontrivial()
    save = ctx.path('fits', 'fit.xvg')
    got = ctx.sut(fit_spreading_data, paths, lims=tuple(spec['lims']), out_lims=tuple(spec['out']), save_xvg=save, show=False)
    judge(ctx, got, spec['series'], spec['lims'], 'fits')

    def saved(path):
        read = ctx.sut(read_spreading_data, path)
        ctx.check(len(read) == len(want), "%d written series", len(read))
        for f, s, (a, k) in zip(read, spec['series'], got):
            t = np.array(s['t'])[within(s, spec['out'])]
            same(ctx, f.index.values, t, 'written times', atol=1e-4)
            same(ctx, f.values, a * t**k, 'written radii', rtol=1e-5, atol=1e-4)
        sets = files.read_grace(path)
        ctx.check(len(sets) == len(want), "%d written sets", len(sets))
        for f, (name, t, r), at in zip(read, sets, paths):
            same(ctx, t, f.index.values, 'times in the set', atol=1e-4)
            same(ctx, r, f.values, 'radii in the set', rtol=2e-3, atol=1e-4)
            ctx.check(name is not None and name.startswith(at), "the set of %r has the name %r", at, name)

    saved(save)
    out = ctx.path('cli.xvg')
    args = ['spreading', 'fit', '--noshow', '-x', out,
            '--lims'] + ['none' if v is None else repr(v) for v in spec['lims']] + \
           ['--out_lims'] + ['none' if v is None else repr(v) for v in spec['out']]
    result = CliRunner().invoke(cli, args + paths)
    ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
    lines = result.output[result.output.index('r = a*t^k'):].splitlines()[1:]
    rows = [[float(v) for v in l.split()] for l in lines if len(l.split()) == 2]
    same(ctx, np.array(rows), np.array(got, dtype=float), 'printed parameters', rtol=1e-5, atol=1e-3)
    saved(out)


SUBS = [
    Sub('fit', specs(), fit, quick=500),
    Sub('files', file_specs(), in_files, quick=200),
]
