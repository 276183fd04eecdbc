"""S03: spreading series are read, scaled, synchronised and written without loss."""

import os

import numpy as np
import pandas as pd
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import files
from pbt.core import Sub
from pbt.figures import recorded
from pbt.oracle import same

from strata.spreading.view import (
    combine_spreading_data, read_spreading_data, scale_spreading_data, sync_time_at_radius, write_spreading_data,
)
from strata.strata import strata as cli

ID = 'S03'
RULE = (
    "1 to 4 series of 1 to 12 times with any radii, in plain files with one or several columns and in Grace files of one or several graphs, "
    "which are scaled and synchronised by any factors and written. Non-trivial: at least two series of different data"
)


@st.composite
def series(draw, num=None):
    n = num or draw(st.integers(1, 12))
    if not num and draw(st.integers(0, 11)) == 0:
        # Longer than what is shown of tables
        n, a, b = draw(st.integers(50, 160)), draw(st.integers(1, 9)), draw(st.integers(-300, 300))
        return {'t': [a * k / 8. for k in range(n)], 'r': [(b + 5 * k) / 16. for k in range(n)]}
    steps = draw(st.lists(st.integers(1, 40), min_size=n, max_size=n))
    t0 = draw(st.integers(-20, 40))
    times = [(t0 + sum(steps[:k])) / 8. for k in range(n)]
    radii = draw(st.lists(st.integers(-100, 800), min_size=n, max_size=n, unique=True))
    return {'t': times, 'r': [r / 16. for r in radii]}


@st.composite
def specs(draw):
    num = draw(st.integers(1, 4))
    factors = st.sampled_from([1.0, 2.0, 0.5, 4.0, 0.25, 3.0])
    spec = {
        'series': [draw(series()) for _ in range(num)],
        'tau': draw(st.one_of(factors, st.lists(factors, min_size=num, max_size=num))),
        'R': draw(st.one_of(factors, st.lists(factors, min_size=num, max_size=num))),
        # Never half-way between two radii, with any of the factors
        'sync': draw(st.one_of(st.none(), st.integers(-100, 900).map(lambda k: (k + 0.3217) / 16.))),
    }
    return spec


def to_series(ss):
    return [pd.Series(s['r'], index=s['t'], name='s%d' % k) for k, s in enumerate(ss)]


def per_series(v, num):
    return v if isinstance(v, list) else [v] * num


def scaled(spec):
    num = len(spec['series'])
    return [{'t': [t / tau for t in s['t']], 'r': [r / R for r in s['r']]}
            for s, tau, R in zip(spec['series'], per_series(spec['tau'], num), per_series(spec['R'], num))]


def synced(ss, radius):
    at = []
    if not all(s['r'] for s in ss):
        # Nothing of the series is at any radius
        return None
    for s in ss:
        d = np.abs(np.array(s['r']) - radius)
        near = np.flatnonzero(d < d.min() + 1e-9)
        at.append(s['t'][int(near[0])] if near.size == 1 else None)
    if None in at:
        return None
    first = min(at)
    return [{'t': [t - (a - first) for t in s['t']], 'r': s['r']} for s, a in zip(ss, at)]


def compare(ctx, got, want, what, **tol):
    ctx.check(len(got) == len(want), "%s: %d series and not %d", what, len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        same(ctx, g.index.values, w['t'], 'times of %s %d' % (what, k), **tol)
        same(ctx, g.values, w['r'], 'radii of %s %d' % (what, k), **tol)


def combine(spec, ctx):
    data = to_series(spec['series'])
    ctx.nontrivial(len(spec['series']) > 1 and spec['series'][0] != spec['series'][1])
    want = scaled(spec)
    compare(ctx, ctx.sut(scale_spreading_data, data, spec['tau'], spec['R']), want, 'scaled series')
    if spec['sync'] is not None:
        direct = synced(spec['series'], spec['sync'])
        if direct is not None:
            compare(ctx, ctx.sut(sync_time_at_radius, data, spec['sync']), direct, 'synchronised series')
        want = synced(want, spec['sync'])
    if want is not None:
        got = ctx.sut(combine_spreading_data, data, sync_radius=spec['sync'], tau=spec['tau'], R=spec['R'])
        compare(ctx, got, want, 'combined series')
        ctx.label('scaled', 'synchronised' if spec['sync'] is not None else 'not synchronised')
    compare(ctx, data, spec['series'], 'input series', rtol=0, atol=0)


@st.composite
def bad_specs(draw):
    num = draw(st.integers(2, 4))
    return {'series': [draw(series()) for _ in range(num)],
            'factors': draw(st.integers(2, 5).filter(lambda k: k != num)), 'tau': draw(st.booleans())}


def refuse(spec, ctx):
    """A number of factors that fits no number of series."""

    data = to_series(spec['series'])
    factors = [1.] * spec['factors']
    bad = ctx.raises(scale_spreading_data, data, **({'tau': factors} if spec['tau'] else {'R': factors}))
    ctx.check(bad[0] and isinstance(bad[1], TypeError), "%d factors gave %r", spec['factors'], bad[1])
    ctx.nontrivial()


@st.composite
def file_specs(draw):
    out = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(['plain', 'plain', 'xvg']))
        if kind == 'plain':
            n, cols = draw(st.integers(1, 8)), draw(st.integers(1, 3))
            first = draw(series(n))
            if draw(st.integers(0, 5)) == 0:
                first = draw(series())
                n, cols = len(first['t']), 1
            columns = [first] + [dict(draw(series(n)), t=first['t']) for _ in range(cols - 1)]
            # Times for which a series has no radius
            gap = draw(st.sampled_from([None, None, 0, 1, 2]))
            if gap is not None and gap < cols:
                columns[gap] = dict(columns[gap], gaps=draw(st.lists(st.integers(0, n - 1), max_size=n, unique=True)))
                if draw(st.integers(0, 4)) == 0:
                    # or none at all
                    columns[gap]['gaps'] = list(range(n))
            out.append({'kind': kind, 'series': columns, 'comment': draw(st.booleans())})
        else:
            num = draw(st.integers(1, 3))
            parts = []
            for _ in range(num):
                n, cols = draw(st.integers(1, 6)), draw(st.sampled_from([1, 1, 2]))
                first = draw(series(n))
                parts.append([first] + [dict(draw(series(n)), t=first['t']) for _ in range(cols - 1)])
            # Sets can be those of several graphs, and of any numbers
            out.append({'kind': kind, 'parts': parts, 'graphs': draw(st.sampled_from(['G0.S%d', 'G0.S%d', 'G%d.S0', 'G1.S%d', 'g0.s%d', 'G0.S1%d'])),
                        'end': draw(st.booleans()), 'body': draw(st.booleans())})
    return {'files': out, 'tau': draw(st.sampled_from([1.0, 2.0, 0.5])), 'R': draw(st.sampled_from([1.0, 2.0, 0.25])),
            'sync': draw(st.one_of(st.none(), st.integers(-100, 900).map(lambda k: (k + 0.3217) / 16.))),
            'missing': draw(st.sampled_from([False, False, True]))}


def write_file(path, f):
    with open(path, 'w') as fp:
        if f['kind'] == 'plain':
            if f['comment']:
                fp.write('# Time (ps) Radius (nm)\n')
            for k, t in enumerate(f['series'][0]['t']):
                fp.write(' '.join(['%.4f' % t] + ['nan' if k in s.get('gaps', []) else '%.4f' % s['r'][k] for s in f['series']])
                         + '\n')
            return
        fp.write('# Made by hand\n@with g0\n')
        for i, part in enumerate(f['parts']):
            fp.write('@target %s\n@type xy\n' % (f.get('graphs', 'G0.S%d') % i))
            if f.get('body'):
                fp.write('@    s%d symbol 1\n' % i)
            for k, t in enumerate(part[0]['t']):
                fp.write(' '.join(['%.4f' % t] + ['%.4f' % s['r'][k] for s in part]) + '\n')
            if i + 1 < len(f['parts']) or f.get('end'):
                fp.write('&\n')


def written(ctx, path, want, names):
    """The file has a Grace set of every series, with its name."""

    sets = files.read_grace(path)
    ctx.check([s[0] for s in sets] == names, "the sets are %r and not %r", [s[0] for s in sets], names)
    for (name, t, r), w in zip(sets, want):
        same(ctx, t, w['t'], 'times in the set %r' % name, rtol=1e-6, atol=1e-4)
        same(ctx, r, w['r'], 'radii in the set %r' % name, rtol=1e-6, atol=1e-4)


@recorded
def in_files(spec, ctx):
    """Files are read, and what is written is read as the same series."""

    paths, want = [], []
    indir = ctx.mkdir('in')
    for k, f in enumerate(spec['files']):
        path = os.path.join(indir, 'file%d.xvg' % k)
        write_file(path, f)
        paths.append(path)
        for part in ([f['series']] if f['kind'] == 'plain' else f['parts']):
            for s in part:
                there = [k for k in range(len(s['t'])) if k not in s.get('gaps', [])]
                want.append({'t': [s['t'][k] for k in there], 'r': [s['r'][k] for k in there]})
    names = list(paths)
    if spec['missing']:
        # A file that can not be read does not stop the others
        bad = os.path.join(indir, 'bad.xvg')
        with open(bad, 'w') as fp:
            fp.write('@target G0.S0\n@type xy\n1.0 what\n')
        names.insert(0, bad)
    tol = {'rtol': 1e-6, 'atol': 1e-4}
    got = ctx.sut(read_spreading_data, *names)
    compare(ctx, got, want, 'read series', **tol)
    ctx.check(len(set(s.name for s in got)) == len(got), "names %r", [s.name for s in got])
    ctx.nontrivial(len(want) > 1)
    ctx.label(*sorted(set(f['kind'] for f in spec['files'])))

    out = ctx.path('new', 'out.xvg')
    ctx.sut(write_spreading_data, out, got)
    compare(ctx, ctx.sut(read_spreading_data, out), want, 'series of the written file', **tol)
    written(ctx, out, want, [s.name for s in got])

    final = scaled(dict(spec, series=want))
    if spec['sync'] is not None:
        final = synced(final, spec['sync'])
    if final is not None:
        out = ctx.path('cli.xvg')
        args = ['spreading', 'view', '--noshow', '-x', out, '-t', repr(spec['tau']), '-r', repr(spec['R'])]
        if spec['sync'] is not None:
            args += ['-rs', repr(spec['sync'])]
        result = CliRunner().invoke(cli, args + paths)
        ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
        compare(ctx, ctx.sut(read_spreading_data, out), final, 'series of the command', **tol)
        written(ctx, out, final, [s.name for s in got])


SUBS = [
    Sub('combine', specs(), combine, quick=500),
    Sub('refuse', bad_specs(), refuse, quick=30),
    Sub('files', file_specs(), in_files, quick=250),
]
