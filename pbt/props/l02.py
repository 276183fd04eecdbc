"""L02: samples of contact lines are means over the averaged bins of both edges."""

import os

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import files, gen, lines
from pbt.core import Sub
from pbt.oracle import same
from pbt.props.m02 import dissipation

from strata.contact_line_analysis import sample_contact_line_edges
from strata.strata import strata as cli

ID = 'L02'
RULE = (
    "series of 1 to 5 droplets on 4x1 to 12x7 bins in each format and with fields of any scale, which move, grow and shrink on a layer, from which "
    "any labels are sampled as means or sums with any extraction area, bundle length, fixed or rolling, through the "
    "function or the command line, also mirrored. Non-trivial: a sample of edges which are not equal"
)

PLAIN = ['M', 'N', 'T', 'U', 'V', 'Y', 'U', 'inertial_energy', 'flow_angle', 'visc_diss', 'X']


@st.composite
def specs(draw):
    spec = draw(lines.systems())
    spec['recenter'] = draw(st.booleans())
    spec['sum'] = draw(st.booleans())
    spec['labels'] = draw(st.permutations(PLAIN))[:draw(st.integers(1, 4))]
    spec['dt'] = draw(st.sampled_from(gen.TIME_STEPS))
    spec['viscosity'] = draw(st.sampled_from([None, 1.0]))
    spec['save'] = draw(st.booleans())
    if spec['src'] == 'gmx':
        spec['unit'] = draw(st.sampled_from(gen.UNITS))
    return spec


def values_of(spec, label, edge, sign, viscosity):
    """Values of the bins of an edge, with radial flow."""

    f = edge['fields']
    if label == 'U':
        return sign * f['U']
    if label == 'X':
        return np.repeat(((edge['i'] + np.arange(f['M'].shape[0]) + 0.5) * spec['dx'])[:, None], f['M'].shape[1], axis=1)
    if label == 'Y':
        return np.repeat(((np.arange(f['M'].shape[1]) + 0.5) * spec['dy'])[None, :], f['M'].shape[0], axis=0)
    if label == 'inertial_energy':
        return 0.5 * f['M'] * (f['U']**2 + f['V']**2)
    if label == 'visc_diss':
        return dissipation(sign * f['U'], f['V'], spec['dx'], spec['dy'], viscosity)
    return f[label]


def expected(spec, pair, label, viscosity):
    """Value and deviation, each None if it is not judged or there is none."""

    values, stds = [], []
    unit = spec.get('unit', 1.)
    for edge, sign in zip(pair, (-1., 1.)):
        m = edge['fields']['M']
        cutoff = 0.5 * (m.max() + m.min()) if spec['cutoff'] is None else spec['cutoff']
        # Means of three maps are not exact
        if spec['average'] == 3 and np.any((np.abs(m - cutoff) < 1e-9) & (m.max() > m.min())):
            return None, None
        keep = m >= cutoff
        if not keep.any() and not spec['sum']:
            return None, None
        if label == 'flow_angle':
            pu = (sign * edge['fields']['U'] * m)[keep].sum()
            pv = (edge['fields']['V'] * m)[keep].sum()
            if np.hypot(pu, pv) < 1e-3 * unit or pu < 0 and abs(pv) < 1e-3 * unit:
                return None, None
            values.append(np.degrees(np.arctan2(pv, pu)))
        else:
            v = values_of(spec, label, edge, sign, viscosity)[keep]
            values.append(v.sum() if spec['sum'] else v.mean())
            stds.append(v.std() if v.size else 0.)
    return (np.sum(values) if spec['sum'] else np.mean(values)), (None if spec['sum'] or not stds else np.mean(stds))


def sample(spec, ctx):
    indir = ctx.mkdir('in')
    want = lines.model(spec, spec['recenter'])
    if want is None:
        ctx.label('no contact line in a map')
        return
    labels = list(dict.fromkeys(spec['labels']))
    small = any(min(e['fields']['M'].shape) < 3 for pair in want for e in pair)
    if small:
        labels = [l for l in labels if l != 'visc_diss']
    if spec['sum']:
        labels = [l for l in labels if l != 'flow_angle']
    if not labels:
        return
    lines.write_series(spec, indir)
    before = files.snapshot(indir)
    base, out = os.path.join(indir, 'map_'), ctx.path('new', 'out.xvg')
    begin, end = lines.file_options(spec)
    kw = lines.settings(spec)
    viscosity = 8.44e-4 if spec['viscosity'] is None or spec['cli'] else spec['viscosity']
    gmx, unit = spec['src'] == 'gmx', spec.get('unit', 1.)
    save = spec['cli'] or spec['save']
    n, dt = spec['average'], spec['dt']
    times = [(n // 2 + k * (1 if spec['rolling'] else n)) * dt for k in range(len(want))]

    # Values and what they are compared with to, for each label and bundle
    table = []
    for l in labels:
        column = []
        for pair in want:
            value, std = expected(spec, pair, l, viscosity)
            if l == 'X' and not all(e['certain'] for e in pair):
                value = None
            size = unit if l in 'NTUV' else 1.
            if l == 'inertial_energy':
                size = unit**2
            elif l == 'visc_diss':
                size = viscosity * 300. / min(spec['dx'], spec['dy'])**2 * unit**2
            elif l == 'flow_angle':
                size = 180.
            if spec['sum']:
                size *= sum(e['fields']['M'].size for e in pair)
            column.append((value, std, size))
            ctx.nontrivial(value is not None)
        table.append(column)
        ctx.label(l)
    ctx.label('sum' if spec['sum'] else 'mean', spec['src'], '%s bundles' % ('no' if not want else 'some'))

    if spec['cli']:
        args = ['contact_line', 'sample', base] + labels + [
            '-av', str(n), '--ext', spec['ext'], '-b', str(begin), '--save', out, '-dt', repr(dt),
            '--rolling' if spec['rolling'] else '--norolling', '--recenter' if spec['recenter'] else '--norecenter',
            '--process', 'sum' if spec['sum'] else 'mean'] + lines.as_args(kw)
        if end is not None:
            args += ['-e', str(end)]
        ctx.called = True
        result = CliRunner().invoke(cli, args)
        ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
        ctx.label('command line')
    else:
        if end is not None:
            kw['end'] = end
        if save:
            kw['save'] = out
        if spec['viscosity'] is not None:
            kw['viscosity'] = viscosity
        got_times, samples = ctx.sut(
            sample_contact_line_edges, base, labels, average=n, rolling=spec['rolling'], recenter=spec['recenter'],
            dt=dt, sum=spec['sum'], begin=begin, ext=spec['ext'], quiet=True, **kw)
        same(ctx, got_times, times, 'times')
        ctx.check(len(samples) == len(labels), "samples of %d labels and not %d", len(samples), len(labels))
        for l, rows, column in zip(labels, samples, table):
            ctx.check(len(rows) == len(column), "%d samples of %s and not %d", len(rows), l, len(column))
            for k, ((value, std), (v, s, size)) in enumerate(zip(rows, column)):
                tol = (1e-6 if gmx else 1e-3) * size
                if v is not None:
                    same(ctx, value, v, 'sample %d of %s' % (k, l), rtol=1e-6 if gmx else 1e-3, atol=tol)
                if s is not None:
                    same(ctx, std, s, 'deviation %d of %s' % (k, l), rtol=1e-5 if gmx else 1e-3, atol=2 * tol)
    ctx.check(files.snapshot(indir) == before, "the input files were changed")
    if not save:
        ctx.check(not os.path.exists(out), "output was written without being asked for")
        return
    with open(out) as fp:
        rows = [[float(v) for v in line.split()] for line in fp if line.strip() and line[0] != '#']
    ctx.check(len(rows) == len(want), "%d rows and not %d", len(rows), len(want))
    for k, row in enumerate(rows):
        ctx.check(len(row) == 1 + len(labels), "row %r has not the samples of %r", row, labels)
        same(ctx, row[0], times[k], 'written time', atol=6e-4)
        for l, got, column in zip(labels, row[1:], table):
            v, _, size = column[k]
            if v is not None:
                same(ctx, got, v, 'written sample %d of %s' % (k, l), rtol=1e-4 if gmx else 1e-3,
                     atol=(2e-6 if gmx else 1e-3) * size)


def mirrored(spec, ctx):
    """Mirrored along x the droplets have the same samples, and the left is the right edge."""

    labels = [l for l in dict.fromkeys(spec['labels']) if l not in ('X', 'visc_diss', 'flow_angle')]
    want = lines.model(spec, spec['recenter'])
    if want is None or not labels:
        return
    # Means of three maps may be on either side of the cutoff
    if spec['average'] == 3:
        return
    kw = lines.settings(spec)
    got = []
    for turn in (False, True):
        indir = ctx.mkdir('turned' if turn else 'in')
        xs, ys = gen.mesh(spec)
        for k in range(len(spec['frames'])):
            fields = lines.frame_fields(spec, k)
            if turn:
                fields = {l: (-v[::-1] if l == 'U' else v[::-1]) for l, v in fields.items()}
            data = {l: v.ravel() for l, v in fields.items()}
            data.update(X=xs, Y=ys)
            files.write_map(os.path.join(indir, 'map_%05d%s' % (spec['first'] + k, spec['ext'])), data, gen.info_of(spec), 'gmx')
        got.append(ctx.sut(
            sample_contact_line_edges, os.path.join(indir, 'map_'), labels, average=spec['average'], rolling=spec['rolling'],
            dt=spec['dt'], sum=spec['sum'], begin=spec['first'], ext=spec['ext'], quiet=True, **kw))
    same(ctx, got[1][0], got[0][0], 'times of mirrored droplets')
    for l, a, b in zip(labels, got[0][1], got[1][1]):
        va, vb = ([np.nan if v[0] is None else v[0] for v in rows] for rows in (a, b))
        same(ctx, vb, va, 'samples of %s of mirrored droplets' % l, rtol=1e-6, atol=1e-4 * min(1., spec.get('unit', 1.))**2)
    ctx.nontrivial(len(got[0][0]) > 0)


@st.composite
def mirror_specs(draw):
    spec = draw(specs())
    spec['begin'], spec['end'] = 0, None
    return spec


@st.composite
def refused_specs(draw):
    spec = draw(specs())
    labels = [l for l in spec['labels'] if l not in ('flow_angle', 'visc_diss')][:2]
    labels.insert(draw(st.integers(0, len(labels))), draw(st.sampled_from(['flow_angle', 'flow_angle', 'nothing'])))
    spec['labels'] = labels
    spec['sum'] = spec['sum'] or 'flow_angle' in labels
    return spec


def refused(spec, ctx):
    """There is no sum of angles, and no sample of a label that is not there: not of the other labels either."""

    want = lines.model(spec, spec['recenter'])
    if not want:
        return
    indir, out = ctx.mkdir('in'), ctx.path('out.xvg')
    lines.write_series(spec, indir)
    base = os.path.join(indir, 'map_')
    begin, end = lines.file_options(spec)
    kw = lines.settings(spec)
    kw.update({} if end is None else {'end': end}, **({'save': out} if spec['save'] else {}))
    ended = None
    try:
        ended, got = ctx.raises(
            sample_contact_line_edges, base, spec['labels'], average=spec['average'], rolling=spec['rolling'],
            recenter=spec['recenter'], sum=spec['sum'], begin=begin, ext=spec['ext'], quiet=True, **kw)
    except SystemExit as exc:
        ended, got = True, exc
        ctx.check(exc.code not in (None, 0), "%r ended as if all was well", spec['labels'])
    ctx.check(ended or got is None, "%r were sampled%s as %r", spec['labels'], ' and added' if spec['sum'] else '', got)
    ctx.nontrivial()
    ctx.label('sum' if spec['sum'] else 'mean', *[l for l in spec['labels'] if l in ('flow_angle', 'nothing')])
    if os.path.exists(out):
        with open(out) as fp:
            rows = [line for line in fp if line.strip() and line[0] != '#']
        ctx.check(not rows, "samples of %r were written: %r", spec['labels'], rows)


SUBS = [
    Sub('sample', specs(), sample, quick=700),
    Sub('refused', refused_specs(), refused, quick=30),
    Sub('mirrored', mirror_specs(), mirrored, quick=150),
]
