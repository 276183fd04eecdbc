"""M01: samples of a series are the mean or sum over the selected bins."""

import os

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import avg, files, gen
from pbt.core import Sub
from pbt.oracle import same
from pbt.props.m02 import dissipation
from pbt.props.m04 import angle_between

from strata.sample_average import sample_average_files
from strata.strata import strata as cli

ID = 'M01'
RULE = (
    "series of 1 to 5 maps of 1x1 to 7x7 bins in each format and of any scale, from which any labels are sampled as means or sums, "
    "within limits on any sides and above a given or the default cutoff of any label, through the function or the "
    "command line. Non-trivial: some but not all bins are sampled, or several maps with different samples"
)

PLAIN = ['M', 'N', 'T', 'U', 'V', 'X', 'Y']
SPECIAL = ['inertial_energy', 'flow_angle', 'visc_diss']


@st.composite
def specs(draw):
    spec = draw(avg.series(max_maps=5, units=True, max_nx=7, max_ny=7))
    spec['src'] = draw(st.sampled_from(['gmx', 'gmx', 'gmx', 'simple', 'simple', 'simple_plain', 'simple_plain', 'mixed', 'mixed2']))
    spec['sum'] = draw(st.booleans())
    labels = draw(st.permutations(PLAIN + SPECIAL * 2))
    spec['labels'] = labels[:draw(st.integers(1, 4))]
    spec['dt'] = draw(st.sampled_from(gen.TIME_STEPS))
    spec['lims'] = [draw(gen.limits(spec['nx'])), draw(gen.limits(spec['ny']))] if draw(st.booleans()) else None
    spec['cutoff_label'] = draw(st.sampled_from([None, 'M', 'M', 'M', 'T', 'N', 'U']))
    spec['cutoff'] = draw(st.sampled_from([None, None, 0.0, 1 / 16., 4.0, 8.0, 12.0]))
    spec['viscosity'] = draw(st.sampled_from([None, 1.0, 0.25]))
    spec['output'] = draw(st.booleans())
    if spec['src'] == 'gmx' and spec['cutoff'] is not None:
        spec['cutoff'] *= spec['unit']
    return spec


def values_of(label, grid, viscosity):
    f = grid.fields
    xs, ys = grid.centers()
    if label == 'X':
        return np.repeat(xs[:, None], len(ys), axis=1)
    if label == 'Y':
        return np.repeat(ys[None, :], len(xs), axis=0)
    if label == 'inertial_energy':
        return 0.5 * f['M'] * (f['U']**2 + f['V']**2)
    if label == 'visc_diss':
        return dissipation(f['U'], f['V'], grid.dx, grid.dy, viscosity)
    return f[label]


def sample(spec, ctx):
    indir = ctx.mkdir('in')
    avg.write_series(spec, indir)
    before = files.snapshot(indir)
    base = os.path.join(indir, 'map_')
    grids = [avg.grid_of(m) for m in avg.map_specs(spec)]
    begin = spec['begin']
    num = len(grids)
    end = num if spec['end'] is None else min(num, begin + spec['end'])
    chosen = list(range(begin, max(begin, end)))

    # Limits in bins
    lims = None
    if spec['lims']:
        lims = []
        for lim, c, d in zip(spec['lims'], grids[0].centers(), (spec['dx'], spec['dy'])):
            lims.append(list(gen.limits_of(lim, c, d)))
        cut = [avg.cut(g, *lims) for g in grids]
        if cut and cut[0] is None:
            ctx.label('nothing inside of the limits')
            return
    else:
        cut = grids
    nx, ny = cut[0].shape if cut else (0, 0)
    # A single column or row of a simple map does not tell its spacing
    thin = min(nx, ny) < 3
    labels = list(dict.fromkeys(l for l in spec['labels'] if not (l == 'visc_diss' and thin)
                                and not (l == 'flow_angle' and spec['sum'])))
    if not labels:
        return
    viscosity = 8.77e-4 if spec['cli'] or spec['viscosity'] is None else spec['viscosity']
    cutoff_label = spec['cutoff_label']

    unit = spec['unit'] if spec['src'] == 'gmx' else 1.
    want = {l: [] for l in labels}
    partial = False
    for k in chosen:
        g = cut[k]
        keep = np.ones(g.shape, dtype=bool)
        if cutoff_label is not None:
            c = g.fields[cutoff_label]
            cutoff = 0.5 * (c.max() + c.min()) if spec['cutoff'] is None else spec['cutoff']
            keep = c >= cutoff
        partial = partial or 0 < keep.sum() and (keep.sum() < grids[k].fields['M'].size)
        for l in labels:
            if l == 'flow_angle':
                m = g.fields['M'][keep]
                pu, pv = (g.fields['U'][keep] * m).sum(), (g.fields['V'][keep] * m).sum()
                ok = np.hypot(pu, pv) > 1e-3 * unit**2
                want[l].append((np.degrees(np.arctan2(pv, pu)) if ok else None, None))
            else:
                v = values_of(l, g, viscosity)[keep]
                if spec['sum']:
                    want[l].append((v.sum(), None))
                else:
                    # The mean of no bins is not judged
                    want[l].append((v.mean(), v.std()) if v.size else (None, 0))
    ctx.nontrivial(partial or any(len({w[0] for w in want[l]}) > 1 for l in labels))
    ctx.label('sum' if spec['sum'] else 'mean', '%d labels' % len(labels), spec['src'])
    if cutoff_label is not None:
        ctx.label('cutoff')
    if lims:
        ctx.label('limits')

    def judge(l, got, w, rtol, what):
        if w is None:
            return
        if l == 'flow_angle':
            ctx.check(angle_between(got, w) < max(1e-3, 2e-5 * 180), "%s is %r and not %r", what, got, w)
            return
        if not gmx and l in ('X', 'Y'):
            rtol = max(rtol, 1e-5)
        size = (1e-6 if gmx else 1e-3) * (unit**3 if l == 'inertial_energy' else unit)
        if l == 'visc_diss':
            # In units of the fourth power of the size of bins
            size = (1e-6 if gmx else 2e-3) * viscosity * 300. / min(spec['dx'], spec['dy'])**2 * unit**2
        elif l in 'XY':
            size = 2e-6 * (1. + abs(w)) if gmx else 1e-4 * (1. + abs(w))
            if spec['sum']:
                size *= nx * ny
        same(ctx, got, w, what, rtol=rtol, atol=size)

    gmx = spec['src'] == 'gmx'
    first, dt = spec['first'] + begin, spec['dt']
    last = None if spec['end'] is None else first + spec['end'] - 1
    out = ctx.path('new', 'out.xvg')
    written = True
    if spec['cli'] and (last is None or last >= 0):
        args = ['sample', base] + labels + ['-o', out, '-dt', repr(dt), '-b', str(first), '--ext', spec['ext'],
                                            '--process', 'sum' if spec['sum'] else 'mean']
        if last is not None:
            args += ['-e', str(last)]
        if lims:
            for name, pair in zip(('--xlim', '--ylim'), lims):
                args += [name] + ['none' if v is None else repr(v) for v in pair]
        if cutoff_label is not None:
            args += ['-cl', cutoff_label]
            if spec['cutoff'] is not None:
                args += ['-co', repr(spec['cutoff'])]
        ctx.called = True
        result = CliRunner().invoke(cli, args)
        ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
        ctx.label('command line')
    else:
        kw = {}
        written = spec['output']
        if written:
            kw['output'] = out
        if lims:
            kw.update(xlim=tuple(lims[0]), ylim=tuple(lims[1]))
        if cutoff_label is not None:
            kw['cutoff_label'] = cutoff_label
            if spec['cutoff'] is not None:
                kw['cutoff'] = spec['cutoff']
        if spec['viscosity'] is not None:
            kw['viscosity'] = viscosity
        if last is not None:
            kw['end'] = last
        got = ctx.sut(sample_average_files, base, labels, dt=dt, sum=spec['sum'], begin=first, ext=spec['ext'],
                      verbose=False, quiet=True, **kw)
        ctx.check(got is not None and len(got) == 2, "nothing was sampled: %r", got)
        times, samples = got
        same(ctx, times, [k * dt for k in range(len(chosen))], 'times')
        ctx.check(len(samples) == len(labels), "samples of %d labels and not %d", len(samples), len(labels))
        for l, values in zip(labels, samples):
            ctx.check(len(values) == len(chosen), "%d samples of %s and not %d", len(values), l, len(chosen))
            for k, (v, w) in enumerate(zip(values, want[l])):
                judge(l, v, w[0], 1e-6 if gmx else 2e-4, 'sample %d of %s' % (k, l))
        if not written:
            ctx.check(not os.path.exists(out), "output was written without being asked for")

    ctx.check(files.snapshot(indir) == before, "the input files were changed")
    if not written:
        return
    with open(out) as fp:
        rows = [[float(v) for v in line.split()] for line in fp if line.strip() and line[0] != '#']
    ctx.check(len(rows) == len(chosen), "%d rows and not %d", len(rows), len(chosen))
    for k, row in enumerate(rows):
        same(ctx, row[0], k * dt, 'written time', atol=6e-4)
        at = 1
        for l in labels:
            value, std = want[l][k]
            judge(l, row[at], value, 1e-4 if gmx else 3e-4, 'written sample %d of %s' % (k, l))
            at += 1
            if std is not None:
                # The deviation is next to the mean
                if value is not None:
                    judge(l if l not in 'XY' else 'M', row[at], std, 1e-3, 'written deviation %d of %s' % (k, l))
                at += 1
        ctx.check(at == len(row), "row %r has not the samples of %r", row, labels)


@st.composite
def refused_specs(draw):
    spec = draw(avg.series(max_maps=3, max_nx=4, max_ny=4))
    labels = draw(st.permutations(PLAIN + ['inertial_energy']))[:draw(st.integers(0, 2))]
    labels.insert(draw(st.integers(0, len(labels))), draw(st.sampled_from(['flow_angle', 'flow_angle', 'nothing'])))
    spec.update({'labels': labels, 'sum': 'flow_angle' in labels or draw(st.booleans()), 'save': draw(st.booleans())})
    return spec


def refused(spec, ctx):
    """There is no sum of angles, and no sample of a label that is not there: not of the other labels either."""

    indir, out = ctx.mkdir('in'), ctx.path('out.xvg')
    avg.write_series(spec, indir)
    base, first = os.path.join(indir, 'map_'), spec['first']
    if spec['cli']:
        args = ['sample', base] + spec['labels'] + ['-o', out, '-b', str(first), '--ext', spec['ext'],
                                                    '--process', 'sum' if spec['sum'] else 'mean']
        ctx.called = True
        result = CliRunner().invoke(cli, args)
        ctx.check(result.exception is None or isinstance(result.exception, SystemExit), "%r ended with %r", args, result.exception)
        told = result.output
    else:
        raised, got = ctx.raises(sample_average_files, base, spec['labels'], sum=spec['sum'], begin=first, ext=spec['ext'],
                                 quiet=True, **({'output': out} if spec['save'] else {}))
        ctx.check(raised or got is None, "%r were sampled%s as %r", spec['labels'], ' and added' if spec['sum'] else '', got)
        told = 'raised' if raised else ''
    ctx.check(told or ''.join(ctx.terminal.take()).strip(), "nothing is told of %r which are not sampled", spec['labels'])
    ctx.nontrivial()
    ctx.label('sum' if spec['sum'] else 'mean', *[l for l in spec['labels'] if l in ('flow_angle', 'nothing')])
    if os.path.exists(out):
        with open(out) as fp:
            rows = [line for line in fp if line.strip() and line[0] != '#']
        ctx.check(not rows, "samples of %r were written: %r", spec['labels'], rows)


SUBS = [
    Sub('sample', specs(), sample, quick=900),
    Sub('refused', refused_specs(), refused, quick=30),
]
