"""N01: collected interfaces are the edges of all layers at their absolute positions."""

import os

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import drops, files
from pbt.core import Sub
from pbt.oracle import same

from strata.interface.collect import collect_interfaces
from strata.strata import strata as cli

ID = 'N01'
RULE = (
    "histories of 1 to 8 droplets of at least two layers on 5x2 to 14x6 bins of a periodic system, which move across "
    "the boundary, lift, land, grow and shrink, in each format, through the function or the command line. "
    "Non-trivial: an edge crosses the boundary, or layers come or go, in at least two maps"
)


@st.composite
def specs(draw):
    spec = draw(drops.systems(max_frames=8, min_layers=2))
    spec['recenter'] = draw(st.sampled_from([None, None, 'zero', 'com']))
    spec['ylims'] = draw(st.sampled_from([None, None, None, [None, 3], [1, None]]))
    spec['cli'] = draw(st.booleans())
    spec['ext'] = draw(st.sampled_from(['.dat', '.map']))
    spec['begin'] = draw(st.sampled_from([0, 0, 0, 1]))
    spec['end'] = draw(st.sampled_from([None, None, 2, 4]))
    return spec


def read_interface(path):
    with open(path) as fp:
        rows = [[float(v) for v in l.split()] for l in fp if l.strip() and l[0] not in '#@&']
    return np.array(rows).reshape(len(rows), 2)


def collect(spec, ctx):
    nx, ny, dx, dy = (spec[k] for k in ('nx', 'ny', 'dx', 'dy'))
    r = drops.radius_of(spec)
    if r is None:
        return
    frames = spec['frames']
    if spec['recenter'] == 'com' and any(l < 0 or rr >= nx for f in frames for _, l, rr in f):
        # The centre of mass is not defined for droplets across the boundary
        spec['recenter'] = 'zero'
    indir, outdir = ctx.mkdir('in'), ctx.path('out')
    masses = drops.write_frames(spec, indir, ext=spec['ext'])
    begin = spec['begin']
    end = len(frames) if spec['end'] is None else min(len(frames), begin + spec['end'])
    kw = {'recenter': spec['recenter'], 'cutoff': spec['cutoff'], 'cutoff_radius': r, 'cutoff_bins': spec['bins'],
          'ext': spec['ext'], 'begin': spec['first'] + begin}
    lo, hi = spec['ylims'] or (None, None)
    if spec['ylims']:
        kw['ylims'] = tuple(None if v is None else spec['y0'] + dy * (v + s) for v, s in ((lo, 0.1), (hi, 0.9)))
    if spec['end'] is not None:
        kw['end'] = spec['first'] + begin + spec['end'] - 1

    used = []
    for k in range(begin, end):
        frame = [f for f in frames[k] if (lo is None or f[0] >= lo) and (hi is None or f[0] <= hi)]
        if len(frame) < 2:
            ctx.label('too few layers')
            return
        used.append((k, frame))
    if used and any(l < 0 or rr >= nx for _, l, rr in used[0][1]):
        # The edges of the first interface have to be inside of the box
        ctx.label('begins across the boundary')
        return
    for (_, a), (_, b) in zip(used, used[1:]):
        if not all(drops.valid(drops.reference(a, j), (l, rr), nx) for j, l, rr in b):
            return

    before = files.snapshot(indir)
    base, output = os.path.join(indir, 'map_'), os.path.join(outdir, 'int_')
    if spec['cli']:
        args = ['interface', 'collect', base, output, '--recenter', spec['recenter'] or 'off',
                '-cr', repr(r), '-cb', str(spec['bins']), '-b', str(kw['begin']), '--ext', spec['ext']]
        if spec['cutoff'] is not None:
            args += ['-co', repr(spec['cutoff'])]
        if 'end' in kw:
            args += ['-e', str(kw['end'])]
        if 'ylims' in kw:
            args += ['--ylim'] + ['none' if v is None else repr(v) for v in kw['ylims']]
        ctx.called = True
        result = CliRunner().invoke(cli, args)
        ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
        ctx.label('command line')
    else:
        if not kw['recenter']:
            kw.pop('recenter')
        ctx.sut(collect_interfaces, base, output, quiet=True, **kw)
    ctx.check(files.snapshot(indir) == before, "the input files were changed")

    names = ['int_%05d.xvg' % (spec['first'] + k) for k, _ in used]
    found = sorted(os.listdir(outdir)) if os.path.exists(outdir) else []
    ctx.check(found == names, "output files %r and not %r", found, names)

    for (k, frame), name in zip(used, names):
        xl = np.array([spec['x0'] + dx * (l + 0.5) for _, l, _ in frame])
        xr = np.array([spec['x0'] + dx * (rr + 0.5) for _, _, rr in frame])
        ys = np.array([dy * (j - frame[0][0]) for j, _, _ in frame])
        xs = np.append(xl, xr[::-1])
        if spec['recenter'] == 'zero':
            xs = xs - 0.5 * (xl[0] + xr[0])
        elif spec['recenter'] == 'com':
            m = masses[k].sum(axis=1)
            xs = xs - (m * (spec['x0'] + dx * (np.arange(nx) + 0.5))).sum() / m.sum()
        got = read_interface(os.path.join(outdir, name))
        same(ctx, got, np.array([xs, np.append(ys, ys[::-1])]).T, 'interface of map %d' % k, atol=2e-3, rtol=1e-5)
    crossed = any(l // nx or rr // nx for _, f in used for _, l, rr in f)
    layers = len(set((f[0][0], f[-1][0]) for _, f in used)) > 1
    ctx.nontrivial(len(used) > 1 and (crossed or layers))
    ctx.label('crosses' if crossed else 'inside', 'layers change' if layers else 'layers stay')


SUBS = [Sub('collect', specs(), collect, quick=700)]
