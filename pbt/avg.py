"""A model of the `average` command, and the runner that compares the command with it."""

import os

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import files, gen
from pbt.oracle import mean_map, same, same_ints, same_pair, weighted_mean

from strata.average import average
from strata.strata import strata as cli

LABELS = ('N', 'T', 'M', 'U', 'V')


class Grid:
    """A map as arrays of shape (nx, ny), x0 and y0 are the lower corner of the first bin."""

    def __init__(self, x0, y0, dx, dy, fields):
        self.x0, self.y0, self.dx, self.dy = x0, y0, dx, dy
        self.fields = fields

    @property
    def shape(self):
        return self.fields['M'].shape

    def centers(self):
        nx, ny = self.shape
        return self.x0 + self.dx * (np.arange(nx) + 0.5), self.y0 + self.dy * (np.arange(ny) + 0.5)


def grid_of(spec, f4=True):
    data, info = gen.build(spec)
    shape = info['shape']
    fields = {l: data[l].astype('f4').astype(float).reshape(shape) for l in LABELS}
    return Grid(spec['x0'], spec['y0'], spec['dx'], spec['dy'], fields)


def cut(grid, xlim, ylim):
    xs, ys = grid.centers()

    def keep(vs, lim):
        lo, hi = lim
        return np.array([(lo is None or v >= lo) and (hi is None or v <= hi) for v in vs], dtype=bool)

    kx, ky = keep(xs, xlim), keep(ys, ylim)
    if not (kx.any() and ky.any()):
        return None
    i0, j0 = int(np.argmax(kx)), int(np.argmax(ky))
    return Grid(grid.x0 + i0 * grid.dx, grid.y0 + j0 * grid.dy, grid.dx, grid.dy,
                {l: v[kx][:, ky] for l, v in grid.fields.items()})


def bins_to(grid, x):
    """Position of x in units of bins, from the first bin centre."""
    return (x - (grid.x0 + 0.5 * grid.dx)) / grid.dx


def ambiguous(position):
    """Whether rounding a position could go either way with float noise."""
    return abs(position - np.floor(position) - 0.5) < 1e-3


def recenter(grids, shifts):
    """Shift maps by whole bins and keep the columns that all of them have."""

    nx = grids[0].shape[0]
    first = max(-k for k in shifts)
    last = min(nx - 1 - k for k in shifts)
    if last - first < 1:
        return None
    return [
        Grid(g.x0 + first * g.dx, g.y0, g.dx, g.dy,
             {l: v[first + k:last + k + 1] for l, v in g.fields.items()})
        for g, k in zip(grids, shifts)
    ]


def center_of_mass(grid):
    xs, _ = grid.centers()
    m = grid.fields['M'].sum(axis=1)
    return float((xs * m).sum() / m.sum())


def mean(grids):
    flat = [{l: v.ravel() for l, v in g.fields.items()} for g in grids]
    g = grids[0]
    out = mean_map(flat)
    return Grid(g.x0, g.y0, g.dx, g.dy, {l: out[l].reshape(g.shape) for l in LABELS})


def combine(grid, nx, ny):
    mx, my = grid.shape[0] // nx, grid.shape[1] // ny

    def blocks(l):
        a = grid.fields[l][:mx * nx, :my * ny]
        return a.reshape(mx, nx, my, ny).transpose(1, 3, 0, 2).reshape(nx * ny, mx, my)

    out = {'N': blocks('N').sum(axis=0), 'M': blocks('M').sum(axis=0)}
    out['T'] = weighted_mean(blocks('T'), blocks('N'))
    for l in ('U', 'V'):
        out[l] = weighted_mean(blocks(l), blocks('M'))
    return Grid(grid.x0, grid.y0, grid.dx * nx, grid.dy * ny, out)


def supersample(grid, n):
    """Split bins in n x n, then take the mean over the n - 1 closest on each side."""

    fine = {l: np.repeat(np.repeat(v, n, axis=0), n, axis=1) for l, v in grid.fields.items()}
    nx, ny = fine['M'].shape
    weights = {'U': 'M', 'V': 'M', 'T': 'N'}
    out = {l: np.zeros((nx, ny)) for l in LABELS}
    for i in range(nx):
        for j in range(ny):
            box = np.s_[max(0, i - n + 1):i + n, max(0, j - n + 1):j + n]
            for l in LABELS:
                if l in weights:
                    w = fine[weights[l]][box]
                    total = w.sum()
                    out[l][i, j] = (fine[l][box] * w).sum() / total if total != 0 else 0.0
                else:
                    out[l][i, j] = fine[l][box].mean()
    return Grid(grid.x0, grid.y0, grid.dx / n, grid.dy / n, out)


# Specs --------------------------------------------------------------------------------------

@st.composite
def series(draw, max_maps=6, fill=None, first=None, units=False, **kwargs):
    """A series of maps on a common grid, and how it is averaged."""

    g = draw(gen.grids(**kwargs))
    num = draw(st.integers(1, max_maps))
    n = g['nx'] * g['ny']
    g['maps'] = [draw(gen.field_bytes(n, fill=fill)) for _ in range(num)]
    g['first'] = draw(st.sampled_from([1, 1, 2, 5, 0, 9])) if first is None else first
    g['begin'] = draw(st.sampled_from([0, 0, 0, 0, 1]))
    g['end'] = draw(st.sampled_from([None, None, None, None, 1, 2, 3, 4]))
    # Most often there is at least one bundle
    g['group'] = draw(st.sampled_from([1, min(num, 2), max(1, num // 2), num, min(num, 3), 4]))
    g['rolling'] = draw(st.booleans())
    g['cli'] = draw(st.booleans())
    g['src'] = 'gmx'
    if units:
        g['unit'] = draw(st.sampled_from(gen.UNITS))
    g['ext'] = draw(st.sampled_from(['.dat', '.dat', '.map']))
    return g


def map_specs(spec):
    grid = {k: spec[k] for k in ('nx', 'ny', 'dx', 'dy', 'x0', 'y0')}
    if spec.get('src', 'gmx') == 'gmx':
        # The other formats have a few decimals only
        grid['unit'] = spec.get('unit', 1.)
    return [dict(grid, fields=f) for f in spec['maps']]


def write_series(spec, indir):
    for i, m in enumerate(map_specs(spec)):
        data, info = gen.build(m)
        files.write_map(os.path.join(indir, 'map_%05d%s' % (spec['first'] + i, spec['ext'])), data, info, spec['src'], i)


def bundles(spec):
    """Bundles of indices of maps, with the number of their output file."""

    begin = spec['begin']
    end = len(spec['maps']) if spec['end'] is None else min(len(spec['maps']), begin + spec['end'])
    found = list(range(begin, max(end, begin)))
    group = spec['group']
    step = 1 if spec['rolling'] else group
    number = spec['first'] + begin if spec['rolling'] else -(-(spec['first'] + begin) // group)
    out = []
    for k, i in enumerate(range(0, len(found) - group + 1, step)):
        out.append((found[i:i + group], number + k))
    return out


def as_args(opts):
    args = []
    for key, value in opts.items():
        args.append('--' + key)
        if isinstance(value, (tuple, list)):
            args += ['none' if v is None else repr(v) for v in value]
        else:
            args.append(str(value))
    return args


def run(spec, ctx, opts, expect):
    """Average the series of a spec and compare all outputs.

    `expect(grids)` returns the expected map of a bundle.
    """

    indir, outdir = ctx.mkdir('in'), ctx.path('out')
    write_series(spec, indir)
    before = files.snapshot(indir)
    base, output = os.path.join(indir, 'map_'), os.path.join(outdir, 'avg_')
    begin = spec['first'] + spec['begin']
    end = None if spec['end'] is None else begin + spec['end'] - 1

    if spec['cli'] and (end is None or end >= 0):
        args = ['average', base, output, str(spec['group']), '-b', str(begin), '--ext', spec['ext']]
        if end is not None:
            args += ['-e', str(end)]
        if spec['rolling']:
            args.append('--rolling')
        args += as_args(opts)
        ctx.called = True
        result = CliRunner().invoke(cli, args)
        ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
        ctx.label('command line')
    else:
        kw = {k.replace('-', '_'): tuple(v) if isinstance(v, list) else v for k, v in opts.items()}
        if end is not None:
            kw['end'] = end
        ctx.sut(average, base, output, group=spec['group'], rolling=spec['rolling'], begin=begin,
                ext=spec['ext'], quiet=True, **kw)

    ctx.check(files.snapshot(indir) == before, "the input files were changed")

    wanted = bundles(spec)
    names = sorted('avg_%05d%s' % (n, spec['ext']) for _, n in wanted)
    found = sorted(files.snapshot(outdir)) if os.path.exists(outdir) else []
    ctx.check(found == names, "output files %r and not %r", found, names)

    grids = [grid_of(m) for m in map_specs(spec)]
    for inds, number in wanted:
        want = expect([grids[i] for i in inds])
        path = os.path.join(outdir, 'avg_%05d%s' % (number, spec['ext']))
        compare(ctx, path, want, spec['src'], 'bundle %r' % inds, spec.get('unit', 1.))
        ctx.nontrivial(bool(np.any(want.fields['M'])))
    ctx.label('%s bundles' % ('no' if not wanted else 'one' if len(wanted) == 1 else 'several'))
    return wanted


def compare(ctx, path, want, src, what, unit=1.):
    data, info = files.load_gmx(path)
    nx, ny = want.shape
    same_ints(ctx, info['shape'], (nx, ny), 'shape of %s' % what)
    gmx = src == 'gmx'
    size = [max(abs(want.x0), abs(want.y0)) + 1., max(nx * want.dx, ny * want.dy)]
    tol = 3e-6 if gmx else 1e-4
    if gmx:
        same_pair(ctx, info['spacing'], (want.dx, want.dy), 'spacing of %s' % what, atol=tol)
        # Maps of the simple format have their origin at the first bin centre, which stays as it is
        same_pair(ctx, info['origin'], (want.x0, want.y0), 'origin of %s' % what, atol=tol)
    else:
        spacing = [d if n > 1 else s for d, n, s in zip((want.dx, want.dy), (nx, ny), info['spacing'])]
        same_pair(ctx, info['spacing'], spacing, 'spacing of %s' % what, atol=tol)
    rtol, atol = (1e-6, 2e-6 * unit) if gmx else (2e-5, 2e-4)
    # A bin is only in the file if it has mass
    mass = want.fields['M'].ravel()
    same(ctx, data['M'], mass, 'M of %s' % what, rtol=rtol, atol=atol)
    for l in ('N', 'T', 'U', 'V'):
        v = np.where(mass == 0, 0.0, want.fields[l].ravel())
        same(ctx, data[l], v, '%s of %s' % (l, what), rtol=rtol, atol=atol)
