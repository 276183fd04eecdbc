"""S02: collected spreading has the right radius and time for every map after impact."""

import os

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import drops, edges, files, gen
from pbt.core import Sub
from pbt.oracle import same

from droplets.flow import FlowData
from strata.spreading.collect import collect, get_spreading_edges
from strata.strata import strata as cli

ID = 'S02'
RULE = (
    "series of 1 to 12 maps of droplets on 5x2 to 14x6 bins of a periodic system, which approach the floor and then "
    "move, grow and shrink along it, in each format and through the function or the command line, twice in a "
    "process. Non-trivial: at least two maps with a spreading which differ"
)


@st.composite
def specs(draw):
    spec = draw(drops.systems(max_frames=8, min_layers=1, crossed=True, fixed_bottom=True))
    ny = spec['ny']
    # Maps before the impact have the droplet above of the floor, or none
    bottom = spec['frames'][0][0][0]
    before = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        frame = [f for f in spec['frames'][0] if f[0] > bottom]
        before.append(frame if draw(st.booleans()) else [])
    spec['before'] = before
    # and it may leave the floor for some maps after of it
    spec['gone'] = draw(st.lists(st.tuples(st.integers(1, 9), st.booleans()), max_size=draw(st.sampled_from([0, 0, 1, 3]))))
    spec['floor'] = draw(st.booleans())
    spec['dt'] = draw(st.sampled_from(gen.TIME_STEPS))
    spec['t0'] = draw(st.sampled_from([None, 0.0, 10.0, 2.5]))
    spec['ext'] = draw(st.sampled_from(['.dat', '.map']))
    spec['begin'] = draw(st.sampled_from([0, 0, 0, 1]))
    spec['end'] = draw(st.sampled_from([None, None, 1, 3, 5]))
    spec['cli'] = draw(st.booleans())
    spec['save'] = draw(st.sampled_from([True, True, False]))
    return spec


def all_frames(spec):
    frames = [f for f in spec['frames']]
    bottom = frames[0][0][0]
    for k, empty in spec.get('gone', []):
        if k <= len(frames):
            # (lifted from the floor, in the layers above of it)
            frames.insert(k, [] if empty else [f for f in frames[k - 1] if f[0] > bottom])
    return spec['before'] + frames


def expected(spec):
    """Absolute edges of all maps with a spreading, as (number of the map, left, right)."""

    frames = all_frames(spec)
    begin = spec['begin']
    end = len(frames) if spec['end'] is None else min(len(frames), begin + spec['end'])
    bottom = spec['frames'][0][0][0]
    found = []
    for k in range(begin, max(begin, end)):
        frame = frames[k]
        if not frame or (spec['floor'] and frame[0][0] != bottom):
            continue
        found.append((k, frame[0][1], frame[0][2]))
    return found, begin, max(end - begin, 0)


def parse(text):
    """Impact time and file, and the rows of a spreading file."""

    lines = text.splitlines()
    impact = [l.split('Time:')[1].split()[0] for l in lines if l.startswith('#') and 'Time:' in l]
    name = [l.split('File:')[1].strip().strip("'") for l in lines if l.startswith('#') and 'File:' in l]
    rows = [[float(v) for v in l.split()] for l in lines if l.strip() and l[0] not in '#@&']
    return impact, name, rows


def spreading(spec, ctx):
    nx, dx, dy = spec['nx'], spec['dx'], spec['dy']
    r = drops.radius_of(spec)
    if r is None or (spec['src'] != 'gmx' and spec['ny'] < 2):
        return
    if dy > 1.:
        # The floor is matched to the layer in the length unit above of it
        spec['dy'] = dy = dy / 2
    if not spec['floor']:
        spec['before'] = [b for b in spec['before'] if not b]
        spec['gone'] = [(k, True) for k, _ in spec.get('gone', [])]
    indir = ctx.mkdir('in')
    frames = all_frames(spec)
    drops.write_frames(spec, indir, ext=spec['ext'], frames=frames)
    found, begin, num = expected(spec)
    if spec['cutoff'] is None and not spec['floor']:
        # An empty system has no liquid with a value half-way between its noise
        if not all(frames):
            spec['cutoff'] = 8.0
    if not all(frames):
        spec['cutoff'] = spec['cutoff'] or 8.0

    # Followed from the first map, which may have an edge across the boundary
    shift = 0
    if found:
        shift = found[0][1] // nx * nx
    x0 = spec['x0'] + 0.5 * dx
    want_left = [x0 + dx * (l - shift) for _, l, _ in found]
    want_right = [x0 + dx * (rr - shift) for _, _, rr in found]
    radius = [0.5 * (b - a) for a, b in zip(want_left, want_right)]
    t0 = spec['t0'] or 0.0
    times = [t0 + spec['dt'] * (k - found[0][0]) for k, _, _ in found]

    base = os.path.join(indir, 'map_')
    bottom = spec['frames'][0][0][0]
    kw = {'cutoff': spec['cutoff'], 'cutoff_radius': r, 'cutoff_bins': spec['bins'], 'dt': spec['dt'],
          'ext': spec['ext'], 'begin': spec['first'] + begin}
    if spec['floor']:
        kw['floor'] = spec['y0'] + bottom * dy
    if spec['t0'] is not None:
        kw['t0'] = spec['t0']
    if spec['end'] is not None:
        kw['end'] = spec['first'] + begin + spec['end'] - 1
        if kw['end'] < 0:
            return

    before = files.snapshot(indir)
    for n, use_cli in enumerate([False, spec['cli']]):
        out = ctx.path('out%d' % n, 'spread.xvg')
        if use_cli and spec['floor']:
            args = ['spreading', 'collect', base]
            names = {'cutoff': '-co', 'cutoff_radius': '-cr', 'cutoff_bins': '-cb', 'dt': '-dt', 't0': '-t0',
                     'begin': '-b', 'end': '-e', 'ext': '--ext'}
            for k, v in kw.items():
                if k != 'floor' and v is not None:
                    args += [names[k], str(v) if k == 'ext' or isinstance(v, int) else repr(v)]
            args += ['-v', '-o', out, '--', ]
            args = ['spreading', 'collect'] + args[3:-1] + ['--', base, repr(kw['floor'])]
            ctx.called = True
            result = CliRunner().invoke(cli, args)
            ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
            ctx.label('command line')
            text = result.output[result.output.index('Radius (nm)') + len('Radius (nm)'):]
            rows = [[float(v) for v in l.split()] for l in text.splitlines() if len(l.split()) == 2]
            got_t, got_r = [a for a, _ in rows], [b for _, b in rows]
            tol = 6e-4
            saved = True
        else:
            if spec['save']:
                kw['save'] = out
            got = ctx.sut(collect, base, quiet=True, **kw)
            kw.pop('save', None)
            got_t, got_r = got['t'], got['r']
            tol = 1e-4
            saved = spec['save']
        same(ctx, got_t, times, 'times', rtol=1e-9, atol=6e-4)
        same(ctx, got_r, radius, 'radii', rtol=1e-5, atol=tol)

        if saved:
            with open(out) as fp:
                impact, name, rows = parse(fp.read())
            rows = np.array(rows).reshape(len(rows), 4)
            same(ctx, rows[:, 0], times, 'written times', atol=6e-4)
            same(ctx, rows[:, 1:], np.array([radius, want_left, want_right]).T.reshape(len(found), 3), 'rows', rtol=1e-5,
                 atol=7e-4)
            if found:
                k = found[0][0]
                ctx.check(len(impact) == 1 and abs(float(impact[0]) - spec['dt'] * (k - begin)) < 1e-3,
                          "impact at %r and not %r", impact, spec['dt'] * (k - begin))
                wanted = 'map_%05d%s' % (spec['first'] + k, spec['ext'])
                ctx.check(len(name) == 1 and os.path.basename(name[0]) == wanted, "impact of %r and not %r", name, wanted)
            else:
                ctx.check(not impact, "impact %r without any spreading", impact)
        else:
            ctx.check(not os.path.exists(out), "output was not asked for")
    ctx.check(files.snapshot(indir) == before, "the input files were changed")
    ctx.nontrivial(len(set((l, rr) for _, l, rr in found)) > 1)
    ctx.label('%d before impact' % len(spec['before']), spec['src'],
              'crosses' if len(set(l // nx for _, l, _ in found) | set(rr // nx for _, _, rr in found)) > 1 else 'inside')


@st.composite
def edge_specs(draw):
    g = draw(gen.grids(min_nx=2, max_nx=10, max_ny=7, spacings=gen.DYADIC,
                       origins=st.integers(-40, 40).map(lambda k: k / 8.)))
    g['M'] = draw(gen.sparse_hexbytes(g['nx'] * g['ny'], draw(st.sampled_from([100, 80, 60, 40]))))
    g['cutoff'] = draw(st.sampled_from([None, 4.0, 8.0, 1 / 16.]))
    g['radius'] = draw(st.sampled_from([0.6, 1.1, 1.5, 2.1]))
    g['bins'] = draw(st.sampled_from([0, 1, 1, 2, 3]))
    # The floor is below of this layer by a part of a layer
    g['floor'] = draw(st.one_of(st.none(), st.integers(0, g['ny'] - 1)))
    g['part'] = draw(st.sampled_from([0.5, 0.25, 0.75]))
    g['periodic'] = draw(st.booleans())
    g['label'] = draw(st.sampled_from(['M', 'N']))
    return g


def single(spec, ctx):
    """The edges of any map, of its lowest liquid layer or that at the floor."""

    nx, ny, dx, dy = (spec[k] for k in ('nx', 'ny', 'dx', 'dy'))
    if dy > 1.:
        spec['dy'] = dy = 1.
    values = gen.positive(spec['M']).reshape(nx, ny)
    r = edges.radius_of(dx, dy, spec['radius'])
    if spec['periodic'] and r >= 0.5 * nx * dx:
        return
    xs, ys = gen.mesh(spec)
    flow = ctx.sut(FlowData, ('X', xs), ('Y', ys), (spec['label'], values.ravel()), info=gen.info_of(spec))
    before = flow.data.copy()
    kw = {'cutoff': spec['cutoff'], 'cutoff_bins': spec['bins']}
    if spec['periodic']:
        kw['search_longest_connected'] = True
    if spec['floor'] is not None:
        kw['floor'] = spec['y0'] + dy * (spec['floor'] + 0.5 - spec['part'])
    if spec['cutoff'] is None and values.min() == values.max():
        return
    cutoff = edges.midpoint(values) if spec['cutoff'] is None else spec['cutoff']
    liquid = edges.filled(values, dx, dy, r, cutoff, spec['bins'], periodic=spec['periodic'])
    options = []
    for j in range(ny):
        if spec['floor'] is not None and j != spec['floor']:
            continue
        if spec['periodic']:
            options = edges.stretches(liquid[:, j])
        else:
            found = edges.outermost(liquid[:, j])
            options = [found] if found else []
        if options:
            break
    got = ctx.sut(get_spreading_edges, flow, spec['label'], r, **kw)
    same(ctx, flow.data[spec['label']], before[spec['label']], 'input', rtol=0, atol=0)
    ctx.check(len(got) == 2, "%r are not two edges", got)
    if not options:
        ctx.check(tuple(got) == (None, None), "edges %r of a layer without any", got)
        return
    ctx.check(None not in tuple(got), "no edges but %r", options)
    wanted = [(xs.reshape(nx, ny)[a, 0], xs.reshape(nx, ny)[b, 0]) for a, b in options]
    ctx.check(any(np.allclose(got, w, atol=1e-9) for w in wanted), "edges %r and not one of %r", got, wanted)
    ctx.nontrivial(len(options) == 1)
    ctx.label('periodic' if spec['periodic'] else 'plain', 'floor' if spec['floor'] is not None else 'no floor')


SUBS = [
    Sub('spreading', specs(), spreading, quick=500),
    Sub('edges', edge_specs(), single, quick=700),
]
