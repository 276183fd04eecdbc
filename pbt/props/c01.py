"""C01: every command completes on valid input, leaves its input as it was and repeats itself."""

import os

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import drops, figures, files, gen
from pbt.core import Sub

from strata.strata import strata as cli

ID = 'C01'
RULE = (
    "histories of 1 to 5 commands, each with any of its options, on series of 2 to 6 maps of a droplet in each "
    "format and on the files that commands before it made. Every command is run twice, figures are rendered. "
    "Non-trivial: at least one command reads what another one wrote, or has five options"
)

MAPS = ['average', 'average', 'convert', 'spreading collect', 'spreading collect', 'interface collect',
        'interface collect', 'contact_line collect', 'contact_line sample', 'sample'] + 7 * ['view']
FACES = ['interface view', 'interface sample', 'interface angle']
RADII = ['spreading view', 'spreading fit']
KINDS = ['maps', 'maps', 'maps', 'faces', 'radii']


def flag(*args):
    """Some options that are there or not."""
    return st.sampled_from([[], list(args)])


def pick(draw, *options):
    """Of all options, each with its values, or none."""

    out = []
    for name, values in options:
        value = draw(values)
        if value is not None:
            out.append([name] + (value if isinstance(value, list) else [value]))
    return [out[k] for k in draw(st.permutations(range(len(out))))]


def maybe(*values):
    return st.sampled_from([None, None] + list(values))


def num(lo, hi, scale):
    return st.integers(lo, hi).map(lambda k: repr(k / scale))


def lims(lo, hi):
    """Limits around everything, or half of it."""
    return maybe(['none', 'none'], [repr(lo), 'none'], ['none', repr(hi)], [repr(lo), repr(hi)])


SEARCH = [('-cb', maybe('0', '1'))]
FIGURE = [('--xlim', lims(-500.0, 500.0)), ('--ylim', lims(-500.0, 500.0)), ('--title', maybe('A title', '')),
          ('--xlabel', maybe('x')), ('--ylabel', maybe('y'))]
COLOURS = [('--cbarlabel', maybe('values')), ('-cmap', maybe('jet', 'viridis', 'hot')),
           ('--transparent', maybe([])), ('--dims', maybe(['300', '200'], ['200', '300']))]


@st.composite
def command(draw):
    """A command: its name, options, and what kind of file it is of."""

    kind = draw(st.sampled_from(KINDS))
    name = draw(st.sampled_from({'maps': MAPS, 'faces': FACES, 'radii': RADII}[kind]))
    c = {'kind': kind, 'name': name, 'input': draw(st.integers(0, 20)), 'begin': draw(st.sampled_from([0, 0, 0, 1])),
         'end': draw(st.sampled_from([None, None, 2, 3])), 'default': draw(st.sampled_from([False, False, True])),
         'relative': draw(st.booleans()), 'figure': draw(st.booleans()), 'xvg': draw(st.booleans())}
    dt = ('-dt', maybe('0.5', '12.5', '2'))
    if name == 'average':
        c['group'] = draw(st.integers(1, 3))
        c['recenter'] = draw(st.sampled_from([None, None, 'none', 'left', 'right', 'com']))
        c['options'] = pick(
            draw, ('--combine', maybe(['1', '2'], ['2', '1'], ['none', 'none'])), ('--supersample', maybe('2', '3', 'none')),
            ('--rolling', maybe([])), ('--xlim', lims(-500.0, 500.0)), ('--ylim', lims(-500.0, 500.0)), *SEARCH)
    elif name == 'convert':
        c['options'] = pick(draw, ('--ftype', maybe('gmx', 'simple', 'simple_plain')))
    elif name == 'spreading collect':
        c['none'] = draw(st.sampled_from([False, False, True]))
        c['options'] = pick(draw, dt, ('-t0', maybe('10', '2.5')), ('-v', maybe([])), *SEARCH)
    elif name == 'interface collect':
        c['options'] = pick(draw, ('--recenter', maybe('off', 'zero', 'com')), ('--ylim', lims(-500.0, 500.0)), *SEARCH)
    elif name in ('contact_line collect', 'contact_line sample'):
        c['labels'] = draw(st.lists(st.sampled_from(['M', 'N', 'T', 'U', 'V', 'inertial_energy']), min_size=1, max_size=3))
        c['options'] = pick(
            draw, ('-av', maybe('1', '2')), ('--rolling', maybe([])), ('--norecenter', maybe([])),
            ('-ea', maybe(['0.0', '0.0'], ['1.0', '0.5'], ['3.0', '9.0'])), ('-eh', maybe('0.5', '2.0')),
            *(SEARCH + ([('--fuse', maybe([]))] if name.endswith('collect') else [dt, ('--process', maybe('mean', 'sum'))])))
    elif name == 'sample':
        c['labels'] = draw(st.lists(st.sampled_from(
            ['M', 'N', 'T', 'U', 'V', 'X', 'Y', 'inertial_energy', 'visc_diss']), min_size=1, max_size=3))
        c['options'] = pick(
            draw, dt, ('--process', maybe('mean', 'sum')), ('-cl', maybe('M', 'N', 'T')), ('-co', maybe('0.0', '-100.0')),
            ('--noshow', maybe([])), ('--xlim', lims(-500.0, 500.0)), ('--ylim', lims(-500.0, 500.0)), ('-fl', maybe('1.0')))
    elif name == 'view':
        c['type'] = draw(st.sampled_from(['height', 'contour', 'flow']))
        if c['type'] == 'height':
            c['options'] = pick(
                draw, ('-l', maybe('M', 'N', 'T', 'U', 'V', 'flow', 'visc_diss', 'evaporation')),
                ('-cl', maybe('M', 'T', 'flow', 'None')), ('-co', maybe('0.03125')), ('--nocolourbar', maybe([])),
                ('--nodrawaxes', maybe([])), ('--vlim', maybe(['1.03', '5.03'], ['none', 'none'])),
                ('--clim', maybe(['none', 'none'], ['-900.0', '900.0'])), *(FIGURE + COLOURS))
        elif c['type'] == 'contour':
            c['options'] = pick(
                draw, ('-l', maybe('M', 'N', 'T', 'U', 'V', 'flow')), ('-n', maybe('3', '6')), ('-lv', maybe('2.03 4.03')),
                ('-c', maybe('red blue')), ('--filled', maybe([])), ('--vlim', maybe(['1.03', '5.03'], ['none', 'none'])),
                *(FIGURE + COLOURS))
        else:
            c['options'] = pick(
                draw, ('-cl', maybe('M', 'T', 'U', 'None', 'flow', 'radial')), ('-co', maybe('0.0', '0.03125')),
                ('--scale', maybe('4.0')), ('--width', maybe('0.01')), ('--pivot', maybe('tail', 'tip')),
                ('--streamlines', maybe([])), ('--vlim', maybe(['1.03', '5.03'], ['none', 'none'])),
                ('--dpi', maybe('40')), *(FIGURE + COLOURS))
    elif name == 'interface view':
        c['options'] = pick(draw, ('-av', maybe('1', '2')), ('--extfig', maybe('.png', '.pdf')), *FIGURE)
    elif name == 'interface sample':
        c['variable'] = draw(st.sampled_from(['area', 'length']))
        c['options'] = pick(draw, dt, *FIGURE)
    elif name == 'interface angle':
        c['options'] = pick(draw, dt, *FIGURE) + draw(st.sampled_from(
            [[['--fit']], [['-h', '0.5']], [['-h', '2.0'], ['--fit']], [['--nofit'], ['-h', '1.0']]]))
    elif name == 'spreading view':
        c['options'] = pick(draw, ('-t', maybe('2.0')), ('-r', maybe('0.5')), ('-rs', maybe('1.0')), ('--loglog', maybe([])),
                            *[(k, v) for k, v in FIGURE if not k.endswith('lim')])
    elif name == 'spreading fit':
        c['options'] = pick(
            draw, ('--lims', maybe(['none', 'none'], ['none', '900.0'])), ('--out_lims', maybe(['none', '900.0'])),
            ('--noprint', maybe([])), ('--loglog', maybe([])), ('--nolegend', maybe([])),
            *[(k, v) for k, v in FIGURE if not k.endswith('lim')])
    return c


@st.composite
def specs(draw):
    spec = draw(drops.systems(max_frames=6, min_layers=2, fixed_bottom=True))
    spec['ext'] = draw(st.sampled_from(['.dat', '.dat', '.map']))
    spec['again'] = len(spec['frames']) < 3
    commands = [draw(command()) for _ in range(draw(st.integers(1, 4)))]
    spec['commands'] = commands
    return spec


def write_series(spec, indir):
    frames = list(spec['frames'])
    if spec['again']:
        frames = frames + frames[::-1] + frames
    xs, ys = gen.mesh(spec)
    noise = gen.unhex(spec['noise'])
    for k, frame in enumerate(frames):
        m = drops.mass(spec, frame, k).ravel()
        if spec.get('rough'):
            # Bins of vapor in the liquid and the other way around
            random = np.random.RandomState(spec['rough'] + k)
            m = np.where(random.rand(m.size) < 0.3, random.choice([0., 3., 4.5, 8., 10., 14.], m.size), m)
        data = {'X': xs, 'Y': ys, 'M': m, 'N': m / 2. + 1. / 16.}
        for l, shift in zip('TUV', (1, 2, 3)):
            b = np.roll(noise, shift * k + shift)
            data[l] = (b + 1) / 16. if l == 'T' else np.where(b < 128, b + 1, 128 - b) / 16.
        for l in 'NTUV':
            data[l] = np.where(m > 0, data[l], 0.)
        files.write_map(os.path.join(indir, 'map_%05d%s' % (spec['first'] + k, spec['ext'])), data, gen.info_of(spec), spec['src'], k)
    return len(frames)


def grid_size(path):
    """Smallest number of bins along an axis, and whether there is any mass."""

    with open(path, 'rb') as fp:
        head = fp.read(6)
    if head == b'FORMAT':
        data, info = files.load_gmx(path)
        return min(info['shape']), bool(np.any(data['M']))
    data = files.load_simple(path, plain=head[:1] == b'X')
    return min(len(np.unique(data[l])) for l in 'XY'), bool(np.any(data['M']))


def rows_of(path):
    with open(path) as fp:
        return sum(1 for l in fp if l.strip() and l[0] not in '#@&')


def settings(spec, c):
    """Options of the search for edges."""
    args = ['-cr', repr(spec['r'])]
    if spec['cutoff'] is not None:
        args += ['-co', repr(spec['cutoff'])]
    return args


def prepare(spec, ctx, c, source):
    """Arguments of a command between its name and its output, or None if there is nothing to run."""

    args = [v for option in c['options'] for v in option]
    name = c['name']
    names = [o[0] for o in c['options']]
    if source['kind'] == 'maps':
        size, mass = source['size'], source['mass']
        droplet = source['droplet']
        searches = name in ('spreading collect', 'interface collect', 'contact_line collect', 'contact_line sample')
        if searches or name == 'average' and c['recenter'] in ('left', 'right'):
            if not droplet:
                return None
        if name == 'average':
            if '--combine' in names and size < 2:
                return None
            if c['recenter']:
                if not mass or size < 2:
                    return None
                args += ['--recenter', c['recenter']]
                if c['recenter'] in ('left', 'right'):
                    args += ['-co', '8.0', '-cr', repr(spec['r'])]
        elif searches:
            args += settings(spec, c)
        if name == 'sample' and 'visc_diss' in c['labels'] and size < 3:
            return None
        if name == 'view':
            if c['type'] == 'contour' and size < 2 or c['type'] == 'flow' and '--streamlines' in names and size < 2:
                return None
            if size < 2 and ('evaporation' in args) or size < 3 and 'visc_diss' in args or not mass:
                return None
    if name == 'spreading fit' and source['rows'] < 3:
        return None
    return args


def content(path):
    """What is in a file, without when it was made."""

    with open(path, 'rb') as fp:
        data = fp.read()
    if path.endswith('.pdf'):
        return data[:5]
    if b'Creation date' not in data:
        return data
    return b'\n'.join(l for l in data.split(b'\n') if b'Creation date' not in l)


def invoke(ctx, args):
    ctx.called = True
    # As in a process of its own
    figures.plt.close('all')
    result = CliRunner().invoke(cli, args)
    ctx.check(result.exit_code == 0, "%s ended with %r\n%s", ' '.join(args), result.exception, result.output[-1000:])
    for what in ('Could not', 'WARNING', 'ERROR', 'Encountered exception'):
        ctx.check(what not in result.output, "%s: %s", ' '.join(args), result.output[-1000:])


def commands(spec, ctx):
    r = drops.radius_of(spec)
    if r is None or spec['src'] != 'gmx' and spec['ny'] < 2:
        return
    spec['r'] = r
    if spec['dy'] > 1.:
        # The floor is matched to the layer in the length unit above of it
        spec['dy'] /= 2
    if spec['src'] in ('simple_plain', 'mixed') and min(spec['dx'], spec['dy']) < 0.1:
        return
    root = ctx.mkdir('work')
    os.chdir(root)
    total = write_series(spec, os.path.join(root, 'in'))
    bottom = spec['frames'][0][0][0]
    sources = [{'kind': 'maps', 'base': 'in/map_', 'first': spec['first'], 'total': total, 'ext': spec['ext'],
                'size': min(spec['nx'], spec['ny']), 'mass': True, 'droplet': True, 'made': False, 'half': 0.}]
    # What there is to read is made if need be
    todo = []
    have = set(['maps'])
    for c in spec['commands']:
        need = c['kind']
        if need not in have:
            todo.append({'kind': 'maps', 'name': {'faces': 'interface collect', 'radii': 'spreading collect'}[need], 'input': 0,
                         'begin': 0, 'end': None, 'default': False, 'relative': False, 'figure': False, 'xvg': False,
                         'none': False, 'options': []})
        have.add({'interface collect': 'faces', 'spreading collect': 'radii'}.get(c['name'], need))
        have.add(need)
        todo.append(c)

    chained = False
    for n, c in enumerate(todo):
        options = [s for s in sources if s['kind'] == c['kind']]
        if not options:
            continue
        source = options[c['input'] % len(options)]
        args = prepare(spec, ctx, c, source)
        # Maps of several formats can not be averaged
        mixed = spec['src'] in files.MIXED and not source.get('made', True)
        if mixed and c['name'] == 'average':
            args = None
        if args is None:
            ctx.label('not possible')
            continue
        name = c['name']
        before = files.snapshot(root)
        results = []
        for again in (0, 1):
            outdir = os.path.join('out', '%d_%d' % (n, again))
            where = outdir if c['relative'] else os.path.join(root, outdir)
            base = source['base'] if c['relative'] else os.path.join(root, source['base'])
            words = name.split()
            numbered = []
            if source['kind'] != 'radii' and name != 'view':
                numbered = ['-b', str(source['first'] + c['begin']), '--ext', source['ext']]
                if c['end'] is not None:
                    numbered += ['-e', str(source['first'] + c['begin'] + c['end'] - 1)]
            made, drawn, optional = None, [], []
            more = []
            if name == 'average':
                words += [base, os.path.join(where, 'avg_'), str(c['group'])]
                made = {'kind': 'maps', 'base': os.path.join(outdir, 'avg_'), 'ext': source['ext'], 'droplet': False}
            elif name == 'convert':
                words += [base, os.path.join(where, 'conv_')]
                made = {'kind': 'maps', 'base': os.path.join(outdir, 'conv_'), 'ext': source['ext'], 'droplet': source['droplet']}
            elif name == 'contact_line collect':
                words += [base, os.path.join(where, 'cl_')]
                made = {'kind': 'maps', 'base': os.path.join(outdir, 'cl_'), 'ext': source['ext'], 'droplet': False}
            elif name == 'interface collect':
                words += [base, os.path.join(where, 'int_')]
                made = {'kind': 'faces', 'base': os.path.join(outdir, 'int_'), 'ext': '.xvg'}
            elif name == 'spreading collect':
                out = os.path.join(outdir, 'spread.xvg')
                if c['none']:
                    more += ['--nooutput']
                else:
                    made = {'kind': 'radii', 'base': out}
                    more += ['-o', os.path.join(where, 'spread.xvg')]
                floor = spec['y0'] + bottom * spec['dy'] + source['half'] * spec['dy']
                # Negative floors look like options
                words = words + more + args + numbered + ['--', base, repr(floor)]
            elif name == 'contact_line sample':
                words += [base] + c['labels']
                if c['xvg']:
                    more += ['--save', os.path.join(where, 'cl.xvg')]
                    optional.append('cl.xvg')
            elif name == 'sample':
                words += [base] + c['labels']
                more += ['-o', os.path.join(where, 'sample.xvg')]
                optional.append('sample.xvg')
            elif name == 'view':
                paths = ['%s%05d%s' % (base, source['first'] + k, source['ext']) for k in range(min(source['total'], 2))]
                words += [c['type']] + paths + ['--noshow']
                if c['figure'] or len(todo) == 1:
                    os.makedirs(outdir, exist_ok=True)
                    more += ['-o', os.path.join(where, 'fig.png')]
                    drawn.append('fig.png')
            elif source['kind'] == 'faces':
                words += [base] + ([c['variable']] if name == 'interface sample' else []) + ['--noshow']
                if c['figure']:
                    os.makedirs(outdir, exist_ok=True)
                    more += ['-o', os.path.join(where, 'fig' + ('_' if name == 'interface view' else '.png'))]
                    drawn.append('fig')
                if c['xvg']:
                    more += ['-x', os.path.join(where, 'data' + ('_' if name == 'interface view' else '.xvg'))]
                    if name == 'interface view':
                        made = {'kind': 'faces', 'base': os.path.join(outdir, 'data_'), 'ext': '.xvg'}
                    else:
                        optional.append('data.xvg')
            else:
                words += [base] * (2 if c['begin'] else 1) + ['--noshow']
                if c['figure']:
                    os.makedirs(outdir, exist_ok=True)
                    more += ['-o', os.path.join(where, 'fig.png')]
                    drawn.append('fig')
                if c['xvg']:
                    more += ['-x', os.path.join(where, 'data.xvg')]
                    made = {'kind': 'radii', 'base': os.path.join(outdir, 'data.xvg')}
            if name != 'spreading collect':
                words = words + more + args + numbered
            invoke(ctx, words)
            left = files.snapshot(root)
            for path, data in before.items():
                ctx.check(path in left, "%s removed %s", ' '.join(words), path)
                ctx.check(left[path] == data, "%s changed %s", ' '.join(words), path)
            new = sorted(set(left) - set(before))
            for path in new:
                ctx.check(path.startswith(outdir + os.sep), "%s wrote %s", ' '.join(words), path)
            found = [os.path.relpath(p, outdir) for p in new]
            for f in drawn:
                got = [p for p in found if p.startswith(f)]
                ctx.check(got or source.get('total') == 0 or name == 'interface view', "no figure by %s", ' '.join(words))
                for p in got:
                    ctx.check(left[os.path.join(outdir, p)][:4] in (b'\x89PNG', b'%PDF'), "%s is no figure", p)
            for f in optional:
                ctx.check(f in found, "%s did not write %s", ' '.join(words), f)
            known = [made['base'][len(outdir) + 1:]] if made else []
            for f in found:
                ctx.check(f in optional or any(f.startswith(p) for p in drawn + known),
                          "%s wrote %s which was not asked for", ' '.join(words), f)
            results.append({f: content(os.path.join(outdir, f)) for f in found})
            before = left
            if again == 0:
                first_made = made
        ctx.check(sorted(results[0]) == sorted(results[1]), "%s wrote %r and then %r", ' '.join(words), sorted(results[0]), sorted(results[1]))
        for f in results[0]:
            ctx.check(results[0][f] == results[1][f], "%s wrote something else in %s when it was repeated", ' '.join(words), f)

        ctx.label(name + (' ' + c['type'] if name == 'view' else ''))
        chained = chained or source.get('made', False) or len(c['options']) >= 5
        if first_made is None:
            continue
        made = dict(first_made, made=True)
        if made['kind'] == 'radii':
            if os.path.exists(made['base']):
                made['rows'] = rows_of(made['base'])
                if made['rows']:
                    sources.append(made)
            continue
        prefix = os.path.basename(made['base'])
        names = sorted(f for f in results[0] if f.startswith(prefix))
        if not names:
            continue
        made['first'] = int(names[0][len(prefix):len(prefix) + 5])
        made['total'] = len(names)
        if made['kind'] == 'maps':
            if mixed and c['name'] == 'convert' and not any(o[-1].startswith('simple') for o in c['options']):
                # Those which were of the simple formats moved by half a bin
                continue
            sizes = [grid_size(os.path.join(os.path.dirname(made['base']), f)) for f in names]
            made['size'] = min(s for s, _ in sizes)
            made['mass'] = all(m for _, m in sizes)
            # Maps of the simple format have their origin at the centre of the first bin
            made['half'] = source['half']
            if name == 'convert' and spec['src'] != 'gmx' and not source['made']:
                made['half'] = 0.5
        sources.append(made)
    ctx.nontrivial(chained)


SUBS = [Sub('commands', specs(), commands, quick=50)]
