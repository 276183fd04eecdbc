"""P01: a call does not depend on the calls before it, nor needs any of them."""

import os
import shutil

from hypothesis import strategies as st

import strata

from pbt import drops
from pbt.alone import SERVER
from pbt.core import Sub
from pbt.props import n02, s04

ID = 'P01'
RULE = (
    "sequences of 2 to 5 calls of library functions and commands of all kinds, some of them repeated, on the same maps "
    "(1 to 4 of 5x2 to 14x6 bins), interfaces and spreading files, with any options, made in turn in one process and each alone in "
    "a process of its own which had imported nothing; and histories of 2 to 4 calls on maps which are replaced by others in "
    "between, converted in place, or made by an earlier call, and whose output directories are used again or removed. Non-trivial: at least two different calls which succeed, or "
    "a history that changes or adds maps"
)

LABELS = ['M', 'N', 'T', 'U', 'inertial_energy', 'flow_angle', 'visc_diss', 'visc_diss']
DT = st.sampled_from([1.0, 0.5, 2.0])


def call(where, args, out, **kwargs):
    return {'call': where, 'args': args, 'kwargs': kwargs}


def flags(**options):
    """Options of a command with their values."""

    args = []
    for name, v in options.items():
        if v is None or v is False:
            continue
        args.append('--' + name)
        if isinstance(v, (list, tuple)):
            args += ['none' if x is None else repr(x) for x in v]
        elif v is not True:
            args.append(v if isinstance(v, str) else repr(v))
    return args


@st.composite
def op_specs(draw, names):
    """One call: its name, whether it is a command, and numbers to choose its options by."""

    return {'name': draw(st.sampled_from(names)), 'cli': draw(st.booleans()),
            'pick': draw(st.lists(st.integers(0, 11), min_size=6, max_size=6))}


def pick(op, k, options):
    return options[op['pick'][k] % len(options)]


def texts(op):
    return {'title': pick(op, 4, ['', 'One', 'Two']), 'xlabel': pick(op, 5, ['', 'x'])}


def build(op, spec, out, base='in/map_', first=None, place=None):
    """The call in terms of `pbt.alone`, with output below the directory `out`.

    The maps that it reads are those of `base` from number `first` on. A conversion is to the base `place`.
    """

    name, cli = op['name'], op['cli']
    cr = drops.radius_of(spec)
    floor = spec['y0'] + spec['frames'][0][0][0] * spec['dy']
    search = {'cutoff': pick(op, 0, [None, 8.0, 4.5]), 'cutoff_radius': cr, 'cutoff_bins': pick(op, 1, [1, 0])}
    first = spec['first'] if first is None else first
    span = {'begin': first + pick(op, 2, [0, 0, 0, 1])}
    if pick(op, 3, [0, 0, 1]):
        span['end'] = span['begin'] + 2
    if name == 'average':
        kw = dict(span, rolling=pick(op, 4, [False, True]))
        group = pick(op, 5, [1, 2, 3])
        if cli:
            return {'cli': ['average', base, out + '/avg_', str(group)] + flags(**kw)}
        return call('strata.average:average', [base, out + '/avg_', group], out, quiet=True, **kw)
    if name == 'convert':
        kw = dict(span, ftype=pick(op, 4, ['gmx', 'simple', 'simple_plain']))
        if cli:
            return {'cli': ['convert', base, place or out + '/conv_'] + flags(**kw)}
        return call('strata.convert:convert', [base, place or out + '/conv_'], out, quiet=True, **kw)
    if name == 'sample':
        labels = [pick(op, 4, LABELS), pick(op, 5, LABELS)][:pick(op, 1, [1, 2])]
        kw = dict(span, cutoff=search['cutoff'], cutoff_label=pick(op, 1, [None, 'M', 'N']))
        if cli:
            return {'cli': ['sample', base] + labels + ['--output', out + '/s.xvg', '--delta_t', repr(pick(op, 0, [1.0, 2.0]))]
                    + flags(**kw)}
        if pick(op, 2, [0, 0, 0, 1]) == 0:
            kw['viscosity'] = pick(op, 0, [1.0, 0.25, 3.0])
        if pick(op, 3, [0, 1, 0]):
            kw['sum'] = pick(op, 5, [False, True])
        return call('strata.sample_average:sample_average_files', [base, labels], out, output=out + '/s.xvg', quiet=True,
                    verbose=False, dt=pick(op, 0, [1.0, 2.0]), **kw)
    if name in ('cl collect', 'cl sample'):
        area = [spec['dx'] * pick(op, 4, [1, 2, 3]), spec['dy'] * pick(op, 5, [1, 2])]
        kw = dict(span, average=pick(op, 4, [1, 2]), rolling=pick(op, 5, [False, True]), **search)
        if name == 'cl collect':
            if cli:
                return {'cli': ['contact_line', 'collect', base, out + '/cl_'] + flags(extract_area=area, **kw)}
            return call('strata.contact_line_analysis:extract_contact_line_bins', [base, out + '/cl_'], out, quiet=True,
                        extract_area=area, extract_height=0., **kw)
        labels = [pick(op, 2, LABELS)]
        if cli:
            return {'cli': ['contact_line', 'sample', base] + labels + flags(extract_area=area, save=out + '/cl.xvg', **kw)}
        if pick(op, 3, [0, 1, 1]):
            kw['viscosity'] = pick(op, 0, [1.0, 0.25, 3.0])
        return call('strata.contact_line_analysis:sample_contact_line_edges', [base, labels], out, quiet=True,
                    save=out + '/cl.xvg', extract_area=area, extract_height=0., **kw)
    if name == 'spreading collect':
        kw = dict(span, **search)
        dt = pick(op, 4, [1.0, 0.5, 2.0])
        if cli:
            return {'cli': ['spreading', 'collect', '--output', out + '/spread.xvg', '--verbose', '--delta_t', repr(dt)] + flags(**kw)
                    + ['--', base, repr(floor)]}
        return call('strata.spreading.collect:collect', [base], out, save=pick(op, 5, [out + '/spread.xvg', None]), quiet=True,
                    dt=dt, floor=floor, **kw)
    if name == 'interface collect':
        kw = dict(span, recenter=pick(op, 4, ['zero', 'com']), **search)
        if cli:
            return {'cli': ['interface', 'collect', base, out + '/int_'] + flags(**kw)}
        return call('strata.interface.collect:collect_interfaces', [base, out + '/int_'], out, quiet=True, **kw)
    if name in ('interface view', 'interface sample', 'interface angle'):
        base = 'in/int_'
        kw = dict(span, show=False)
        fig = pick(op, 0, [None, out + '/fig'])
        if cli:
            kw.pop('show')
        if name == 'interface view':
            group = pick(op, 1, [1, 2])
            if cli:
                return {'cli': ['interface', 'view', base, '--noshow'] + flags(average=group, save_xvg=out + '/avg_', save_fig=fig, **kw)}
            return call('strata.interface.view:view_interfaces', [base], out, average=group, save_xvg=out + '/avg_',
                        save_fig=fig, quiet=True, **dict(kw, **texts(op)))
        dt = pick(op, 4, [1.0, 2.0])
        fig = fig and fig + '.png'
        if name == 'interface sample':
            variable = pick(op, 1, ['area', 'length'])
            if cli:
                return {'cli': ['interface', 'sample', base, variable, '--noshow'] + flags(
                    save_xvg=out + '/s.xvg', save_fig=fig, delta_t=dt, **kw)}
            return call('strata.interface.sample:sample_interfaces', [base, variable], out, save_xvg=out + '/s.xvg',
                        save_fig=fig, delta_t=dt, quiet=True, **dict(kw, **texts(op)))
        height = pick(op, 1, [None, 0.5, 1.0])
        if cli:
            return {'cli': ['interface', 'angle', base, '--fit', '--noshow'] + flags(
                height=height, save_xvg=out + '/a.xvg', save_fig=fig, delta_t=dt, **kw)}
        return call('strata.interface.angle:interface_contact_angle', [base], out, fit=True, height=height,
                    save_xvg=out + '/a.xvg', save_fig=fig, delta_t=dt, quiet=True, **dict(kw, **texts(op)))
    if name in ('spreading view', 'spreading fit'):
        paths = ['in/s%d.xvg' % k for k in range(len(spec['series']))]
        save, fig = out + '/s.xvg', pick(op, 0, [None, out + '/fig.png'])
        if name == 'spreading view':
            kw = {'tau': pick(op, 1, [1.0, 2.0]), 'R': pick(op, 2, [1.0, 0.5]), 'loglog': pick(op, 3, [False, False, True]),
                  'sync_radius': pick(op, 4, [None, 3.03])}
            if cli:
                kw['radius'] = kw.pop('R')
                return {'cli': ['spreading', 'view', '--noshow'] + flags(save_xvg=save, save_fig=fig, **kw) + paths}
            return call('strata.spreading.view:view_spreading', [paths], out, save_xvg=save, save_fig=fig, show=False,
                        **dict(kw, **texts(op)))
        kw = {'lims': pick(op, 1, [[None, None], [0.5, None]]), 'out_lims': pick(op, 2, [[None, None], [None, 20.0]])}
        if cli:
            return {'cli': ['spreading', 'fit', '--noshow'] + flags(save_xvg=save, save_fig=fig, **kw) + paths}
        return call('strata.spreading.fit:fit_spreading_data', [paths], out, save_xvg=save, save_fig=fig, show=False,
                    legend=pick(op, 3, [False, True]), **dict(kw, **texts(op)))
    path = base + '%05d.dat' % (first + pick(op, 0, [0, 0, 1]) % len(spec['frames']))
    fig = out + '/fig.png'
    colormap = pick(op, 1, [None, 'magma', 'viridis', 'plasma'])
    bar = pick(op, 2, [False, True])
    if name == 'view height' or name == 'view contour':
        label = pick(op, 3, ['M', 'T', 'flow', 'U'])
        if cli:
            return {'cli': ['view', name.split()[1], path, '--noshow', '--colourbar' if bar else '--nocolourbar'] + flags(
                label=label, save_fig=fig, colourmap=colormap)}
        more = {'clim': [None, None]} if name == 'view height' else {'filled': pick(op, 4, [False, True])}
        return call('strata.view_flowmap:view_flowmap_2d', [path], out, label=label, type=name.split()[1], save_fig=fig,
                    colormap=colormap, colorbar=bar, vlim=[None, None], show=False, **dict(more, **texts(op)))
    colour = pick(op, 3, [None, 'flow', 'M', 'radial'])
    kw = {'cutoff': pick(op, 4, [None, 2.0]), 'pivot': pick(op, 5, ['middle', 'tip'])}
    if cli:
        return {'cli': ['view', 'flow', path, '--noshow'] + flags(colour_label=colour, save_fig=fig, colourmap=colormap, **kw)}
    return call('strata.view_flowmap:view_flowfields', [path], out, colour=colour, save_fig=fig, colormap=colormap, show=False,
                **kw)


NAMES = ['average', 'convert', 'sample', 'cl collect', 'cl sample', 'spreading collect', 'spreading collect', 'interface collect',
         'interface view', 'interface sample', 'interface angle', 'spreading view', 'spreading fit', 'view height',
         'view contour', 'view flow']
FIGURES = ['interface view', 'interface sample', 'interface angle', 'spreading view', 'spreading fit', 'view height',
           'view contour', 'view flow']


@st.composite
def specs(draw):
    spec = draw(drops.systems(max_frames=4, min_layers=2, fixed_bottom=True).filter(lambda s: 'mixed' not in s['src']))
    spec['faces'] = [draw(n02.interfaces(min_layers=2)) for _ in range(draw(st.integers(1, 3)))]
    for f in spec['faces']:
        f['j0'] = 0
    spec['series'] = [draw(s04.series()) for _ in range(draw(st.integers(1, 2)))]
    kind = draw(st.sampled_from(['any', 'any', 'figures', 'same']))
    names = {'any': NAMES, 'figures': FIGURES, 'same': [draw(st.sampled_from(NAMES))]}[kind]
    spec['ops'] = draw(st.lists(op_specs(names), min_size=2, max_size=4))
    # The same once more
    if draw(st.booleans()):
        spec['ops'].append(spec['ops'][draw(st.integers(0, len(spec['ops']) - 1))])
    return spec


def prepare(spec, root):
    indir = os.path.join(root, 'in')
    os.makedirs(indir)
    drops.write_frames(spec, indir)
    for k, face in enumerate(spec['faces']):
        n02.write_interface(os.path.join(indir, 'int_%05d.xvg' % (spec['first'] + k)), face, 0.5)
    for k, s in enumerate(spec['series']):
        with open(os.path.join(indir, 's%d.xvg' % k), 'w') as fp:
            for t, r in zip(s['t'], s['r']):
                fp.write('%.6f %.9f\n' % (t, r))
    for k in range(len(spec['ops'])):
        os.makedirs(os.path.join(root, 'out%d' % k))


def independent(spec, ctx):
    if drops.radius_of(spec) is None:
        return
    source = ctx.path('source')
    prepare(spec, source)
    ctx.called = True
    ops = [build(op, spec, 'out%d' % k) for k, op in enumerate(spec['ops'])]

    def run(name, todo):
        directory = ctx.path(name)
        shutil.copytree(source, directory)
        result = SERVER.do(directory, todo)
        ctx.check(result is not None, "the process that made the calls %r did not end by itself", todo)
        ctx.check(result['code'] == os.path.realpath(strata.__file__), "the code under test is %s", result['code'])
        return result

    together = run('together', ops)
    succeeded, refused = 0, False
    for k, op in enumerate(ops):
        alone = run('alone%d' % k, [op])
        got, want = together['outcomes'][k], alone['outcomes'][0]
        if got['error'] is not None and want['error'] is not None:
            ctx.label('refused')
            refused = True
            continue
        ctx.check(got['error'] is None, "%r raised %s after %r", op, got['error'], ops[:k])
        ctx.check(want['error'] is None, "%r raised %s when it was alone in its process", op, want['error'])
        # A call that failed may have left half of a figure
        for part in ('value', 'stdout') if refused else ('value', 'stdout', 'figures'):
            ctx.check(got[part] == want[part], "%s of %r after %r:\n%.1500r\nand not\n%.1500r", part, op, ops[:k], got[part], want[part])
        mine = [{p: c for p, c in r['files'].items() if p.startswith('out%d/' % k)} for r in (together, alone)]
        ctx.check(mine[0] == mine[1], "files of %r after %r:\n%.1500r\nand not\n%.1500r", op, ops[:k], mine[0], mine[1])
        ctx.label(spec['ops'][k]['name'])
        succeeded += 1
    for result in [together]:
        strange = [p for p in result['files'] if not p.startswith('in/') and not p.split('/')[0][3:].isdigit()]
        ctx.check(not strange, "files %r were not asked for", strange)
    ctx.nontrivial(succeeded > 1 and any(op != ops[0] for op in ops))


# Histories of the files -------------------------------------------------------------------

READ = ['average', 'convert', 'convert', 'sample', 'sample', 'cl collect', 'spreading collect', 'interface collect', 'view height']


@st.composite
def history_specs(draw):
    spec = draw(drops.systems(max_frames=4, min_layers=2, fixed_bottom=True).filter(lambda s: 'mixed' not in s['src']))
    spec['ops'] = []
    for _ in range(draw(st.integers(2, 4))):
        op = draw(op_specs(READ))
        op['place'] = draw(st.booleans())
        op['base'] = draw(st.sampled_from([0, 0, 0, 1, 2]))
        op['change'] = draw(st.sampled_from(['', '', 'format', 'frames', 'fewer', 'more']))
        op['src'] = draw(st.sampled_from(['gmx', 'simple', 'simple_plain']))
        op['into'] = draw(st.sampled_from([None, None, 0, 1]))
        op['gone'] = draw(st.booleans())
        spec['ops'].append(op)
    # The same once more, in the same place
    if draw(st.booleans()):
        n = len(spec['ops'])
        k = draw(st.integers(0, n - 1))
        spec['ops'].append(dict(spec['ops'][k], change='', base=0, place=False, into=n - 1 - k, gone=draw(st.booleans())))
    return spec


def changed(op, frames, src):
    """The frames and format of the maps after a change of the files."""

    if op['change'] == 'format':
        src = op['src']
    elif op['change'] == 'frames':
        frames = frames[::-1]
    elif op['change'] == 'fewer':
        frames = frames[:max(1, len(frames) - 1)]
    elif op['change'] == 'more':
        frames = frames + frames[:1]
    return frames, src


def history(spec, ctx):
    """Calls in turn on files that change, in one process and each in a process of its own."""

    if drops.radius_of(spec) is None:
        return
    source = ctx.path('source')
    os.makedirs(os.path.join(source, 'in'))
    drops.write_frames(spec, os.path.join(source, 'in'))
    ctx.called = True

    frames, src = spec['frames'], spec['src']
    bases = [('in/map_', spec['first'])]
    todo, outs = [], []
    for k, op in enumerate(spec['ops']):
        if op['change']:
            # Maps are replaced by others, as by a simulation that is done anew
            frames, src = changed(op, frames, src)
            drops.write_frames(dict(spec, src=src), os.path.join(source, 'new%d' % k), frames=frames)
            todo.append({'replace': ['new%d' % k, 'in']})
            ctx.label(op['change'])
        out = 'out%d' % k
        into = op.get('into')
        if into is not None and into < len(outs):
            # An output directory is used again, or was removed and has to be made again
            out = outs[-1 - into]
            if op['gone'] and not op['name'].startswith('view'):
                todo.append({'remove': out})
                bases = [b for b in bases if not b[0].startswith(out + '/')]
                ctx.label('removed')
            ctx.label('used again')
        else:
            os.makedirs(os.path.join(source, out))
        outs.append(out)
        base, first = bases[-1 - op['base'] % len(bases)]
        place = base if op['place'] else None
        todo.append(build(op, spec, out, base, first, place))
        if op['name'] == 'average':
            bases.append((out + '/avg_', 1))
        elif op['name'] == 'convert' and not place:
            bases.append((out + '/conv_', first))
        ctx.label(op['name'] + (' in place' if place and op['name'] == 'convert' else ''))

    results = []
    for name, requests in (('together', [todo]), ('each', [[op] for op in todo])):
        directory = ctx.path(name)
        shutil.copytree(source, directory)
        outcomes = []
        for ops in requests:
            result = SERVER.do(directory, ops)
            ctx.check(result is not None, "the process that made the calls %r did not end by itself", ops)
            ctx.check(result['code'] == os.path.realpath(strata.__file__), "the code under test is %s", result['code'])
            outcomes += result['outcomes']
        results.append((outcomes, result['files']))

    refused = False
    for k, (op, got, want) in enumerate(zip(todo, results[0][0], results[1][0])):
        if got['error'] is not None and want['error'] is not None:
            ctx.check('replace' not in op and 'remove' not in op, "could not change the files: %s", want['error'])
            refused = True
            ctx.label('refused')
            continue
        ctx.check(got['error'] is None, "%r raised %s after %r", op, got['error'], todo[:k])
        ctx.check(want['error'] is None, "%r raised %s in a process of its own after %r", op, want['error'], todo[:k])
        for part in ('value', 'stdout') if refused else ('value', 'stdout', 'figures'):
            ctx.check(got[part] == want[part], "%s of %r after %r:\n%.1500r\nand not\n%.1500r", part, op, todo[:k], got[part], want[part])
    for p in sorted(set(results[0][1]) | set(results[1][1])):
        got, want = (r[1].get(p) for r in results)
        if refused and p.endswith('.png'):
            continue
        ctx.check(got == want, "file %s after %r:\n%.1500r\nand not\n%.1500r", p, todo, got, want)
    ctx.nontrivial(len(todo) > len(spec['ops']) or any(op['place'] and op['name'] == 'convert' for op in spec['ops'])
                   or len(bases) > 1)


SUBS = [
    Sub('calls', specs(), independent, quick=40),
    Sub('history', history_specs(), history, quick=25),
]
