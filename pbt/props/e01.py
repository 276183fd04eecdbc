"""E01: a command line does what its options say, or is refused with nothing done."""

import os

from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import alone, drops
from pbt.core import Sub
from pbt.figures import pictures
from pbt.props import c01, n02, s04

import strata.strata
from strata.average import average
from strata.contact_line_analysis import extract_contact_line_bins, sample_contact_line_edges
from strata.convert import convert
from strata.interface.angle import interface_contact_angle
from strata.interface.collect import collect_interfaces
from strata.interface.sample import sample_interfaces
from strata.interface.view import view_interfaces
from strata.sample_average import sample_average_files
from strata.spreading.collect import collect
from strata.spreading.fit import fit_spreading_data
from strata.spreading.view import view_spreading
from strata.strata import strata as cli
from strata.view_flowmap import view_flowfields, view_flowmap_2d

ID = 'E01'
RULE = (
    "command lines of every command with any number of its options in any order and spelling, on series of maps, "
    "interfaces or radii, and with all values of the options of a command in turn; the same with one argument that is missing, unknown or not what the option takes. "
    "Non-trivial: at least two options, or a refused value"
)

INF = float('inf')


class Option:
    """An option of a command: what it is called, what it is for the function and what it can be."""

    def __init__(self, kw, flags, values, default, bad=()):
        self.kw, self.flags, self.values, self.default, self.bad = kw, flags.split(), values, default, list(bad)


NOT_FLOAT = [['x7'], ['1,5'], [''], ['1.0.0']]
NOT_INT = [['x7'], ['1.5'], ['none'], ['']]


def number(kw, flags, default, *values):
    return Option(kw, flags, [([repr(v)], v) for v in values + (default,) if v is not None], default, NOT_FLOAT + [['none']])


def count(kw, flags, default, *values, low=None):
    bad = NOT_INT + ([] if low is None else [[repr(low - 1)], ['-5']])
    return Option(kw, flags, [([repr(v)], v) for v in values + (default,) if v is not None], default, bad)


def text(kw, flags, default, *values):
    return Option(kw, flags, [([v], v) for v in values + (() if default is None else (default,))], default)


def choice(kw, flags, default, *values):
    """Of values, some of which are others for the function."""
    values = [v if isinstance(v, tuple) else (v, v) for v in values]
    return Option(kw, flags, [([a], b) for a, b in values], default, [['other'], [''], [values[0][0].swapcase() + 'x']])


def switch(kw, on, off, default):
    """Flags to switch it on and off, off is '' if there is none."""
    return Option(kw, '', [([on], True)] + ([([off], False)] if off else []), default)


def limits(kw, flags):
    return Option(kw, flags, [(['none', 'none'], (None, None)), (['None', '3.5'], (None, 3.5)), (['0.75', 'NONE'], (0.75, None)),
                              (['-2.0', '1e1'], (-2.0, 10.0)), (['0', '4'], (0.0, 4.0))],
                  (None, None), [['x', '1.0'], ['1.0', 'x'], ['nope', 'none'], ['1.0', '']])


def dims():
    # Without one of them there is no size
    return Option('dims', '--dims', [(['300', '200'], (300.0, 200.0)), (['150.0', '250'], (150.0, 250.0))], None,
                  [['x', '1.0'], ['1.0', 'x'], ['300', '']])


BEGIN = Option('begin', '-b --begin', [(['1'], 1), (['2'], 2), (['3'], 3), (['0'], 0)], 1, NOT_INT + [['-1']])
END = Option('end', '-e --end', [(['3'], 3), (['4'], 4), (['2'], 2), (['0'], 0)], INF, NOT_INT + [['-1']])
SEARCH = [number('cutoff_radius', '-cr --cutoff_radius', 1., 0.75, 1.5, 2.5), count('cutoff_bins', '-cb --cutoff_bins', 1, 0, 2)]
CUTOFF = number('cutoff', '-co --cutoff', None, 8.0, 4.5)
FLOOR = number('floor', '--floor', None, 0.25, -1.0, 0.5)


def series(ext):
    return [BEGIN, END, text('ext', '--ext', ext, '.dat', '.xvg')]


def graph(title, xlabel, ylabel):
    return [limits('xlim', '--xlim'), limits('ylim', '--ylim'), text('title', '--title', title, 'A title', ''),
            text('xlabel', '--xlabel', xlabel, 'the x'), text('ylabel', '--ylabel', ylabel, 'the y')]


def figure(name='fig.png'):
    return text('save_fig', '-o --save_fig', None, name, os.path.join('sub', name))


def xvg(default):
    return text('save_xvg', '-x --save_xvg', default, 'out.xvg', os.path.join('sub', 'out.xvg'))


SHOW = switch('show', '--show', '--noshow', True)
FLOATS = [['x'], ['1.0 x'], ['1,0']]


def maps(bar):
    return [
        figure(), switch('colorbar', '--colourbar', '--nocolourbar', bar), text('cbarlabel', '--cbarlabel', None, 'the bar'),
        Option('cbarticks', '--cbarticks', [(['1.0 2.5'], [1.0, 2.5]), (['3'], [3.0]), ([' 0.5  1e0\t2.5 '], [0.5, 1.0, 2.5])], None, FLOATS),
        Option('cbarticklabels', '--cbarticklabels', [(['low  high'], ['low', 'high']), (['one'], ['one'])], None),
        text('colormap', '-cmap --colourmap', 'viridis', 'jet', 'hot'), SHOW,
        switch('transparent', '--transparent', '--notransparent', False), dims(),
    ]


LABELS = ['M', 'N', 'T', 'U', 'V', 'flow']

COMMANDS = {
    'average': (average, 'maps', [
        Option('combine', '--combine', [(['2', '1'], (2, 1)), (['None', '2'], (None, 2)), (['none', 'none'], (None, None))],
               (None, None), [['x', '1'], ['1', '1.5']]),
        Option('supersample', '--supersample', [(['2'], 2), (['none'], None)], None, [['x'], ['1.5']]),
        choice('recenter', '--recenter', None, ('none', None), 'left', 'right', 'com'),
        switch('rolling', '--rolling', '--norolling', False), FLOOR, number('cutoff', '-co --cutoff', 0., 8.0, 4.5),
        limits('xlim', '--xlim'), limits('ylim', '--ylim')] + SEARCH + series('.dat')),
    'convert': (convert, 'maps', [choice('ftype', '--ftype', 'gmx', 'gmx', 'simple', 'simple_plain')] + series('.dat')),
    'spreading collect': (collect, 'maps', [
        text('save', '-o --output', 'spread.xvg', 'other.xvg', os.path.join('sub', 'new.xvg')), switch('nooutput', '--nooutput', '', False),
        number('dt', '-dt --delta_t', 1., 0.5, 12.5), CUTOFF, number('t0', '-t0 --time_init', 0., 2.5, -3.0),
        Option('verbose', '-v --verbose', [([], True)], False)] + SEARCH + series('.dat')),
    'spreading view': (view_spreading, 'radii', [
        number('tau', '-t --tau', 1., 2.0, 0.5), number('R', '-r --radius', 1., 4.0, 0.25),
        number('sync_radius', '-rs --sync_radius', None, 0.5, 2.0), figure(), xvg(None), SHOW, switch('loglog', '--loglog', '', False),
    ] + graph('Droplet spreading', 'Time (ps)', 'Radius (nm)')),
    'spreading fit': (fit_spreading_data, 'radii', [
        limits('lims', '--lims'), limits('out_lims', '--out_lims'), figure(), xvg(None), SHOW, switch('print', '--print', '--noprint', True),
        switch('loglog', '--loglog', '', False), switch('legend', '--legend', '--nolegend', True),
    ] + graph('Droplet spreading with fit', 'Time (ps)', 'Radius (nm)')),
    'interface collect': (collect_interfaces, 'maps', [
        choice('recenter', '--recenter', 'zero', 'zero', 'com', ('off', None)), CUTOFF, limits('ylims', '--ylim')] + SEARCH + series('.dat')),
    'interface view': (view_interfaces, 'faces', [
        count('average', '-av --average', 1, 2, 3, low=1), figure('fig'), xvg(''), SHOW,
        text('extfig', '--extfig', '.png', '.pdf')] + graph('Droplet interface', 'x (nm)', 'y (nm)') + series('.xvg')),
    'interface sample': (sample_interfaces, 'faces', [
        figure(), xvg(''), number('delta_t', '-dt --delta_t', 1., 0.5, 12.5), SHOW, text('extfig', '--extfig', '.png', '.pdf'),
    ] + graph('Droplet interface', 't (ps)', None) + series('.xvg')),
    'interface angle': (interface_contact_angle, 'faces', [
        switch('fit', '--fit', '--nofit', False),
        Option('height', '-h --height', [(['0.5'], 0.5), (['1'], 1.0), (['none'], None)], None, [['x'], ['']]),
        number('delta_t', '-dt --delta_t', 1., 0.5, 12.5), figure(), xvg(None), switch('show', '--show', '--noshow', False),
    ] + graph('Contact angles', 't (ps)', 'angle (deg.)') + series('.xvg')),
    'contact_line collect': (extract_contact_line_bins, 'maps', [
        count('average', '-av --average', 1, 2, low=1), switch('rolling', '--rolling', '--norolling', False),
        switch('recenter', '--recenter', '--norecenter', True), switch('fuse', '--fuse', '--nofuse', False), FLOOR,
        Option('extract_area', '-ea --extract_area', [(['0', '0'], (0., 0.)), (['1.5', '0.5'], (1.5, 0.5))], (1., 1.), [['1', 'x'], ['none', '1']]),
        number('extract_height', '-eh --extract_height', 0., 0.5), CUTOFF] + SEARCH + series('.dat')),
    'contact_line sample': (sample_contact_line_edges, 'maps', [
        count('average', '-av --average', 1, 2, low=1), switch('rolling', '--rolling', '--norolling', False),
        switch('recenter', '--recenter', '--norecenter', True), FLOOR,
        Option('extract_area', '-ea --extract_area', [(['1', '1'], (1., 1.)), (['1.5', '0.5'], (1.5, 0.5))], (0., 0.), [['1', 'x'], ['none', '1']]),
        number('extract_height', '-eh --extract_height', 0., 0.5), number('dt', '-dt --delta_t', 1., 0.5, 12.5),
        choice('sum', '--process', False, ('mean', False), ('sum', True)), text('save', '--save', None, 'out.xvg'), CUTOFF,
    ] + SEARCH + series('.dat')),
    'view contour': (view_flowmap_2d, 'map', maps(False) + [
        choice('label', '-l --label', 'M', *LABELS), count('num_contours', '-n --num_contours', 10, 3, 5),
        Option('contour_levels', '-lv --levels', [(['2.0 4.5'], [2.0, 4.5]), (['12'], [12.0]), (['2.0   4.5 8 '], [2.0, 4.5, 8.0])], None, FLOATS),
        Option('contour_colours', '-c --colours', [(['red'], ['red']), (['blue  red'], ['blue', 'red'])], None),
        switch('filled', '--filled', '', False), limits('vlim', '--vlim'), Option('noaxis', '--noaxis', [(['true'], True), (['false'], False)], False),
    ] + graph('Droplet contours', 'x (nm)', 'y (nm)')),
    'view height': (view_flowmap_2d, 'map', maps(True) + [
        choice('label', '-l --label', 'M', *(LABELS + ['visc_diss', 'evaporation'])), limits('clim', '--clim'), limits('vlim', '--vlim'),
        choice('cutoff_label', '-cl --cutoff_label', None, 'M', 'N', 'T', 'U', 'V', 'flow', 'None'),
        number('cutoff', '-co --cutoff', None, 8.0, 0.0), switch('axes', '--drawaxes', '--nodrawaxes', True),
        count('dpi', '--dpi', 150, 40, 72),
    ] + graph('Droplet height map', 'x (nm)', 'y (nm)')),
    'view flow': (view_flowfields, 'map', maps(False) + [
        choice('colour', '-cl --colour_label', 'T', *(LABELS + ['radial', 'evaporation', 'visc', 'None'])),
        number('cutoff', '-co --cutoff', None, 8.0, 0.0), number('scale', '--scale', 1., 4.0), number('width', '--width', 0.0015, 0.01),
        choice('pivot', '--pivot', 'middle', 'tail', 'middle', 'tip'), switch('streamlines', '--streamlines', '--nostreamlines', False),
        limits('vlim', '--vlim'), Option('noaxis', '--noaxis', [(['true'], True), (['false'], False)], False), count('dpi', '--dpi', 150, 40, 72),
    ] + graph('Droplet height map', 'x (nm)', 'y (nm)')),
    'sample': (sample_average_files, 'maps', [
        text('output', '-o --output', 'sample.xvg', 'other.xvg', os.path.join('sub', 'new.xvg')), number('dt', '-dt --delta_t', 1., 0.5, 12.5),
        choice('sum', '--process', False, ('mean', False), ('sum', True)), number('cutoff', '-co --cutoff', None, 8.0, 0.0),
        text('cutoff_label', '-cl --cutoff_label', None, 'M', 'T'), number('slip_floor', '-fl --floor', 0.0, 1.0, -2.5),
        switch('verbose', '--show', '--noshow', True), limits('xlim', '--xlim'), limits('ylim', '--ylim')] + series('.dat')),
}
# Every value of every option, and every value that is refused, as likely as the others
GOOD = [(name, k, v) for name in sorted(COMMANDS) for k, o in enumerate(COMMANDS[name][2]) for v in range(len(o.values))]
BAD = [(name, k, v) for name in sorted(COMMANDS) for k, o in enumerate(COMMANDS[name][2]) for v in range(len(o.bad))]


@st.composite
def lines(draw, most=5, name=None):
    first = []
    if name is None and draw(st.integers(0, 4)) == 0:
        name = draw(st.sampled_from(sorted(COMMANDS)))
    elif name is None:
        name, k, v = draw(st.sampled_from(GOOD))
        first = [[k, v, draw(st.integers(0, 3))]]
    options = COMMANDS[name][2]
    chosen = draw(st.lists(st.integers(0, len(options) - 1), unique=True, max_size=draw(st.integers(0, most))))
    spec = draw(drops.systems(min_nx=7, max_frames=4, min_layers=2, fixed_bottom=True))
    rest = [[k, draw(st.integers(0, 20)), draw(st.integers(0, 3))] for k in chosen if [k] not in [o[:1] for o in first]]
    spec.update({
        'name': name, 'again': False, 'first': draw(st.sampled_from([1, 1, 1, 2, 0])),
        'options': draw(st.permutations(first + rest)), 'rough': draw(st.sampled_from([0, 1])) * draw(st.integers(1, 999)),
        'group': draw(st.integers(1, 2)), 'variable': draw(st.sampled_from(['area', 'length'])),
        'labels': draw(st.lists(st.sampled_from(['M', 'N', 'T', 'U', 'V', 'inertial_energy', 'slip_length']), min_size=1, max_size=2)),
        'level': draw(st.integers(0, 3)), 'ext': draw(st.sampled_from(['.dat', '.dat', '.xvg'])), 'own': draw(st.booleans()),
        'last': draw(st.booleans()),
    })
    if spec['src'] in ('mixed', 'mixed2') and name == 'average':
        spec['src'] = 'gmx'
    kind = COMMANDS[name][1]
    spec['faces'] = [draw(n02.interfaces(min_layers=3)) for _ in range(draw(st.integers(2, 5)))] if kind == 'faces' else []
    spec['series'] = draw(s04.specs())['series'] if kind == 'radii' else []
    return spec


def write_input(spec, directory):
    """Paths of the files a command is given, or the base of their names."""

    kind = COMMANDS[spec['name']][1]
    os.makedirs(directory)
    base = os.path.join(directory, 'map_')
    ext = {'faces': '.xvg', 'radii': '.dat'}.get(kind, '.dat')
    # The extension which is not the default has to be asked for
    asked = [o for o in spec['options'] if COMMANDS[spec['name']][2][o[0]].kw == 'ext']
    if asked:
        option = COMMANDS[spec['name']][2][asked[0][0]]
        ext = option.values[asked[0][1] % len(option.values)][1]
    if kind == 'faces':
        for k, face in enumerate(spec['faces']):
            face['j0'] = 0
            n02.write_interface('%s%05d%s' % (base, spec['first'] + k, ext), face, 0.5)
        return base
    if kind == 'radii':
        for k, s in enumerate(spec['series']):
            with open('%s%05d.dat' % (base, k), 'w') as fp:
                for t, r in zip(s['t'], s['r']):
                    fp.write('%.6f %.9f\n' % (t, r))
    else:
        spec['ext'] = ext
        c01.write_series(spec, directory)
    if kind == 'maps':
        return base
    return [os.path.join(directory, f) for f in sorted(os.listdir(directory))][:2]


def arguments(spec, source):
    """Positional arguments of the command and of its function."""

    name = spec['name']
    out = os.path.join('sub', 'new_')
    if name == 'average':
        return [source, out, repr(spec['group'])], [source, out, spec['group']]
    if name in ('convert', 'interface collect', 'contact_line collect'):
        return [source, out], [source, out]
    if name == 'spreading collect':
        floor = spec['y0'] + (spec['frames'][0][0][0] + spec['level'] / 4.) * spec['dy']
        return [source, repr(floor)], [source]
    if name in ('sample', 'contact_line sample'):
        labels = [l for l in spec['labels'] if name == 'sample' or l != 'slip_length'] or ['M']
        return [source] + labels, [source, tuple(labels)]
    if name == 'interface sample':
        return [source, spec['variable']], [source, spec['variable']]
    if name == 'spreading view' or name == 'spreading fit':
        return list(source), [tuple(source)]
    if name.startswith('view'):
        return list(source), list(source)
    return [source], [source]


def spelled(spec):
    """Options as they are written, by groups which belong together."""

    out = []
    for k, v, how in spec['options']:
        option = COMMANDS[spec['name']][2][k]
        values, _ = option.values[v % len(option.values)]
        out.append(written(option, values, how))
    return out


def written(option, values, how):
    if not option.flags:
        return list(values)
    flag = option.flags[how % len(option.flags)]
    if how > 1 and len(values) == 1 and flag.startswith('--'):
        return ['%s=%s' % (flag, values[0])]
    return [flag] + list(values)


def keywords(spec, floor):
    """What the function has to be called with, all of it."""

    name = spec['name']
    options = COMMANDS[name][2]
    kw = {o.kw: o.default for o in options}
    for k, v, _ in spec['options']:
        kw[options[k].kw] = options[k].values[v % len(options[k].values)][1]
    if name == 'spreading collect':
        kw['floor'] = floor
        kw.pop('verbose')
        if kw.pop('nooutput'):
            kw['save'] = None
    elif name == 'spreading fit':
        kw.pop('print')
    elif name == 'interface sample' and not kw['ylabel']:
        kw['ylabel'] = {'area': 'A (nm^2)', 'length': 'L (nm)'}[spec['variable']]
    elif name == 'view height':
        kw['noaxis'] = not kw.pop('axes')
        kw['type'] = 'height'
    elif name == 'view contour':
        kw['type'] = 'contour'
    elif name == 'view flow':
        kw['cutoff_label'] = 'M'
    for key in ('cbarticks', 'cbarlabel', 'save_fig') if name.startswith('view') else ():
        if kw[key] is None and spec['own']:
            kw.pop(key)
    return kw


def command_line(spec, source):
    fixed, _ = arguments(spec, source)
    options = [v for group in spelled(spec) for v in group]
    if spec['last'] and not spec['name'].startswith('spreading collect'):
        return spec['name'].split() + fixed + options
    return spec['name'].split() + options + ['--'] + fixed


def outcome(ctx, directory, call):
    """What is there after the call: files, figures and whether it failed."""

    os.makedirs(directory)
    os.chdir(directory)
    ctx.called = True
    error = None
    with pictures() as drawn:
        try:
            error = call()
        except (Exception, SystemExit) as exc:
            error = exc
    os.chdir(ctx.dir)
    return error, alone.tree(directory, directory), [alone.picture(p) for p in drawn]


def content(directory):
    """Files but for the comments of text, which H01 is about."""

    out = {}
    for where, _, names in os.walk(directory):
        for name in names:
            with open(os.path.join(where, name), 'rb') as fp:
                raw = fp.read()
            if b'\0' not in raw:
                raw = b'\n'.join(l for l in raw.split(b'\n') if not l.startswith(b'#'))
            out[os.path.relpath(os.path.join(where, name), directory)] = raw
    return out


def run(ctx, args):
    result = CliRunner().invoke(cli, args)
    if result.exception is not None:
        return result.exception
    if result.exit_code != 0:
        return RuntimeError(result.output)


@st.composite
def singles(draw):
    name, k, v = draw(st.sampled_from(GOOD))
    spec = draw(lines(most=1, name=name))
    ones = [[k, v] for other, k, v in GOOD if other == name]
    start = ones.index([k, v])
    spec['values'] = (ones[start:] + ones[:start])[:draw(st.sampled_from([2, 8, 100]))]
    spec['how'] = draw(st.integers(0, 3))
    return spec


def each(spec, ctx):
    """The same for many values of options, one at a time."""

    ctx.nontrivial(len(spec['values']) > 1)
    for i, (k, v) in enumerate(spec['values']):
        rest = [o for o in spec['options'] if o[0] != k]
        ctx.mkdir('value%d' % i)
        same(dict(spec, options=rest + [[k, v, spec['how']]]), ctx, 'value%d' % i)


def same(spec, ctx, where='.'):
    """The command line is the call of the function with these options."""

    def place(name):
        return os.path.normpath(os.path.join(ctx.path(where), name))

    name = spec['name']
    if None in [s04.expected(s, (None, None)) for s in spec['series']]:
        return
    source = write_input(spec, place('in'))
    args = command_line(spec, source)
    _, fixed = arguments(spec, source)
    floor = float(arguments(spec, source)[0][-1]) if name == 'spreading collect' else None
    kw = keywords(spec, floor)
    ctx.label(name)
    with_help = name == 'interface angle' and not kw['fit'] and not kw['height']
    if with_help:
        # There is nothing to do
        error, tree, drawn = outcome(ctx, place('cli'), lambda: run(ctx, args))
        ctx.check(error is None and not tree and not drawn, "%r without a measurement gives %r %r %r", args, error, tree, drawn)
        return

    def call():
        COMMANDS[name][0](*fixed, **kw)

    error, _, drawn = outcome(ctx, place('cli'), lambda: run(ctx, args))
    wanted, _, drawn2 = outcome(ctx, place('api'), call)
    ctx.check(not isinstance(error, SystemExit) or isinstance(wanted, SystemExit), "%r is refused", args)
    ctx.check((error is None) == (wanted is None), "%r ended with %r, and the function called with %r with %r", args, error, kw, wanted)
    if error is not None:
        ctx.label('both failed')
        return
    ctx.nontrivial(len(spec['options']) > 1)
    made, made2 = content(place('cli')), content(place('api'))
    ctx.check(sorted(made) == sorted(made2), "%r wrote %r and not %r", args, sorted(made), sorted(made2))
    for key in made:
        ctx.check(made[key] == made2[key], "%r wrote other content to %r than with %r: %r, %r", args, key, kw, made[key][:500], made2[key][:500])
    ctx.check(len(drawn) == len(drawn2), "%r drew %d and not %d figures", args, len(drawn), len(drawn2))
    for a, b in zip(drawn, drawn2):
        for key in a:
            if key == 'path':
                a[key], b[key] = [None if p[key] is None else os.path.basename(p[key]) for p in (a, b)]
            ctx.check(a[key] == b[key], "%r drew other %s than with %r: %r, %r", args, key, kw, a[key], b[key])


# Refused command lines

@st.composite
def wrong(draw):
    way = draw(st.sampled_from(['value', 'value', 'value', 'value', 'option', 'missing', 'files', 'command', 'group']))
    which, bad, name = draw(st.integers(0, 50)), draw(st.integers(0, 50)), None
    if way == 'value':
        name, which, bad = draw(st.sampled_from(BAD))
    spec = draw(lines(most=3, name=name))
    spec['way'], spec['which'], spec['bad'] = way, which, bad
    spec['how'] = draw(st.integers(0, 3))
    spec['last'] = draw(st.booleans())
    same = [[k, v] for other, k, v in BAD if other == name]
    start = same.index([which, bad]) if way == 'value' else 0
    # And some that follow, one at a time
    spec['values'] = (same[start:] + same[:start])[:draw(st.sampled_from([1, 3, 100]))] if way == 'value' else []
    return spec


def refused(spec, ctx):
    source = write_input(spec, ctx.path('in'))
    os.makedirs(ctx.path('work'))
    for which, bad in spec['values'] or [[spec['which'], spec['bad']]]:
        refused_one(dict(spec, which=which, bad=bad), source, ctx)


def refused_one(spec, source, ctx):
    name = spec['name']
    _, kind, options = COMMANDS[name]
    fixed, _ = arguments(spec, source)
    groups = spelled(spec)
    way = spec['way']
    words = []
    if way == 'value':
        k = spec['which']
        option = options[k]
        # Instead of a good value of the same option
        groups = [g for g, o in zip(groups, spec['options']) if o[0] != k]
        bad = option.bad[spec['bad'] % len(option.bad)]
        groups.insert(spec['bad'] % (len(groups) + 1), written(option, bad, spec['how']))
        words = option.flags
    elif way == 'option':
        groups.insert(spec['bad'] % (len(groups) + 1), [['--nope'], ['--nope=1'], ['-Q']][spec['which'] % 3])
        words = ['--nope', '-Q']
    elif way == 'missing':
        if kind in ('map', 'radii'):
            return
        fixed = fixed[:-1] if name in ('average', 'interface sample', 'spreading collect', 'convert', 'interface collect', 'contact_line collect') \
            else fixed[:1] if name in ('sample', 'contact_line sample') else []
        words = ['Missing argument']
    elif way == 'files':
        if kind in ('map', 'radii'):
            fixed = fixed + [os.path.join(ctx.path('in'), 'not_there.dat')]
            words = ['not_there.dat']
        elif name == 'average':
            fixed[2] = ['0', '-1', 'x', '1.5', 'none'][spec['bad'] % 5]
            words = [fixed[2]]
        elif name == 'spreading collect':
            fixed[1] = ['x', 'none', '1,5'][spec['bad'] % 3]
            words = [fixed[1]]
        elif name == 'interface sample':
            fixed[1] = ['volume', 'AREA', ''][spec['bad'] % 3]
            words = ['area']
        else:
            return
    parts = name.split()
    if way == 'command':
        parts[-1] = parts[-1][:-1] + 'q'
        words = [parts[-1]]
    elif way == 'group':
        parts = [parts[0] + 'x'] + parts[1:]
        words = [parts[0]]
    args = parts + [v for g in groups for v in g] + ['--'] + fixed
    before = alone.tree(ctx.path('in'), ctx.path('in'))
    os.chdir(ctx.path('work'))
    ctx.called = True
    ctx.terminal.take()
    with pictures() as drawn:
        result = CliRunner().invoke(cli, args)
    os.chdir(ctx.dir)
    told = result.output + ''.join(ctx.terminal.take())
    ctx.nontrivial()
    ctx.label(way)
    ctx.check(result.exit_code != 0, "%r was taken: %r", args, told[:500])
    ctx.check(isinstance(result.exception, SystemExit), "%r ended with %r", args, result.exception)
    ctx.check(any(w in told for w in words), "%r is refused without any of %r: %r", args, words, told)
    ctx.check(not os.listdir(ctx.path('work')) and not drawn, "%r was refused after it wrote %r", args, os.listdir(ctx.path('work')))
    ctx.check(alone.tree(ctx.path('in'), ctx.path('in')) == before, "%r was refused after it changed its input", args)


@st.composite
def info_specs(draw):
    return {'way': draw(st.sampled_from(['help', 'help', 'version'])), 'name': draw(st.sampled_from(sorted(COMMANDS))),
            'short': draw(st.booleans()), 'rest': draw(st.booleans()), 'depth': draw(st.sampled_from([2, 2, 1, 0]))}


def info(spec, ctx):
    """Help and version are shown instead of anything else."""

    parts = spec['name'].split()
    os.chdir(ctx.mkdir('work'))
    ctx.called = True
    if spec['way'] == 'version':
        args = ['-V' if spec['short'] else '--version'] + (parts if spec['rest'] else [])
        result = CliRunner().invoke(cli, args)
        ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
        ctx.check(result.output.split() == ['Version', str(strata.strata.version)], "the version is shown as %r", result.output)
        ctx.nontrivial(spec['rest'])
    else:
        parts = parts[:spec['depth']]
        short = spec['short'] and parts != ['interface', 'angle']
        args = parts + (['--fit'] if spec['rest'] and parts == ['interface', 'angle'] else []) + ['-h' if short else '--help']
        result = CliRunner().invoke(cli, args)
        ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
        shown = result.output
        if ' '.join(parts) in COMMANDS:
            for option in COMMANDS[' '.join(parts)][2]:
                for flag in option.flags or [v for values, _ in option.values for v in values]:
                    ctx.check(flag in shown, "the help of %r does not show %r: %s", parts, flag, shown)
        else:
            for name in COMMANDS:
                if name.split()[:len(parts)] == parts:
                    ctx.check(name.split()[len(parts)] in shown, "the help of %r does not show %r", parts, name)
        ctx.nontrivial(' '.join(parts) in COMMANDS)
    ctx.label(spec['way'])
    ctx.check(not os.listdir('.'), "%r wrote %r", args, os.listdir('.'))


SUBS = [
    Sub('same', lines(), same, quick=280),
    Sub('each', singles(), each, quick=40),
    Sub('refused', wrong(), refused, quick=150),
    Sub('info', info_specs(), info, quick=20),
]
