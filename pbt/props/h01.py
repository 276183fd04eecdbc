"""H01: text output records which input and options it was made from."""

import ast
import os
import time

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import drops, edges
from pbt.core import Sub
from pbt.figures import recorded
from pbt.oracle import same
from pbt.props import n02, s04

from strata.strata import strata as cli, version

ID = 'H01'
RULE = (
    "commands that write text, with any values for all of their options, or none, on series of 1 to 6 maps, "
    "interfaces or spreading files below a working directory, with relative and absolute paths. Non-trivial: at "
    "least two options are not at their default"
)


def head(path):
    """Header of a file: values by their names, names of input files, and all lines."""

    values, names, lines = {}, [], []
    with open(path) as fp:
        for line in fp:
            if not line.startswith('#'):
                break
            line = line[1:].rstrip('\n')
            lines.append(line)
            if line.startswith('   \'') or line.startswith('   "'):
                names.append(line.strip().strip('"\''))
            elif ': ' in line:
                key, value = line.split(': ', 1)
                values[key.strip().lower()] = value.strip()
    return values, names, lines


def value(text):
    return ast.literal_eval(text.replace('inf', '1e999'))


def judge(ctx, values, want):
    for key, w in want.items():
        ctx.check(key.lower() in values, "the header has no %r", key)
        text = values[key.lower()]
        if isinstance(w, str) and key in ('Working directory', 'File base path'):
            got = text.strip('\'"')
            ctx.check(os.path.realpath(got) == os.path.realpath(w), "%s is recorded as %r and not %r", key, got, w)
            continue
        try:
            got = value(text)
        except (ValueError, SyntaxError):
            got = text
        if isinstance(w, list):
            got = list(got)
        ctx.check(got == w and (got is None) == (w is None), "%s is recorded as %s and not %r", key, text, w)


def origin(ctx, path, columns, module=True):
    """When and by which version the file was made, and what its columns are."""

    values, _, lines = head(path)
    if module:
        made_by = values.get('created by module', '')
        ctx.check(made_by.startswith('strata.'), "the header has the module %r", made_by)
    ctx.check(values.get('using module version') == str(version), "the header has the version %r and not %r",
              values.get('using module version'), version)
    made = time.mktime(time.strptime(values.get('creation date', ''), '%c'))
    ctx.check(abs(time.time() - made) < 3 * 86400., "the header is from %r", values.get('creation date'))
    ctx.check(lines and lines[0].strip(), "the header begins without a title: %r", lines)
    words = lines[-1].lower()
    at = 0
    for word in columns:
        found = words.find(word.lower(), at)
        ctx.check(found >= 0, "the header has not the columns %r but %r", columns, lines[-1])
        at = found + len(word)


# Name of the option, of its header line, default and other values
SEARCH = [('-co', 'Mass cut-off', None, [8.0, 4.5, 0.0]), ('-cb', 'Required # of bins', 1, [0])]
OPTIONS = {
    'sample': [('-dt', 'Delta-t', 1., [0.5, 12.5]), ('-co', 'Cut-off', None, [8.0, 0.25, 0.0]),
               ('-cl', 'Cut-off label', None, ['M', 'N'])],
    'contact_line sample': [('-dt', 'Delta-t', 1., [0.5, 12.5]), ('-co', 'Cut-off', None, [8.0, 4.5, 0.0]),
                            ('-av', 'Average over # files', 1, [2]), ('--rolling', 'Rolling average', False, [True])],
    'spreading collect': [('-dt', 'Delta-t', 1., [0.5, 12.5])] + SEARCH,
    'interface collect': [('--recenter', 'Recenter', 'zero', ['off', 'com', 'zero'])] + SEARCH,
    'interface view': [('-av', None, 1, [2, 3])],
    'interface sample': [('-dt', 'Delta-t', 1., [0.5, 12.5])],
    'interface angle': [('-dt', 'Delta-t', 1., [0.5, 12.5]), ('-h', 'Measured at height', None, [0.5, 2.0, 0.0])],
    'spreading view': [('-t', None, 1., [2.0]), ('-r', None, 1., [0.5])],
    'spreading fit': [('--lims', 'Fit limits', None, [[1.0, 1000.0], [0.5, None]]),
                      ('--out_lims', 'Draw limits', None, [[0.25, 500.0], [None, 900.0]])],
}
LABELS = ['M', 'N', 'T', 'U', 'V', 'inertial_energy']


@st.composite
def chosen(draw, spec, name):
    spec['command'] = name
    spec['options'] = [draw(st.sampled_from([None] + o[3])) for o in OPTIONS[name]]
    spec['relative'] = draw(st.booleans())
    spec['name'] = draw(st.sampled_from(['map_', 'a_b.', 'sub/map_']))
    spec['labels'] = draw(st.lists(st.sampled_from(LABELS), min_size=1, max_size=3, unique=True))
    spec['begin'] = draw(st.sampled_from([None, None, 0, 1]))
    spec['end'] = draw(st.sampled_from([None, None, 2, 4]))
    return spec


@st.composite
def map_specs(draw):
    spec = draw(drops.systems(max_frames=5, min_layers=2, fixed_bottom=True))
    spec['cutoff'] = None
    return draw(chosen(spec, draw(st.sampled_from(
        ['sample', 'contact_line sample', 'spreading collect', 'interface collect']))))


def setup(spec, ctx):
    """Working directory, base path as it is given, and the options with their header lines."""

    root = ctx.mkdir('work')
    os.chdir(root)
    base = os.path.join('in', spec['name'])
    os.makedirs(os.path.dirname(base), exist_ok=True)
    args, want = [], {}
    for given, (flag, key, default, _) in zip(spec['options'], OPTIONS[spec['command']]):
        if given is not None:
            args.append(flag)
            if isinstance(given, list):
                args += ['none' if v is None else repr(v) for v in given]
            elif given is not True:
                args.append(str(given))
        if key:
            want[key] = default if given is None else given
    ctx.label(spec['command'], 'relative' if spec['relative'] else 'absolute')
    ctx.nontrivial(sum(v is not None for v in spec['options']) + (spec['begin'] is not None) + (spec['end'] is not None) > 1)
    return root, base if spec['relative'] else os.path.join(root, base), args, want


def span(spec, want):
    """Numbers of the first and last file."""

    args = []
    begin, end = 1, float('inf')
    if spec['begin'] is not None:
        begin = spec['first'] + spec['begin']
        args += ['-b', str(begin)]
    if spec['end'] is not None:
        end = begin + spec['end'] - 1
        args += ['-e', str(end)]
    want['Begin, end'] = (begin, end)
    return args, begin, end


def invoke(ctx, args):
    ctx.called = True
    result = CliRunner().invoke(cli, args)
    ctx.check(result.exit_code == 0, "%s ended with %r", ' '.join(args), result.exception)


def droplet_found(spec, k, r):
    m = drops.mass(spec, spec['frames'][k], k)
    given = dict(zip((o[0] for o in OPTIONS[spec['command']]), spec['options']))['-co']
    cutoff = edges.midpoint(m) if given is None else given
    return bool(edges.filled(m, spec['dx'], spec['dy'], r, cutoff, 1).any())


def of_maps(spec, ctx):
    r = drops.radius_of(spec)
    if r is None or spec['src'] != 'gmx' and spec['ny'] < 2:
        return
    if spec['dy'] > 1.:
        spec['dy'] /= 2
    if spec['begin'] is None:
        spec['first'] = 1
    name = spec['command']
    if name == 'contact_line sample' and not all(droplet_found(spec, k, r) for k in range(len(spec['frames']))):
        # Nothing is said of maps without contact line
        return
    root, base, args, want = setup(spec, ctx)
    drops.write_frames(spec, os.path.dirname(os.path.abspath(base)), base=os.path.basename(base))
    more, begin, end = span(spec, want)
    args += more
    if name == 'sample':
        out = 'new/out.xvg'
        args = ['sample', base] + spec['labels'] + ['-o', out] + args
        want['Sample data labels'] = spec['labels']
        want['File base path'] = base
    else:
        args += ['-cr', repr(r)]
        if name == 'contact_line sample':
            out = 'out.xvg'
            args = ['contact_line', 'sample', base] + spec['labels'] + ['--save', out] + args
            want['Sample data labels'] = spec['labels']
            want['File base path'] = base
        elif name == 'spreading collect':
            out = 'out.xvg'
            floor = spec['y0'] + spec['frames'][0][0][0] * spec['dy']
            args = ['spreading', 'collect', '-o', out] + args + ['--', base, repr(floor)]
            want.update({'File base path': base, 'Floor': floor, 'Radius cut-off': r})
        else:
            out = None
            args = ['interface', 'collect', base, 'new/int_'] + args
            want.pop('Begin, end')
            if want['Recenter'] == 'off':
                want['Recenter'] = None
            want.update({'Radius cut-off': r, 'Working directory': root})
    invoke(ctx, args)
    if out:
        judge(ctx, head(out)[0], want)
        if name != 'spreading collect':
            origin(ctx, out, ['time'] + spec['labels'])
        elif any(line[0] != '#' for line in open(out)):
            # There are no columns before the impact
            origin(ctx, out, ['time', 'radius', 'left', 'right'], module=False)
        return
    for k in range(len(spec['frames'])):
        number = spec['first'] + k
        path = 'new/int_%05d.xvg' % number
        if not begin <= number <= end:
            continue
        values, names, _ = head(path)
        judge(ctx, values, want)
        origin(ctx, path, ['x', 'y'])
        inputs = ['%s%05d.dat' % (base, number)]
        ctx.check(names == inputs, "input files are recorded as %r and not %r", names, inputs)


@st.composite
def face_specs(draw):
    spec = {'faces': [draw(n02.interfaces(min_layers=2)) for _ in range(draw(st.integers(1, 5)))],
            'first': draw(st.sampled_from([1, 1, 2, 0]))}
    for f in spec['faces']:
        f['j0'] = 0
    spec['variable'] = draw(st.sampled_from(['area', 'length']))
    return draw(chosen(spec, draw(st.sampled_from(['interface view', 'interface sample', 'interface angle']))))


@recorded
def of_faces(spec, ctx):
    if spec['begin'] is None:
        spec['first'] = 1
    root, base, args, want = setup(spec, ctx)
    for k, face in enumerate(spec['faces']):
        n02.write_interface(os.path.abspath('%s%05d.xvg' % (base, spec['first'] + k)), face, 0.5)
    more, begin, end = span(spec, want)
    args += more + ['--noshow']
    name = spec['command']
    want['File base path'] = base
    if name == 'interface sample':
        want['Variable'] = spec['variable']
        invoke(ctx, ['interface', 'sample', base, spec['variable'], '-x', 'new/out.xvg'] + args)
        judge(ctx, head('new/out.xvg')[0], want)
        origin(ctx, 'new/out.xvg', ['time', 'area' if spec['variable'] == 'area' else 'circumference'])
    elif name == 'interface angle':
        invoke(ctx, ['interface', 'angle', base, '--fit', '-x', 'new/out.xvg'] + args)
        judge(ctx, head('new/out.xvg')[0], want)
        columns = ([] if spec['options'][1] is None else ['mean', 'left', 'right']) + ['fit']
        # Without any interface there are no angles
        none = all(line[0] == '#' for line in open('new/out.xvg'))
        origin(ctx, 'new/out.xvg', ['t (ps)'] + ([] if none else columns))
    else:
        invoke(ctx, ['interface', 'view', base, '-x', 'new/avg_'] + args)
        group = spec['options'][0] or 1
        numbers = [n for n in range(spec['first'], spec['first'] + len(spec['faces'])) if begin <= n <= end]
        found = sorted(os.listdir('new')) if os.path.exists('new') else []
        bundles = [numbers[k:k + group] for k in range(0, len(numbers) - group + 1, group)]
        ctx.check(len(found) == len(bundles), "%r are not %d files", found, len(bundles))
        for f, bundle in zip(found, bundles):
            values, names, _ = head(os.path.join('new', f))
            judge(ctx, values, {'Working directory': root})
            origin(ctx, os.path.join('new', f), ['x', 'y'])
            inputs = ['%s%05d.xvg' % (base, n) for n in bundle]
            ctx.check(names == inputs, "input files are recorded as %r and not %r", names, inputs)


@st.composite
def radius_specs(draw):
    spec = {'files': [[draw(s04.series())] for _ in range(draw(st.integers(1, 3)))], 'first': 0}
    return draw(chosen(spec, draw(st.sampled_from(['spreading view', 'spreading fit']))))


@recorded
def of_radii(spec, ctx):
    spec['begin'] = spec['end'] = None
    root, base, args, want = setup(spec, ctx)
    paths, params = [], []
    lims = spec['options'][0] if spec['command'] == 'spreading fit' else None
    for k, (s,) in enumerate(spec['files']):
        path = '%s%d.xvg' % (base, k)
        with open(path, 'w') as fp:
            for t, r in zip(s['t'], s['r']):
                fp.write('%.6f %.9f\n' % (t, r))
        paths.append(path)
        params.append(s04.expected(s, lims or [None, None]))
    if spec['command'] == 'spreading view':
        invoke(ctx, ['spreading', 'view', '--noshow', '-x', 'new/out.xvg'] + args + paths)
        values, names, _ = head('new/out.xvg')
        judge(ctx, values, {'Working directory': root})
        origin(ctx, 'new/out.xvg', ['time', 'radius'])
        ctx.check(names == [p + '.1' for p in paths], "input files are recorded as %r and not %r", names, paths)
        return
    if None in params:
        return
    for key in ('Fit limits', 'Draw limits'):
        want[key] = tuple(want[key] or (None, None))
    want['Working directory'] = root
    invoke(ctx, ['spreading', 'fit', '--noshow', '-x', 'new/out.xvg'] + args + paths)
    values, names, _ = head('new/out.xvg')
    judge(ctx, values, want)
    origin(ctx, 'new/out.xvg', ['time', 'radius'])
    ctx.check(len(names) == len(paths), "input files are recorded as %r and not %r", names, paths)
    for name, path, (a, k) in zip(names, paths, params):
        ctx.check(name.startswith(path + '.1'), "input files are recorded as %r and not %r", names, paths)
        got = [float(p.split('=')[1]) for p in name[len(path) + 2:].split(',')]
        same(ctx, got, [a, k], 'recorded parameters', rtol=1e-3, atol=1.1e-3)


SUBS = [
    Sub('maps', map_specs(), of_maps, quick=120),
    Sub('interfaces', face_specs(), of_faces, quick=80),
    Sub('radii', radius_specs(), of_radii, quick=40),
]
