"""T01: progress, results and messages on the terminal."""

import os
import re
import warnings

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import alone, drops, files, gen
from pbt.core import Sub
from pbt.figures import recorded
from pbt.oracle import same
from pbt.props import n02, s04

from droplets.flow import FlowData
from droplets.interface import get_interface
from strata.average import average
from strata.contact_line_analysis import extract_contact_line_bins, sample_contact_line_edges
from strata.convert import convert
from strata.interface.angle import interface_contact_angle
from strata.interface.collect import collect_interfaces
from strata.interface.sample import sample_interfaces
from strata.interface.view import view_interfaces
from strata.sample_average import sample_average_files
from strata.spreading.collect import collect
from strata.spreading.fit import fit_spreading_data
from strata.spreading.view import read_spreading_data
from strata.strata import strata as cli
from strata.utils import find_datamap_files

ID = 'T01'
RULE = (
    "series of 0 to 6 maps or interfaces, of which any numbers are read, bundled or not, by every command with progress, "
    "quiet or not; commands that print results; files that can not be read or are in the way of output. Non-trivial: "
    "several items, printed results of several rows or a message on one of several files"
)

MAPS = ['average', 'convert', 'spreading', 'collect', 'extract', 'contact', 'sample']
FACES = ['view', 'area', 'length', 'angle']
PROGRESS = re.compile(r'\((\d+) of (\d+|N/A)\)')


@st.composite
def progress_specs(draw):
    spec = draw(drops.systems(max_frames=6, min_layers=2, fixed_bottom=True))
    spec['job'] = draw(st.sampled_from(MAPS + FACES))
    spec['begin'] = draw(st.sampled_from([0, 0, 0, 1]))
    spec['end'] = draw(st.sampled_from([None, None, 1, 2, 3]))
    spec['group'] = draw(st.integers(1, 3))
    spec['rolling'] = draw(st.booleans())
    spec['faces'] = [draw(n02.interfaces(min_layers=2)) for _ in range(draw(st.integers(1, 6)))] if spec['job'] in FACES else []
    return spec


def progress(spec, ctx):
    job = spec['job']
    indir = ctx.mkdir('in')
    base = os.path.join(indir, 'map_')
    if job in FACES:
        total = len(spec['faces'])
        for k, face in enumerate(spec['faces']):
            face['j0'] = 0
            n02.write_interface('%s%05d.xvg' % (base, spec['first'] + k), face, 0.5)
    else:
        if spec['src'] in files.MIXED and job == 'average':
            spec['src'] = 'gmx'
        r = drops.radius_of(spec)
        if r is None or spec['src'] != 'gmx' and spec['ny'] < 2:
            return
        total = len(spec['frames'])
        drops.write_frames(spec, indir)
    kw = {'begin': spec['first'] + spec['begin']}
    last = total
    if spec['end'] is not None:
        kw['end'] = kw['begin'] + spec['end'] - 1
        last = min(total, spec['begin'] + spec['end'])
    num = max(last - spec['begin'], 0)
    group = spec['group'] if job in ('average', 'extract', 'contact', 'view') else 1
    if spec['rolling'] and job in ('average', 'extract', 'contact'):
        num = max(num - group + 1, 0)
    else:
        num = num // group
    search = {} if job in FACES else {'cutoff': spec['cutoff'], 'cutoff_radius': r, 'cutoff_bins': spec['bins']}

    def run(where, **quiet):
        out = ctx.path(where, 'new_')
        opts = dict(kw, **quiet)
        if job == 'average':
            return average(base, out, group, rolling=spec['rolling'], **opts)
        if job == 'convert':
            return convert(base, out, ftype='simple', **opts)
        if job == 'spreading':
            return collect(base, save=out, **dict(search, **opts))
        if job == 'collect':
            return collect_interfaces(base, out, **dict(search, **opts))
        if job == 'extract':
            return extract_contact_line_bins(base, out, average=group, rolling=spec['rolling'], **dict(search, **opts))
        if job == 'contact':
            return sample_contact_line_edges(base, ['M', 'U'], save=out, average=group, rolling=spec['rolling'],
                                             sum=True, **dict(search, **opts))
        if job == 'sample':
            return sample_average_files(base, ['M', 'U'], output=out, verbose=False, **opts)
        if job == 'view':
            return view_interfaces(base, group, save_xvg=out, show=False, **opts)
        if job == 'angle':
            return interface_contact_angle(base, height=0.25, save_xvg=out, show=False, **opts)
        return sample_interfaces(base, job, save_xvg=out, show=False, **opts)

    results = []
    for where, quiet in (('quiet', {'quiet': True}), ('not', {'quiet': False}), ('default', {})):
        ctx.terminal.take()
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            value = ctx.sut(run, where, **quiet)
        missing = [str(w.message) for w in caught if base in str(w.message) or repr(base)[1:-1] in str(w.message)]
        if os.path.exists('%s%05d%s' % (base, kw['begin'], '.xvg' if job in FACES else '.dat')):
            ctx.check(not missing, "%s of a series that is there warned with %r", job, missing)
        elif 'end' not in kw:
            ctx.check(missing, "%s of no files did not warn", job)
        text = ''.join(ctx.terminal.take())
        counts = PROGRESS.findall(text)
        if quiet.get('quiet'):
            ctx.check(not text.strip(), "quiet work printed %r", text[:300])
        elif num > 0:
            ctx.check(counts and counts[-1] == (str(num), str(num)),
                      "progress over %d items of %s ended with %r: %r", num, job, counts[-1:], text[-300:])
        else:
            ctx.check(not counts or counts[-1][0] == '0', "progress of nothing ended with %r", counts[-1:])
        made = alone.tree(ctx.path(where), ctx.path(where)) if os.path.exists(ctx.path(where)) else {}
        results.append((alone.plain(value), made))
    ctx.label(job, 'nothing' if num == 0 else 'bundles' if group > 1 else 'single')
    ctx.nontrivial(num > 1)
    for value, made in results[1:]:
        ctx.check(value == results[0][0], "other results if quiet: %r, %r", results[0][0], value)
        ctx.check(made == results[0][1], "other files if quiet: %r, %r", results[0][1], made)


# Printed results

@st.composite
def result_specs(draw):
    kind = draw(st.sampled_from(['sample', 'spreading', 'spreading', 'fit']))
    if kind == 'fit':
        spec = draw(s04.specs())
    else:
        spec = draw(drops.systems(max_frames=6, min_layers=2, fixed_bottom=True))
        spec['dt'] = draw(st.sampled_from(gen.TIME_STEPS))
        spec['t0'] = draw(st.sampled_from([0.0, 10.0, 2.5]))
        spec['sum'] = draw(st.booleans())
        spec['labels'] = draw(st.lists(st.sampled_from(['M', 'N', 'T', 'U', 'V', 'inertial_energy']), min_size=1, max_size=4))
    spec['kind'] = kind
    spec['print'] = draw(st.sampled_from([True, True, True, False]))
    spec['save'] = draw(st.booleans())
    return spec


def numbers(text):
    """The rows of numbers in a text, and its other lines."""

    rows, other = [], []
    for line in text.splitlines():
        try:
            rows.append([float(v) for v in line.split()])
        except ValueError:
            other.append(line)
    return [r for r in rows if r], other


def invoke(ctx, args):
    ctx.called = True
    ctx.terminal.take()
    result = CliRunner().invoke(cli, args)
    ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
    return result.output + ''.join(ctx.terminal.take())


@recorded
def printed(spec, ctx):
    indir = ctx.mkdir('in')
    if spec['kind'] == 'fit':
        want = [s04.expected(s, spec['lims']) for s in spec['series']]
        if None in want:
            return
        paths = []
        for k, s in enumerate(spec['series']):
            paths.append(os.path.join(indir, 's%d.dat' % k))
            with open(paths[-1], 'w') as fp:
                for t, r in zip(s['t'], s['r']):
                    fp.write('%.6f %.9f\n' % (t, r))
        args = ['spreading', 'fit', '--noshow', '--lims'] + ['none' if v is None else repr(v) for v in spec['lims']]
        if not spec['print']:
            args += ['--noprint']
        text = invoke(ctx, args + paths)
        rows, other = numbers(text)
        if spec['print']:
            same(ctx, rows, want, 'printed parameters', rtol=1e-3, atol=1e-4)
        else:
            ctx.check(not rows, "parameters were printed: %r", text[:300])
        ctx.label('fit')
        ctx.nontrivial(len(want) > 1)
        return

    r = drops.radius_of(spec)
    if r is None or spec['src'] != 'gmx' and spec['ny'] < 2:
        return
    if spec['dy'] > 1.:
        spec['dy'] /= 2
    drops.write_frames(spec, indir)
    base = os.path.join(indir, 'map_')
    out = ctx.path('new', 'out.xvg')
    if spec['kind'] == 'spreading':
        floor = spec['y0'] + spec['frames'][0][0][0] * spec['dy']
        args = ['spreading', 'collect', '-cr', repr(r), '-cb', str(spec['bins']), '-b', str(spec['first']),
                '-dt', repr(spec['dt']), '-t0', repr(spec['t0'])]
        args += ['-co', repr(spec['cutoff'])] if spec['cutoff'] is not None else []
        args += ['-o', out] if spec['save'] else ['--nooutput']
        args += ['-v'] if spec['print'] else []
        text = invoke(ctx, args + ['--', base, repr(floor)])
        rows, other = numbers('\n'.join(l for l in text.splitlines() if not PROGRESS.search(l)))
        want = ctx.sut(collect, base, floor=floor, cutoff=spec['cutoff'], cutoff_radius=r, cutoff_bins=spec['bins'],
                       begin=spec['first'], dt=spec['dt'], t0=spec['t0'], quiet=True)
        want = [[float(t), float(v)] for t, v in zip(want['t'], want['r'])]
        if spec['print']:
            ctx.check(len(rows) == len(want), "%d rows and not %d were printed: %r", len(rows), len(want), text[:500])
            same(ctx, rows, want, 'printed spreading', atol=6e-4, rtol=1e-6)
        else:
            ctx.check(not rows, "the spreading was printed: %r", text[:300])
        ctx.check(os.path.exists(out) == spec['save'], "wrong output for %r", args)
        ctx.label('spreading')
        ctx.nontrivial(len(want) > 1)
        return

    args = ['sample', base] + spec['labels'] + ['-o', out, '-b', str(spec['first']), '--process', 'sum' if spec['sum'] else 'mean']
    text = invoke(ctx, args + ([] if spec['print'] else ['--noshow']))
    values = ctx.sut(sample_average_files, base, spec['labels'], sum=spec['sum'], begin=spec['first'], verbose=False, quiet=True)[1]
    lines = [l.split() for l in text.splitlines() if l.split() and l.split()[0] in spec['labels'] and len(l.split()) == 3]
    ctx.label('sample')
    if not spec['print']:
        ctx.check(not lines, "the samples were printed: %r", text[:300])
        return
    ctx.check([l[0] for l in lines] == spec['labels'], "printed samples of %r and not %r", [l[0] for l in lines], spec['labels'])
    for line, v in zip(lines, values):
        v = np.array(v, dtype=float)
        size = float(np.abs(v).max()) + 1e-6
        same(ctx, [float(line[1]), float(line[2])], [v.mean(), v.std()], 'printed %s' % line[0], rtol=1e-5, atol=1e-6 * size)
    ctx.nontrivial(len(values[0]) > 1)


# Messages

@st.composite
def message_specs(draw):
    num = draw(st.integers(1, 5))
    return {
        'kind': draw(st.sampled_from(['view', 'area', 'radii', 'backup', 'backup', 'none', 'homogenous'])),
        'level': draw(st.sampled_from([0., 0., 3., -1.5])), 'cutoff': draw(st.sampled_from([None, None, None, 1.0])), 'periodic': draw(st.booleans()),
        'faces': [draw(n02.interfaces(min_layers=2)) for _ in range(num)],
        'bad': draw(st.lists(st.integers(0, num - 1), max_size=2, unique=True)), 'first': draw(st.sampled_from([0, 1, 4])),
        'group': draw(st.integers(1, 2)), 'times': draw(st.integers(1, 3)), 'cli': draw(st.booleans()),
    }


@recorded
def messages(spec, ctx):
    kind, bad = spec['kind'], set(spec['bad'])
    indir = ctx.mkdir('in')
    base = os.path.join(indir, 'int_')
    names = []
    for k, face in enumerate(spec['faces']):
        face['j0'] = 0
        names.append('%s%05d.xvg' % (base, spec['first'] + k))
        n02.write_interface(names[-1], face, 0.5)
        if k in bad:
            with open(names[-1]) as fp:
                lines = fp.read().splitlines()
            if kind == 'area':
                # Other heights at the sides
                x, y = lines[-1].split()
                lines[-1] = '%s %.3f' % (x, float(y) - 3.)
            else:
                lines[-1] += ' what 1'
            with open(names[-1], 'w') as fp:
                fp.write('\n'.join(lines) + '\n')
    ctx.label(kind)
    ctx.nontrivial(len(bad) > 0 and len(names) > 1 or kind == 'backup' and spec['times'] > 1 or kind == 'none')
    first = spec['first']

    if kind == 'none':
        # A series that is not there
        for name in (base + '00000.xvg', base + '%05d.xvg' % first):
            if os.path.exists(name):
                os.remove(name)
        ctx.called = True
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            found = list(find_datamap_files(base, begin=first, ext='.xvg'))
        text = ''.join(str(w.message) for w in caught) + ''.join(ctx.terminal.take())
        ctx.check(not found, "found %r", found)
        ctx.check(base in text or repr(base)[1:-1] in text, "nothing tells that there are no files: %r", text)
        return
    if kind == 'homogenous':
        # Of a map without any other value than one there is no middle one
        xs, ys = np.meshgrid(np.arange(4.), np.arange(1. + first), indexing='ij')
        mass = np.full(xs.size, spec['level'])
        mass[[k % xs.size for k in bad]] += 0.25
        flow = ctx.sut(FlowData, ('X', xs.ravel()), ('Y', ys.ravel()), ('M', mass),
                       info={'shape': xs.shape, 'spacing': (1., 1.), 'origin': (-0.5, -0.5), 'num_bins': xs.size})
        kw = {} if spec['cutoff'] is None else {'cutoff': spec['cutoff']}
        ctx.terminal.take()
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            ctx.sut_list(get_interface, flow, 'M', search_longest_connected=spec['periodic'], **kw)
        text = ''.join(str(w.message) for w in caught if w.category is UserWarning) + ''.join(ctx.terminal.take())
        same_mass = spec['cutoff'] is None and mass.min() == mass.max()
        ctx.check(bool(text.strip()) == same_mass, "a map of %r with the cutoff %r told %r", mass.tolist(), spec['cutoff'], text)
        return
    if kind == 'backup':
        out = ctx.path('out', 'new.xvg')
        for k in range(spec['times']):
            ctx.terminal.take()
            args = ['interface', 'sample', base, 'length', '--noshow', '-x', out, '-b', str(first)]
            if spec['cli'] and not bad:
                text = invoke(ctx, args)
            elif not bad:
                ctx.sut(sample_interfaces, base, 'length', save_xvg=out, begin=first, show=False, quiet=True)
                text = ''.join(ctx.terminal.take())
            else:
                return
            backups = sorted(f for f in os.listdir(ctx.path('out')) if f != 'new.xvg')
            ctx.check(len(backups) == k, "%d backups and not %d", len(backups), k)
            ctx.check(('#new.xvg.' in text) == (k > 0), "the backup is not told: %r", text)
            if k > 0:
                ctx.check("#new.xvg.%d#" % k in text and out in text, "the backup is not told: %r", text)
        return

    if kind == 'radii':
        args = ['spreading', 'view', '--noshow'] + names
        if len(bad) == len(names):
            return
        call = lambda: read_spreading_data(*names)  # noqa: E731
        groups = [[n] for n in names]
    elif kind == 'area':
        args = ['interface', 'sample', base, 'area', '--noshow', '-b', str(first)]
        call = lambda: sample_interfaces(base, 'area', begin=first, show=False, quiet=True)  # noqa: E731
        groups = [[n] for n in names]
    else:
        n = spec['group']
        args = ['interface', 'view', base, '--noshow', '-av', str(n), '-b', str(first)]
        call = lambda: view_interfaces(base, n, begin=first, show=False, quiet=True)  # noqa: E731
        groups = [names[i:i + n] for i in range(0, len(names) - n + 1, n)]
    ctx.terminal.take()
    if spec['cli']:
        text = invoke(ctx, args)
    else:
        ctx.sut(call)
        text = ''.join(ctx.terminal.take())
    for group in groups:
        told = any(os.path.basename(n) in text for n in group)
        ctx.check(told == any(names.index(n) in bad for n in group),
                  "files %r with the bad %r: %r", group, sorted(bad), text[:500])


SUBS = [
    Sub('progress', progress_specs(), progress, quick=120),
    Sub('printed', result_specs(), printed, quick=100),
    Sub('messages', message_specs(), messages, quick=130),
]
