"""W01: output that can not be written is told, and destroys nothing."""

import contextlib
import os
import resource
import tempfile
import traceback

from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import alone, drops, files
from pbt.core import Sub
from pbt.figures import recorded
from pbt.props import n02, s04

from strata.average import average
from strata.contact_line_analysis import extract_contact_line_bins, sample_contact_line_edges
from strata.convert import convert
from strata.interface.angle import interface_contact_angle
from strata.interface.collect import collect_interfaces
from strata.interface.sample import sample_interfaces
from strata.interface.view import view_interfaces
from strata.sample_average import sample_average_files
from strata.spreading.collect import collect
from strata.spreading.fit import fit_spreading_data
from strata.spreading.view import view_spreading
from strata.strata import strata as cli

ID = 'W01'
RULE = (
    "every command that writes on 1 to 5 maps, interfaces or series, by its function or the command line, into directories "
    "without permission (with or without earlier output, or to be made there) or with a limit of 1 to 6000 bytes to what "
    "can be written to a file, and with unreadable files in the series. Non-trivial: a write or read did fail"
)

MAPS = ['average', 'convert', 'spreading', 'collect', 'extract', 'contact', 'sample']
FACES = ['view', 'area', 'length', 'angle']
RADII = ['fit', 'radii']
# These measure without their output
MEASURE = ['spreading', 'contact', 'sample', 'area', 'length']
NOBODY = 65534


@st.composite
def specs(draw):
    spec = draw(drops.systems(max_frames=5, min_layers=2, fixed_bottom=True))
    spec['job'] = draw(st.sampled_from(MAPS + FACES + RADII + ['spreading', 'contact', 'sample', 'area']))
    spec['group'] = draw(st.integers(1, 2))
    spec['ftype'] = draw(st.sampled_from(['gmx', 'simple', 'simple_plain']))
    spec['labels'] = draw(st.lists(st.sampled_from(['M', 'N', 'T', 'U']), min_size=1, max_size=3))
    spec['faces'] = [draw(n02.interfaces(min_layers=2)) for _ in range(draw(st.integers(1, 4)))] \
        if spec['job'] in FACES else []
    if spec['job'] in RADII:
        spec['series'] = draw(s04.specs())['series']
    spec['cli'] = draw(st.booleans())
    spec['way'] = draw(st.sampled_from(['exists', 'exists', 'new', 'deeper']))
    spec['limit'] = draw(st.one_of(st.integers(1, 120), st.integers(1, 1500), st.integers(1000, 6000)))
    spec['bad'] = draw(st.integers(0, 4))
    spec['how'] = draw(st.sampled_from(['denied', 'directory', 'empty']))
    return spec


def prepare(spec, ctx):
    """Write the input. Returns the paths of all files, and the function which calls the job, or None."""

    job = spec['job']
    indir = ctx.mkdir('in')
    base = os.path.join(indir, 'map_')
    first, n = spec['first'], spec['group']
    if job in FACES:
        for k, face in enumerate(spec['faces']):
            face['j0'] = 0
            n02.write_interface('%s%05d.xvg' % (base, first + k), face, 0.5)
    elif job in RADII:
        if None in [s04.expected(s, [None, None]) for s in spec['series']]:
            return None
        for k, s in enumerate(spec['series']):
            with open(os.path.join(indir, 's%d.dat' % k), 'w') as fp:
                for t, r in zip(s['t'], s['r']):
                    fp.write('%.6f %.9f\n' % (t, r))
    else:
        if spec['src'] in files.MIXED and job == 'average':
            spec['src'] = 'gmx'
        r = drops.radius_of(spec)
        if r is None or spec['src'] != 'gmx' and spec['ny'] < 2:
            return None
        if spec['dy'] > 1.:
            spec['dy'] /= 2
        drops.write_frames(spec, indir)
    paths = sorted(os.path.join(indir, f) for f in os.listdir(indir))

    if spec['cli']:
        # The floor is in the lowest layer of all frames
        floor = '' if job in FACES + RADII else repr(spec['y0'] + spec['frames'][0][0][0] * spec['dy'])
        rest = ['-b', repr(first)]
        search = [] if job in FACES + RADII else ['-cr', repr(r), '-cb', repr(spec['bins'])] + (
            [] if spec['cutoff'] is None else ['-co', repr(spec['cutoff'])])

        def call(out):
            xvg = [] if out is None else ['-x', out]
            save = ['--noshow'] + xvg
            args = {
                'average': ['average', base, out, repr(n)],
                'convert': ['convert', base, out, '--ftype', spec['ftype']],
                'spreading': ['spreading', 'collect'] + (['--nooutput'] if out is None else ['-o', out])
                + search + rest + ['--', base, floor],
                'collect': ['interface', 'collect', base, out] + search,
                'extract': ['contact_line', 'collect'] + search + rest + ['-av', repr(n), '--floor=' + floor, base, out],
                'contact': ['contact_line', 'sample'] + ([] if out is None else ['--save', out]) + search + rest
                + ['-av', repr(n), '--floor=' + floor, base] + spec['labels'],
                'sample': ['sample', base] + spec['labels'] + ([] if out is None else ['-o', out]),
                'view': ['interface', 'view', base] + save, 'area': ['interface', 'sample', base, 'area'] + save,
                'length': ['interface', 'sample', base, 'length'] + save,
                'angle': ['interface', 'angle', base, '-h', '0.25'] + save,
                'fit': ['spreading', 'fit', '--noshow'] + xvg + paths,
                'radii': ['spreading', 'view', '--noshow'] + xvg + paths,
            }[job]
            if job in FACES + ['average', 'convert', 'collect', 'sample']:
                args += rest
            result = CliRunner().invoke(cli, args)
            if result.exception is not None and not isinstance(result.exception, SystemExit):
                raise result.exception
            if result.exit_code != 0:
                raise RuntimeError(result.output)
            print(result.output)
        return paths, call

    kw = {'begin': first, 'quiet': True}
    if job not in FACES + RADII:
        search = dict(kw, cutoff=spec['cutoff'], cutoff_radius=r, cutoff_bins=spec['bins'])

    def call(out):
        if job == 'average':
            return average(base, out, n, **kw)
        if job == 'convert':
            return convert(base, out, ftype=spec['ftype'], **kw)
        if job == 'spreading':
            return collect(base, save=out, **search)
        if job == 'collect':
            return collect_interfaces(base, out, **search)
        if job == 'extract':
            return extract_contact_line_bins(base, out, average=n, **search)
        if job == 'contact':
            return sample_contact_line_edges(base, spec['labels'], save=out, average=n, sum=True, **search)
        if job == 'sample':
            return sample_average_files(base, spec['labels'], output=out, verbose=False, **kw)
        if job == 'view':
            return view_interfaces(base, n, save_xvg=out, show=False, **kw)
        if job == 'angle':
            return interface_contact_angle(base, height=0.25, save_xvg=out, show=False, **kw)
        if job == 'fit':
            return fit_spreading_data(paths, save_xvg=out, show=False)
        if job == 'radii':
            return view_spreading(paths, save_xvg=out, show=False)
        return sample_interfaces(base, job, save_xvg=out or '', show=False, **kw)
    return paths, call


def trace(exc):
    return ''.join(traceback.format_exception(exc)[-3:]) if exc is not None else ''


def attempt(ctx, call, out):
    """The value and what was printed; and the exception, if any."""

    ctx.terminal.take()
    ctx.called = True
    value = exc = None
    try:
        value = alone.plain(call(out))
    except (Exception, SystemExit) as err:
        exc = err
    return value, ''.join(ctx.terminal.take()), exc


@contextlib.contextmanager
def nobody(ctx):
    """As a user without permission to write into or read what is not for all."""

    if os.geteuid() != 0:
        yield
        return
    # The scratch directories are only for the user who made them
    directory = ctx.dir
    while directory not in (tempfile.gettempdir(), '/'):
        os.chmod(directory, 0o755)
        directory = os.path.dirname(directory)
    os.seteuid(NOBODY)
    try:
        yield
    finally:
        os.seteuid(0)


def bytes_of(directory):
    out = {}
    for where, dirs, names in os.walk(directory):
        out[os.path.relpath(where, directory)] = None
        for name in names:
            with open(os.path.join(where, name), 'rb') as fp:
                out[os.path.relpath(os.path.join(where, name), directory)] = fp.read()
    return out


def readable(directory):
    for where, dirs, names in os.walk(directory):
        os.chmod(where, 0o755)
        for name in names:
            os.chmod(os.path.join(where, name), 0o644)


@recorded
def denied(spec, ctx):
    """A directory in which nothing can be written."""

    prepared = prepare(spec, ctx)
    if prepared is None:
        return
    job = spec['job']
    paths, call = prepared
    # What the files are called
    value, _, exc = attempt(ctx, call, ctx.path('test', 'new'))
    ctx.check(exc is None, "%s failed with %r", job, exc)
    names = sorted(os.listdir(ctx.path('test'))) if os.path.exists(ctx.path('test')) else []
    if not names:
        ctx.label('no output')
        return
    ctx.label(job, spec['way'])
    outdir = ctx.mkdir('out')
    if spec['way'] == 'exists':
        for k, name in enumerate(names):
            if (spec['bad'] + k) % 2 == 0 or len(names) == 1:
                with open(os.path.join(outdir, name), 'w') as fp:
                    fp.write('earlier')
    out = os.path.join(outdir, 'sub', 'new') if spec['way'] == 'deeper' else os.path.join(outdir, 'new')
    readable(ctx.path('in'))
    os.chmod(outdir, 0o555)
    os.chdir(ctx.dir)
    before = bytes_of(ctx.dir)
    ctx.nontrivial()
    with nobody(ctx):
        value2, text, exc = attempt(ctx, call, out)
    after = bytes_of(ctx.dir)
    changed = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
    ctx.check(not changed, "%s with output in a directory without permission changed %r", job, changed)
    ctx.check(exc is not None or os.path.dirname(out) in text,
              "%s did not tell that %r can not be written: %r", job, out, text[-500:])
    if job in MEASURE:
        ctx.check(exc is None, "%s failed with %r if it can not write\n%s", job, exc, trace(exc))
        ctx.check(out in text, "no message names %r: %r", out, text[-500:])
        ctx.check(value2 == value, "%s gives other values if it can not write: %r, %r", job, value, value2)


@contextlib.contextmanager
def limited(size):
    """A disk with no more room than that in any file."""

    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


def undated(content):
    return b'\n'.join(l for l in content.split(b'\n') if b'Creation date' not in l)


@recorded
def full(spec, ctx):
    """Writing fails at some byte of a file."""

    spec['cli'] = False
    prepared = prepare(spec, ctx)
    if prepared is None:
        return
    job = spec['job']
    paths, call = prepared
    out = ctx.path('out', 'new')
    value, _, exc = attempt(ctx, call, out)
    ctx.check(exc is None, "%s failed with %r", job, exc)
    before = bytes_of(ctx.dir)
    earlier = {k: v for k, v in before.items() if k.startswith('out/')}
    if not earlier:
        ctx.label('no output')
        return
    with limited(spec['limit']):
        value2, text, exc = attempt(ctx, call, out)
    after = bytes_of(ctx.dir)
    room = max(len(v) for v in earlier.values()) <= spec['limit']
    ctx.label(job, 'enough room' if room else 'failed')
    ctx.nontrivial(not room)
    for name, content in before.items():
        where, file = os.path.split(name)
        kept = [name, os.path.join(where, '#%s.1#' % file)]
        ctx.check(any(k in after and after[k] == content for k in kept), "%s lost the earlier %r", job, name)
    if exc is None and not text.strip():
        for name, content in earlier.items():
            ctx.check(name in after and undated(after[name]) == undated(content),
                      "%s wrote other content to %r and told nothing, with room for %d of %d bytes", job, name, spec['limit'],
                      len(content))
        ctx.check(value2 == value, "%s gives other values: %r, %r", job, value, value2)
    if room:
        ctx.check(exc is None, "%s failed with %r", job, exc)


@recorded
def unread(spec, ctx):
    """A file of the input that is there, but can not be read."""

    prepared = prepare(spec, ctx)
    if prepared is None:
        return
    job = spec['job']
    paths, call = prepared
    value, _, exc = attempt(ctx, call, ctx.path('test', 'new'))
    ctx.check(exc is None, "%s failed with %r", job, exc)
    bad = spec['bad'] % len(paths)
    if job in ('average', 'extract', 'contact', 'view') and bad >= len(paths) // spec['group'] * spec['group']:
        return
    path = paths[bad]
    if job in RADII and spec['how'] == 'empty':
        # A series of a droplet that never touched the floor
        spec['how'] = 'denied'
    readable(ctx.path('in'))
    if spec['how'] == 'denied':
        os.chmod(path, 0)
    else:
        os.remove(path)
        if spec['how'] == 'directory':
            os.mkdir(path)
        else:
            open(path, 'w').close()
    os.chmod(ctx.mkdir('out'), 0o777)
    os.chdir(ctx.dir)
    before = bytes_of(ctx.path('in'))
    ctx.nontrivial()
    ctx.label(job, spec['how'])
    with nobody(ctx):
        value2, text, exc = attempt(ctx, call, ctx.path('out', 'new'))
    ctx.check(exc is not None or os.path.basename(path) in text,
              "%s did not tell that %r can not be read: %r", job, path, text[-500:])
    if spec['how'] == 'denied':
        os.chmod(path, 0o644)
    ctx.check(bytes_of(ctx.path('in')) == before, "%s changed its input", job)


SUBS = [
    Sub('denied', specs(), denied, quick=100),
    Sub('full', specs(), full, quick=90),
    Sub('unread', specs(), unread, quick=50),
]
