"""F05: writing output never destroys a file, what was there is kept as a numbered backup."""

import os

import numpy as np
from hypothesis import strategies as st

from pbt import files, gen
from pbt.core import Sub

from strata.convert import convert
from strata.average import average
from strata.dataformats.write import write
from strata.spreading.collect import collect
from strata.spreading.view import write_spreading_data
from strata.utils import prepare_path

ID = 'F05'
RULE = (
    "histories of 1 to 14 writes to a few names in existing and new directories, through all writers, mixed with "
    "files and directories made and removed by the user, among them such with names of backups. After each step the directory is "
    "compared with a model. Non-trivial: at least one write met an existing file"
)

NAMES = ['a.dat', 'b.dat', 'a.dat.1', '#a.dat.1#', '#a.dat.2#', 'noext', 'with space.dat', '100%.dat', 'a%d.b', '{0}{a}.dat', '[1]*?.dat', '-b.dat']
DIRS = ['', 'sub', 'sub/deeper', 'new dir']
INSIDE = 'inside.txt'
WRITERS = ['gmx', 'simple', 'simple_plain', 'spreading', 'own', 'own_quiet']


@st.composite
def histories(draw):
    steps = []
    dirs = draw(st.lists(st.sampled_from(DIRS), min_size=1, max_size=2, unique=True))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    for i in range(draw(st.integers(1, 14))):
        op = draw(st.sampled_from(['write', 'write', 'write', 'write', 'touch', 'remove', 'mkdir']))
        steps.append({
            'op': op, 'dir': draw(st.sampled_from(dirs)),
            'name': draw(st.sampled_from(names)) if op != 'remove' else None,
            'pick': draw(st.integers(0, 20)) if op == 'remove' else 0,
            'writer': draw(st.sampled_from(WRITERS)) if op == 'write' else None,
            'style': draw(st.sampled_from(['absolute', 'relative'])),
        })
    return {'steps': steps}


def some_map(value):
    spec = {'nx': 2, 'ny': 2, 'dx': 1.0, 'dy': 1.0, 'x0': 0.0, 'y0': 0.0,
            'fields': {l: '10101010' for l in gen.FIELDS}}
    data, info = gen.build(spec)
    data['M'] = data['M'] + value
    return data, info


def contents(root):
    """All files, and directories of the user as one entry each."""

    result = {}
    for name, content in files.snapshot(root).items():
        head, tail = os.path.split(name)
        if tail == INSIDE:
            result[head] = b'directory ' + content
        else:
            result[name] = content
    return result


def history(spec, ctx):
    import pandas as pd

    root = ctx.mkdir('work')
    os.chdir(root)
    model = {}

    for num, step in enumerate(spec['steps'], 1):
        rel = os.path.normpath(os.path.join(step['dir'], step['name'] or 'x'))
        path = rel if step['style'] == 'relative' else os.path.join(root, rel)

        if step['op'] == 'mkdir':
            # A directory of the user, under a name of output or of a backup
            full = os.path.join(root, rel)
            if not os.path.lexists(full):
                os.makedirs(full)
                with open(os.path.join(full, INSIDE), 'wb') as fp:
                    fp.write(b'user directory %d' % num)
                model[rel] = b'directory user directory %d' % num
                ctx.label('directory')
        elif step['op'] == 'touch':
            if os.path.isdir(os.path.join(root, rel)):
                continue
            os.makedirs(os.path.dirname(os.path.join(root, rel)), exist_ok=True)
            content = b'user file %d' % num
            with open(path, 'wb') as fp:
                fp.write(content)
            model[rel] = content
        elif step['op'] == 'remove':
            if model:
                rel = sorted(model)[step['pick'] % len(model)]
                full = os.path.join(root, rel)
                if os.path.isdir(full):
                    os.remove(os.path.join(full, INSIDE))
                    os.rmdir(full)
                else:
                    os.remove(full)
                del model[rel]
        else:
            ctx.label(step['writer'])
            data, info = some_map(num)
            writer = step['writer']
            expected = None
            if writer in ('gmx', 'simple', 'simple_plain'):
                ctx.sut(write, path, data, info, ftype=writer)
            elif writer == 'spreading':
                ctx.sut(write_spreading_data, path, [pd.Series([1.0, 2.0], index=[0.0, float(num)], name='x')])
            else:
                expected = b'own %d' % num
                seen = []

                @prepare_path
                def save(path, content, end=b''):
                    seen.append((path, content, end))
                    with open(path, 'wb') as fp:
                        fp.write(content + end)
                    return num

                opts = {'_pp_verbose': False} if writer == 'own_quiet' else {}
                result = ctx.sut(save, path, b'own ', end=b'%d' % num, **opts)
                ctx.check(result == num, "the result of the writer %r became %r", num, result)
                ctx.check(seen == [(path, b'own ', b'%d' % num)], "the writer was called with %r", seen)

            if rel in model:
                ctx.nontrivial()
                ctx.label('conflict')
                head, name = os.path.split(rel)
                i = 1
                while os.path.join(head, '#%s.%d#' % (name, i)) in model:
                    i += 1
                if i > 1:
                    ctx.label('earlier backups')
                model[os.path.join(head, '#%s.%d#' % (name, i))] = model[rel]
            full = os.path.join(root, rel)
            ctx.check(os.path.isfile(full), "step %d did not write %r", num, rel)
            with open(full, 'rb') as fp:
                model[rel] = fp.read()
            if expected is not None:
                ctx.check(model[rel] == expected, "step %d wrote %r", num, model[rel])
            ctx.check(len(model[rel]) > 0, "step %d wrote an empty file", num)

        found = contents(root)
        ctx.check(set(found) == set(model), "after step %d there are %r and not %r", num, sorted(found), sorted(model))
        for name in model:
            ctx.check(found[name] == model[name], "step %d changed %r", num, name)


@st.composite
def command_specs(draw):
    return {
        'num': draw(st.integers(1, 4)),
        'runs': draw(st.lists(st.sampled_from(['gmx', 'simple', 'simple_plain', 'average', 'spreading']),
                              min_size=1, max_size=5)),
        'same': draw(st.booleans()),
        'ext': draw(st.sampled_from(['.dat', '.map'])),
    }


def commands(spec, ctx):
    """Repeated commands, also with the output on top of the input, keep all earlier files."""

    root = ctx.mkdir('work')
    base = os.path.join(root, 'map_')
    data, info = some_map(0)
    for k in range(1, spec['num'] + 1):
        files.write_gmx('%s%05d%s' % (base, k, spec['ext']), data, info)
    output = base if spec['same'] else os.path.join(root, 'out', 'out_')
    opts = {'ext': spec['ext'], 'quiet': True}

    for i, run in enumerate(spec['runs']):
        before = files.snapshot(root)
        if run == 'average':
            # All maps read in a run have to be of one format
            ctx.sut(average, base, output, 1, **opts)
        elif run == 'spreading':
            ctx.sut(collect, base, save=os.path.join(root, 'spread.xvg'), cutoff=0.5, floor=0.5, ext=spec['ext'])
        else:
            ctx.sut(convert, base, output, ftype=run, **opts)
        after = files.snapshot(root)
        if i > 0 or spec['same']:
            ctx.nontrivial()
        targets = [os.path.relpath('%s%05d%s' % (output, k, spec['ext']), root) for k in range(1, spec['num'] + 1)]
        if run == 'spreading':
            targets = ['spread.xvg']
        for t in targets:
            ctx.check(t in after, "%s did not write %s", run, t)
        expect = dict(before)
        for t in targets:
            if t in before:
                head, name = os.path.split(t)
                j = 1
                while os.path.join(head, '#%s.%d#' % (name, j)) in before:
                    j += 1
                expect[os.path.join(head, '#%s.%d#' % (name, j))] = before[t]
            expect[t] = after[t]
        ctx.check(set(after) == set(expect), "after %s there are %r and not %r", run, sorted(after), sorted(expect))
        for name in expect:
            ctx.check(after[name] == expect[name], "%s changed %s", run, name)


SUBS = [
    Sub('history', histories(), history, quick=250),
    Sub('commands', command_specs(), commands, quick=60),
]
