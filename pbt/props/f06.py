"""F06: files of a series are found, bundled and numbered as described."""

import os

from hypothesis import strategies as st

from pbt.core import Sub

from strata.utils import find_datamap_files, find_groups_to_singles, find_singles_to_singles, gen_filenames

ID = 'F06'
RULE = (
    "directories with any set of numbered files around 0, 1, 99, 99999 (with gaps, other bases and extensions), "
    "searched with any begin, end, group length, rolling choice and output extension, against a model of the "
    "documented search. Non-trivial: at least one file or bundle is found"
)


@st.composite
def specs(draw):
    start = draw(st.sampled_from([0, 1, 1, 2, 95, 99996]))
    present = draw(st.one_of(
        st.integers(3, 13).map(lambda n: list(range(n))),
        st.integers(5, 13).flatmap(lambda n: st.integers(0, n).map(lambda k: [i for i in range(n) if i != k])),
        st.lists(st.integers(0, 12), max_size=12, unique=True).map(sorted),
    ))
    return {
        'start': start,
        'present': present,
        'begin': draw(st.integers(0, 6)) if start > 1 or draw(st.booleans()) else None,
        'end': draw(st.one_of(st.none(), st.integers(-2, 14), st.integers(5, 13))),
        'group': draw(st.one_of(st.none(), st.integers(1, 3), st.integers(1, 5))),
        'rolling': draw(st.sampled_from([None, False, True])),
        'ext': draw(st.sampled_from([None, '.dat', '.xvg', ''])),
        'outext': draw(st.sampled_from([None, None, '.out'])),
        'base': draw(st.sampled_from(['map_', '', 'sub/m', 'a b.', 'x[1]_', '*', 'a?b%d', '{}[!a]'])),
    }


def singles(numbers, begin, end):
    out = []
    n = begin
    while n in numbers and (end is None or n <= end):
        out.append(n)
        n += 1
    return out


def bundles(numbers, begin, end, group, rolling):
    found = singles(numbers, begin, end)
    if rolling:
        return [found[i:i + group] for i in range(len(found) - group + 1)]
    return [found[i:i + group] for i in range(0, len(found) - group + 1, group)]


def search(spec, ctx):
    root = ctx.mkdir('files')
    base = os.path.join(root, spec['base'])
    os.makedirs(os.path.dirname(base), exist_ok=True)
    ext = '.dat' if spec['ext'] is None else spec['ext']
    numbers = {spec['start'] + n for n in spec['present']}
    for n in numbers:
        open('%s%05d%s' % (base, n, ext), 'w').close()
    # Files which do not belong to the series
    open('%s%05d%s' % (base, spec['start'] + 13, '.other'), 'w').close()
    open('%s%05d%s' % (base + 'x', spec['start'] + 13, ext), 'w').close()

    opts = {}
    begin, end = 1, None
    if spec['begin'] is not None:
        begin = opts['begin'] = spec['start'] + spec['begin']
    if spec['end'] is not None:
        end = opts['end'] = max(0, spec['start'] + spec['end'])
    if spec['ext'] is not None:
        opts['ext'] = ext
    outext = ext
    out_opts = dict(opts)
    if spec['outext'] is not None:
        out_opts['outext'] = outext = spec['outext']

    name = lambda n: '%s%05d%s' % (base, n, ext)
    out = os.path.join(root, 'out_')
    outname = lambda n: '%s%05d%s' % (out, n, outext)

    found = singles(numbers, begin, end)
    ctx.nontrivial(len(found) > 0)

    got = ctx.sut_list(find_datamap_files, base, **opts)
    want = [name(n) for n in found]
    ctx.check(got == want, "files %r and not %r", got, want)

    got = [tuple(v) for v in ctx.sut_list(find_singles_to_singles, base, out, **out_opts)]
    want = [(name(n), outname(n)) for n in found]
    ctx.check(got == want, "pairs %r and not %r", got, want)

    group = spec['group']
    gopts = {} if spec['rolling'] is None else {'rolling': spec['rolling']}
    if group is not None:
        groups = bundles(numbers, begin, end, group, bool(spec['rolling']))
        ctx.label('%s bundles' % ('no' if not groups else 'one' if len(groups) == 1 else 'several'))
        ctx.label('rolling' if spec['rolling'] else 'fixed')
        if found and len(found) % group:
            ctx.label('remainder')
        got = ctx.sut_list(find_datamap_files, base, group=group, **opts, **gopts)
        want = [[name(n) for n in g] for g in groups]
        ctx.check(got == want, "bundles %r and not %r", got, want)
    else:
        group = 1
        groups = bundles(numbers, begin, end, 1, bool(spec['rolling']))

    first = begin if spec['rolling'] else -(-begin // group)
    got = [(list(a), b) for a, b in ctx.sut_list(find_groups_to_singles, base, out, group, **gopts, **out_opts)]
    want = [([name(n) for n in g], outname(first + i)) for i, g in enumerate(groups)]
    ctx.check(got == want, "bundles and outputs %r and not %r", got, want)


@st.composite
def name_specs(draw):
    begin = draw(st.sampled_from([0, 1, 5, 9999, 99998, 123456]))
    return {
        'base': draw(st.sampled_from(['', 'map_', '/dir/x.', 'a%sb', 'sp ace'])),
        'ext': draw(st.sampled_from([None, '.dat', '', '.%d', '#'])),
        'begin': begin,
        'count': draw(st.integers(0, 40)),
        'positional': draw(st.booleans()),
    }


def names(spec, ctx):
    opts = {'begin': spec['begin']}
    if spec['ext'] is not None:
        opts['ext'] = spec['ext']
    ext = '.dat' if spec['ext'] is None else spec['ext']
    end = spec['begin'] + spec['count'] - 1
    want = [spec['base'] + str(n).zfill(5) + ext for n in range(spec['begin'], end + 1)]
    ctx.nontrivial(len(want) > 1)
    if spec['positional']:
        got = ctx.sut_list(gen_filenames, spec['base'], end, **opts)
    else:
        got = ctx.sut_list(gen_filenames, spec['base'], end=end, **opts)
    ctx.check(got == want, "names %r and not %r", got[:5], want[:5])

    # Without an end the names go on
    endless = ctx.sut(gen_filenames, spec['base'], **opts)
    more = ctx.sut(lambda: [next(endless) for _ in range(spec['count'] + 3)])
    ctx.check(more[:len(want)] == want, "endless names %r", more[:5])
    ctx.check(len(set(more)) == len(more), "a name is repeated in %r", more)


SUBS = [
    Sub('search', specs(), search, quick=1200),
    Sub('names', name_specs(), names, quick=100),
]
