"""L01: collected contact lines are the averaged bins of both edges in place."""

import os

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import files, lines
from pbt.core import Sub, Violation
from pbt.oracle import same, same_pair

from strata.contact_line_analysis import extract_contact_line_bins
from strata.strata import strata as cli

ID = 'L01'
RULE = (
    "series of 1 to 5 droplets on 4x1 to 12x7 bins in each format, which move, grow and shrink on a layer, with any "
    "extraction area and height, bundle length, fixed or rolling, recentred or fused or neither, through the function or the "
    "command line. Non-trivial: a bundle of maps with different edges, or edges which overlap"
)


@st.composite
def specs(draw):
    spec = draw(lines.systems())
    spec['recenter'] = draw(st.booleans())
    spec['fuse'] = draw(st.sampled_from([False, False, True]))
    return spec


def merged(pair):
    """Fields of both edges on one grid, and which values are not judged."""

    shapes = [e['fields']['M'].shape for e in pair]
    i0 = min(e['i'] for e in pair)
    i1 = max(e['i'] + s[0] for e, s in zip(pair, shapes))
    nj = max(s[1] for s in shapes)
    parts = []
    for e, s in zip(pair, shapes):
        part = {l: np.zeros((i1 - i0, nj)) for l in lines.LABELS}
        for l in lines.LABELS:
            part[l][e['i'] - i0:e['i'] - i0 + s[0], :s[1]] = e['fields'][l]
        parts.append(part)
    out, unjudged = {}, {}
    left, right = parts
    for l in lines.LABELS:
        a, b = left[l], right[l]
        both = (a != 0) & (b != 0)
        unjudged[l] = np.zeros(a.shape, dtype=bool)
        if l in lines.WEIGHTS:
            w = lines.WEIGHTS[l]
            total = np.where(left[w] + right[w] > 0, left[w] + right[w], 1.)
            mean = (left[w] * a + right[w] * b) / total
            # Without flow on one side of an overlap it is not said what counts
            unjudged[l] = ~both & (left[w] > 0) & (right[w] > 0) & (a != b)
        else:
            mean = 0.5 * (a + b)
        out[l] = np.where(both, mean, np.where(a != 0, a, b))
    return i0, out, unjudged


def collect(spec, ctx):
    indir, outdir = ctx.mkdir('in'), ctx.path('out')
    lines.write_series(spec, indir)
    want = lines.model(spec, spec['recenter'])
    if want is None:
        ctx.label('no contact line in a map')
        return
    before = files.snapshot(indir)
    base, output = os.path.join(indir, 'map_'), os.path.join(outdir, 'cl_')
    begin, end = lines.file_options(spec)
    kw = lines.settings(spec)
    if spec['cli']:
        args = ['contact_line', 'collect', base, output, '-av', str(spec['average']), '--ext', spec['ext'], '-b', str(begin),
                '--rolling' if spec['rolling'] else '--norolling', '--recenter' if spec['recenter'] else '--norecenter',
                '--fuse' if spec['fuse'] else '--nofuse'] + lines.as_args(kw)
        if end is not None:
            args += ['-e', str(end)]
        ctx.called = True
        result = CliRunner().invoke(cli, args)
        ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
        ctx.label('command line')
    else:
        if end is not None:
            kw['end'] = end
        ctx.sut(extract_contact_line_bins, base, output, average=spec['average'], rolling=spec['rolling'],
                recenter=spec['recenter'], fuse=spec['fuse'], begin=begin, ext=spec['ext'], quiet=True, **kw)
    ctx.check(files.snapshot(indir) == before, "the input files were changed")

    names = ['cl_%05d%s' % (begin + k, spec['ext']) for k in range(len(want))]
    found = sorted(files.snapshot(outdir)) if os.path.exists(outdir) else []
    ctx.check(found == names, "output files %r and not %r", found, names)
    ctx.label('%s bundles' % ('no' if not want else 'one' if len(want) == 1 else 'several'), spec['src'])

    for bundle, name, pair in zip(lines.bundles(spec), names, want):
        for e in pair:
            if spec['fuse']:
                # Next to each other at zero
                e['i'], e['certain'] = (-e['fields']['M'].shape[0] if e is pair[0] else 0), True
        data, info = files.load_gmx(os.path.join(outdir, name))
        # A place which is decided by rounding can be one bin further to the left
        tries = [(a, b) for a in ((0,) if pair[0]['certain'] else (0, -1)) for b in ((0,) if pair[1]['certain'] else (0, -1))]
        if len(tries) > 1:
            ctx.label('rounded place')
        for k, moves in enumerate(tries):
            moved = [dict(e, i=e['i'] + m) for e, m in zip(pair, moves)]
            try:
                compare(spec, ctx, data, info, moved, name)
                break
            except Violation:
                if k == len(tries) - 1:
                    raise
        ctx.nontrivial(len({str(spec['frames'][k]) for k in bundle}) > 1)


def compare(spec, ctx, data, info, pair, name):
    gmx = spec['src'] == 'gmx'
    tol = 3e-6 if gmx else 2e-3
    i0, fields, unjudged = merged(pair)
    shape = fields['M'].shape
    ctx.check(tuple(info['shape']) == shape, "shape of %s is %r and not %r", name, info['shape'], shape)
    same_pair(ctx, info['spacing'], (spec['dx'], spec['dy']), 'spacing of %s' % name, atol=tol)
    same_pair(ctx, info['origin'], (i0 * spec['dx'], 0.), 'origin of %s' % name, atol=tol)
    rtol, atol = (1e-6, 2e-6) if gmx else (1e-4, 1e-4)
    mass = fields['M']
    for l in ('M', 'N', 'T', 'U', 'V'):
        got = data[l].reshape(shape)
        expect = np.where(mass == 0, 0., fields[l])
        if unjudged[l].any():
            ctx.label('overlap with a side without flow')
        skip = unjudged[l]
        same(ctx, np.where(skip, 0., got), np.where(skip, 0., expect), '%s of %s' % (l, name), rtol=rtol, atol=atol)
    overlap = pair[0]['i'] + pair[0]['fields']['M'].shape[0] > pair[1]['i']
    if overlap:
        ctx.label('overlap')
    ctx.nontrivial(overlap)


SUBS = [Sub('collect', specs(), collect, quick=700)]
