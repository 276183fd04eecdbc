"""V02: figures show the calculated data as it was asked for."""

import os
import re

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st
from matplotlib.colors import to_rgba

from pbt import avg, figures, files
from pbt.core import Sub
from pbt.oracle import same
from pbt.props import n02, n03, n04, s03, s04
from pbt.props.v01 import needs, numbers

from strata.strata import strata as cli

ID = 'V02'
RULE = (
    "series of 1 to 5 interfaces, 1 to 4 spreading series, or 1 to 2 maps, drawn by the command line with any limits, "
    "texts, scales, colours, colour bars and sizes, shown, saved, both or neither. Figures are inspected when they "
    "are saved or shown and not rendered. Non-trivial: a figure with at least two points or bins"
)

TEXTS = st.sampled_from([None, None, 'Text', 'two words', 'x (nm)', ''])


@st.composite
def decorations(draw):
    return {
        'title': draw(TEXTS), 'xlabel': draw(TEXTS), 'ylabel': draw(TEXTS),
        'xlim': draw(st.sampled_from([None, None, [0.5, 20.25], [None, 12.5], [0.125, None], [0.0, None], [None, 0.0], [0.0, 8.5], [-4.5, 0.0]])),
        'ylim': draw(st.sampled_from([None, None, [0.25, 9.75], [None, 14.0], [0.0625, None], [0.0, None], [None, 0.0], [0.0, 6.25], [-2.0, 0.0]])),
        'show': draw(st.booleans()), 'save': draw(st.sampled_from([True, True, True, False])),
    }


def flags(dec):
    args = ['--show' if dec['show'] else '--noshow']
    for name in ('title', 'xlabel', 'ylabel'):
        if dec[name] is not None:
            args += ['--' + name, dec[name]]
    for name in ('xlim', 'ylim'):
        if dec[name] is not None:
            args += ['--' + name] + numbers(dec[name])
    return args


def run(ctx, args):
    """Pictures which a command saved and showed, and its output."""

    with figures.pictures() as pictures:
        ctx.called = True
        result = CliRunner().invoke(cli, args)
    ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
    return ([p for p in pictures if p.path is not None], [p for p in pictures if p.path is None], result.output)


def decorated(ctx, picture, dec, args):
    for name in ('title', 'xlabel', 'ylabel'):
        # Empty labels of samples are replaced
        if dec[name] is not None and not (dec[name] == '' and name == 'ylabel'):
            ctx.check(getattr(picture, name) == dec[name], "%s is %r and not %r: %r",
                      name, getattr(picture, name), dec[name], args)
    for name in ('xlim', 'ylim'):
        known = [v for v in dec[name] or [] if v is not None]
        if len(known) == 1 and abs(sum(getattr(picture, name)) - 2 * known[0]) < 1e-9 * (1. + abs(known[0])):
            # At the other end of what is drawn: there is no axis of no length
            continue
        for got, want in zip(getattr(picture, name), dec[name] or [None, None]):
            ctx.check(want is None or abs(got - want) < 1e-9 * (1. + abs(want)), "%s is %r and not %r: %r",
                      name, getattr(picture, name), dec[name], args)


def drawn(ctx, picture, want, **tol):
    """The lines of the figure are these, in any order."""

    got = list(picture.lines)
    ctx.check(len(got) == len(want), "%d lines are drawn and not %d", len(got), len(want))
    for n, (wx, wy) in enumerate(want):
        for k, (x, y, _) in enumerate(got):
            if len(x) == len(wx) and np.allclose(x, wx, **tol) and np.allclose(y, wy, **tol):
                del got[k]
                break
        else:
            ctx.check(False, "line %d at x=%r, y=%r is not drawn: %r", n, list(wx), list(wy), got)


# Lines --------------------------------------------------------------------------------------

@st.composite
def interface_specs(draw):
    spec = draw(n02.specs())
    spec['dec'] = draw(decorations())
    spec['extfig'] = draw(st.sampled_from([None, '.pdf', '.png']))
    return spec


def interfaces(spec, ctx):
    """A figure for each bundle with more than one point, named by its number."""

    indir, outdir = ctx.mkdir('in'), ctx.mkdir('fig')
    for k, face in enumerate(spec['faces']):
        path = os.path.join(indir, 'int_%05d%s' % (spec['first'] + k, spec['ext']))
        n02.write_interface(path, face, spec['dy'])
        if k == spec['bad']:
            with open(path, 'w') as fp:
                fp.write('# Interface\n1.0 2.0\n3.0\n')
    before = files.snapshot(indir)
    begin, group = spec['begin'], spec['group']
    end = len(spec['faces']) if spec['end'] is None else min(len(spec['faces']), begin + spec['end'])
    number = -(-(spec['first'] + begin) // group)
    want = []
    for n, i in enumerate(range(begin, end - group + 1, group)):
        if spec['bad'] is not None and i <= spec['bad'] < i + group:
            continue
        edges = [{f['j0'] + m: (f['l'][m] / 8., f['r'][m] / 8.) for m in range(len(f['l']))}
                 for f in spec['faces'][i:i + group]]
        common = sorted(set.intersection(*[set(e) for e in edges]))
        if not common:
            return
        ys = [spec['dy'] * j for j in common]
        want.append((number + n, [np.mean([e[j][0] for e in edges]) for j in common]
                     + [np.mean([e[j][1] for e in edges]) for j in common[::-1]], ys + ys[::-1]))
    dec = spec['dec']
    args = ['interface', 'view', os.path.join(indir, 'int_'), '-av', str(group), '--ext', spec['ext'],
            '-b', str(spec['first'] + begin)] + flags(dec)
    if spec['end'] is not None:
        args += ['-e', str(spec['first'] + begin + spec['end'] - 1)]
    base = os.path.join(outdir, 'fig_')
    if dec['save']:
        args += ['-o', base]
        if spec['extfig'] is not None:
            args += ['--extfig', spec['extfig']]
    saved, shown, _ = run(ctx, args)
    ctx.check(len(shown) == (len(want) if dec['show'] else 0), "%d figures shown for %d bundles: %r",
              len(shown), len(want), args)
    names = ['%s%05d%s' % (base, n, spec['extfig'] or '.png') for n, _, _ in want] if dec['save'] else []
    ctx.check([p.path for p in saved] == names, "figures saved as %r and not %r", [p.path for p in saved], names)
    for pics in (saved, shown):
        for picture, (n, xs, ys) in zip(pics, want):
            drawn(ctx, picture, [(xs, ys)], rtol=0, atol=1e-3)
            decorated(ctx, picture, dec, args)
            ctx.check(picture.aspect in (1, 1.0, 'equal'), "axes are not equal but %r", picture.aspect)
            ctx.nontrivial()
    ctx.check(files.snapshot(indir) == before, "the input files were changed")
    ctx.label('shown' if dec['show'] else 'not shown', 'saved' if dec['save'] else 'not saved', min(len(want), 3))


@st.composite
def sample_specs(draw):
    spec = draw(n04.specs())
    spec['dec'] = draw(decorations())
    spec['what'] = draw(st.sampled_from(['area', 'length', 'angle', 'angle']))
    return spec


def samples(spec, ctx):
    """Lines of samples of interfaces per time."""

    indir = ctx.mkdir('in')
    for k, face in enumerate(spec['faces']):
        n02.write_interface(os.path.join(indir, 'int_%05d%s' % (spec['first'] + k, spec['ext'])), face, spec['dy'])
    begin = spec['begin']
    end = len(spec['faces']) if spec['end'] is None else min(len(spec['faces']), begin + spec['end'])
    if begin >= end:
        return
    if spec['height'] is None:
        spec['fit'] = True
    faces = spec['faces'][begin:end]
    times = [k * spec['dt'] for k in range(len(faces))]
    dec = spec['dec']
    base, out = os.path.join(indir, 'int_'), ctx.path('figure.png')
    args = ['-dt', repr(spec['dt']), '--ext', spec['ext'], '-b', str(spec['first'] + begin)] + flags(dec)
    if spec['end'] is not None:
        args += ['-e', str(spec['first'] + begin + spec['end'] - 1)]
    if dec['save']:
        args += ['-o', out]
    labels = None
    if spec['what'] == 'angle':
        angles = [n04.angles(spec, ctx, f) for f in faces]
        want, labels = [], []
        args = ['interface', 'angle', base] + args
        if spec['fit']:
            want.append((times, [a[1] for a in angles]))
            labels.append('fit')
            args.append('--fit')
        if spec['height'] is not None:
            want.append((times, [np.mean(a[0]) for a in angles]))
            labels.append('measured')
            args += ['-h', repr(spec['height'] * spec['dy'])]
    else:
        func = n03.shoelace if spec['what'] == 'area' else n03.path_length
        want = [(times, [func(*n02.coords(f, spec['dy'])) for f in faces])]
        args = ['interface', 'sample', base, spec['what']] + args
    saved, shown, _ = run(ctx, args)
    # Angles of no interest are not drawn at all
    ctx.check(len(shown) == int(dec['show']), "%d figures are shown: %r", len(shown), args)
    ctx.check([p.path for p in saved] == [out] * dec['save'], "figures saved as %r: %r", [p.path for p in saved], args)
    for picture in saved + shown:
        drawn(ctx, picture, want, rtol=1e-3, atol=2e-2)
        decorated(ctx, picture, dec, args)
        if labels is not None:
            ctx.check(picture.legend is not None and sorted(picture.legend) == sorted(labels),
                      "the legend has %r and not %r", picture.legend, labels)
            for x, y, label in picture.lines:
                w = dict(zip(labels, want)).get(label)
                ctx.check(w is not None and np.allclose(y, w[1], rtol=1e-3, atol=2e-2), "the line %r has %r", label, y)
        ctx.nontrivial(len(times) > 1)
    ctx.label(spec['what'])


@st.composite
def spreading_specs(draw):
    fit = draw(st.booleans())
    spec = {'fit': fit, 'dec': draw(decorations()), 'loglog': draw(st.booleans()),
            'legend': draw(st.sampled_from([None, None, True, False]))}
    if fit:
        spec.update(draw(s04.file_specs()))
    else:
        spec.update(draw(s03.specs()))
        # Factors of the command are the same for all
        for k in ('tau', 'R'):
            if isinstance(spec[k], list):
                spec[k] = spec[k][0]
    return spec


def spreading(spec, ctx):
    """Lines of spreading series and of what was fitted to them."""

    series, dec = spec['series'], spec['dec']
    for name in ('xlim', 'ylim'):
        # There is no zero on logarithmic axes
        if spec['loglog'] and any(v is not None and v <= 0 for v in dec[name] or []):
            dec[name] = None
    for s in series:
        s['r'] = [round(r, 5) for r in s['r']]
    args = flags(dec)
    if spec['fit']:
        if any(min(s['r']) < 0.01 for s in series) or any(min(s['t']) <= 0 for s in series):
            return
        params = [s04.expected(s, spec['lims']) for s in series]
        if None in params:
            return
        want = []
        for s, (a, k) in zip(series, params):
            t = np.array(s['t'])
            out = t[s04.within(s, spec['out'])]
            want += [(t, s['r']), (out, a * out**k)]
        args = ['spreading', 'fit', '--lims'] + numbers(spec['lims']) + ['--out_lims'] + numbers(spec['out']) + args
        if spec['legend'] is not None:
            args.append('--legend' if spec['legend'] else '--nolegend')
    else:
        lines = s03.scaled(spec)
        if spec['sync'] is not None:
            lines = s03.synced(lines, spec['sync'])
            if lines is None:
                return
        want = [(np.array(s['t']), np.array(s['r'])) for s in lines]
        args = ['spreading', 'view', '-t', repr(spec['tau']), '-r', repr(spec['R'])] + args
        if spec['sync'] is not None:
            args += ['-rs', repr(spec['sync'])]
    if spec['loglog']:
        args.append('--loglog')
    indir, figure = ctx.mkdir('in'), ctx.path('figure.png')
    for i, s in enumerate(series):
        path = os.path.join(indir, 's%d.xvg' % i)
        with open(path, 'w') as fp:
            for t, r in zip(s['t'], s['r']):
                fp.write('%.5f %.5f\n' % (t, r))
        args.append(path)
    if dec['save']:
        args += ['-o', figure]
    saved, shown, _ = run(ctx, args)
    ctx.check(len(shown) == int(dec['show']), "%d figures are shown: %r", len(shown), args)
    ctx.check([p.path for p in saved] == [figure] * dec['save'], "figures saved as %r: %r", [p.path for p in saved], args)
    for picture in saved + shown:
        drawn(ctx, picture, want, rtol=2e-3, atol=1e-3)
        ctx.check(picture.scales == (('log', 'log') if spec['loglog'] else ('linear', 'linear')),
                  "axes are %r: %r", picture.scales, args)
        decorated(ctx, picture, dec, args)
        if spec['fit']:
            ctx.check((picture.legend is not None) == (spec['legend'] is not False), "legend %r: %r", picture.legend, args)
            if picture.legend is not None:
                ctx.check(len(picture.legend) == 2 * len(series), "legend %r for %d fits", picture.legend, len(series))
                found = [re.search(r'a=(\S+), k=(\S+)$', text) for text in picture.legend]
                found = [[float(v) for v in m.groups()] for m in found if m]
                same(ctx, sorted(found), sorted([float('%.3f' % v) for v in p] for p in params), 'parameters in the legend',
                     rtol=1e-3, atol=2e-3)
                for s in range(len(series)):
                    name = os.path.join(indir, 's%d.xvg' % s)
                    ctx.check(sum(name in text for text in picture.legend) == 1, "%r is not in the legend %r",
                              name, picture.legend)
        ctx.nontrivial(len(want[0][0]) > 1)
    ctx.label('fit' if spec['fit'] else 'view', 'log' if spec['loglog'] else 'linear')


# Maps ---------------------------------------------------------------------------------------

@st.composite
def map_specs(draw):
    spec = draw(avg.series(max_maps=2, first=1, min_nx=3, max_nx=6, min_ny=3, max_ny=6))
    kind = draw(st.sampled_from(['height', 'contour', 'flow', 'flow']))
    dec = draw(decorations())
    dec['ylim'] = dec['ylim'] if kind != 'flow' else None
    dec['xlim'] = dec['xlim'] if kind != 'flow' else None
    spec.update({
        'kind': kind, 'dec': dec, 'src': 'gmx',
        'bar': draw(st.sampled_from([None, True, True, False])),
        'barlabel': draw(st.sampled_from([None, 'Mass', 'rho (amu)'])),
        'ticks': draw(st.sampled_from([None, None, [1.5, 4.0], [0.25, 3.0, 5.5]])),
        'ticklabels': draw(st.booleans()),
        'map': draw(st.sampled_from([None, 'jet', 'plasma', 'viridis', 'Greys'])),
        'transparent': draw(st.sampled_from([None, True, False])),
        'noaxis': draw(st.sampled_from([None, True, False])),
        'dpi': draw(st.sampled_from([None, None, 100, 72, 300])),
        'dims': draw(st.sampled_from([None, None, [600., 400.], [300., 450.], [1000., 1000.]])),
        'filled': draw(st.booleans()), 'colours': draw(st.sampled_from([None, None, ['red'], ['red', 'blue', 'black']])),
        'levels': draw(st.sampled_from([None, [2.0, 4.0], [1.0, 3.0, 5.0, 7.0]])),
        'streamlines': draw(st.sampled_from([False, False, True])),
        'scale': draw(st.sampled_from([None, 2.0, 12.5])), 'width': draw(st.sampled_from([None, 0.002, 0.01])),
        'pivot': draw(st.sampled_from([None, 'tail', 'middle', 'tip'])),
    })
    return spec


def maps(spec, ctx):
    """Texts, axes, colours, colour bars and sizes of figures of maps."""

    kind, dec = spec['kind'], spec['dec']
    grids = [avg.grid_of(m) for m in avg.map_specs(spec)]
    if kind == 'contour':
        spec['dpi'] = None
        levels = spec['levels'] or [0.]
        # Some contours to show
        if any(g.fields['M'].min() >= levels[0] or g.fields['M'].max() <= levels[-1] or np.ptp(g.fields['M']) == 0
               for g in grids):
            return
    elif any(g.fields['M'].max() <= 0 for g in grids):
        return
    if kind == 'flow' and spec['streamlines']:
        if not all((np.hypot(g.fields['U'], g.fields['V']) > 0).all() for g in grids):
            return
    elif kind == 'flow' and not all((np.hypot(g.fields['U'], g.fields['V']) > 0).any() for g in grids):
        return
    indir = ctx.mkdir('in')
    avg.write_series(spec, indir)
    paths = [os.path.join(indir, name) for name in sorted(os.listdir(indir))]
    before = files.snapshot(indir)
    out = ctx.path('figure.png')
    args = ['view', kind] + paths + flags(dec)
    if dec['save']:
        args += ['-o', out]
    bar = {'height': True, 'contour': False, 'flow': False}[kind]
    if spec['bar'] is not None:
        bar = spec['bar']
        args.append('--colourbar' if bar else '--nocolourbar')
    if spec['barlabel'] is not None:
        args += ['--cbarlabel', spec['barlabel']]
    ticklabels = None
    if spec['ticks'] is not None:
        args += ['--cbarticks', ' '.join(repr(t) for t in spec['ticks'])]
        if spec['ticklabels']:
            ticklabels = ['low', 'mid', 'high'][:len(spec['ticks'])]
            args += ['--cbarticklabels', ' '.join(ticklabels)]
    if spec['map'] is not None:
        args += ['-cmap', spec['map']]
    if spec['transparent'] is not None:
        args.append('--transparent' if spec['transparent'] else '--notransparent')
    if spec['noaxis'] is not None:
        if kind == 'height':
            args.append('--nodrawaxes' if spec['noaxis'] else '--drawaxes')
        else:
            args += ['--noaxis', str(spec['noaxis'])]
    if spec['dpi'] is not None:
        args += ['--dpi', str(spec['dpi'])]
    if spec['dims'] is not None:
        args += ['--dims'] + [repr(v) for v in spec['dims']]
    colours = None
    if kind == 'contour':
        args += ['--filled'] if spec['filled'] else []
        if spec['colours'] is not None:
            colours = spec['colours']
            args += ['-c', ' '.join(colours)]
        if spec['levels'] is not None:
            args += ['-lv', ' '.join(repr(v) for v in spec['levels'])]
    if kind == 'flow':
        args += ['-cl', 'M']
        if spec['streamlines']:
            args.append('--streamlines')
        for name in ('scale', 'width', 'pivot'):
            if spec[name] is not None:
                args += ['--' + name, str(spec[name])]
    with figures.streams():
        saved, shown, output = run(ctx, args)
    ctx.check(len(shown) == len(paths) * dec['show'], "%d figures of %d maps are shown: %r %s",
              len(shown), len(paths), args, output)
    ctx.check([p.path for p in saved] == [out] * len(paths) * dec['save'], "figures are saved as %r: %r %s",
              [p.path for p in saved], args, output)
    dpi = spec['dpi'] or 150
    for picture in saved + shown:
        decorated(ctx, picture, dec, args)
        if picture.path is not None:
            ctx.check(picture.options.get('dpi') == dpi, "figures are saved with %r: %r", picture.options, args)
            ctx.check(bool(picture.options.get('transparent')) == bool(spec['transparent']), "figures are saved with %r: %r",
                      picture.options, args)
            if spec['dims'] is not None:
                same(ctx, np.array(picture.size) * dpi, spec['dims'], 'size in pixels', atol=1.)
        ctx.check(picture.axis == (not spec['noaxis']), "axes are %r: %r", picture.axis, args)
        ctx.check(picture.aspect in (1, 1.0, 'equal'), "axes are not equal but %r", picture.aspect)
        ctx.check((picture.bar is not None) == bar, "the colour bar is %r: %r", picture.bar, args)
        if bar:
            if spec['barlabel'] is not None:
                ctx.check(picture.bar['label'] == spec['barlabel'], "the colour bar has %r: %r", picture.bar, args)
            if spec['ticks'] is not None:
                same(ctx, picture.bar['ticks'], spec['ticks'], 'ticks of the colour bar')
                if ticklabels is not None:
                    ctx.check(picture.bar['ticklabels'] == ticklabels, "the colour bar has %r: %r", picture.bar, args)
        if colours is None:
            ctx.check(picture.colormaps and picture.colormaps[0] == (spec['map'] or 'viridis'),
                      "the colour maps are %r and not %r", picture.colormaps, spec['map'])
        if kind == 'contour':
            cs = picture.contours[0]
            if colours is not None:
                got = cs.get_facecolor() if spec['filled'] else cs.get_edgecolor()
                num = len(cs.levels) - int(spec['filled'])
                want = set(to_rgba(c) for c in colours[:num])
                ctx.check(set(tuple(float(v) for v in c) for c in got) == want, "contours have the colours %r and not %r",
                          got, want)
        if kind == 'flow' and not spec['streamlines']:
            q = picture.quivers[0]
            ctx.check(abs(q.scale - (spec['scale'] or 1.)) < 1e-9 and abs(q.width - (spec['width'] or 0.0015)) < 1e-9,
                      "arrows have the scale %r and width %r: %r", q.scale, q.width, args)
            pivot = {'middle': 'mid'}.get(spec['pivot'] or 'middle', spec['pivot'])
            ctx.check(str(q.pivot).replace('middle', 'mid') == pivot, "arrows are at %r: %r", q.pivot, args)
        ctx.nontrivial()
    ctx.check(files.snapshot(indir) == before, "the input files were changed")
    ctx.label(kind, 'shown' if dec['show'] else 'not shown', 'saved' if dec['save'] else 'not saved')


SUBS = [
    Sub('interfaces', interface_specs(), interfaces, quick=60),
    Sub('samples', sample_specs(), samples, quick=60),
    Sub('spreading', spreading_specs(), spreading, quick=80),
    Sub('maps', map_specs(), maps, quick=80),
]
