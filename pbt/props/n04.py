"""N04: contact angles of interfaces are measured on the right side and at the right height."""

import os

import numpy as np
from click.testing import CliRunner
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub
from pbt.figures import recorded
from pbt.oracle import same
from pbt.props.n02 import coords, interfaces, write_interface

from strata.interface.angle import interface_contact_angle
from strata.strata import strata as cli

ID = 'N04'
RULE = (
    "series of 1 to 5 interfaces of 2 to 7 layers with any edges, and of circular segments of known angle, measured "
    "at any height and by a circular segment through the function or the command line, also mirrored. Non-trivial: a "
    "measured angle that is not 90 degrees, or a fitted segment"
)


@st.composite
def specs(draw):
    num = draw(st.integers(1, 5))
    faces = [draw(interfaces(min_layers=2)) for _ in range(num)]
    # In layers above of the base, never half-way between two
    height = draw(st.one_of(st.none(), st.integers(3, 40).filter(lambda k: k % 4 != 2).map(lambda k: k / 4.)))
    fit = height is None or draw(st.booleans())
    if fit:
        # Segments stand on the substrate
        for f in faces:
            f['j0'] = 0
    return {
        'faces': faces, 'dy': draw(st.sampled_from([1.0, 0.5, 0.25, 0.2])), 'height': height, 'fit': fit,
        'dt': draw(st.sampled_from(gen.TIME_STEPS)), 'first': draw(st.sampled_from([1, 1, 4, 0])),
        'begin': draw(st.sampled_from([0, 0, 1])), 'end': draw(st.sampled_from([None, None, 2])),
        'cli': draw(st.booleans()), 'ext': draw(st.sampled_from(['.xvg', '.dat'])), 'save': draw(st.sampled_from([True, True, False])),
    }


def angles(spec, ctx, face):
    """Left, right and fitted angle."""

    dy, n = spec['dy'], len(face['l'])
    out = []
    if spec['height'] is not None:
        h = min(int(np.floor(spec['height'] + 0.5)), n - 1)
        for dx in ((face['l'][h] - face['l'][0]) / 8., (face['r'][0] - face['r'][h]) / 8.):
            out.append(np.degrees(np.arctan2(h * dy, dx)))
            ctx.nontrivial(dx != 0.)
    chord = (face['r'][0] - face['l'][0]) / 8.
    fitted = 2 * np.degrees(np.arctan2((n - 1) * dy, 0.5 * chord))
    return out, fitted


@recorded
def measure(spec, ctx):
    indir = ctx.mkdir('in')
    for k, face in enumerate(spec['faces']):
        write_interface(os.path.join(indir, 'int_%05d%s' % (spec['first'] + k, spec['ext'])), face, spec['dy'])
    begin = spec['begin']
    end = len(spec['faces']) if spec['end'] is None else min(len(spec['faces']), begin + spec['end'])
    rows = []
    for k in range(begin, end):
        sides, fitted = angles(spec, ctx, spec['faces'][k])
        row = [(k - begin) * spec['dt']]
        if sides:
            row += [np.mean(sides)] + sides
        if spec['fit']:
            row.append(fitted)
            ctx.nontrivial()
        rows.append(row)
    want = np.array(rows).reshape(len(rows), 1 + 3 * (spec['height'] is not None) + spec['fit'])
    base, out = os.path.join(indir, 'int_'), ctx.path('new', 'angles.xvg')
    height = None if spec['height'] is None else spec['height'] * spec['dy']
    opts = {'begin': spec['first'] + begin}
    if spec['end'] is not None:
        opts['end'] = spec['first'] + begin + spec['end'] - 1
    if spec['cli'] and spec['height'] is not None or spec['cli'] and spec['fit']:
        args = ['interface', 'angle', base, '--noshow', '-x', out, '-dt', repr(spec['dt']), '--ext', spec['ext'],
                '-b', str(opts['begin'])]
        if 'end' in opts:
            args += ['-e', str(opts['end'])]
        if height is not None:
            args += ['-h', repr(height)]
        if spec['fit']:
            args.append('--fit')
        ctx.called = True
        result = CliRunner().invoke(cli, args)
        ctx.check(result.exit_code == 0, "%r ended with %r", args, result.exception)
        ctx.label('command line')
        saved = True
    else:
        saved = spec['save']
        if saved:
            opts['save_xvg'] = out
        times, got = ctx.sut(interface_contact_angle, base, fit=spec['fit'], height=height, delta_t=spec['dt'],
                             ext=spec['ext'], show=False, quiet=True, **opts)
        same(ctx, times, want[:, 0], 'times', atol=1e-6)
        if height is not None:
            for l, c in (('measured', 1), ('left', 2), ('right', 3)):
                same(ctx, got[l], want[:, c], l, atol=1e-6)
        else:
            ctx.check(not len(got['measured']), "measured angles %r", got['measured'])
        if spec['fit']:
            same(ctx, got['fit'], want[:, -1], 'fit', atol=1e-6)
        else:
            ctx.check(not len(got['fit']), "fitted angles %r", got['fit'])
    if saved and len(rows):
        with open(out) as fp:
            lines = [[float(v) for v in l.split()] for l in fp if l.strip() and l[0] != '#']
        same(ctx, np.array(lines).reshape(len(lines), -1), want, 'written rows', atol=6e-4)
    else:
        ctx.check(saved or not os.path.exists(out), "output was not asked for")
    ctx.label('height' if height is not None else 'no height', 'fit' if spec['fit'] else 'no fit')


@st.composite
def segment_specs(draw):
    return {'angle': draw(st.integers(10, 170)), 'radius': draw(st.integers(4, 40)) / 4., 'x0': draw(st.integers(-40, 40)) / 4.,
            'n': draw(st.integers(10, 40))}


@recorded
def segment(spec, ctx):
    """The fit of a circular segment gives its contact angle."""

    theta, r = np.radians(spec['angle']), spec['radius']
    center = -r * np.cos(theta)
    ys = (center + r) * np.arange(spec['n'] + 1) / spec['n']
    dx = np.sqrt(np.maximum(r * r - (ys - center)**2, 0.))
    path = os.path.join(ctx.mkdir('in'), 'int_00001.xvg')
    with open(path, 'w') as fp:
        for x, y in zip(np.append(spec['x0'] - dx, spec['x0'] + dx[::-1]), np.append(ys, ys[::-1])):
            fp.write('%.6f %.6f\n' % (x, y))
    _, got = ctx.sut(interface_contact_angle, ctx.path('in', 'int_'), fit=True, show=False, quiet=True)
    same(ctx, got['fit'], [spec['angle']], 'angle', atol=0.05)
    ctx.nontrivial()


SUBS = [
    Sub('measure', specs(), measure, quick=350),
    Sub('segment', segment_specs(), segment, quick=100),
]
