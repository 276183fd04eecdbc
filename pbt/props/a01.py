"""A01: averaged maps are the weighted means of their bundle, under the right number."""

import numpy as np
from hypothesis import strategies as st

from pbt import avg, gen
from pbt.core import Sub
from pbt.oracle import mean_map, same

from strata.dataformats.gmx_flow_version_1.main import average_data as gmx_average
from strata.dataformats.simple.main import average_data as simple_average

ID = 'A01'
RULE = (
    "series of 1 to 6 maps on a common grid of 1x1 to 6x6 bins with any share of empty bins and scale, in each format, "
    "averaged in bundles of any length and number, rolling or not, through the function or the command line. "
    "Non-trivial: some bundle is written and has mass"
)


@st.composite
def specs(draw):
    spec = draw(avg.series(units=True, max_nx=6, max_ny=6))
    spec['src'] = draw(st.sampled_from(['gmx', 'gmx', 'simple', 'simple_plain']))
    return spec


def command(spec, ctx):
    ctx.label(spec['src'], 'rolling' if spec['rolling'] else 'fixed')
    avg.run(spec, ctx, {}, avg.mean)


@st.composite
def direct_specs(draw):
    nx, ny = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    num = draw(st.integers(0, 5))
    g = {'nx': nx, 'ny': ny, 'dx': draw(st.sampled_from(gen.SPACINGS)), 'dy': 0.5,
         'x0': draw(st.integers(-40, 40)) / 4, 'y0': 0.0}
    g['maps'] = [draw(gen.field_bytes(nx * ny)) for _ in range(num)]
    g['order'] = draw(st.permutations(list(range(num))))
    g['module'] = draw(st.sampled_from(['gmx', 'simple']))
    g['jitter'] = draw(st.booleans())
    g['off'] = draw(st.sampled_from([None, None, 'X', 'Y']))
    return g


def direct(spec, ctx):
    """The mean of maps does not depend on their order, and maps of other grids are refused."""

    func = gmx_average if spec['module'] == 'gmx' else simple_average
    maps = []
    for m in avg.map_specs(spec):
        data, _ = gen.build(m, physical=False)
        maps.append(data)
    if not maps:
        result = ctx.sut(func)
        ctx.check(len(result) == 0, "no maps gave %r", result)
        return
    if spec['jitter']:
        # Coordinates of files have rounding errors
        for i, d in enumerate(maps):
            d['X'] = d['X'] + 1e-5 * i
    originals = [gen.copy_data(d) for d in maps]
    ctx.nontrivial(len(maps) > 1)

    if spec['off'] and len(maps) > 1:
        ctx.label('other grid')
        maps[-1][spec['off']] = maps[-1][spec['off']] + 0.5
        bad = ctx.raises(func, *maps)
        ctx.check(bad[0] and isinstance(bad[1], ValueError), "maps of other coordinates gave %r", bad[1])
        return

    want = mean_map(maps)
    for order in (list(range(len(maps))), spec['order']):
        got = ctx.sut(func, *[maps[i] for i in order])
        for l in want:
            same(ctx, got[l], want[l], l, rtol=1e-9, atol=1e-9)
        same(ctx, got['X'], maps[0]['X'], 'X', atol=1e-4)
        same(ctx, got['Y'], maps[0]['Y'], 'Y', atol=1e-4)
    for d, o in zip(maps, originals):
        for l in o:
            same(ctx, d[l], o[l], 'input %s' % l, rtol=0, atol=0)


SUBS = [
    Sub('command', specs(), command, quick=350),
    Sub('direct', direct_specs(), direct, quick=300),
]
