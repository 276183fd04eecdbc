"""S01: edges that move around a periodic system are followed to their absolute positions."""

import numpy as np
from hypothesis import strategies as st

from pbt import drops, gen
from pbt.core import Sub
from pbt.oracle import same

from strata.spreading.collect import (
    add_pbc_multipliers_to_edges, check_and_update_periodic_info, init_periodic_info,
)

ID = 'S01'
RULE = (
    "histories of 1 to 40 positions of a left and a right edge, on grids of 4 to 20 columns of any width, which move "
    "by less than half the box between frames with at most one edge crossing the boundary, also when both are in the same column. Non-trivial: at least two "
    "crossings of the boundary"
)


@st.composite
def specs(draw):
    n = draw(st.integers(4, 20))
    left = draw(st.integers(0, n - 1))
    edges = [(left, left + draw(st.integers(0, n - 2)))]
    drift = draw(st.sampled_from([-2, -1, -1, 0, 1, 1, 2, 3]))
    for _ in range(draw(st.integers(0, 39))):
        old = edges[-1]
        dl, dr = draw(st.integers(-3, 3)), draw(st.integers(-3, 3))
        new = (old[0] + drift + dl, old[1] + drift + dr)
        for option in (new, (new[0], old[1]), (old[0], new[1]), (old[0] + drift, old[1] + drift), old):
            if drops.valid(old, option, n, smallest=0):
                break
        edges.append(option)
    return {'n': n, 'dx': draw(st.sampled_from(gen.SPACINGS + [0.7, 0.35, 0.15])), 'edges': edges,
            'off': draw(st.sampled_from([0.0, 0.0, 0.5]))}


def track(spec, ctx):
    n, dx = spec['n'], spec['dx']
    box = n * dx
    info = ctx.sut(init_periodic_info)
    crossings = 0
    for k, (left, right) in enumerate(spec['edges']):
        xl, xr = ((v % n + spec['off']) * dx for v in (left, right))
        info = ctx.sut(check_and_update_periodic_info, info, box, xl, xr)
        got = ctx.sut(add_pbc_multipliers_to_edges, info, box, xl, xr)
        same(ctx, [float(v) for v in got], [(left + spec['off']) * dx, (right + spec['off']) * dx],
             'edges of frame %d' % k, atol=1e-6)
        if k:
            old = spec['edges'][k - 1]
            crossings += (old[0] // n != left // n) + (old[1] // n != right // n)
    ctx.nontrivial(crossings > 1)
    ctx.label('%d crossings' % min(crossings, 4))


SUBS = [Sub('track', specs(), track, quick=1500)]
