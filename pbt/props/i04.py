"""I04: contact line cells are those in the box at the edge and those out to the interface."""

import numpy as np
from hypothesis import strategies as st

from pbt import edges, gen
from pbt.core import Sub
from pbt.oracle import same
from pbt.props.i01 import SCALES, make, search_args, setting
from pbt.props.i03 import droplet

from droplets.contact_line import adjust_cell_coordinates, get_contact_line_cells

ID = 'I04'
RULE = (
    "droplets of any outline on 1x1 to 12x8 bins in any order, with any extraction area and height and any settings "
    "of the interface search, and the cells of them moved to the origin. Non-trivial: both edges have cells of more "
    "than one bin, and these are not the whole system"
)


@st.composite
def specs(draw):
    g = draw(gen.grids(max_nx=12, max_ny=8, spacings=gen.DYADIC, origins=st.integers(-40, 40).map(lambda k: k / 8.)))
    g['M'] = draw(droplet(g['nx'], g['ny']))
    g['perm'] = draw(st.integers(0, 10**6))
    g['cutoff'] = draw(st.sampled_from([None, 8.0, 8.0, 8.0, 2.0]))
    g['radius'] = draw(st.sampled_from([None, 1.1, 1.5, 2.1]))
    g['bins'] = draw(st.sampled_from([None, 0, 1, 1, 2]))
    g['ylims'] = draw(st.sampled_from([None, None, None, [1, None], [None, 3]]))
    g['exact'] = draw(st.booleans())
    g['scale'] = draw(SCALES)
    g['labels'] = draw(st.sampled_from([['X', 'Y'], ['X', 'Y'], ['Z', 'X']]))
    # In quarters of bins
    g['area'] = draw(st.one_of(st.none(), st.tuples(st.integers(0, 32), st.integers(0, 24))))
    g['height'] = draw(st.one_of(st.none(), st.integers(0, 16)))
    g['direction'] = draw(st.sampled_from(['left', 'right']))
    return g


def extract(spec, ctx):
    nx, ny, dx, dy = (spec[k] for k in ('nx', 'ny', 'dx', 'dy'))
    values, keep = setting(spec)
    kw, cutoff, radius, bins, layers = search_args(spec, values, keep)
    if radius is None:
        return
    flow, place = make(spec, ctx, values, keep)
    before = flow.data.copy()
    width = height = extract_height = 0.
    if spec['area'] is not None:
        width, height = spec['area'][0] * dx / 4., spec['area'][1] * dy / 4.
        kw['extract_area'] = (width, height)
    if spec['height'] is not None:
        kw['extract_height'] = extract_height = spec['height'] * dy / 4.
    got = ctx.sut(get_contact_line_cells, flow, 'M', **kw)
    for l in before.dtype.names:
        same(ctx, flow.data[l], before[l], 'input %s' % l, rtol=0, atol=0)
    ctx.check(len(got) == 2, "%d results and not 2", len(got))

    found = []
    if spec['cutoff'] is not None or values.min() != values.max():
        liquid = edges.filled(values, dx, dy, radius, cutoff, bins)
        found = [(int(j), edges.outermost(liquid[:, j])) for j in layers]
        found = [(j, e) for j, e in found if e]
    if found:
        j0 = found[0][0]
        found = [(j, e) for j, e in found if (j - j0) * dy <= height]
    xs, ys = gen.mesh(spec)
    i_of, j_of = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    sizes = []
    xl, yl = spec['labels']
    for side, cells, name in ((0, got[0], 'left'), (1, got[1], 'right')):
        inside = np.zeros((nx, ny), dtype=bool)
        if found:
            at = [k for k, (j, _) in enumerate(found) if (j - j0) * dy <= extract_height][-1]
            columns = [e[side] * dx for _, e in found]
            inner = columns[at] + (width if side == 0 else -width)
            lo, hi = min(columns + [inner]), max(columns + [inner])
            inside = (i_of * dx >= lo) & (i_of * dx <= hi) & (j_of >= j0) & (j_of <= found[-1][0])
        want = np.flatnonzero(inside.ravel())
        cells_i = np.round((cells[xl] - xs[0]) / dx).astype(int)
        cells_j = np.round((cells[yl] - ys[0]) / dy).astype(int)
        flat = np.sort(cells_i * ny + cells_j)
        ctx.check(flat.tolist() == want.tolist(), "%s cells %r and not %r", name, flat.tolist(), want.tolist())
        order = np.lexsort((cells[yl], cells[xl]))
        same(ctx, cells[xl][order], xs[want], 'x of %s cells' % name)
        same(ctx, cells[yl][order], ys[want], 'y of %s cells' % name)
        same(ctx, cells['M'][order], values.ravel()[want], 'M of %s cells' % name)
        same(ctx, cells['N'][order], 16 - values.ravel()[want], 'N of %s cells' % name)
        sizes.append(want.size)

        # The cells move to the origin
        copy = cells.copy()
        labels = {} if spec['labels'] == ['X', 'Y'] else {'coord_labels': (xl, yl)}
        adj, moved = ctx.sut(adjust_cell_coordinates, cells, spec['direction'], **labels)
        ctx.check(np.array_equal(copy, cells), "the cells to adjust were changed")
        if want.size:
            x0 = (np.min if spec['direction'] == 'right' else np.max)(cells[xl])
            y0 = np.min(cells[yl])
        else:
            x0 = y0 = 0
        same(ctx, [float(a) for a in adj], [x0, y0], 'adjustment')
        same(ctx, moved[xl], cells[xl] - x0, 'adjusted x')
        same(ctx, moved[yl], cells[yl] - y0, 'adjusted y')
        for l in ('M', 'N'):
            same(ctx, moved[l], cells[l], 'adjusted %s' % l, rtol=0, atol=0)
        # What is extracted is a copy
        if want.size:
            cells['M'] = -1.
            ctx.check(np.array_equal(flow.data, before), "the cells are no copy of the system")
    if not found:
        ctx.label('no contact line')
    ctx.nontrivial(min(sizes) > 1 and max(sizes) < nx * ny)


SUBS = [Sub('cells', specs(), extract, quick=1500)]
